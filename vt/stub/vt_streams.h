#pragma once
#include <iostream>
template <typename C> struct vt_out : std::basic_ostream<C> {
    VT_INLINE vt_out(C* p, std::size_t n, unsigned f) { this->vt_p = p; this->vt_room = n; this->vt_i = 0; this->vt_init(f); this->vt_fill = C(' '); }
    VT_INLINE std::size_t vt_count() { return this->vt_i; }
};
struct vt_wout : std::basic_ostream<char> {
    VT_INLINE vt_wout(unsigned* p, std::size_t n) { vt_w = p; vt_room = n; vt_i = 0; vt_init(0); vt_fill = ' '; }
    VT_INLINE std::size_t vt_count() { return vt_i; }
};
struct vt_win : std::basic_istream<char> {
    VT_INLINE vt_win(const unsigned* p, std::size_t n, unsigned rest, unsigned tail) { vt_w = p; vt_room = n; vt_i = 0; vt_rest = rest; vt_tail = tail; vt_init(0); vt_fill = ' '; vt_got = 0; }
};
