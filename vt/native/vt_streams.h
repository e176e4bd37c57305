// the same stream objects over the C++ library's own streams, for executions
#pragma once
#include <iostream>
#include <streambuf>
#include <string>
#include <cstring>
template <typename C> struct vt_buf : std::basic_streambuf<C> {
    vt_buf(C* p, std::size_t n) { this->setp(p, p + n); this->setg(p, p, p + n); }
    std::size_t count() { return this->pptr() - this->pbase(); }
};
template <typename C> struct vt_out : private vt_buf<C>, public std::basic_ostream<C> {
    vt_out(C* p, std::size_t n, std::ios_base::fmtflags f) : vt_buf<C>(p, n), std::basic_ostream<C>(static_cast<vt_buf<C>*>(this)) { this->flags(f); }
    std::size_t vt_count() { return vt_buf<C>::count(); }
};
struct vt_wout : private vt_buf<char>, public std::ostream {
    vt_wout(unsigned* p, std::size_t n) : vt_buf<char>(reinterpret_cast<char*>(p), 4 * n), std::ostream(static_cast<vt_buf<char>*>(this)) {}
    std::size_t vt_count() { return vt_buf<char>::count() / 4; }
};
struct vt_bytes { std::string s; vt_bytes(const unsigned* p, std::size_t n, unsigned rest, unsigned tail) : s(reinterpret_cast<const char*>(p), 4 * n) { s.append(reinterpret_cast<const char*>(&tail), rest); } };
struct vt_win : private vt_bytes, private vt_buf<char>, public std::istream {
    vt_win(const unsigned* p, std::size_t n, unsigned rest, unsigned tail) : vt_bytes(p, n, rest, tail), vt_buf<char>(s.data(), s.size()), std::istream(static_cast<vt_buf<char>*>(this)) {}
};
