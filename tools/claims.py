CLAIMED = {k: dict() for k in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()}
NA = {"C26": "The atomic operations exist only when nvcc compiles the headers (__CUDACC__); no CUDA toolchain is installed, so the code cannot be extracted, and no contract verifier here accepts CUDA."}
CLAIMED["C12"] = dict(note="isalnum/iswalnum are assumed to classify as in the C locale; string literals are verified at array length 300 (the constructor takes the length as a template parameter and forwards to the pointer form), pointers, string views and strings for every length.")
CLAIMED["C13"] = dict(note="snprintf/swprintf are assumed to print %x/%X/%08x/%08X as the C standard says within the given size.")
CLAIMED["C24"] = dict(note="All block, byte and bit accessors and the operations built on them are verified again with AESI_UNSAFE defined.")
CLAIMED["C25"] = dict(note="mpz_export, mpz_sizeinbase and operator new/delete are assumed to follow their documentation.")
CLAIMED["C14"] = dict(note="The C++ library's text streams are replaced by the contract in vt/stub/iostream (characters in order, unsigned numbers as printf's %x/%X/%08x/%08X prints them); anything outside that protocol fails verification. The precision-dependent buffer size is checked for every precision by the form g*(p*N div q) that fits the 20 extracted precisions.")
CLAIMED["C15"] = dict(note="std::istream::read and std::ostream::write are replaced by the contract in vt/stub/iostream (bytes in order, stop at the end of the stream).")
CLAIMED["C23"] = dict(note="Only the obligations of memory safety, shift amounts, signed overflow, division by zero, unreachable code and termination count; callees are replaced by their functional contracts, which the checks C01-C22 and C25 discharge. Text, stream, GMP and AESI_UNSAFE operations have the same obligations in their own checks (C12-C15, C24, C25).")
