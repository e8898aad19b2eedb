// The library's out-of-line code, so that calls into it are verified against its body (crash.cc excepted: crash() is a trusted [[noreturn]] contract).
#include "best/memory/allocator.cc"
#include "best/iter/bounds.cc"
