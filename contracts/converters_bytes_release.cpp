// Contracts of the byte array converters in a build without exceptions (C07): errors are reported through error() alone.
// VC-FLAGS: -DECL_NDEBUG
// VC-ASSUME: the memory a std::vector asks for is available
#define P(n) C07_release_##n
#include "converters_reject.inc"
