// Contracts of arrays and stencils without memory checks (C05).
// VC-STD: c++14
#define P(n) C05_##n
#include "containers_arrays.inc"
