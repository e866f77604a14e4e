#ifndef VC_STUB_ECL_CONFIG_MACROS
#define VC_STUB_ECL_CONFIG_MACROS
#include "ecl.hpp"
#define ECL_HELPER_IMPORT
#define ECL_HELPER_EXPORT
#define ECL_HELPERS_LOCAL
#define ECL_HELPER_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_UNUSED __attribute__((unused))
#define ECL_DONT_INLINE __attribute__((noinline))
#if __cplusplus >= 201103L
#define ECL_CXX11_FOUND
#endif
#endif
