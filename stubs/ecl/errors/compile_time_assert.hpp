#ifndef VC_STUB_ECL_CTA
#define VC_STUB_ECL_CTA
#define ecl_compile_time_assert(condition) typedef char VC_cta[(condition) ? 1 : -1] __attribute__((unused))
#endif
