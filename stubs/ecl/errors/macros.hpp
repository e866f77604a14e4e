#ifndef VC_STUB_ECL_ERRORS_MACROS
#define VC_STUB_ECL_ERRORS_MACROS
#define VC_LOC_STR2(x) #x
#define VC_LOC_STR(x) VC_LOC_STR2(x)
#ifndef LOC
#define LOC __FILE__ ":" VC_LOC_STR(__LINE__)
#endif
#endif
