#ifndef VC_STUB_TIME_LITE_CPU
#define VC_STUB_TIME_LITE_CPU
#include "types.hpp"
namespace ecl { TimeError cpu_time(TimeStructure &time); }
#endif
