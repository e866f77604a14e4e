// Stand-in for the missing package ecl_time_lite.
#ifndef VC_STUB_TIME_LITE_TYPES
#define VC_STUB_TIME_LITE_TYPES
#include <time.h>
#include <sys/time.h>
#include <ecl/config/ecl.hpp>
#include <ecl/errors/handlers.hpp>
namespace ecl {
typedef struct timespec TimeStructure;
class TimeError : public Error { public: TimeError(const ErrorFlag &flag = UnknownError) : Error(flag) {} };
}
#endif
