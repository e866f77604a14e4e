#ifndef VC_STUB_TIME_LITE_FUNCTIONS
#define VC_STUB_TIME_LITE_FUNCTIONS
#include "types.hpp"
namespace ecl {
TimeError epoch_time(TimeStructure &time);
TimeError realtime_epoch_time(TimeStructure &time);
TimeError sleep(const unsigned long &seconds);
TimeError sleep(const TimeStructure &required);
TimeError sleep_until(const TimeStructure &required);
}
#endif
