// Stand-in for the missing package ecl_config: platform description of this sandbox (64 bit Linux, little endian, gcc/clang).
#ifndef VC_STUB_ECL_CONFIG
#define VC_STUB_ECL_CONFIG
#define ECL_IS_POSIX
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_CHAR_IS_SIGNED 1
#define ECL_HAS_TIMESTAMP
#define ECL_HAS_RT_TIMERS
#define ECL_HAS_CLOCK_NANOSLEEP
#define ECL_HAS_CLOCK_GETTIME
#define ECL_HAS_POSIX_TIMERS
#define ECL_HAS_CPUTIME
#define ECL_HAS_POSIX_THREADS
#define ECL_HAS_SEMAPHORES
#define ECL_HAS_POSIX_SEMAPHORES
#define ECL_HAS_SHARED_MEMORY
#define ECL_HAS_POSIX_SHARED_MEMORY
#include <unistd.h>
#include <cstring>
#include "macros.hpp"
#endif
