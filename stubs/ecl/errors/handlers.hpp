// Stand-in for the missing package ecl_errors.
#ifndef VC_STUB_ECL_ERRORS
#define VC_STUB_ECL_ERRORS
#include "macros.hpp"
namespace ecl {
enum ErrorFlag { NoError, UnknownError, OutOfRangeError, ConstructorError, DestructorError, ConversionError, ConfigurationError, SystemFailureError, NotSupportedError,
  ArgNotSupportedError, InvalidInputError, InvalidArgError, InvalidObjectError, PermissionsError, TimeOutError, OutOfResourcesError, UsageError, MemoryError, RaiiError, PosixError,
  InterruptedError, BusyError, BlockingError, OpenError, CloseError, ReadError, WriteError, NotFoundError, IsLockedError, ConnectionError, ConnectionRefusedError,
  ConnectionHungUpError, NotInitialisedError };
class Error {
public:
  Error(const ErrorFlag &flag = UnknownError) : error_flag(flag) {}
  virtual ~Error() {}
  const ErrorFlag &flag() const { return error_flag; }
  virtual const char *what() const { return error_flag == NoError ? "No error" : "Error"; }
protected:
  ErrorFlag error_flag;
};
}
#endif
