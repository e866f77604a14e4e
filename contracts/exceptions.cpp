// Contracts of the error and exception handlers and of the exceptions themselves (C31).
// VC-ASSUME: ErrorFlag and Error come from a stand-in for the package ecl_errors (not part of this repository)
// VC-ASSUME: text put into an ostringstream (details of an unlisted error number, the report of a DataException) is a stand-in; strerror returns a fixed text
// VC-ASSUME: the location and file name given to the system error handlers are sample texts (the handlers do not look at them)
#include <string>
#include <sstream>
#include <cstring>
#include <errno.h>
#include <netdb.h>
namespace std {
struct vc_ostringstream { template <typename T> vc_ostringstream &operator<<(const T &) { return *this; } std::string str() const { return std::string("?"); } };
}
static int vc_h_errno_value;
static char *vc_strerror(int) { static char t[] = "reason"; return t; }
#define ostringstream vc_ostringstream
#define strerror vc_strerror
#undef h_errno
#define h_errno vc_h_errno_value
#ifndef ECL_IS_POSIX
#define ECL_IS_POSIX
#endif
#include <ecl_exceptions/include/ecl/exceptions/standard_exception.hpp>
#include <ecl_exceptions/include/ecl/exceptions/data_exception.hpp>
#include <ecl_exceptions/include/ecl/exceptions/posix_error_handler.hpp>
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include <ecl_devices/src/lib/detail/error_handler.cpp>
#include <ecl_devices/src/lib/detail/exception_handler_pos.cpp>
#include <ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp>
#include <ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp>
#include "vc.h"
using namespace ecl;

// the documented categories of the system errors, one table for each system call
typedef struct { int number; ErrorFlag flag; } Entry;
static ErrorFlag lookup(const Entry *t, int e) { ErrorFlag f = UnknownError; for (; t->number; t++) if (t->number == e) f = t->flag; return f; }
static const Entry t_open[] = { {ENOENT, NotFoundError}, {EINVAL, InvalidArgError}, {EACCES, PermissionsError}, {EFBIG, OutOfResourcesError}, {EOVERFLOW, OutOfResourcesError},
  {EINTR, InterruptedError}, {EISDIR, InvalidObjectError}, {ELOOP, SystemFailureError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError},
  {ENOMEM, MemoryError}, {ENOSPC, OutOfResourcesError}, {ENOTDIR, InvalidObjectError}, {EROFS, PermissionsError}, {ETXTBSY, UsageError}, {0, NoError} };
static const Entry t_write[] = { {EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {EINVAL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EFBIG, MemoryError}, {EINTR, InterruptedError},
  {EIO, SystemFailureError}, {ENOSPC, OutOfResourcesError}, {EPIPE, PermissionsError}, {0, NoError} };
static const Entry t_read[] = { {EAGAIN, BlockingError}, {EBADF, PermissionsError}, {EINVAL, PermissionsError}, {EFAULT, OutOfRangeError}, {EINTR, InterruptedError}, {EIO, SystemFailureError},
  {EISDIR, InvalidObjectError}, {0, NoError} };
static const Entry t_sync[] = { {EBADF, InvalidArgError}, {EIO, CloseError}, {EROFS, NotSupportedError}, {EINVAL, NotSupportedError}, {0, NoError} };
static const Entry t_close[] = { {EBADF, InvalidArgError}, {EIO, SystemFailureError}, {EINTR, InterruptedError}, {0, NoError} };
static const Entry t_socket[] = { {EACCES, OpenError}, {EAFNOSUPPORT, NotSupportedError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfRangeError}, {ENFILE, OutOfResourcesError},
  {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTONOSUPPORT, NotSupportedError}, {0, NoError} };
static const Entry t_bind[] = { {EACCES, PermissionsError}, {EADDRINUSE, BusyError}, {EBADF, InvalidObjectError}, {EINVAL, BusyError}, {ENOTSOCK, InvalidObjectError}, {EADDRNOTAVAIL, InvalidObjectError},
  {EFAULT, OutOfRangeError}, {ELOOP, SystemFailureError}, {ENAMETOOLONG, InvalidArgError}, {ENOENT, InvalidObjectError}, {ENOMEM, MemoryError}, {ENOTDIR, InvalidArgError}, {EROFS, PermissionsError}, {0, NoError} };
static const Entry t_accept[] = { {EWOULDBLOCK, BlockingError}, {EBADF, InvalidObjectError}, {ECONNABORTED, InterruptedError}, {EINTR, InterruptedError}, {EINVAL, UsageError}, {EMFILE, OutOfResourcesError},
  {ENFILE, OutOfResourcesError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, InvalidObjectError}, {EFAULT, PermissionsError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTO, InvalidArgError},
  {EPERM, PermissionsError}, {0, NoError} };
static const Entry t_receive[] = { {EAGAIN, InterruptedError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError}, {EINVAL, InvalidArgError},
  {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}, {0, NoError} };
static const Entry t_send[] = { {EAGAIN, BlockingError}, {EACCES, PermissionsError}, {EBADF, InvalidObjectError}, {ECONNRESET, InterruptedError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError},
  {EINVAL, InvalidArgError}, {EISCONN, ConnectionError}, {EMSGSIZE, WriteError}, {ENOBUFS, OutOfResourcesError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError},
  {EOPNOTSUPP, NotSupportedError}, {EPIPE, InterruptedError}, {0, NoError} };
static const Entry t_ioctl[] = { {EBADF, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EINVAL, InvalidArgError}, {ENOTTY, InvalidObjectError}, {0, NoError} };
// the two ways of reporting a failed connect or name lookup document different categories for these numbers
static const Entry t_connect_error[] = { {EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError}, {EALREADY, BlockingError},
  {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EINTR, InterruptedError}, {EISCONN, ConnectionError},
  {ENETUNREACH, ConfigurationError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}, {0, NoError} };
static const Entry t_connect_exception[] = { {EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError},
  {EALREADY, BlockingError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EINTR, InterruptedError}, {EISCONN, ConnectionError},
  {ENETUNREACH, NotFoundError}, {EHOSTUNREACH, NotFoundError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}, {0, NoError} };
static const Entry t_host_error[] = { {HOST_NOT_FOUND, ConnectionError}, {NO_ADDRESS, InvalidArgError}, {0, NoError} };
static const Entry t_host_exception[] = { {HOST_NOT_FOUND, OpenError}, {TRY_AGAIN, OpenError}, {NO_ADDRESS, InvalidArgError}, {0, NoError} };

static bool begins(const char *t, const char *with) { for (; *with; t++, with++) if (*t != *with) return false; return true; }
static int set(bool host) { int e = vc::any_int("number"); errno = e; vc_h_errno_value = e; return e; }
static void same(const Error &x, const Entry *t, int e) {
  ErrorFlag f = lookup(t, e);
  VC_COVER("a listed number", f != UnknownError); VC_COVER("an unlisted number", f == UnknownError);
  VC_ENSURES("the error has the category documented for the number", x.flag() == f);
}
static void same(const StandardException &x, const Entry *t, int e) {
  ErrorFlag f = lookup(t, e);
  VC_COVER("a listed number", f != UnknownError); VC_COVER("an unlisted number", f == UnknownError);
  VC_ENSURES("the exception has the category documented for the number", x.flag() == f);
  VC_ENSURES("the exception carries the location it was given", begins(x.what(), "\nLocation : here:7\nFlag"));
}
VC_CASES(C31_file_errors, 5)
VC_PROOF(C31_file_errors, "ecl::devices::open_error; ecl::devices::write_error; ecl::devices::read_error; ecl::devices::sync_error; ecl::devices::close_error") {
  int e = set(false);
  switch (__vc_case()) {
    case 0: same(devices::open_error(), t_open, e); break;
    case 1: same(devices::write_error(), t_write, e); break;
    case 2: same(devices::read_error(), t_read, e); break;
    case 3: same(devices::sync_error(), t_sync, e); break;
    default: same(devices::close_error(), t_close, e);
  }
}
VC_CASES(C31_file_exceptions, 5)
VC_PROOF(C31_file_exceptions, "ecl::devices::open_exception; ecl::devices::write_exception; ecl::devices::read_exception; ecl::devices::sync_exception; ecl::devices::close_exception") {
  std::string name("data"); const char *loc = "here:7"; int e = set(false);
  switch (__vc_case()) {
    case 0: same(devices::open_exception(loc, name), t_open, e); break;
    case 1: same(devices::write_exception(loc), t_write, e); break;
    case 2: same(devices::read_exception(loc), t_read, e); break;
    case 3: same(devices::sync_exception(loc, name), t_sync, e); break;
    default: same(devices::close_exception(loc, name), t_close, e);
  }
}
VC_CASES(C31_socket_errors, 8)
VC_PROOF(C31_socket_errors, "ecl::devices::socket_error; ecl::devices::bind_error; ecl::devices::accept_error; ecl::devices::receive_error; ecl::devices::send_error; ecl::devices::ioctl_error; "
         "ecl::devices::gethostbyname_error; ecl::devices::connection_error") {
  int e = set(false);
  switch (__vc_case()) {
    case 0: same(devices::socket_error(), t_socket, e); break;
    case 1: same(devices::bind_error(), t_bind, e); break;
    case 2: same(devices::accept_error(), t_accept, e); break;
    case 3: same(devices::receive_error(), t_receive, e); break;
    case 4: same(devices::send_error(), t_send, e); break;
    case 5: same(devices::ioctl_error(), t_ioctl, e); break;
    case 6: same(devices::gethostbyname_error(), t_host_error, e); break;
    default: same(devices::connection_error(), t_connect_error, e);
  }
}
VC_CASES(C31_socket_exceptions, 8)
VC_PROOF(C31_socket_exceptions, "ecl::devices::socket_exception; ecl::devices::bind_exception; ecl::devices::accept_exception; ecl::devices::receive_exception; ecl::devices::send_exception; "
         "ecl::devices::ioctl_exception; ecl::devices::gethostbyname_exception; ecl::devices::connection_exception") {
  const char *loc = "here:7"; int e = set(false);
  switch (__vc_case()) {
    case 0: same(devices::socket_exception(loc), t_socket, e); break;
    case 1: same(devices::bind_exception(loc), t_bind, e); break;
    case 2: same(devices::accept_exception(loc), t_accept, e); break;
    case 3: same(devices::receive_exception(loc), t_receive, e); break;
    case 4: same(devices::send_exception(loc), t_send, e); break;
    case 5: same(devices::ioctl_exception(loc), t_ioctl, e); break;
    case 6: same(devices::gethostbyname_exception(loc, "host"), t_host_exception, e); break;
    default: same(devices::connection_exception(loc), t_connect_exception, e);
  }
}
struct Some {};
VC_PROOF(C31_posix, "ecl::PosixErrorHandler<Some>::GenerateStandardException") {
  int e = set(false);
  StandardException x = PosixErrorHandler<Some>::GenerateStandardException("here:7");
  VC_ENSURES("any system error is a posix error with the system's description", x.flag() == PosixError && x.message() == "reason." && begins(x.what(), "\nLocation : here:7\nFlag"));
  (void)e;
}
// chains of throws: texts of up to 2 characters (thorough 3), three levels
VC_BOUNDED(C31_rethrow, "texts of 2 characters (thorough 4), detail also empty or 20 characters; three levels of rethrowing")
static const char *text(const char *name, int n) { char *t = vc::fresh<char>(name, n + 1); for (int i = 0; i < n; i++) VC_REQUIRES(t[i] != 0); t[n] = 0; return t; }
static void three(int n, int m) {
  const char *l1 = text("inner", n), *l2 = text("middle", n), *l3 = text("outer", n), *detail = text("detail", m);
  int f = vc::any_int("flag"); VC_REQUIRES((f >= 0) & (f <= NotInitialisedError)); ErrorFlag flag = (ErrorFlag)f;
  int caught = 0;
  try {
    try {
      try {
        if (m == 0) { ecl_throw(StandardException(l1, flag)) }
        else { ecl_throw(StandardException(l1, flag, detail)) }
      } catch (const StandardException &e) {
        VC_ENSURES("flag and detail as thrown", e.flag() == flag && e.message() == detail);
        std::string w = std::string("\nLocation : ") + l1 + "\nFlag     : " + Error(flag).what() + "\n" + (m ? std::string("Detail   : ") + detail + "\n" : std::string());
        VC_ENSURES("the report names location, flag and detail", w == e.what());
        caught++; throw StandardException(l2, e);
      }
    } catch (const StandardException &e) {
      VC_ENSURES("flag and detail are kept by a rethrow", e.flag() == flag && e.message() == detail);
      caught++; throw StandardException(l3, e);
    }
  } catch (const Exception &e) {
    caught++;
    const StandardException &s = static_cast<const StandardException &>(e);
    VC_ENSURES("flag and detail are kept by two rethrows", s.flag() == flag && s.message() == detail);
    std::string w = std::string("\nLocation : ") + l3 + "\n         : " + l2 + "\n         : " + l1 + "\nFlag     : " + Error(flag).what() + "\n" + (m ? std::string("Detail   : ") + detail + "\n" : std::string());
    VC_ENSURES("every location is kept, the outermost first", w == e.what());
  }
  VC_ENSURES("caught at every level", caught == 3);
}
VC_CASES(C31_rethrow, 3)
VC_PROOF(C31_rethrow, "ecl::StandardException::StandardException; ecl::StandardException::create_combined_message; ecl::StandardException::what") {
  int c = __vc_case(); three(VC_TIER ? 4 : 2, c == 0 ? 0 : c == 1 ? (VC_TIER ? 4 : 2) : 20);
}
VC_PROOF(C31_data, "ecl::DataException<int>::DataException; ecl::DataException<int>::create_combined_message") {
  int f = vc::any_int("flag"); VC_REQUIRES((f >= 0) & (f <= NotInitialisedError)); ErrorFlag flag = (ErrorFlag)f;
  int d = vc::any_int("data"); int caught = 0;
  try {
    try { throw DataException<int>("in", flag, "detail", d); }
    catch (const DataException<int> &e) { VC_ENSURES("flag and data as thrown", e.flag() == flag && e.data() == d); caught++; throw DataException<int>("out", e); }
  } catch (const DataException<int> &e) { caught++; VC_ENSURES("flag and data are kept by a rethrow", e.flag() == flag && e.data() == d); }
  VC_ENSURES("caught at every level", caught == 2);
}
