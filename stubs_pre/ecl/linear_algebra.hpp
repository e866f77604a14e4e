// Shadows ecl/linear_algebra.hpp of /repo: everything it includes except sophus.hpp, whose package (Sophus) is not installed.
#ifndef VC_STUB_LINEAR_ALGEBRA
#define VC_STUB_LINEAR_ALGEBRA
#include <ecl/linear_algebra/eigen.hpp>
#include <ecl/converters.hpp>
#include <ecl/exceptions.hpp>
namespace ecl { namespace linear_algebra = Eigen; }
#endif
