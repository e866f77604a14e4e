#include <ecl/config/ecl.hpp>
