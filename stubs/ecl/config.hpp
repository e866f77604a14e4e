#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
