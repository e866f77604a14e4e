#include "errors/macros.hpp"
#include "errors/compile_time_assert.hpp"
#include "errors/handlers.hpp"
