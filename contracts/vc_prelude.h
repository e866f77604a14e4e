// forced first include of the verified compilation: makes libstdc++ templates (std::string ...) instantiate in this translation
// unit, so that their real code is part of what is verified instead of an external library call
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
