// symbolic build only: make libstdc++ templates (std::string, streams) instantiate in the module instead of in the library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
