// preincluded when std::string is to be verified through: its members are instantiated in the translation unit
// (same bodies as in libstdc++.so) instead of being external symbols
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
