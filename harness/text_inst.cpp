// makes the compiler emit the inline helpers of string.h
#include <msat/utils/string.h>
bool (*text_inst[])(const std::string&, const std::string&)={&msat::str::startswith,&msat::str::endswith};
