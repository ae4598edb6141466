// the library's templates (strings, streams) are compiled with the code under test instead of being called in the shared library
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
