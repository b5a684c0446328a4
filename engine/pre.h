// Force-included: instantiate the standard library templates (strings, streams) in bitcode instead of calling the shared library.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
