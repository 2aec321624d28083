/* clang does not put nullptr_t in the global namespace for C++11; gcc's <stddef.h> does and the repository relies on it. */
#ifdef __cplusplus
#include <cstddef>
using std::nullptr_t;
#endif
