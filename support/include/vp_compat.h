#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
