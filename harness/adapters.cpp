// Translation unit the verifier reads: the container adapters of /repo other than ucf's (that one is in map.cpp).
#include <chrono>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include <cstddef>
#include <unistd.h>
#include <sys/stat.h>
#include "define.hpp"
#if defined(A_stl)
#include "stlMap.hpp"
using C = stl::container_type;
#elif defined(A_pm)
#include "pmemMap.hpp"
using C = pm::container_type;
#elif defined(A_clevel)
#include "levelMap.hpp"
using C = clevel::container_type;
#endif
size_t vh_adapter(const TestOptions &o, size_t a)
{
    C c(o, false);
    return c.insert(a) + c.erase(a) + c.contains(a) + c.get(a) + c.count() + c.increment(a);
}
