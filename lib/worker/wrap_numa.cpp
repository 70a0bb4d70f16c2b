// Under ASan, serve NUMA allocations from the instrumented heap so overflows are seen.
#include <cstdlib>
extern "C" void* __wrap_numa_alloc_onnode(size_t sz, int) { return malloc(sz ? sz : 1); }
extern "C" void __wrap_numa_free(void* p, size_t) { free(p); }
