#include "rt_common.hpp"
#include "binding/numa_reorg.hpp"
static void reorg(const Call& a, std::vector<std::shared_ptr<thread> >& threads) {
    std::shared_ptr<binding::memory_distributor<double> > md =
        binding::memory_distributor<double>::create(a.data, a.nn, a.n, a.m);
    md->numa_reorg(threads);
}
static int set = (redistribute = reorg, 0);
