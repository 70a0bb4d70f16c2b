#include "rt_common.hpp"
#include "gmeans_coordinator.hpp"

ALG(gmeans) {
    return go(a, gmeans_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist, a.mcs, (short) a.rq.i("strict", 4)));
}
