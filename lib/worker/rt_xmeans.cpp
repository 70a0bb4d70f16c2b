#include "rt_common.hpp"
#include "xmeans_coordinator.hpp"

ALG(xmeans) {
    return go(a, xmeans_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist, a.mcs));
}
