#include "rt_common.hpp"
#include "hclust_coordinator.hpp"

ALG(hclust) {
    return go(a, hclust_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist, a.mcs));
}
