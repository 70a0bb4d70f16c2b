#include "rt_common.hpp"
#include "kmeans_coordinator.hpp"

ALG(full) {
    return go(a, kmeans_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist));
}
