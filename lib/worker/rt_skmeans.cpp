#include "rt_common.hpp"
#include "skmeans_coordinator.hpp"

ALG(skmeans) {
    return go(a, skmeans_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist));
}
