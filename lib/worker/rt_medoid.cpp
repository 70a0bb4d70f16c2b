#include "rt_common.hpp"
#include "medoid_coordinator.hpp"

ALG(medoid) {
    return go(a, medoid_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist, a.rq.f("rate", 1)));
}
