#include "rt_common.hpp"
#include "fcm_coordinator.hpp"

ALG(fcm) {
    return go(a, fcm_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist, a.rq.u("fuzz", 2)));
}
