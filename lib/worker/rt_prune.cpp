#include "rt_common.hpp"
#include "kmeans_task_coordinator.hpp"

ALG(prune) { return go(a, prune::kmeans_task_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist)); }

ALG(mb) {
    std::shared_ptr<prune::kmeans_task_coordinator> c =
        std::static_pointer_cast<prune::kmeans_task_coordinator>(prune::kmeans_task_coordinator::create(a.fn, a.n, a.m, a.k, a.iters, a.nn, a.T, a.cp, a.init, a.tol,
        a.dist));
    c->set_mini_batch_size(a.rq.u("mb"));
    return a.rq.i("norun", 0) ? base::cluster_t() : c->mb_run(a.data);
}
