#include "rt_common.hpp"
#include "kmeans.hpp"

template <typename F> static base::cluster_t omp_run(const Call& a, F f) {
    std::vector<double> c(a.k*a.m, 0);
    if (a.cp) c = a.cen;
    std::vector<unsigned> asg(a.n, 0);
    std::vector<llong_t> cnt(a.k, 0);
    base::cluster_t r = f(a.data, &c[0], &asg[0], &cnt[0], a.n, a.m, a.k, a.iters, (int) a.T, a.init, a.tol, a.dist);
    a.rs.arr(a.pfx + "b_cen", c);
    a.rs.arr(a.pfx + "b_asg", asg);
    a.rs.arr(a.pfx + "b_cnt", cnt);
    return r;
}

ALG(omp_full) { return omp_run(a, omp::compute_kmeans); }
ALG(omp_prune) { return omp_run(a, omp::compute_min_kmeans); }
