#include "rt_common.hpp"
#include "binding/kmeanspp.hpp"

ALG(kmpp) {
    unsigned ns = a.rq.u("nstart", 1);
    std::pair<std::pair<unsigned, double>, base::cluster_t> x = a.data ?
        base::kmeansPP(a.data, a.n, a.m, a.k, ns, a.T, a.dist) :
        base::kmeansPP(a.fn, a.n, a.m, a.k, ns, a.T, a.dist);
    a.rs.put(a.pfx + "start", (long) x.first.first);
    a.rs.num(a.pfx + "energy", x.first.second);
    return x.second;
}
