// Clustering routines, driven through their public factories only: one file each.
#pragma once
#include "proto.hpp"
#include "types.hpp"
#include "util.hpp"
#include "thread.hpp"
#include <memory>

using namespace knor;

struct Call {
    const Req& rq; Resp& rs; double* data; const std::string& fn; std::vector<double>& cen; std::string pfx;
    unsigned T; size_t n, m; unsigned k, iters, nn, mcs; std::string init, dist; double tol; const double* cp;
    std::vector<std::shared_ptr<void> >* keep = NULL;    // objects to outlive the run
    Call(const Req& rq, Resp& rs, double* data, const std::string& fn, std::vector<double>& cen,
            const std::string& pfx, unsigned T) :
        rq(rq), rs(rs), data(data), fn(fn), cen(cen), pfx(pfx), T(T), n(rq.i("nrow")), m(rq.i("ncol")),
        k(rq.u("k")), iters(rq.u("iters", 100)), nn(rq.u("nnodes", base::get_num_nodes())), mcs(rq.u("mcs", 2)),
        init(rq.s("init", "none")), dist(rq.s("dist", "eucl")), tol(rq.f("tol", -1)),
        cp(rq.hasarr("centers") ? &cen[0] : NULL) {}
};

typedef base::cluster_t (*alg_fn)(const Call&);
std::map<std::string, alg_fn>& alg_registry();
struct AlgReg { AlgReg(const char* name, alg_fn f) { alg_registry()[name] = f; } };
#define ALG(name) static base::cluster_t alg_##name(const Call&); \
    static AlgReg algreg_##name(#name, alg_##name); \
    static base::cluster_t alg_##name(const Call& a)

// Gives every thread its own copy of its rows, as the language bindings do.
typedef void (*redistribute_fn)(const Call&, std::vector<std::shared_ptr<thread> >&);
extern redistribute_fn redistribute;

// Runs the routine, or only creates and destroys it.
template <typename P> static base::cluster_t go(const Call& a, P c) {
    if (a.keep) a.keep->push_back(c);
    if (a.rq.i("norun", 0)) return base::cluster_t();
    if (a.rq.i("numaopt", 0)) {
        if (!redistribute) throw NotBuilt("redistribute");
        redistribute(a, c->get_threads());
        return c->run(NULL, true);
    }
    return c->run(a.data);
}
