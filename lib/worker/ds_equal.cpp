// Equality, driven by small generated programs.
#include "ds_common.hpp"
#include "types.hpp"
#include "util.hpp"

using namespace knor;

OP(equal) {
    dvec a = rq.a("a"), b = rq.a("b"), t;
    t.push_back(base::v_eq(a, b));
    t.push_back(base::v_eq(conv<unsigned>(a), conv<unsigned>(b)));
    if (a.size() == b.size() && !a.empty()) {
        t.push_back(base::eq_all(&a[0], &b[0], a.size()));
    } else t.push_back(-1);
    t.push_back(base::v_eq_const(a, rq.f("c")));
    rs.arr("t", t);
}

OP(result_eq) {
    base::cluster_t r[2];
    for (int i = 0; i < 2; i++) {
        std::string p = std::to_string(i);
        r[i].nrow = r[i].ncol = r[i].iters = r[i].k = 1;
        r[i].assignments = conv<unsigned>(rq.a("asg" + p));
        r[i].assignment_count = conv<size_t>(rq.a("cnt" + p));
        r[i].centroids = rq.a("cen" + p);
    }
    dvec t;
    t.push_back(r[0] == r[1]); t.push_back(r[1] == r[0]); t.push_back(r[0] == r[0]);
    rs.arr("t", t);
}

OP(result_build) {
    size_t n = rq.i("nrow"), m = rq.i("ncol"), k = rq.i("k");
    std::vector<unsigned> a = conv<unsigned>(rq.a("asg"));
    std::vector<llong_t> c = conv<llong_t>(rq.a("cnt"));
    dvec cen = rq.a("cen");
    base::cluster_t x(n, m, 9, k, a.data(), c.data(), cen), y;
    y.set_params(n, m, 9, k);
    y.set_computed(a.data(), c.data(), cen);
    const base::cluster_t* q[2] = {&x, &y};
    for (int i = 0; i < 2; i++) {
        std::string p = std::to_string(i) + ".";
        rs.put(p + "nrow", (long) q[i]->nrow); rs.put(p + "ncol", (long) q[i]->ncol);
        rs.put(p + "iters", (long) q[i]->iters); rs.put(p + "k", (long) q[i]->k);
        rs.arr(p + "asg", q[i]->assignments); rs.arr(p + "cnt", q[i]->assignment_count); rs.arr(p + "cen", q[i]->centroids);
    }
}

OP(gmm_eq) {
    base::gmm_t g[2];
    for (int i = 0; i < 2; i++) {
        std::string p = std::to_string(i);
        dvec h = rq.a("h" + p);
        g[i].nrow = (size_t) h[0]; g[i].ncol = (size_t) h[1]; g[i].iters = (size_t) h[2]; g[i].k = (unsigned) h[3];
        g[i].means = rq.a("m" + p); g[i].resp_mat = rq.a("r" + p); g[i].gaussian_prob = rq.a("g" + p);
        dvec c = rq.a("c" + p); size_t w = (size_t) h[4];
        for (size_t j = 0; j + w <= c.size() && w; j += w) g[i].cov_mats.push_back(dvec(c.begin() + j, c.begin() + j + w));
    }
    dvec t;
    t.push_back(g[0] == g[1]); t.push_back(g[1] == g[0]); t.push_back(g[0] == g[0]);
    rs.arr("t", t);
}
