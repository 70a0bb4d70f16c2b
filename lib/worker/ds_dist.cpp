// Distances and names, driven by small generated programs.
#include "ds_common.hpp"
#include "types.hpp"
#include "util.hpp"

using namespace knor;

OP(dist) {
    dvec x = rq.a("x"), y = rq.a("y"), out;
    unsigned n = rq.u("n");
    const double *a = &x[0], *b = &y[0];
    std::string names[] = {"eucl", "sqeucl", "taxi", "cos"};
    size_t rows = x.size() / n;
    for (size_t r = 0; r < rows; r++, a += n, b += n) {
        out.push_back(base::eucl_dist(a, b, n));
        out.push_back(base::sqeucl_dist(a, b, n));
        out.push_back(base::taxi_dist(a, b, n));
        out.push_back(base::cos_dist(a, b, n));
        for (int i = 0; i < 4; i++)
            out.push_back(base::dist_comp_raw<double>(a, b, n, base::get_dist_type(names[i])));
    }
    rs.arr("out", out);
}

OP(names) {
    std::string s = rq.s("s");
    double d = -1, i = -1;
    try { d = base::get_dist_type(s); } catch (const std::exception&) {}
    try { i = base::get_init_type(s); } catch (const std::exception&) {}
    rs.num("dist", d);
    rs.num("init", i);
    dvec e;
    e.push_back(base::EUCL); e.push_back(base::COS); e.push_back(base::TAXI); e.push_back(base::SQEUCL);
    e.push_back(base::RANDOM); e.push_back(base::FORGY); e.push_back(base::PLUSPLUS); e.push_back(base::NONE);
    rs.arr("codes", e);
    int threw = 0;
    double q[2] = {1, 2};
    try { base::dist_comp_raw<double>(q, q, 2, (base::dist_t) rq.i("bad", 77)); } catch (const base::parameter_exception&) { threw = 1; }
    rs.num("threw", threw);
}
