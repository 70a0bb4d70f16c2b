// The normality statistic, driven by small generated programs.
#include "ds_common.hpp"
#include "AndersonDarling.hpp"

using namespace knor;

OP(ad) {
    dvec x = rq.a("x"), out;
    rs.num("stat", base::AndersonDarling::compute_statistic(x.size(), &x[0]));
    base::AndersonDarling::compute_critical_values((double) x.size(), out);
    rs.arr("crit", out);
    rs.arr("x", x);
}
