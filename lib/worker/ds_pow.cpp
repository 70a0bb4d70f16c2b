// Powers of two, driven by small generated programs.
#include "ds_common.hpp"
#include "util.hpp"

using namespace knor;

OP(pow2) {
    dvec k = rq.a("k"), t;
    for (size_t i = 0; i < k.size(); i++) {
        t.push_back(base::get_hclust_ceil((unsigned) k[i]));
        t.push_back(base::get_hclust_floor((unsigned) k[i]));
        t.push_back(base::get_max_hnodes<size_t>((size_t) k[i]));
    }
    rs.arr("t", t);
    dvec d = rq.a("d");
    rs.num("bic", base::get_bic(d, rq.i("nrow"), rq.i("ncol"), rq.u("kk")));
}
