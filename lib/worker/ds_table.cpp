// The inter-center distance table, driven by small generated programs.
#include "ds_common.hpp"
#include "clusters.hpp"
#include "dist_matrix.hpp"
#include "types.hpp"
#include "util.hpp"

using namespace knor;

OP(dmtable) {
    unsigned k = rq.u("k"), m = rq.u("m");
    dvec C = rq.a("C"), out;     // several successive sets of centers
    std::string mode = rq.s("mode");
    prune::dist_matrix::ptr dm = prune::dist_matrix::create(k);
    size_t rounds = C.size() / (k*m);
    out.push_back(dm->get_num_rows());
    base::prune_clusters::ptr cl = std::static_pointer_cast<base::prune_clusters>(
            base::prune_clusters::create(k, m));
    for (size_t r = 0; r < rounds; r++) {
        double* c = &C[r*k*m];
        if (mode == "half") {
            cl->set_mean((const double*) c);
            dm->compute_dist(cl, m);
        } else if (mode == "set") {
            for (unsigned i = 0; i < k; i++)
                for (unsigned j = i + 1; j < k; j++)
                    ((i + j + r) % 2) ? dm->set(i, j, c[i*m] + 1000.0*j) : dm->set(j, i, c[i*m] + 1000.0*j);
        } else
            dm->compute_pairwise_dist(c, m, base::get_dist_type(mode));
        for (unsigned i = 0; i < k; i++)
            for (unsigned j = 0; j < k; j++) {
                out.push_back(dm->get(i, j));
                out.push_back(dm->pw_get(i, j));
            }
        for (unsigned i = 0; i < k; i++) {
            out.push_back(dm->get_min_dist(i));
            out.push_back(mode == "half" ? cl->get_s_val(i) : 0);
        }
    }
    rs.arr("out", out);
}
