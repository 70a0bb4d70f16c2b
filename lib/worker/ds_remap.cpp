// Id compaction, driven by small generated programs.
#include "ds_common.hpp"
#include "hclust_compactor.hpp"
#include "types.hpp"

using namespace knor;

OP(remap) {
    dvec c = rq.a("c"), t;
    std::vector<llong_t> cnt(c.begin(), c.end());
    std::vector<size_t> out;
    std::unordered_map<unsigned, unsigned> ids;
    util::compactor::remap(cnt, out, ids);
    rs.arr("out", out);
    for (auto const& kv : ids) { t.push_back(kv.first); t.push_back(kv.second); }
    rs.arr("map", t);
    rs.arr("c", cnt);
    // the result class built from sparse ids
    dvec asg = rq.a("asg"), cen = rq.a("cen");
    if (!asg.empty()) {
        unsigned m = rq.u("m");
        std::vector<unsigned> a(asg.begin(), asg.end());
        std::unordered_map<unsigned, dvec> cm;
        for (size_t i = 0; i < cnt.size(); i++)
            if (cnt[i] > 0) cm[i] = dvec(cen.begin() + i*m, cen.begin() + (i + 1)*m);
        base::cluster_t r(a.size(), m, 5, a, cnt, cm);
        rs.put("k", (long) r.k);
        rs.put("iters", (long) r.iters);
        rs.arr("asg", r.assignments);
        rs.arr("cnt", r.assignment_count);
        rs.arr("cen", r.centroids);
    }
}
