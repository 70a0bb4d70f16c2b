// Cluster ids, driven by small generated programs.
#include "ds_common.hpp"
#include "hclust_id_generator.hpp"

using namespace knor;

OP(idgen) {
    hclust_id_generator::ptr g = hclust_id_generator::create();
    dvec prog = rq.a("prog"), t;
    std::vector<unsigned> live;
    for (size_t i = 0; i < prog.size(); i++) {
        if (prog[i] < 0) {
            split_id s = g->get_split_ids();
            t.push_back(-1); t.push_back(s.first); t.push_back(s.second);
            live.push_back(s.first); live.push_back(s.second);
        } else if (!live.empty()) {
            size_t j = (size_t) prog[i] % live.size();
            unsigned id = live[j];
            live.erase(live.begin() + j);
            g->reclaim_id(id);
            t.push_back(-2); t.push_back(id);
        }
    }
    rs.arr("t", t);
}
