// Row ranges, driven by small generated programs.
#include "ds_common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "thread.hpp"
#include "util.hpp"
#include "binding/numa_reorg.hpp"

using namespace knor;

OP(ranges) {
    size_t n = rq.i("nrow"), m = rq.i("ncol");
    unsigned T = rq.u("T"), k = 2;
    dvec data = rq.a("data"), t;
    dvec cen(k*m, 0.0);
    coordinator::ptr c;
    std::string fn = rq.s("file");
    if (!fn.empty()) {
        std::ofstream f(fn.c_str(), std::ios::binary);
        f.write((const char*) &data[0], data.size()*sizeof(double));
    }
    if (rq.i("task"))
        c = prune::kmeans_task_coordinator::create(fn, n, m, k, 1, 1, T, &cen[0], "none", -1, "eucl");
    else
        c = kmeans_coordinator::create(fn, n, m, k, 1, 1, T, &cen[0], "none", -1, "eucl");
    if (fn.empty()) c->set_thread_data_ptr(&data[0]);
    else { c->wake4run(ALLOC_DATA); c->wait4complete(); }
    unsigned nt = c->get_threads().size();
    t.push_back(nt);
    for (unsigned i = 0; i < nt; i++) {
        std::pair<unsigned, unsigned> p = c->get_rid_len_tup(i);
        t.push_back(p.first); t.push_back(p.second);
        t.push_back(c->get_threads()[i]->get_start_rid());
        t.push_back(c->get_threads()[i]->get_data_size());
        t.push_back(rq.i("task") ? c->get_threads()[i]->get_start_rid() + 3 : c->get_threads()[i]->get_global_data_id(3));
    }
    if (rq.i("reorg")) {
        std::vector<thread::ptr> ths(c->get_threads().begin(), c->get_threads().end());
        binding::memory_distributor<double>::ptr md =
            binding::memory_distributor<double>::create(&data[0], 1, n, m);
        md->numa_reorg(ths);
    }
    dvec rows;
    long bad = 0;
    for (size_t r = 0; r < n; r++) {
        const double* p = c->get_thd_data(r);
        if (memcmp(p, &data[r*m], m*sizeof(double))) { bad++; if (rows.size() < 5) rows.push_back(r); }
        if (fn.empty() && !rq.i("reorg") && p != &data[r*m]) { bad++; if (rows.size() < 5) rows.push_back(r); }
    }
    rs.arr("t", t);
    rs.put("bad", bad);
    rs.arr("rows", rows);
    if (!fn.empty()) unlink(fn.c_str());
}

OP(localrid) {
    size_t n = rq.i("nrow"), m = rq.i("ncol"), np = rq.i("npart");
    dvec d(n*m, 0.0), t;
    binding::memory_distributor<double>::ptr md =
        binding::memory_distributor<double>::create(&d[0], np, n, m);
    dvec g = rq.a("g"), nd = rq.a("node");
    for (size_t i = 0; i < g.size(); i++) t.push_back(md->local_rid((size_t) g[i], (unsigned) nd[i]));
    rs.arr("t", t);
}
