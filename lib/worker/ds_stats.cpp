// Statistics on pruning and activity, driven by small generated programs.
#include "ds_common.hpp"
#include "prune_stats.hpp"

using namespace knor;

OP(prunestats) {
    size_t N = rq.i("objs");
    std::vector<base::prune_stats::ptr> S;
    for (size_t i = 0; i < N; i++) S.push_back(base::prune_stats::create(rq.i("nrow"), rq.i("k")));
    dvec t;
    Prog p(rq.a("prog"));
    while (p.more()) {
        long op = p.n(), o = p.n(), v = p.n();
        base::prune_stats& s = *S[o];
        switch (op) {
            case 0: if (v < 0) s.pp_lemma1(); else s.pp_lemma1(v); break;
            case 1: s.pp_3a(); break;
            case 2: s.pp_3b(); break;
            case 3: s.pp_3c(); break;
            case 4: s.pp_4(); break;
            case 5: s += *S[v]; break;
            case 6: s.finalize(); break;
            case 7: { dvec g = s.get_stats(); t.insert(t.end(), g.begin(), g.end()); break; }
            case 8: t.push_back(s.get_lemma1()); t.push_back(s.get_3a()); t.push_back(s.get_3b());
                    t.push_back(s.get_3c()); t.push_back(s.get_4()); break;
            default: throw std::logic_error("bad op");
        }
    }
    rs.arr("t", t);
}

OP(activation) {
    size_t T = rq.i("T");
    base::activation_counter::ptr a = base::activation_counter::create(T);
    dvec per = rq.a("per");            // iteration-major: how often each thread reports
    for (size_t it = 0; it*T < per.size(); it++) {
        if (rq.i("par", 0)) {
            std::vector<std::thread> ths;
            for (size_t j = 0; j < T; j++) {
                long c = per[it*T+j];
                ths.push_back(std::thread([=]() { for (long q = 0; q < c; q++) a->active(j); }));
            }
            for (auto& th : ths) th.join();
        } else for (size_t j = 0; j < T; j++)
            for (long q = 0; q < per[it*T+j]; q++) a->active(j);
        a->complete();
    }
    rs.arr("t", a->get_active_count_per_iter());
}

OP(activity) {
    size_t n = rq.i("n");
    base::active_counter::ptr a = base::active_counter::create(n);
    dvec b = rq.a("b"), order = rq.a("order");
    for (size_t it = 0; it*n < b.size(); it++) {
        if (it) a->init_iter();
        for (size_t q = 0; q < n; q++) { size_t r = order[(q + it) % n]; a->is_active(r, b[it*n+r] != 0); }
    }
    a->write_raw(rq.s("raw"), rq.i("rows"));
    a->write_consolidated(rq.s("cons"), rq.i("rows"));
}
