// The shared boolean vector, driven by small generated programs.
#include "ds_common.hpp"
#include "thd_safe_bool_vector.hpp"

using namespace knor;

OP(boolvec) {
    dvec t;
    base::thd_safe_bool_vector::ptr b = base::thd_safe_bool_vector::create(
            (size_t) rq.i("len"), (bool) rq.i("init"));
    Prog p(rq.a("prog"));
    while (p.more()) {
        long op = p.n(), a = p.n(), v = p.n();
        switch (op) {
            case 0: b->set(a, v); break;
            case 1: b->check_set(a, v); break;
            case 2: t.push_back(b->get(a)); break;
            case 3: t.push_back((*b)[a]); break;
            case 4: t.push_back(b->size()); break;
            case 5: t.push_back(b->raw().size()); break;
            case 6: {   // several writers, each to its own entries
                std::vector<std::thread> ths;
                size_t T = 2 + a % 6, n = b->size();
                base::thd_safe_bool_vector* q = b.get();
                for (size_t i = 0; i < T; i++)
                    ths.push_back(std::thread([=]() { for (int rep = 0; rep < 20; rep++) for (size_t j = i; j < n; j += T) q->set(j, ((j*7 + v + rep) % 3) == 0); }));
                for (size_t i = 0; i < T; i++) ths[i].join();
                break; }
            default: throw std::logic_error("bad op");
        }
    }
    for (size_t i = 0; i < b->size(); i++) t.push_back(b->get(i));
    rs.arr("t", t);
}
