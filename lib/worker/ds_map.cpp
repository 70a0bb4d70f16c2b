// The index-keyed map, driven by small generated programs.
#include "ds_common.hpp"
#include "types.hpp"

using namespace knor;

OP(vmap) {
    double ev = rq.f("empty");
    base::vmap<double> v((size_t) rq.i("cap"), ev), *vp = &v;
    base::vmap<double> dflt;
    if (rq.i("dflt")) vp = &dflt;
    base::vmap<double>& m = *vp;
    dvec t;
    Prog p(rq.a("prog"));
    while (p.more()) {
        long op = p.n(), a = p.n(); double f = p.d();
        switch (op) {
            case 0: m[a] = f; break;
            case 1: m.at(a) = f; break;
            case 2: t.push_back(m[a]); break;
            case 3: try { const base::vmap<double>& c = m; t.push_back(c[a]); } catch (const base::oob_exception&) { t.push_back(-9999); } break;
            case 4: m.erase(a); break;
            case 5: m.clear(); break;
            case 6: t.push_back(m.has_key(a)); break;
            case 7: { std::vector<size_t> ks; m.get_keys(ks); t.push_back(ks.size()); t.insert(t.end(), ks.begin(), ks.end()); break; }
            case 8: t.push_back(m.keycount()); break;
            case 9: t.push_back(m.keyless()); break;
            case 10: m.set_capacity(a); break;
            case 11: { base::vmap_iterator<double> it = m.get_iterator(); size_t n = 0, at = t.size(); t.push_back(0);
                       while (it.has_next() && n < 10000) { std::pair<size_t, double> q = it.next(); t.push_back(q.first); t.push_back(q.second); n++; }
                       t[at] = n; break; }
            case 12: { base::vmap_iterator<double> it = m.get_iterator(); size_t n = 0, at = t.size(); t.push_back(0);
                       while (it.has_next() && it.has_next() && n < 10000) { std::pair<size_t, double> q = it.next(); t.push_back(q.first); t.push_back(q.second); n++; }
                       t.push_back(it.has_next()); t[at] = n; break; }
            case 13: t.push_back(m.size()); t.push_back(m.empty()); break;
            case 14: t.push_back(m.at(a)); break;
            default: throw std::logic_error("bad op");
        }
    }
    rs.arr("t", t);
}
