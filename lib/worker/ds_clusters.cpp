// Cluster accumulators, driven by small generated programs.
#include "ds_common.hpp"
#include "clusters.hpp"

using namespace knor;

static void dump(base::clusters& c, dvec& t, bool prune) {
    t.push_back(c.get_nclust());
    t.push_back(c.get_ncol());
    t.push_back(c.size());
    for (unsigned i = 0; i < c.get_nclust(); i++) {
        t.push_back((double) c.get_num_members(i));
        t.push_back(c.is_complete(i));
    }
    for (unsigned i = 0; i < c.get_nclust(); i++) {
        const double* p = c.get_mean_rawptr(i);
        for (unsigned j = 0; j < c.get_ncol(); j++) t.push_back(p[j]);
    }
    if (prune) {
        base::prune_clusters& q = static_cast<base::prune_clusters&>(c);
        for (size_t i = 0; i < q.get_prev_means().size(); i++) t.push_back(q.get_prev_means()[i]);
        for (unsigned i = 0; i < c.get_nclust(); i++) {
            t.push_back(q.get_prev_dist(i));
            t.push_back(q.get_s_val(i));
        }
    }
}

OP(clusters) {
    std::string kind = rq.s("kind");
    unsigned ncol = rq.u("ncol");
    size_t cmul = rq.i("cmul", 1);
    dvec pool = rq.a("pool"), ks = rq.a("nclust"), im = rq.a("init");
    std::vector<base::clusters::ptr> o;
    std::vector<dvec> inits;
    size_t off = 0;
    for (size_t i = 0; i < ks.size(); i++) {
        unsigned k = (unsigned) ks[i];
        dvec m(im.begin() + off, im.begin() + off + k*ncol);
        off += k*ncol;
        bool wi = rq.a("withinit").at(i) != 0;
        if (kind == "dense") {
            o.push_back(!wi ? base::clusters::create(k, ncol) : i % 2 ?
                base::clusters::create(k, ncol, (const base::kmsvector&) m) :
                base::clusters::create(k, ncol, (const double*) &m[0]));
        } else if (kind == "prune") {
            o.push_back(!wi ? base::prune_clusters::create(k, ncol) :
                base::prune_clusters::create(k, ncol, m));
        } else if (kind == "h") {
            if (i % 2 && !wi) {
                o.push_back(base::h_clusters::create(k, ncol, 7, 8, 9));
            } else
                o.push_back(wi ? base::h_clusters::create(k, ncol, (const double*) &m[0]) :
                    base::h_clusters::create(k, ncol));
        } else
            o.push_back(base::sparse_clusters::create(k, ncol));
    }
    bool pr = kind == "prune";
    dvec t;
    for (size_t i = 0; i < o.size(); i++) dump(*o[i], t, pr);
    Prog p(rq.a("prog"));
    while (p.more()) {
        long op = p.n();
        base::clusters& c = *o.at(p.n());
        long a = p.n(), b = p.n(), v = p.n();
        double f = p.d();
        const double* x = &pool.at(v*ncol);
        double ret = 0;
        try {
            switch (op) {
                case 0: c.add_member(x, a); break;
                case 1: { It it(x, ncol); c.add_member(it, (unsigned) a); break; }
                case 2: c.remove_member(x, a); break;
                case 3: { It it(x, ncol); c.remove_member(it, (unsigned) a); break; }
                case 4: c.swap_membership(x, a, b); break;
                case 5: { It it(x, ncol); c.swap_membership(it, (unsigned) a, (unsigned) b); break; }
                case 6: c.peq(o.at(b)); break;
                case 7: c += *o.at(b); break;
                case 8: c.finalize(a); break;
                case 9: c.unfinalize(a); break;
                case 10: c.finalize_all(); break;
                case 11: c.unfinalize_all(); break;
                case 12: c.clear(); break;
                case 13: c = *o.at(b); break;
                case 14: c.set_mean(x, (int) a); break;
                case 15: { const base::kmsvector w(x, x + ncol); c.set_mean(w, (int) a); break; }
                case 16: c.set_mean(&pool.at(0)); break;
                case 17: { const base::kmsvector w(pool.begin(), pool.begin() + c.size()); c.set_mean(w); break; }
                case 18: { It it(x, ncol); c.set_mean(it, (int) a); break; }
                case 19: c.num_members_peq(b - 3, a); break;
                case 20: { std::vector<size_t> w; for (unsigned i = 0; i < c.get_nclust(); i++) w.push_back(((size_t) a + i*(size_t) b) % 7 * cmul); c.set_num_members_v(&w[0]); break; }
                case 21: { std::vector<size_t> w; for (unsigned i = 0; i < c.get_nclust(); i++) w.push_back(((size_t) a + i*(size_t) b) % 7 * cmul); c.num_members_v_peq(&w[0]); break; }
                case 22: c.means_peq(&pool.at(0)); break;
                case 23: c.scale_centroid(f, a, x); break;
                case 24: c.set_complete(a, b % 2); break;
                case 25: c.set_complete_all(b % 2); break;
                case 26: ret = (c == *o.at(b)); break;
                case 27: ret = c.get(a); break;
                case 28: ret = c.get_mean_rawptr(a)[b % ncol]; break;
                case 29: ret = c.is_complete(a); break;
                case 30: static_cast<base::prune_clusters&>(c).set_prev_means(); break;
                case 31: static_cast<base::prune_clusters&>(c).set_prev_dist(f, a); break;
                case 32: static_cast<base::prune_clusters&>(c).set_s_val(f, a); break;
                case 33: static_cast<base::prune_clusters&>(c).reset_s_val_v(); break;
                default: throw std::logic_error("bad op");
            }
        } catch (const base::oob_exception& e) { ret = -101;
        } catch (const base::abstract_exception& e) { ret = -102; }
        t.push_back(ret);
        dump(c, t, pr);
    }
    // the objects nothing was done to must not have changed either
    for (size_t i = 0; i < o.size(); i++) dump(*o[i], t, pr);
    rs.arr("t", t);
}

OP(hclusters) {
    dvec p = rq.a("p");
    base::h_clusters::ptr c = base::h_clusters::create(2, 3, (unsigned) p[0], (unsigned) p[1], (unsigned) p[2]);
    std::shared_ptr<base::h_clusters> h = base::h_clusters::cast2(
            std::static_pointer_cast<base::h_clusters>(c));
    dvec t;
    t.push_back(h->get_id()); t.push_back(h->get_zeroid()); t.push_back(h->get_oneid());
    t.push_back(h->has_converged());
    c->set_id((unsigned) p[3]); c->set_zeroid((unsigned) p[4]); c->set_oneid((unsigned) p[5]);
    c->set_converged(p[6] != 0);
    t.push_back(h->get_id()); t.push_back(h->get_zeroid()); t.push_back(h->get_oneid());
    t.push_back(h->has_converged());
    // plain accumulators have no ids
    base::clusters::ptr d = base::clusters::create(2, 3);
    int threw = 0;
    try { d->get_id(); } catch (const base::abstract_exception&) { threw++; }
    try { d->get_zeroid(); } catch (const base::abstract_exception&) { threw++; }
    try { d->get_oneid(); } catch (const base::abstract_exception&) { threw++; }
    try { d->has_converged(); } catch (const base::abstract_exception&) { threw++; }
    try { d->set_converged(true); } catch (const base::abstract_exception&) { threw++; }
    t.push_back(threw);
    rs.arr("t", t);
}
