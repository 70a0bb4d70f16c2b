// Dense matrices and vector helpers, driven by small generated programs.
#include "ds_common.hpp"
#include "dense_matrix.hpp"
#include "util.hpp"
#include "linalg.hpp"

using namespace knor;

typedef base::dense_matrix<double> DM;
static void mdump(DM& m, dvec& t) {
    t.push_back(m.get_nrow());
    t.push_back(m.get_ncol());
    t.push_back(m.as_vector().size());
    for (size_t r = 0; r < m.get_nrow(); r++)
        for (size_t c = 0; c < m.get_ncol(); c++) t.push_back(m.get(r, c));
}

OP(dmat) {
    dvec pool = rq.a("pool");
    std::vector<std::unique_ptr<DM> > R(3);
    for (int i = 0; i < 3; i++) R[i].reset(DM::create());
    dvec t;
    Prog p(rq.a("prog"));
    while (p.more()) {
        long op = p.n(), r = p.n(), s = p.n(), a = p.n(), b = p.n(), v = p.n();
        double f = p.d();
        dvec out;
        DM& M = *R.at(r);
        DM& N = *R.at(s);
        long dst = r;
        try {
            switch (op) {
                case 0: R[r].reset(DM::create(a, b)); R[r]->set(&pool.at(v)); break;
                case 1: M.set_row(&pool.at(v), a); break;
                case 2: M.set(a, b, f); break;
                case 3: out.push_back(M.get(a, b)); break;
                case 4: M.mean(out, a); break;
                case 5: dst = (r + 1 + a) % 3; R[dst].reset(M - N); break;
                case 6: dst = (r + 1 + a) % 3; R[dst].reset(M + N); break;
                case 7: dst = (r + 1 + a) % 3; R[dst].reset(M * N); break;
                case 8: M += N; break;
                case 9: M.peq(a, b, f); break;
                case 10: out.push_back(M.frobenius_norm()); break;
                case 11: M.zero(); break;
                case 12: M.sum(a, out); break;
                case 13: out.push_back(M.sum()); break;
                case 14: M /= f; break;
                case 15: { dvec w(pool.begin() + v, pool.begin() + v + a); M /= w; break; }
                case 16: { dvec w(pool.begin() + v, pool.begin() + v + a); M.div_eq(w, b); break; }
                case 17: { dvec w(pool.begin() + v, pool.begin() + v + a); M.div_eq_pow(w, b, (unsigned) f); break; }
                case 18: M.pow_eq(f); break;
                case 19: out.push_back(M == N); break;
                case 20: M.copy_from(&N); break;
                case 21: { std::vector<unsigned> w; M.argmax(a, w); out.assign(w.begin(), w.end()); break; }
                case 22: M.resize(a, b); M.zero(); M.set(&pool.at(v)); break;
                case 23: if (r != s) R[r].reset(DM::create(&N)); break;
                case 24: R[r].reset(DM::create(a, b, true)); break;
                case 25: out.assign(M.as_pointer(), M.as_pointer() + M.get_nrow()*M.get_ncol()); break;
                case 26: { dvec w(pool.begin() + v, pool.begin() + v + a); dst = (r + 1 + b) % 3; R[dst].reset(M - w); break; }
                default: throw std::logic_error("bad op");
            }
        } catch (const base::parameter_exception& e) { out.assign(1, -7777);
        } catch (const std::runtime_error& e) { out.assign(1, -8888); }
        t.push_back(out.size());
        t.insert(t.end(), out.begin(), out.end());
        for (int i = 0; i < 3; i++) mdump(*R[i], t);
    }
    rs.arr("t", t);
}

OP(la) {
    std::string f = rq.s("f");
    dvec x = rq.a("x"), y = rq.a("y"), out;
    size_t n = rq.i("n"), m = rq.i("m");
    typedef base::linalg L;
    double tail = 1;
    if (f == "det") out.push_back(L::determinant(&x[0], n, n));
    else if (f == "adj") { out.resize(n*n); L::adjoint(&x[0], &out[0], n); }
    else if (f == "adjm") {
        std::unique_ptr<DM> A(DM::create(n, n)); A->set(&x[0]);
        std::unique_ptr<DM> B(L::adjoint(A.get())); out = B->as_vector();
    } else if (f == "inv") {
        out.resize(n*n); tail = L::inverse(&x[0], &out[0], n);
    } else if (f == "vdiff") L::vdiff(&x[0], &y[0], n, out);
    else if (f == "norm") out.push_back(L::frobenius_norm(&x[0], n));
    else if (f == "vm") { L::dot(&x[0], &y[0], n, m, out); }
    else if (f == "dot") out.push_back(L::dot((const double*) &x[0], (const double*) &y[0], n));
    else if (f == "vdot") out.push_back(L::dot(x, y));
    else if (f == "standardise") { L::scale(&x[0], n); out = x; }
    else if (f == "scale") L::scale(x, rq.f("c"), out);
    else if (f == "pow") L::pow(x, out, rq.f("c"));
    else if (f == "peq") { L::peq(&x[0], (const double*) &y[0], n); out = x; }
    else if (f == "sphere") { base::spherical_projection(&x[0], n, m); out = x; }
    else throw std::logic_error("bad f");
    rs.arr("out", out);
    rs.num("tail", tail);
    rs.arr("x", x);
    rs.arr("y", y);
}
