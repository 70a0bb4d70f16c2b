// Random streams, driven by small generated programs.
#include "ds_common.hpp"
#include "util.hpp"

using namespace knor;

template <typename T> static dvec stream(const Req& rq) {
    size_t b = rq.i("b"), e = rq.i("e"), seed = rq.i("seed"), n = rq.i("n");
    dvec t;
    if (rq.i("kind") == 0) {
        size_t P = rq.i("P");
        for (size_t r = 0; r < P; r++) {
            base::mpi_random_generator<T> g(b, e, r, P, seed);
            for (size_t i = 0; i < n; i++) t.push_back((double) g.next());
        }
        base::mpi_random_generator<T> g(b, e, 0, 1, seed);
        for (size_t i = 0; i < n*P; i++) t.push_back((double) g.next());
    } else {
        dvec skips = rq.a("skips");
        for (size_t s = 0; s < skips.size(); s++) {
            base::rand123emulator<T> g(b, e, (size_t) skips[s], seed);
            for (size_t i = 0; i < n; i++) t.push_back((double) g.next());
        }
        base::rand123emulator<T> g(b, e, 0, seed);
        size_t mx = 0;
        for (size_t s = 0; s < skips.size(); s++) if (skips[s] > mx) mx = (size_t) skips[s];
        for (size_t i = 0; i < n + mx; i++) t.push_back((double) g.next());
    }
    if (rq.i("defseed")) {        // both classes share one default seed
        base::mpi_random_generator<T> g(b, e, 0, 1);
        base::rand123emulator<T> h(b, e, 0), h2(b, e, 0, 1234);
        for (size_t i = 0; i < n; i++) { double q = h2.next(); t.push_back((double) g.next() - q); t.push_back((double) h.next() - q); }
    }
    return t;
}
OP(rng) { rs.arr("t", rq.i("wide") ? stream<size_t>(rq) : stream<unsigned>(rq)); }
