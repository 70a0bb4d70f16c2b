#include "rt_common.hpp"
#include <cstdio>
#include <sys/mman.h>
#include <fstream>
#include <unistd.h>
#include <thread>

redistribute_fn redistribute = NULL;
std::map<std::string, alg_fn>& alg_registry() {
    static std::map<std::string, alg_fn> r;
    return r;
}

// A matrix of zeros too large to be stored, but for a few values: untouched pages take no memory.
struct Vast {
    size_t bytes; double* p;
    Vast(const Req& rq) : bytes(sizeof(double)*(size_t) rq.i("nrow")*(size_t) rq.i("ncol")) {
        p = (double*) mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::runtime_error("mmap");
        std::vector<double> at = rq.a("vast_at"), v = rq.a("vast_v");
        for (size_t i = 0; i < at.size(); i++) p[(size_t) at[i]] = v[i];
    }
    ~Vast() { munmap(p, bytes); }
};

static void put_result(Resp& rs, const base::cluster_t& c, const std::string& p) {
    rs.put(p + "nrow", (long) c.nrow);
    rs.put(p + "ncol", (long) c.ncol);
    rs.put(p + "iters", (long) c.iters);
    rs.put(p + "k", (long) c.k);
    rs.arr(p + "asg", c.assignments);
    rs.arr(p + "cnt", c.assignment_count);
    rs.arr(p + "cen", c.centroids);
}

// Runs the routine `reps` times (thread counts cycling through arr "threads"),
// each time on a fresh copy of the data, in memory or through a file.
OP(run) {
    if (!alg_registry().count(rq.s("alg"))) throw NotBuilt(rq.s("alg"));
    alg_fn alg = alg_registry()[rq.s("alg")];
    std::vector<double> data = rq.a("data"), cen0 = rq.a("centers");
    unsigned reps = rq.u("reps", 1);
    std::vector<double> Ts = rq.a("threads");
    if (Ts.empty()) Ts.push_back(rq.u("T", 1));
    std::string fn = rq.s("file");
    if (!fn.empty() && !rq.i("filekeep", 0)) {
        std::ofstream f(fn.c_str(), std::ios::binary);
        if (!data.empty())
            f.write((const char*) &data[0], data.size()*sizeof(double));
    }
    long touched = 0, ctouched = 0;
    if (reps < Ts.size()) reps = Ts.size();
    rs.put("reps", (long) reps);
    for (unsigned r = 0; r < reps && !rq.hasarr("vast_at"); r++) {
        std::vector<double> d = data, c = cen0;
        std::string p = std::to_string(r) + ".";
        base::cluster_t res = alg(Call(rq, rs, fn.empty() ? d.data() : NULL, fn, c, p, (unsigned) Ts[r % Ts.size()]));
        put_result(rs, res, p);
        if (fn.empty() && !d.empty() &&
                memcmp(&d[0], &data[0], d.size()*sizeof(double))) {
            touched++;
            rs.arr(p + "data", d);
        }
        if (!c.empty() && memcmp(&c[0], &cen0[0], c.size()*sizeof(double)))
            ctouched++;
    }
    if (rq.hasarr("vast_at")) {
        Vast d(rq);
        std::vector<double> c = cen0;
        put_result(rs, alg(Call(rq, rs, d.p, fn, c, "0.", (unsigned) Ts[0])), "0.");
    }
    rs.put("touched", touched);
    rs.put("ctouched", ctouched);
    if (!fn.empty() && !rq.i("filekeep", 0)) unlink(fn.c_str());
}

// Several runs of any routines in one process: one after the other, or each on a thread of its own. Specs are "<i>.<key>".
OP(multi) {
    size_t N = rq.i("runs");
    std::vector<Req> R(N);
    std::vector<Resp> S(N);
    std::vector<std::vector<double> > D(N), C(N), D0(N);
    for (size_t i = 0; i < N; i++) {
        std::string p = std::to_string(i) + ".";
        for (auto const& kv : rq.kv) if (!kv.first.compare(0, p.size(), p)) R[i].kv[kv.first.substr(p.size())] = kv.second;
        for (auto const& kv : rq.arr) if (!kv.first.compare(0, p.size(), p)) R[i].arr[kv.first.substr(p.size())] = kv.second;
        if (!alg_registry().count(R[i].s("alg"))) throw NotBuilt(R[i].s("alg"));
        D0[i] = D[i] = R[i].a("data"); C[i] = R[i].a("centers");
    }
    const std::string nofile;
    std::vector<std::shared_ptr<void> > kept;
    auto one = [&](size_t i, bool keep) {
        std::string p = std::to_string(i) + ".", what = "ok";
        size_t j = R[i].i("share", i);       // whose matrix it reads
        try {
            Call c(R[i], S[i], D[j].data(), nofile, C[i], p, R[i].u("T", 1));
            if (keep) c.keep = &kept;
            put_result(S[i], alg_registry()[R[i].s("alg")](c), p);
        } catch (const std::exception& e) { what = e.what(); }
        S[i].put(p + "what", what);
    };
    if (rq.i("par", 0)) {
        std::vector<std::thread> ths;
        for (size_t i = 0; i < N; i++) ths.push_back(std::thread(one, i, false));
        for (auto& t : ths) t.join();
    } else for (size_t i = 0; i < N; i++) one(i, rq.i("keep", 0));
    kept.clear();
    for (size_t i = 0; i < N; i++) {
        S[i].put(std::to_string(i) + ".same", (long) (D[i] == D0[i] && C[i] == R[i].a("centers")));
        rs.buf += S[i].buf;
    }
}
