// Readers and writers, driven by small generated programs.
#include "ds_common.hpp"
#include "io.hpp"
#include "util.hpp"

using namespace knor;

static void spit(const std::string& fn, const std::string& s) {
    std::ofstream f(fn.c_str(), std::ios::binary);
    f.write(s.data(), s.size());
}

template <typename T> static void binio(const Req& rq, Resp& rs) {
    std::string fn = rq.s("file");
    size_t n = rq.i("nrow"), m = rq.i("ncol");
    std::vector<T> d = conv<T>(rq.a("data"));
    dvec chunks = rq.a("chunks");
    {
        base::bin_io<T> w(fn, "wb");
        size_t o = 0;
        for (size_t i = 0; i < chunks.size(); i++) {
            size_t c = (size_t) chunks[i];
            if (!c) continue;
            if (i % 2) w.write(&d[o], c);
            else w.write(std::vector<T>(d.begin() + o, d.begin() + o + c), c);
            o += c;
        }
    }
    std::ifstream raw(fn.c_str(), std::ios::binary | std::ios::ate);
    rs.put("bytes", (long) raw.tellg());
    rs.put("fsize", (long) base::filesize(fn.c_str()));
    rs.put("exists", (long) base::is_file_exist(fn.c_str()));
    rs.put("noexist", (long) base::is_file_exist((fn + ".nope").c_str()));
    { base::bin_io<T> r(fn, n, m); std::vector<T> v(n*m); r.read(&v); rs.arr("all_v", v); rs.put("end0", (long) (bool) r); }
    { base::bin_io<T> r(fn, n, m); std::vector<T> v(n*m); r.read(v.data()); rs.arr("all_p", v); }
    { base::bin_io<T> r(fn, n, m); dvec o; rs.put("beg", (long) (bool) r);
      for (size_t i = 0; i < n; i++) {
        std::vector<T> v(m);
        if (i % 2) r.readline(v.data()); else v = r.readline();
        o.insert(o.end(), v.begin(), v.end()); }
      rs.arr("lines", o); rs.put("end1", (long) (bool) r); }
    { base::bin_rm_reader<T> r(fn); std::vector<T> v(n*m); r.read(v); rs.arr("rm_all", v); }
    { base::bin_rm_reader<T> r(fn); r.set_ncol(m); std::vector<T> v(m); dvec o;
      while (r.readline(v) && o.size() < n*m + m) o.insert(o.end(), v.begin(), v.end());
      rs.arr("rm_lines", o); rs.put("rm_nrow", (long) r.get_nrow()); rs.put("rm_ncol", (long) r.get_ncol()); }
    { dvec at = rq.a("seeks"), o;
      base::bin_rm_reader<T> r(fn); r.set_ncol(m); std::vector<T> v(m);
      for (size_t i = 0; i < at.size(); i++) { r.seek((size_t) at[i]*m*sizeof(T)); r.readline(v); o.insert(o.end(), v.begin(), v.end()); }
      rs.arr("seeked", o); }
    unlink(fn.c_str());
}
OP(binio) {
    if (rq.s("type") == "unsigned") binio<unsigned>(rq, rs);
    else if (rq.s("type") == "float") binio<float>(rq, rs);
    else binio<double>(rq, rs);
}

// Rows at far offsets of a file that is already there.
OP(binseek) {
    std::string fn = rq.s("file");
    size_t m = rq.i("ncol");
    rs.put("fsize", (long) base::filesize(fn.c_str()));
    dvec at = rq.a("seeks"), o;
    base::bin_rm_reader<double> r(fn); r.set_ncol(m); dvec v(m);
    for (size_t i = 0; i < at.size(); i++) { r.seek((size_t) at[i]*m*sizeof(double)); r.readline(v); o.push_back(v[0]); o.push_back(v[m - 1]); }
    rs.arr("seeked", o);
}

OP(textio) {
    std::string fn = rq.s("file");
    size_t n = rq.i("nrow"), m = rq.i("ncol");
    spit(fn, rq.s("text"));
    { base::text_reader<double> r(fn); r.set_ncol(m); dvec v(n*m + 1, -1); r.read(v); rs.arr("all", v); rs.put("nrow", (long) r.get_nrow()); }
    { base::text_reader<double> r(fn); dvec v(m), o; while (r.readline(v) && o.size() < n*m + m) o.insert(o.end(), v.begin(), v.end());
      rs.arr("lines", o); rs.put("nrow2", (long) r.get_nrow()); rs.put("fn", r.get_fn() == fn ? 1L : 0L); }
    unlink(fn.c_str());
}

OP(storecl) {
    std::string dir = rq.s("dir");
    size_t n = rq.i("nrow"), m = rq.i("ncol");
    dvec d = rq.a("data");
    std::vector<unsigned> asg = conv<unsigned>(rq.a("asg"));
    unsigned id = rq.u("id"), cnt = rq.u("cnt");
    base::store_cluster(id, d.data(), cnt, asg.data(), n, m, dir);
}
