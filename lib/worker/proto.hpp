// Request/response protocol and fork-per-case server shared by all worker binaries.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Req {
    std::map<std::string, std::string> kv;
    std::map<std::string, std::vector<double> > arr;

    bool has(const std::string& k) const { return kv.count(k) > 0; }
    bool hasarr(const std::string& k) const { return arr.count(k) > 0; }
    std::string s(const std::string& k, const std::string& d = "") const {
        std::map<std::string, std::string>::const_iterator it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
    long i(const std::string& k, long d = 0) const {
        return has(k) ? strtol(kv.at(k).c_str(), NULL, 10) : d;
    }
    unsigned u(const std::string& k, unsigned d = 0) const {
        return has(k) ? (unsigned) strtoul(kv.at(k).c_str(), NULL, 10) : d;
    }
    double f(const std::string& k, double d = 0) const {
        return has(k) ? strtod(kv.at(k).c_str(), NULL) : d;
    }
    std::vector<double> a(const std::string& k) const {
        return arr.count(k) ? arr.at(k) : std::vector<double>();
    }
};

struct Resp {
    std::string buf;
    void put(const std::string& k, const std::string& v) {
        buf += "s " + k + " " + v + "\n";
    }
    void put(const std::string& k, long v) { put(k, std::to_string(v)); }
    void num(const std::string& k, double v) {
        arr(k, std::vector<double>(1, v));
    }
    template <typename V> void arr(const std::string& k, const V& v) {
        std::vector<double> d;
        for (size_t i = 0; i < v.size(); i++) d.push_back((double) v[i]);
        buf += "a " + k + " " + std::to_string(d.size()) + "\n";
        if (!d.empty())
            buf.append((const char*) &d[0], d.size()*sizeof(double));
        buf += "\n";
    }
};

// an operation whose source did not compile against this tree
struct NotBuilt { std::string what; NotBuilt(const std::string& w) : what(w) {} };

typedef void (*op_fn)(const Req&, Resp&);
std::map<std::string, op_fn>& op_registry();
struct OpReg {
    OpReg(const char* name, op_fn fn) { op_registry()[name] = fn; }
};
#define OP(name) static void op_##name(const Req&, Resp&); \
    static OpReg reg_##name(#name, op_##name); \
    static void op_##name(const Req& rq, Resp& rs)
