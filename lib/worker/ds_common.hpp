// Shared by the data-structure op files.
#pragma once
#include "proto.hpp"
#include <cassert>
#include <cmath>
#include <fstream>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
typedef std::vector<double> dvec;

struct Prog {
    dvec p; size_t i;
    Prog(const dvec& v) : p(v), i(0) {}
    bool more() const { return i < p.size(); }
    double d() { return p.at(i++); }
    long n() { return (long) p.at(i++); }
};

// what each cluster iterator interface of the library expects
struct It {
    const double* p; size_t n, i;
    It(const double* p, size_t n) : p(p), n(n), i(0) {}
    bool has_next() { return i < n; }
    double next() { return p[i++]; }
};

template <typename T> static std::vector<T> conv(const dvec& v) { return std::vector<T>(v.begin(), v.end()); }
