#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <cmath>
#include <algorithm>
#include <stdexcept>
typedef uint64_t u64; typedef int64_t i64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); }
    int i(int a, int b) { return a + i(b - a + 1); }      // inclusive
    bool p(double q) { return u() < q; }
    double n() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    template <class V> void shuffle(V &v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[i((int)k)]); }
};

// One line of a trace: an operation of the simulated session, or a fault.
struct Op {
    std::string k; std::vector<i64> i; std::vector<double> d;
    Op() {}
    Op(const std::string &kk, std::vector<i64> ii = {}, std::vector<double> dd = {}) : k(kk), i(std::move(ii)), d(std::move(dd)) {}
    std::string str() const {
        std::string s = k; char b[64];
        for (i64 x : i) { snprintf(b, sizeof b, " %lld", (long long)x); s += b; }
        if (!d.empty()) { s += " |"; for (double x : d) { snprintf(b, sizeof b, " %a", x); s += b; } }
        return s;
    }
    static Op parse(const std::string &line) {
        std::istringstream is(line); Op o; std::string w; bool dbl = false; is >> o.k;
        while (is >> w) { if (w == "|") { dbl = true; continue; } if (dbl) o.d.push_back(strtod(w.c_str(), nullptr)); else o.i.push_back(strtoll(w.c_str(), nullptr, 10)); }
        return o;
    }
    i64 at(size_t n, i64 def = 0) const { return n < i.size() ? i[n] : def; }
    double fd(size_t n, double def = 0) const { return n < d.size() ? d[n] : def; }
};
typedef std::vector<Op> Trace;

struct Stats {
    std::map<std::string, i64> c;       // counters
    double sim_ms = 0;
    void add(const std::string &k, i64 n = 1) { c[k] += n; }
};

// order-sensitive digest of everything a run observed
struct Digest {
    u64 h = 0xcbf29ce484222325ULL;
    void u(u64 x) { for (int k = 0; k < 8; ++k) { h = (h ^ (x & 0xff)) * 0x100000001b3ULL; x >>= 8; } }
    void d(double x) { u64 b; memcpy(&b, &x, 8); u(b); }
    void s(const std::string &x) { for (char c : x) h = (h ^ (uint8_t)c) * 0x100000001b3ULL; u(x.size()); }
};

struct Violation { std::string cls, msg; };          // thrown by checks
inline void fail(const std::string &cls, const std::string &msg) { throw Violation{cls, msg}; }
inline std::string fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
