// Common parts of the conformance drivers: reading operations, writing events.
// A driver reads one operation per line from stdin ("begin <sid>" starts a
// scenario) and answers each with exactly one JSON line on file descriptor 3.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vt {
    // TLC integers have 32 bits: anything that is not a small integer becomes a sentinel.
    const long BIG = 1L << 30;
    inline long num(double v) {
        if (std::isnan(v)) return BIG;
        if (v >= BIG) return BIG + 1;
        if (v <= -BIG) return -BIG - 1;
        double r = std::round(v);
        if (r != v) return BIG + 2;
        return (long) r;
    }
    // fixed point with 10^-digits resolution (only for values compared with a tolerance)
    inline long fix(double v, double scale) {
        if (std::isnan(v)) return BIG;
        double r = std::round(v * scale);
        if (r >= BIG) return BIG + 1;
        if (r <= -BIG) return -BIG - 1;
        return (long) r;
    }

    struct J {
        std::string s;
        bool first = true;
        J() : s("{") {}
        void key(const char *k) {
            if (!first) s += ",";
            first = false;
            s += "\"";
            s += k;
            s += "\":";
        }
        J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
        J &i(const char *k, long v) { key(k); s += std::to_string(v); return *this; }
        J &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
        J &str(const char *k, const std::string &v);
        std::string end() const { return s + "}"; }
    };
    inline std::string quote(const std::string &v) {
        std::string o = "\"";
        for (unsigned char c: v) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
            else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += (char) c;
        }
        return o + "\"";
    }
    inline J &J::str(const char *k, const std::string &v) { key(k); s += quote(v); return *this; }

    template <class V, class F> std::string arr(const V &v, F f) {
        std::string o = "[";
        bool first = true;
        for (const auto &e: v) { if (!first) o += ","; first = false; o += f(e); }
        return o + "]";
    }
    template <class V> std::string ints(const V &v) {
        return arr(v, [](const auto &e) { return std::to_string(num((double) e)); });
    }
    template <class V> std::string strs(const V &v) {
        return arr(v, [](const auto &e) { return quote(e); });
    }
    inline std::string bools(const std::vector<bool> &v) {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i] ? "true" : "false"; }
        return o + "]";
    }

    struct In {
        std::istringstream ss;
        explicit In(const std::string &l) : ss(l) {}
        std::string word() { std::string w; ss >> w; return w; }
        long i() { std::string w; ss >> w; return w.empty() ? 0 : std::strtol(w.c_str(), nullptr, 10); }
        double d() { std::string w; ss >> w; return w.empty() ? 0 : std::strtod(w.c_str(), nullptr); }
        // a counted list: n v1 ... vn
        template <class T = int> std::vector<T> list() { long n = i(); std::vector<T> v; for (long k = 0; k < n; k++) v.push_back((T) d()); return v; }
        bool more() { ss >> std::ws; return !ss.eof(); }
    };

    inline void emit(const std::string &line) {
        std::string o = line + "\n";
        const char *p = o.data();
        size_t n = o.size();
        while (n > 0) { ssize_t w = ::write(3, p, n); if (w <= 0) _exit(97); p += w; n -= (size_t) w; }
    }

    // reset() starts a scenario, op(name, in) executes one operation and returns its event
    inline int loop(const std::function<void()> &reset, const std::function<std::string(const std::string &, In &)> &op) {
        std::string line;
        while (std::getline(std::cin, line)) {
            if (line.empty()) continue;
            In in(line);
            std::string name = in.word();
            if (name == "begin") { reset(); emit("{}"); continue; }
            std::string r;
            try { r = op(name, in); }
            catch (const std::exception &e) { r = J().str("exc", e.what()).end(); }
            catch (...) { r = J().str("exc", "unknown").end(); }
            emit(r);
        }
        return 0;
    }
}
