// Driver for the kernel object.
#include <cassert>
#include <numeric>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/core/Kernel.hpp>

using namespace vt;
using mltk::Data;
using mltk::Point;
typedef mltk::Kernel<double> K;

static std::unique_ptr<K> g_k;
static std::shared_ptr<Data<double>> g_d;
static bool g_fresh = true;       // the next computation is not served from the cache
static bool g_done = false;       // a matrix was computed
static int g_mt = 0;              // with that type
static size_t g_of = 0;           // for that many points

static double custom(Point<double> &a, Point<double> &b, double p) {
    double s = 0;
    for (size_t i = 0; i < a.size(); i++) s += a[i] + b[i];
    return s * p;
}
static double scale() { return g_k->getType() == 2 ? 1000000 : 1; }
static std::string matrix(const mltk::dMatrix &m) {
    double s = scale();
    return arr(m, [s](const std::vector<double> &r) { return arr(r, [s](double v) { return std::to_string(s == 1 ? num(v) : fix(v, s)); }); });
}
static J base(const std::string &before) {
    J j;
    j.i("gtype", g_k->getType()).i("gparam", num(g_k->getParam())).b("kept", !g_d || before == fingerprint(*g_d));
    return j;
}
static std::string op(const std::string &o, In &in) {
    std::string before = g_d ? fingerprint(*g_d) : "";
    if (o == "new") {
        long t = in.i(), p = in.i();
        g_k.reset(new K((int) t, (double) p));
        g_done = false; g_fresh = true;
        return base(before).end();
    }
    if (o == "data") {
        auto ids = in.list<int>();
        auto ys = in.list<double>();
        auto al = in.list<double>();
        std::vector<double> flat;
        long n = in.i();
        for (long k = 0; k < n; k++) { auto x = in.list<double>(); flat.insert(flat.end(), x.begin(), x.end()); }
        g_d = std::make_shared<Data<double>>(dataset(ids, ys, flat));
        for (size_t i = 0; i < g_d->size(); i++) (*g_d)[i]->Alpha() = al[i];
        if (!g_k) return J().b("skip", true).end();
        return base(fingerprint(*g_d)).end();
    }
    if (o == "settype") { long t = in.i(); if (!g_k) return J().b("skip", true).end(); g_k->setType((int) t); g_fresh = true; return base(before).end(); }
    if (o == "setparam") { long p = in.i(); if (!g_k) return J().b("skip", true).end(); g_k->setParam((double) p); g_fresh = true; return base(before).end(); }
    if (!g_k) return J().b("skip", true).end();
    if (o == "recompute") { g_k->recompute(); g_fresh = true; return base(before).end(); }
    if (!g_d) return J().b("skip", true).end();
    if (o == "compute" || o == "call") {
        bool own = g_k->getType() == mltk::CUSTOM;
        if (o == "compute") { if (own) g_k->compute(g_d, custom); else g_k->compute(g_d); }
        else { if (own) (*g_k)(*g_d, custom); else (*g_k)(*g_d); }
        if (g_fresh) g_mt = g_k->getType();
        g_fresh = false;
        g_done = true;
        auto m = g_k->getKernelMatrix();
        g_of = m.size();
        bool views = m == *g_k->getKernelMatrixPointer() && g_k->size() == m.size();
        for (size_t i = 0; views && i < m.size(); i++) views = (*g_k)[i] == m[i];
        return base(before).raw("matrix", matrix(m)).b("views", views).end();
    }
    bool own = g_k->getType() == mltk::CUSTOM;
    if (o == "h") {
        if (own) return J().b("skip", true).end();
        std::string m = matrix(*g_k->generateMatrixH(g_d));
        return base(before).raw("matrix", m).end();
    }
    if (o == "hout") {
        long out = in.i();
        if (own || out < 0 || out >= (long) g_d->dim()) return J().b("skip", true).end();
        std::string m = matrix(*g_k->generateMatrixHwithoutDim(g_d, (int) out));
        return base(before).raw("matrix", m).end();
    }
    if (o == "norm") {
        if (!g_done || g_of != g_d->size()) return J().b("skip", true).end();
        double a = g_k->norm(*g_d), f = g_k->featureSpaceNorm(g_d);
        bool stable = true;
        for (int k = 0; k < 3; k++) if (g_k->norm(*g_d) != a || g_k->featureSpaceNorm(g_d) != f) stable = false;
        if (std::isnan(a)) stable = true;      // a custom or stale matrix may not be a scalar product
        double s = g_mt == 2 ? 1000000 : 1;
        return base(before).i("norm", fix(a * a, s)).i("fsnorm", fix(f * f, s)).b("stable", stable).end();
    }
    if (o == "pair") {
        auto a = in.list<double>(), b = in.list<double>();
        if (own || a.size() != b.size()) return J().b("skip", true).end();
        Point<double> p(a.size()), q(b.size());
        for (size_t i = 0; i < a.size(); i++) { p[i] = a[i]; q[i] = b[i]; }
        double s = scale();
        auto v = [&](double x) { return s == 1 ? num(x) : fix(x, s); };
        return base(before).i("value", v((*g_k)(p, q))).i("back", v((*g_k)(q, p))).end();
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] { g_k.reset(); g_d.reset(); g_done = false; }, op); }
