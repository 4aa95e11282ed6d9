// Driver for points: registers, expressions, reductions, statistics and distances.
#include <cassert>
#include <memory>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/core/Point.hpp>
#include <ufjfmltk/core/Statistics.hpp>
#include <ufjfmltk/core/DistanceMetric.hpp>

using namespace vt;
namespace D = mltk::metrics::dist;
using Rows = std::vector<std::vector<double>>;

static Rows rows(In &in) {
    Rows r;
    long n = in.i();
    for (long i = 0; i < n; i++) r.push_back(in.list<double>());
    return r;
}

// Three points and the operations on them. The right hand sides are prefix codes:
//   r (1..3) a point; 4 e absolute value; 5 k e power k;
//   1o e p, 2o p e, 3o e s, 4o s e with o = 0..3 for + - * /, p a point and s a scalar
template <class T> struct Machine {
    using P = mltk::Point<T>;
    std::unique_ptr<P> r[4];
    std::vector<long> code;
    size_t at = 0;
    long next() { return code.at(at++); }

    template <class A, class B, class F> void binary(long o, const A &a, const B &b, F &&f) {
        if (o == 0) f(a + b);
        else if (o == 1) f(a - b);
        else if (o == 2) f(a * b);
        else f(a / b);
    }
    // the parts of an expression live until f returns: expressions only refer to them
    template <int Depth, class F> void expr(F &&f) {
        long c = next();
        if (c < 4) { f(std::as_const(*r[c])); return; }
        if constexpr (Depth > 0) {
            if (c == 4) expr<Depth - 1>([&](const auto &a) { f(mltk::abs(a)); });
            else if (c == 5) { int k = (int) next(); expr<Depth - 1>([&](const auto &a) { f(mltk::pow(a, k)); }); }
            else if (c < 20) expr<Depth - 1>([&](const auto &a) { const P &b = *r[next()]; binary(c - 10, a, b, f); });
            else if (c < 30) { const P &a = *r[next()]; expr<Depth - 1>([&](const auto &b) { binary(c - 20, a, b, f); }); }
            else if (c < 40) expr<Depth - 1>([&](const auto &a) { T s = (T) next(); binary(c - 30, a, s, f); });
            else { T s = (T) next(); expr<Depth - 1>([&](const auto &b) { binary(c - 40, s, b, f); }); }
        } else throw std::runtime_error("expression too deep");
    }
    std::string state() {
        std::vector<int> q{1, 2, 3};
        J j;
        j.raw("r", arr(q, [&](int k) { return ints(r[k]->X()); }));
        j.raw("m", arr(q, [&](int k) { return ints(std::vector<double>{r[k]->Y() < -1e300 ? -999 : r[k]->Y(), (double) r[k]->Id(), r[k]->Alpha()}); }));
        j.raw("text", arr(q, [&](int k) { std::ostringstream o; o << *r[k]; return quote(o.str()); }));
        return j.end();
    }
    void fresh(In &in) {
        Rows xs = rows(in);
        auto ys = in.list<double>(), ids = in.list<double>(), als = in.list<double>();
        for (int k = 1; k <= 3; k++) {
            r[k] = std::make_unique<P>(xs[k - 1].size());
            for (size_t i = 0; i < xs[k - 1].size(); i++) (*r[k])[i] = (T) xs[k - 1][i];
            r[k]->Y() = ys[k - 1]; r[k]->Id() = (size_t) ids[k - 1]; r[k]->Alpha() = als[k - 1];
        }
    }
    std::string op(const std::string &o, In &in) {
        if (o == "new") { fresh(in); return state(); }
        if (!r[1]) return J().b("skip", true).end();
        if (o == "copy") { long d = in.i(), s = in.i(); r[d] = std::make_unique<P>(*r[s]); return state(); }
        if (o == "assign") { long d = in.i(), s = in.i(); *r[d] = *r[s]; return state(); }
        if (o == "set") { long d = in.i(), i = in.i(); (*r[d])[i - 1] = (T) in.i(); return state(); }
        if (o == "fill") { long d = in.i(); *r[d] = (T) in.i(); return state(); }
        if (o == "sel") {
            long d = in.i(), s = in.i();
            auto f = in.list<size_t>();
            for (auto &v: f) v--;
            r[d] = std::make_unique<P>(r[s]->selectFeatures(f));
            return state();
        }
        if (o == "let" || o == "build") {
            long d = in.i();
            code = in.list<long>(); at = 0;
            if (o == "let") expr<2>([&](const auto &e) { *r[d] = e; });
            else expr<2>([&](const auto &e) { auto p = std::make_unique<P>(e); r[d] = std::move(p); });
            return state();
        }
        if (o == "upd" || o == "upds") {
            long d = in.i(), w = in.i();
            auto apply = [&](const auto &e) {
                P &p = *r[d];
                if (w == 0) p += e; else if (w == 1) p -= e; else if (w == 2) p *= e; else p /= e;
            };
            if (o == "upds") { apply((T) in.i()); return state(); }
            code = in.list<long>(); at = 0;
            expr<1>(apply);
            return state();
        }
        if (o == "red") {
            J j;
            code = in.list<long>(); at = 0;
            expr<1>([&](const auto &e) {
                double l2 = e.norm(mltk::NORM_L2);
                j.i("n", e.size()).i("sum", num(e.sum())).i("sq", num(e.sum([](const T &v) { return v * v; }))).i("max", num(mltk::max(e))).i("min", num(mltk::min(e)));
                j.i("l1", fix(e.norm(mltk::NORM_L1), 1000)).i("l2", fix(l2 * l2, 1000)).i("linf", fix(e.norm(mltk::NORM_LINF), 1000));
                j.i("mean", fix(mltk::stats::mean(e), 1000)).i("var", fix(mltk::stats::var(e), 1000)).i("std", fix(std::pow(mltk::stats::std_dev(e), 2), 1000));
            });
            return j.end();
        }
        if (o == "pair") {
            long a = in.i(), b = in.i();
            const P &p = *r[a], &q = *r[b];
            return J().i("dot", num(mltk::dot(p, q))).b("eq", p == q).b("ne", p != q).i("cov", p.size() < 2 ? 0 : fix(mltk::stats::covar(p, q), 1000)).end();
        }
        if (o == "norm") {
            long a = in.i(), q = in.i();
            if constexpr (std::is_same_v<T, double>) {
                P p = mltk::normalize(*r[a], (double) q);
                auto x = r[a]->X();
                P p2 = mltk::normalize(x, (double) q);
                auto f = [](double v) { return std::to_string(fix(v, 10000)); };
                return J().raw("v", arr(p.X(), f)).raw("v2", arr(p2.X(), f)).raw("v3", arr(x, f)).end();
            }
        }
        return J().b("skip", true).end();
    }
};

static std::unique_ptr<Machine<double>> g_d;
static std::unique_ptr<Machine<long>> g_i;
static bool g_int = false;

// how each distance is told: itself, its square, or an exponential that makes logarithms into products
static std::string dist(In &in) {
    auto x = in.list<double>(), y = in.list<double>();
    mltk::Point<double> p(x), q(y);
    J j;
    auto tell = [&](const char *name, const auto &m, auto how) { j.i(name, fix(how(m(p, q)), 1000)); };
    auto id = [](double v) { return v; };
    auto sq = [](double v) { return v < 0 ? -1 : v * v; };
    auto ex = [](double k) { return [k](double v) { return std::exp(k * v); }; };
    tell("Euclidean", D::Euclidean<double>(), sq);
    tell("Manhattan", D::Manhattan<double>(), id);
    tell("Chebyshev", D::Chebyshev<double>(), id);
    tell("Lorentzian", D::Lorentzian<double>(), ex(1));
    tell("Canberra", D::Canberra<double>(), id);
    tell("Sorensen", D::Sorensen<double>(), id);
    tell("AvgManhattan", D::AvgManhattan<double>(), id);
    tell("NonIntersection", D::NonIntersection<double>(), id);
    tell("Jaccard", D::Jaccard<double>(), id);
    tell("Cosine", D::Cosine<double>(), [](double v) { double w = 1 - v; return w < 0 ? -w * w : w * w; });
    tell("Dice", D::Dice<double>(), id);
    tell("Chord", D::Chord<double>(), sq);
    tell("Bhattacharyya", D::Bhattacharyya<double>(), ex(-1));
    tell("SquaredChord", D::SquaredChord<double>(), id);
    tell("Matusita", D::Matusita<double>(), sq);
    tell("Hellinger", D::Hellinger<double>(), sq);
    tell("SquaredEuclidean", D::SquaredEuclidean<double>(), id);
    tell("Clark", D::Clark<double>(), sq);
    tell("Neyman", D::Neyman<double>(), id);
    tell("Pearson", D::Pearson<double>(), id);
    tell("Squared", D::Squared<double>(), id);
    tell("ProbabilisticSymmetric", D::ProbabilisticSymmetric<double>(), id);
    tell("Divergence", D::Divergence<double>(), id);
    tell("AdditiveSymmetric", D::AdditiveSymmetric<double>(), id);
    tell("Average", D::Average<double>(), sq);
    tell("SquaredChiSquared", D::SquaredChiSquared<double>(), id);
    tell("KullbackLeibler", D::KullbackLeibler<double>(), ex(1));
    tell("Jeffreys", D::Jeffreys<double>(), ex(1));
    tell("KDivergence", D::KDivergence<double>(), ex(1));
    tell("Topsoe", D::Topsoe<double>(), ex(1));
    tell("JensenShannon", D::JensenShannon<double>(), ex(2));
    tell("JensenDifference", D::JensenDifference<double>(), ex(4));
    tell("MaxSymmetric", D::MaxSymmetric<double>(), id);
    tell("MinSymmetric", D::MinSymmetric<double>(), id);
    tell("AverageL1Linf", D::AverageL1Linf<double>(), id);
    tell("KumarJohnson", D::KumarJohnson<double>(), id);
    tell("Taneja", D::Taneja<double>(), ex(4));
    tell("Hassanat", D::Hassanat<double>(), id);
    return J().raw("v", j.end()).end();
}
static std::string stat(In &in) {
    auto ids = in.list<int>();
    auto ys = in.list<double>();
    Rows xs = rows(in);
    auto names = in.list<int>();
    auto feats = in.list<int>();
    int f = in.i();
    std::vector<double> flat;
    for (auto &x: xs) flat.insert(flat.end(), x.begin(), x.end());
    auto d = dataset(ids, ys, flat);
    d.setFeaturesNames(names);
    std::string before = fingerprint(d);
    namespace S = mltk::stats;
    std::vector<double> mean, var;
    for (size_t k = 0; k < d.dim(); k++) { mean.push_back(S::mean(d, k)); var.push_back(std::pow(S::std_dev(d, k), 2)); }
    auto t = [](double v) { return fix(v, 1000); };
    auto s = [](double v) { return fix(v * v, 1000); };
    J j;
    j.raw("mean", arr(mean, [&](double v) { return std::to_string(t(v)); })).raw("var", arr(var, [&](double v) { return std::to_string(t(v)); }));
    j.i("total", t(S::var(d, (size_t) -1))).i("rad2", s(S::radius(d, -1, 2))).i("rad2f", s(S::radius(d, f, 2))).i("rad1", t(S::radius(d, -1, 1))).i("rad1f", t(S::radius(d, f, 1)));
    j.i("cen", s(S::distCenters(d, -1))).i("cenf", s(S::distCenters(d, f))).i("wof", s(S::distCentersWithoutFeats(d, feats, -1)));
    return j.b("kept", before == fingerprint(d)).end();
}
static std::string line(In &in) {
    double lo = in.i(), hi = in.i();
    auto p = mltk::linspace<double>(lo, hi, in.i());
    return J().raw("v", arr(p.X(), [](double v) { return std::to_string(fix(v, 1000)); })).end();
}
static std::string rnd(In &in) {
    double lo = in.i(), hi = in.i();
    size_t n = in.i(), seed = in.i();
    auto a = mltk::random_init<double>(lo, hi, n, seed), b = mltk::random_init<double>(lo, hi, n, seed), c = mltk::random_init<double>(lo, hi, n, seed + 1);
    bool in_ = true;
    for (double v: a.X()) in_ = in_ && v >= lo && v < hi;
    return J().i("n", a.size()).b("same", a == b).b("other", a != c).b("in", in_).end();
}
static std::string fun(In &in) {
    auto x = in.list<double>();
    mltk::Point<double> p(x);
    mltk::Point<double> e = mltk::exp(mltk::log(p)), c = mltk::pow(mltk::cos(p), 2) + mltk::pow(mltk::sin(p), 2), t = mltk::cos(p) - mltk::cos(mltk::abs(p)), u = mltk::sin(p) * 1;
    mltk::Point<double> l = mltk::exp(mltk::log(p) + mltk::log(p)), z = mltk::cos(p - p), w = mltk::sin(p - p), m = mltk::exp(p - p);
    auto f = [](double v) { return std::to_string(fix(v, 1000)); };
    J j;
    j.raw("el", arr(e.X(), f)).raw("l", arr(l.X(), f)).raw("one", arr(c.X(), f)).raw("cos", arr(mltk::Point<double>(mltk::cos(p)).X(), f)).raw("sin", arr(u.X(), f));
    return j.raw("c0", arr(z.X(), f)).raw("s0", arr(w.X(), f)).raw("e0", arr(m.X(), f)).end();
}
static std::string op(const std::string &o, In &in) {
    if (o == "dist") return dist(in);
    if (o == "stat") return stat(in);
    if (o == "line") return line(in);
    if (o == "rnd") return rnd(in);
    if (o == "fun") return fun(in);
    if (o == "new") g_int = in.word() == "i";
    return g_int ? g_i->op(o, in) : g_d->op(o, in);
}
int main() {
    return loop([] { g_d = std::make_unique<Machine<double>>(); g_i = std::make_unique<Machine<long>>(); g_int = false; }, op);
}
