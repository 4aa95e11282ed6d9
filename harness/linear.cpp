// Driver for the classifiers that separate with a hyperplane or a kernel expansion.
#include <memory>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/Classifier.hpp>
#include <ufjfmltk/classifier/IMA.hpp>
#include <ufjfmltk/classifier/SMO.hpp>
#include <ufjfmltk/classifier/Perceptron.hpp>

using namespace vt;
using namespace mltk::classifier;
using mltk::Data;
using mltk::Point;
typedef std::vector<std::vector<double>> Rows;

struct Setup { long kind = 0, q = 2, type = 0, way = 0; double rate = .5, gamma = 0, param = 0; } g;
static std::unique_ptr<Classifier<double>> g_learner;
static std::shared_ptr<Data<double>> g_data;     // the caller's copy
static long g_fits = 0;

static mltk::KernelType ktype() { return (mltk::KernelType) g.type; }
static void make(const Data<double> &d) {
    auto k = ktype();
    switch (g.kind) {
        case 1: g_learner.reset(new PerceptronPrimal<double>(d, g.q, g.rate)); break;
        case 2: if (g.way) { auto *p = new PerceptronDual<double>(d, g.rate); p->setKernelType(k); p->setKernelParam(g.param); g_learner.reset(p); }
                else g_learner.reset(new PerceptronDual<double>(d, k, g.param, g.rate));
                break;
        case 3: g_learner.reset(new PerceptronFixedMarginPrimal<double>(d, g.gamma, g.q, g.rate)); break;
        case 4: g_learner.reset(new PerceptronFixedMarginDual<double>(d, k, g.param, g.gamma, g.rate)); break;
        case 5: g_learner.reset(new BalancedPerceptron<double>(d, 7)); g_learner->setLearningRate(g.rate); break;
        case 6: if (g.way) { auto *p = new IMAp<double>(); p->setqNorm(g.q); p->setSamples(d); g_learner.reset(p); }
                else g_learner.reset(new IMAp<double>(d, g.q));
                break;
        case 7: if (g.way) { g_learner.reset(new IMADual<double>(k, g.param, g.rate)); g_learner->setSamples(d); }
                else g_learner.reset(new IMADual<double>(d, k, g.param, g.rate));
                break;
        case 8: if (g.way) { auto *p = new SMO<double>(); p->setKernelType(k); p->setKernelParam(g.param); p->setSamples(d); g_learner.reset(p); }
                else g_learner.reset(new SMO<double>(d, k, g.param));
                break;
        case 9: { auto *p = new IMApFixedMargin<double>(d, g.gamma); p->setqNorm(g.q); p->setLearningRate(g.rate); *p->getFlagNot1aDim() = 0; g_learner.reset(p); } break;
    }
}
static std::vector<double> kernelRow(const Point<double> &x, const Data<double> &d) {
    mltk::Kernel<double> k(g.type, g.param);
    std::vector<double> r;
    for (size_t i = 0; i < d.size(); i++) r.push_back(k(x, *d[i]));
    return r;
}
static std::string result(bool ret, const Rows &queries, const std::string &before) {
    auto &c = *g_learner;
    auto s = c.getSolution();
    const auto &d = *g_data;
    const double S = 1000;
    J j;
    j.i("kind", g.kind).i("q", g.q).i("type", g.type).i("param", num(g.param)).i("rateS", fix(g.rate, S)).i("gammaS", fix(g.gamma, S)).i("fits", g_fits);
    j.b("ret", ret).i("steps", c.getSteps()).i("ctot", c.getCtot());
    std::vector<double> f, p, all, sgn;
    std::vector<Point<double>> pts;
    for (size_t i = 0; i < d.size(); i++) pts.push_back(*d[i]);
    for (auto &x: queries) { Point<double> q(x.size()); for (size_t k = 0; k < x.size(); k++) q[k] = x[k]; pts.push_back(q); }
    for (auto &x: pts) { f.push_back(c.evaluate(x, true)); p.push_back(c.evaluate(x)); }
    bool stable = true;
    for (size_t i = pts.size(); i-- > 0;) if (c.evaluate(pts[i]) != p[i] || c.evaluate(pts[i], true) != f[i]) stable = false;
    auto batch = c.batchEvaluate(d);
    for (size_t i = 0; i < d.size(); i++) if (batch[i] != p[i]) stable = false;
    for (auto v: f) sgn.push_back(v > 0 ? 1 : v < 0 ? -1 : v == 0 ? 0 : 2);
    auto scaled = [](const std::vector<double> &v, double k) { return arr(v, [k](double e) { return std::to_string(fix(e, k)); }); };
    auto unit = [](const std::vector<double> &v) { return arr(v, [](double e) { return std::to_string(num(e / g.rate)); }); };
    std::vector<double> w(s.w.X());
    j.raw("wS", scaled(w, S)).i("bS", fix(s.bias, S)).raw("fS", scaled(f, S)).raw("sgn", ints(sgn)).raw("pred", ints(p));
    j.raw("w1", unit(w)).i("b1", num(s.bias / g.rate)).raw("a1", unit(s.alpha)).raw("f1", unit(f)).raw("aS", scaled(s.alpha, S));
    j.i("normS", fix(s.norm, S)).i("marginS", fix(s.margin, S)).i("n1", num(std::round(s.norm * s.norm / g.rate / g.rate)));
    double wmax = 0; for (auto v: w) wmax = std::max(wmax, std::fabs(v));
    j.b("finite", std::isfinite(wmax) && std::isfinite(s.bias));
    bool small = wmax < 1000 && std::fabs(s.bias) < 10000;
    for (auto v: f) if (!(std::fabs(v) < 100000)) small = false;
    for (auto v: s.alpha) if (!(std::fabs(v) < 10000)) small = false;
    j.b("small", small);
    if (g.type >= 2 || g.kind == 8)
        j.raw("ks", arr(pts, [&](const Point<double> &x) { return scaled(kernelRow(x, d), S); }));
    j.b("stable", stable).b("kept", before == fingerprint(d));
    return j.end();
}
static Rows rows(In &in) { Rows r; long n = in.i(); for (long k = 0; k < n; k++) r.push_back(in.list<double>()); return r; }
static Data<double> read(In &in) {
    auto ids = in.list<int>();
    auto ys = in.list<double>();
    auto xs = rows(in);
    std::vector<double> flat;
    for (auto &x: xs) flat.insert(flat.end(), x.begin(), x.end());
    return dataset(ids, ys, flat);
}
static std::string op(const std::string &o, In &in) {
    if (o == "mk") {
        g.kind = in.i(); g.q = in.i(); g.rate = in.i() / 1000.; g.gamma = in.i() / 1000.; g.type = in.i(); g.param = in.i() / 1000.; g.way = in.i();
        g_learner.reset(); g_data.reset(); g_fits = 0;
        return J().b("ok", true).end();
    }
    if (o == "fit") {
        g_data = std::make_shared<Data<double>>(read(in));
        long maxit = in.i(), maxup = in.i();
        auto queries = rows(in);
        in.list<double>(); in.i();       // a separating plane, for the judge
        auto before = fingerprint(*g_data);
        if (!g_learner) make(*g_data); else g_learner->setSamples(*g_data);
        g_fits++;
        g_learner->setVerbose(0);
        g_learner->setMaxTime(1e12);
        if (maxit) { g_learner->setMaxIterations((int) maxit); g_learner->setMaxEpochs((int) maxit); }
        if (maxup) g_learner->setMaxUpdates((int) maxup);
        bool ret = g_learner->train();
        return result(ret, queries, before);
    }
    if (o == "again") {        // the data of the line is the one given before
        read(in); in.i(); in.i();
        auto queries = rows(in);
        in.list<double>(); in.i();
        if (!g_learner || !g_data) return J().b("skip", true).end();
        auto before = fingerprint(*g_data);
        g_fits++;
        bool ret = g_learner->train();
        return result(ret, queries, before);
    }
    if (o == "budgets") {      // the same training with growing limits on the updates
        auto d = read(in);
        auto lims = in.list<long>();
        std::vector<double> m, ok;
        for (auto l: lims) {
            make(d);
            g_learner->setVerbose(0); g_learner->setMaxTime(1e12); g_learner->setMaxUpdates((int) l);
            bool r = g_learner->train();
            ok.push_back(r); m.push_back(r ? (double) fix(g_learner->getSolution().margin, 10000) : 0);
        }
        g_learner.reset();
        return J().i("kind", g.kind).raw("oks", ints(ok)).raw("margins", ints(m)).end();
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] { g_learner.reset(); g_data.reset(); g_fits = 0; }, op); }
