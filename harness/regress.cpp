// Driver for the regressors.
#include <cassert>
#include <numeric>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/regressor/LMS.hpp>
#include <ufjfmltk/regressor/KNNRegressor.hpp>
#include <ufjfmltk/regressor/Metrics.hpp>
#include <ufjfmltk/core/DistanceMetric.hpp>

using namespace vt;
namespace D = mltk::metrics::dist;
namespace R = mltk::regressor;
using Rows = std::vector<std::vector<double>>;

static Rows rows(In &in) {
    Rows r;
    long n = in.i();
    for (long i = 0; i < n; i++) r.push_back(in.list<double>());
    return r;
}
static mltk::Data<double> make(In &in, Rows &xs, std::vector<double> &ys) {
    auto ids = in.list<int>();
    ys = in.list<double>();
    xs = rows(in);
    mltk::Data<double> d;
    d.setType("Regression");
    for (size_t i = 0; i < ids.size(); i++) d.insertPoint(point<mltk::Point<double>>(xs[i], ys[i], ids[i]), true);
    return d;
}
struct Quiet {
    std::ostringstream out;
    std::streambuf *old;
    Quiet() : old(std::cout.rdbuf(out.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
static std::string lms(In &in) {
    Rows xs;
    std::vector<double> ys;
    auto data = make(in, xs, ys);
    long r = in.i(), maxit = in.i(), init = in.i();
    auto w0 = in.list<double>();
    double b0 = in.d();
    long verbose = in.i(), late = in.i();
    Quiet quiet;
    std::string before = fingerprint(data);
    mltk::Solution s;
    s.w = w0;
    s.bias = b0;
    double rate = std::ldexp(1, (int) -r);
    R::LMSPrimal<double> m(data, late ? 1 : rate, (int) verbose, init ? &s : nullptr);
    if (late) m.setLearningRate(rate);
    m.setMaxIterations((int) maxit);
    m.setMaxTime(600000);
    bool ok = m.train();
    long updates = m.getUpdates();
    auto sol = m.getSolution();
    auto value = [&](const mltk::Point<double> &p) { double v = sol.bias; for (size_t k = 0; k < p.size(); k++) v += sol.w[k] * p[k]; return v; };
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); };
    bool affine = true;
    mltk::Point<double> out(data.size());
    double sq = 0;
    for (size_t i = 0; i < data.size(); i++) {
        out[i] = m.evaluate(*data[i]);
        affine = affine && near(out[i], value(*data[i]));
        sq += (out[i] - ys[i]) * (out[i] - ys[i]);
    }
    for (int t = -2; t <= 2; t++) {
        mltk::Point<double> q(xs[0].size(), (double) t, 0);
        affine = affine && near(m.evaluate(q), value(q)) && near(m.evaluate(q, true), value(q));
    }
    bool mse = near(mltk::metrics::MSE(data.getLabels(), out), sq / ys.size());
    bool settled = sq < 1e-6;
    std::string kept = before == fingerprint(data) ? "true" : "false";
    bool ok2 = m.train();
    auto sol2 = m.getSolution();
    auto fine = [](double v) { return std::to_string(num(std::ldexp(v, 20))); };
    auto rough = [](double v) { return std::to_string(fix(v, 100)); };
    J j;
    j.b("ok", ok && ok2).i("updates", updates).raw("w", arr(sol.w, fine)).raw("b", fine(sol.bias)).raw("w100", arr(sol.w, rough)).raw("b100", rough(sol.bias));
    j.b("again", sol2.w == sol.w && sol2.bias == sol.bias).b("affine", affine).b("mse", mse).b("settled", settled).raw("first", rough(out[0]));
    return j.raw("kept", kept).end();
}
template <class M> static std::string knn(In &in) {
    Rows xs;
    std::vector<double> ys;
    auto data = make(in, xs, ys);
    Rows qs = rows(in);
    size_t k = in.i();
    long late = in.i();
    std::string before = fingerprint(data);
    std::unique_ptr<R::KNNRegressor<double, M>> m;
    if (late) { m = std::make_unique<R::KNNRegressor<double, M>>(k); m->setSamples(data); }
    else m = std::make_unique<R::KNNRegressor<double, M>>(data, k);
    bool ok = m->train();
    std::vector<double> out, out2(qs.size());
    auto ask = [&](const std::vector<double> &x) { return m->evaluate(*point<mltk::Point<double>>(x, 5, 0)); };
    for (auto &q: qs) out.push_back(ask(q));
    for (size_t i = qs.size(); i-- > 0;) out2[i] = ask(qs[i]);
    auto f = [](double v) { return std::to_string(fix(v, 1000)); };
    return J().b("ok", ok).raw("out", arr(out, f)).raw("out2", arr(out2, f)).b("kept", before == fingerprint(data)).end();
}
static std::string op(const std::string &o, In &in) {
    if (o == "lms") return lms(in);
    if (o == "knn") {
        std::string metric = in.word();
        return metric == "e" ? knn<D::Euclidean<double>>(in) : knn<D::Manhattan<double>>(in);
    }
    if (o == "mse") {
        auto a = in.list<double>(), b = in.list<double>();
        return J().i("v", fix(mltk::metrics::MSE(mltk::Point<double>(a), mltk::Point<double>(b)), 1000)).end();
    }
    return J().b("skip", true).end();
}
int main() { return loop([] {}, op); }
