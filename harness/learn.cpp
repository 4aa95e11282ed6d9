// Driver for the life of learners in general, and for everything that takes a seed.
#include <memory>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/core/Sampling.hpp>
#include <ufjfmltk/Classifier.hpp>
#include <ufjfmltk/ensemble/BaggingClassifier.hpp>
#include <ufjfmltk/ensemble/AdaBoostClassifier.hpp>
#include <ufjfmltk/ensemble/VotingClassifier.hpp>
#include <ufjfmltk/ensemble/PerceptronCommittee.hpp>
#include <ufjfmltk/clusterer/KMeans.hpp>
#include <ufjfmltk/regressor/LMS.hpp>
#include <ufjfmltk/regressor/KNNRegressor.hpp>
#include <ufjfmltk/valid/Validation.hpp>
#include <ufjfmltk/core/Datasets.hpp>

using namespace vt;
using namespace mltk::classifier;
using mltk::Data;
using mltk::Point;
using mltk::Learner;
typedef std::vector<std::vector<double>> Rows;

static long hash(const std::string &s) { return (long) (std::hash<std::string>{}(s) % 1000000007ull); }
static std::string text(const Point<double> &p) {
    std::ostringstream o;
    o.precision(17);
    o << p.Id() << ':' << p.Y() << ':';
    for (auto v: p.X()) o << v << ',';
    return o.str();
}
template <class C> static std::string text(const Data<double> &d, const C &centers) {
    std::ostringstream o;
    for (size_t i = 0; i < d.size(); i++) o << text(*d[i]) << '/';
    for (auto c: d.classes()) o << c << ';';
    for (auto &c: centers) o << text(c);
    return o.str();
}
static std::string text(const Data<double> &d) { return text(d, std::vector<Point<double>>()); }

static std::unique_ptr<Data<double>> g_data[2];
static std::unique_ptr<Learner<double>> g_learner[3];
static Rows g_queries;

static void limits(Learner<double> &l, int n = 50) {
    l.setVerbose(0);
    l.setMaxTime(1e12);
    l.setMaxIterations(n);
    l.setMaxEpochs(50);
    l.setMaxUpdates(2000);
}
static Learner<double> *build(const std::string &t, Data<double> &d, size_t seed) {
    namespace E = mltk::ensemble;
    if (t == "perc") return new PerceptronPrimal<double>(d, 2, .5);
    if (t == "percfm") return new PerceptronFixedMarginPrimal<double>(d, .125, 2, .5);
    if (t == "percd") return new PerceptronDual<double>(d, .5);
    if (t == "percfmd") return new PerceptronFixedMarginDual<double>(d, mltk::KernelType::INNER_PRODUCT, 0, .125, .5);
    if (t == "balanced") return new BalancedPerceptron<double>(d, seed);
    if (t == "smo") return new SMO<double>(d, mltk::KernelType::INNER_PRODUCT, 0);
    if (t == "smog") return new SMO<double>(d, mltk::KernelType::GAUSSIAN, 1);
    if (t == "imap") return new IMAp<double>(d, 2);
    if (t == "imad") return new IMADual<double>(d, mltk::KernelType::INNER_PRODUCT, 0, 1);
    if (t == "knn") return new KNNClassifier<double>(d, 1);
    if (t == "knn3") return new KNNClassifier<double>(d, 3);
    if (t == "knnr") return new mltk::regressor::KNNRegressor<double>(d, 2);
    if (t == "lms") return new mltk::regressor::LMSPrimal<double>(d, .01);
    if (t == "kmeans") return new mltk::clusterer::KMeans<double>(d, 2, "random", seed);
    if (t == "kmeanspp") return new mltk::clusterer::KMeans<double>(d, 3, "kmeanspp", seed);
    if (t == "ova") { PerceptronPrimal<double> p(d, 2, .5); limits(p); return new OneVsAll<double>(d, p); }
    if (t == "ovo") { PerceptronDual<double> p(d, .5); limits(p); return new OneVsOne<double>(d, p); }
    if (t == "ovosmo") { SMO<double> p(d, mltk::KernelType::INNER_PRODUCT, 0); limits(p); return new OneVsOne<double>(d, p); }
    if (t == "vote") {
        PerceptronPrimal<double> p(d, 2, .5); limits(p);
        PerceptronDual<double> q(d, .5); limits(q);
        return new E::VotingClassifier<double>(d, "hard", p, q, KNNClassifier<double>(d, 1));
    }
    if (t == "boost") { PerceptronPrimal<double> p(d, 2, .5); limits(p, 3); return new E::AdaBoostClassifier<double>(d, p, 3); }
    if (t == "bag") { KNNClassifier<double> p(d, 1); return new E::BaggingClassifier<double>(d, p, 3, seed); }
    if (t == "committee") return new E::PerceptronCommittee<double>(d, 3);
    return nullptr;
}
static Learner<double> *make(const std::string &t, Data<double> &d, size_t seed) {
    auto *l = build(t, d, seed);
    if (!l) return l;
    l->setSeed(seed);
    limits(*l);
    return l;
}
static Point<double> query(const std::vector<double> &x, size_t id = 0, double y = 0) { return *point<Point<double>>(x, y, id); }
// neither the order, nor ids or labels of what is asked matter: how = 1 asks backwards, with ids of training points
static std::string answers(Learner<double> &l, bool backwards) {
    std::vector<std::string> r(g_queries.size());
    for (size_t k = 0; k < r.size(); k++) {
        size_t i = backwards ? r.size() - 1 - k : k;
        std::ostringstream o;
        o.precision(17);
        o << (backwards ? l.evaluate(query(g_queries[i], 1 + i / 2, i % 2 ? 1 : -1)) : l.evaluate(query(g_queries[i])));
        r[i] = o.str();
    }
    std::string s;
    for (auto &e: r) s += e + ",";
    return s;
}
// how = 3: in reverse order, with repeated ids
static std::string batch(Learner<double> &l, bool repeated) {
    Data<double> d;
    size_t n = g_queries.size();
    for (size_t i = 0; i < n; i++) d.insertPoint(repeated ? point<Point<double>>(g_queries[n - 1 - i], i % 3, 1 + i / 2) : point<Point<double>>(g_queries[i], 0, i + 1), true);
    std::string before = fingerprint(d);
    auto p = l.batchEvaluate(d);
    std::ostringstream o;
    o.precision(17);
    for (size_t i = 0; i < p.size(); i++) o << p[repeated ? p.size() - 1 - i : i] << ',';
    if (before != fingerprint(d)) o << "changed";
    return o.str();
}

static std::string folds(const std::vector<mltk::validation::TrainTestPair<double>> &fs) {
    std::string s;
    for (auto &f: fs) s += text(f.train) + "|" + text(f.test) + "#";
    return s;
}
static std::string report(const mltk::validation::ValidationReport &r) {
    std::ostringstream o;
    o.precision(17);
    o << r.accuracy << ' ' << r.error;
    return o.str();
}
// everything that takes a seed: the text of its result
static std::string seeded(const std::string &f, Data<double> d, size_t seed) {
    namespace G = mltk::datasets;
    namespace V = mltk::validation;
    if (f == "spirals") return text(G::make_spirals(12, 3, true, 1.0, 2, .5, seed));
    if (f == "spirals2") return text(G::make_spirals(9, 2, false, .5, 1, 1, seed));
    if (f == "blobs") { auto b = G::make_blobs(4, 3, 2, 1.0, -10, 10, true, true, seed); return text(b.dataset, b.centers); }
    if (f == "blobs2") { auto b = G::make_blobs(5, 2, 3, .5, -1, 1, false, false, seed); return text(b.dataset, b.centers); }
    if (f == "blobsat") { auto b = G::make_blobs({2, 3}, {query({0, 0}), query({9, 9})}, {1, 2}, 2, true, true, seed); return text(b.dataset, b.centers); }
    if (f == "regr") { auto r = G::make_regression(6, 3, 1, .1, .01, 2, true, seed); return text(r.dataset) + text(r.coef); }
    if (f == "regr2") { auto r = G::make_regression(5, 2, 0, 0, 0, 1, false, seed); return text(r.dataset) + text(r.coef); }
    if (f == "point") return text(mltk::random_init<double>(4, seed));
    if (f == "pointin") { Point<double> p; mltk::random_init(p, 5, seed); return text(p); }
    if (f == "pointat") { Point<double> p(3); mltk::random_init(p, seed); return text(p); }
    if (f == "pointn") return text(mltk::random_init<double, std::normal_distribution<double>>(0, 1, 3, seed));
    if (f == "ints") {
        mltk::random::init(seed);
        std::string s;
        for (int i = 0; i < 6; i++) s += std::to_string(mltk::random::intInRange(1, 1000)) + "," + std::to_string(mltk::random::floatInRange(0.0, 1.0)) + ",";
        return s;
    }
    if (f == "shuffle") { d.shuffle(seed); return text(d); }
    if (f == "sampling") return text(d.sampling(d.size() / 2, true, (int) seed));
    if (f == "samplingw") return text(d.sampling(d.size() - 1, false, (int) seed));
    if (f == "split") { std::string s; for (auto &p: d.splitSample(2, true, true, seed)) s += text(p) + "|"; return s; }
    if (f == "splitu") { std::string s; for (auto &p: d.splitSample(3, false, true, seed)) s += text(p) + "|"; return s; }
    if (f == "folds") return folds(V::kfoldsplit(d, 2, true, true, seed));
    if (f == "foldsq") return folds(V::kfoldsplit(d, 2, 2, false, true, seed));
    if (f == "parts") return folds({V::partTrainTest(d, 2, true, true, seed)});
    if (f == "smote") { mltk::SMOTE<double> s(2, .1, seed); auto c = d; s(c); return text(c); }
    if (f == "rsm") { mltk::RSM<double> s(.5, 6, seed); std::string o; for (int i = 0; i < 2; i++) for (auto v: s(d)) o += std::to_string(v) + ","; return o; }
    if (f == "kfold") { KNNClassifier<double> k(d, 1); return report(V::kfold(d, k, 2, true, seed)); }
    if (f == "kkfold") { KNNClassifier<double> k(d, 1); return report(V::kkfold(d, k, 2, 2, true, seed)); }
    if (f == "kfoldp") { PerceptronPrimal<double> k(d); k.setMaxIterations(20); k.setMaxTime(1e12); return report(V::kfold(d, k, 2, true, seed)); }
    if (f.substr(0, 4) == "fit-") {
        std::unique_ptr<Learner<double>> l(make(f.substr(4), d, seed));
        l->train();
        return answers(*l, false);
    }
    throw std::runtime_error("unknown function " + f);
}
static void change(Data<double> &d, const std::string &how, size_t i) {
    i %= d.size();
    if (how == "coord") (*d[i])[0] += 1;
    else if (how == "label") d.updatePointValue(i, d[(i + 1) % d.size()]->Y());
    else if (how == "raw") d[i]->Y() = d[(i + 1) % d.size()]->Y();
    else if (how == "swap") d.shuffle(i + 1);
    else if (how == "drop" && d.size() > 4) d.removePoints({(int) d[i]->Id()});
    else if (how == "add") d.insertPoint(point<Point<double>>(std::vector<double>(d.dim(), (double) i), d[0]->Y(), 100 + d.size()), true);
    else if (how == "scale") for (auto &p: d) for (auto &v: *p) v *= -2;
}
static std::string prints(J &j) {
    std::vector<double> now, con;
    for (auto &d: g_data) { now.push_back(d ? hash(fingerprint(*d)) : 0); con.push_back(d ? hash(text(*d)) : 0); }
    return j.raw("now", ints(now)).raw("con", ints(con)).end();
}
static std::string blobs(const Data<double> &d, double scale) {
    std::string o = "[";
    for (size_t i = 0; i < d.size(); i++)
        o += (i ? "," : "") + J().i("id", num((double) d[i]->Id())).i("y", num(d[i]->Y()))
                 .raw("x", arr(d[i]->X(), [&](double v) { return std::to_string(fix(v, scale)); })).end();
    return o + "]";
}
static std::string rowsOf(const std::vector<Point<double>> &ps, double scale) {
    return arr(ps, [&](const auto &c) { return arr(c.X(), [&](double v) { return std::to_string(fix(v, scale)); }); });
}
static Rows rows(In &in) { Rows r; long n = in.i(); for (long k = 0; k < n; k++) r.push_back(in.list<double>()); return r; }
static std::string op(const std::string &o, In &in) {
    J j;
    if (o == "data") {
        size_t d = in.i() - 1;
        auto ids = in.list<int>();
        auto ys = in.list<double>();
        std::vector<double> flat;
        for (auto &x: rows(in)) flat.insert(flat.end(), x.begin(), x.end());
        g_data[d].reset(new Data<double>(dataset(ids, ys, flat)));
        return prints(j);
    }
    if (o == "queries") { g_queries = rows(in); return prints(j); }
    if (o == "change") { size_t d = in.i() - 1; auto how = in.word(); change(*g_data[d], how, in.i()); return prints(j); }
    if (o == "mk") { size_t l = in.i() - 1, d = in.i() - 1; auto t = in.word(); g_learner[l].reset(make(t, *g_data[d], in.i())); return prints(j); }
    if (o == "give") { size_t l = in.i() - 1, d = in.i() - 1; g_learner[l]->setSamples((const Data<double> &) *g_data[d]); return prints(j); }
    if (o == "train") { bool r = g_learner[in.i() - 1]->train(); j.b("ret", r); return prints(j); }
    if (o == "ask") {
        size_t l = in.i() - 1;
        int how = in.i();
        std::string a = how >= 2 ? batch(*g_learner[l], how == 3) : answers(*g_learner[l], how == 1);
        j.i("ans", hash(a)).str("text", a.substr(0, 60));
        return prints(j);
    }
    if (o == "noise") {
        long s = in.i(), k = in.i();
        if (s) mltk::random::init((unsigned) s);
        while (k--) mltk::random::intInRange(1, 6);
        return prints(j);
    }
    if (o == "call") {
        auto f = in.word();
        size_t d = in.i() - 1, s = in.i();
        std::string r = seeded(f, *g_data[d], s);
        j.i("res", hash(r)).str("text", r.substr(0, 60));
        return prints(j);
    }
    namespace G = mltk::datasets;
    if (o == "spirals") {
        size_t n = in.i(); int k = in.i(); bool sh = in.i(); double noise = in.i(); size_t loops = in.i(), seed = in.i();
        auto d = G::make_spirals(n, k, sh, noise, loops, .5, seed);
        return J().raw("pts", blobs(d, 100)).raw("cls", ints(d.classes())).raw("dist", ints(d.classesDistribution())).i("dim", (long) d.dim()).end();
    }
    if (o == "blobs") {
        long n = in.i(); int k = in.i(), dim = in.i(); double sd = in.i() / 1e6, lo = in.i(), hi = in.i(); bool sh = in.i(), cl = in.i(); size_t seed = in.i();
        auto b = G::make_blobs(n, k, dim, sd, lo, hi, sh, cl, seed);
        return J().raw("pts", blobs(b.dataset, 100)).raw("cls", ints(b.dataset.classes())).raw("dist", ints(b.dataset.classesDistribution()))
            .i("dim", (long) b.dataset.dim()).raw("cen", rowsOf(b.centers, 100)).str("type", b.dataset.getType()).end();
    }
    if (o == "blobsat") {
        auto ns = in.list<size_t>();
        Rows cs = rows(in);
        auto sds = in.list<double>();
        for (auto &s: sds) s /= 1e6;
        bool sh = in.i(), cl = in.i(); size_t seed = in.i();
        std::vector<Point<double>> c;
        for (auto &x: cs) c.push_back(query(x));
        auto b = G::make_blobs(ns, c, sds, (int) cs[0].size(), sh, cl, seed);
        return J().raw("pts", blobs(b.dataset, 100)).raw("cls", ints(b.dataset.classes())).raw("dist", ints(b.dataset.classesDistribution()))
            .i("dim", (long) b.dataset.dim()).raw("cen", rowsOf(b.centers, 100)).str("type", b.dataset.getType()).end();
    }
    if (o == "regr") {
        size_t n = in.i(), dim = in.i(); double bias = in.i(), noise = in.i() / 1000.; size_t inf = in.i(); bool sh = in.i(); size_t seed = in.i();
        auto r = G::make_regression(n, dim, bias, noise, 0, inf, sh, seed);
        std::vector<double> res;      // targets minus the linear function
        for (size_t i = 0; i < r.dataset.size(); i++) {
            double v = r.dataset[i]->Y() - bias;
            for (size_t k = 0; k < r.dataset[i]->size(); k++) v -= (*r.dataset[i])[k] * r.coef[k];
            res.push_back((double) fix(v, 1000));
        }
        std::vector<double> ids, lens;
        for (size_t i = 0; i < r.dataset.size(); i++) { ids.push_back((double) r.dataset[i]->Id()); lens.push_back((double) r.dataset[i]->size()); }
        return J().raw("gids", ints(ids)).raw("lens", ints(lens)).raw("res", ints(res)).raw("coef", arr(r.coef.X(), [](double v) { return std::to_string(fix(v, 1000)); }))
            .i("dimOut", (long) r.dataset.dim()).str("type", r.dataset.getType()).end();
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] { for (auto &l: g_learner) l.reset(); for (auto &d: g_data) d.reset(); g_queries.clear(); }, op); }
