// Driver for metrics and cross-validation, with classifiers that answer from a table.
#include <cassert>
#include <numeric>
#include <set>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/valid/Validation.hpp>

using namespace vt;
using mltk::Data;
using mltk::Point;
typedef std::vector<std::vector<double>> Rows;
static Rows rows(In &in) { Rows r; long n = in.i(); for (long k = 0; k < n; k++) r.push_back(in.list<double>()); return r; }

static std::vector<int> g_ids;
static std::vector<double> g_ys, g_xs;
static Rows g_pred;
struct Run { std::vector<int> train, tested; };
static std::vector<Run> g_runs;
static bool g_right = true;
static int positionOf(const Point<double> &p) {
    for (size_t i = 0; i < g_ids.size(); i++) if (g_xs[i] == p.X()[0]) {
        if (p.size() != 1 || p.Y() != g_ys[i]) g_right = false;
        return (int) i + 1;
    }
    g_right = false;
    return 0;
}
static bool train(const Data<double> &d) {
    Run r;
    for (size_t i = 0; i < d.size(); i++) r.train.push_back(positionOf(*d[i]));
    g_runs.push_back(r);
    return true;
}
static double evaluate(const Point<double> &p) {
    int at = positionOf(p);
    if (g_runs.empty()) g_runs.emplace_back();
    g_runs.back().tested.push_back(at);
    size_t t = std::min(g_runs.size(), g_pred.size()) - 1;
    return at ? g_pred[t][at - 1] : 0;
}
struct Primal : public mltk::classifier::PrimalClassifier<double> {
    bool ret = true;
    bool train() override { ::train(*samples); return ret; }
    double evaluate(const Point<double> &p, bool = false) override { return ::evaluate(p); }
};
struct Dual : public mltk::classifier::DualClassifier<double> {
    bool train() override { return ::train(*samples); }
    double evaluate(const Point<double> &p, bool = false) override { return ::evaluate(p); }
};
struct Table : public mltk::Learner<double> {
    int trained = 0;
    bool train() override { trained++; return true; }
    double evaluate(const Point<double> &p, bool = false) override { int at = positionOf(p); return at ? g_pred[0][at - 1] : 0; }
    std::string getFormulationString() override { return "Primal"; }
};
static Data<double> readData(In &in) {
    g_ids = in.list<int>();
    g_ys = in.list<double>();
    g_xs.clear();
    for (size_t i = 0; i < g_ids.size(); i++) g_xs.push_back(100 + (double) ((i * 37) % 2003));
    g_runs.clear();
    g_right = true;
    return dataset(g_ids, g_ys, g_xs);
}
static std::string report(const mltk::validation::ValidationReport &r, const std::vector<double> *positives) {
    const double S = 1000000;
    J j;
    if (positives) j.raw("positives", ints(*positives));
    j.i("tp", r.tp).i("tn", r.tn).i("fp", r.fp).i("fn", r.fn).i("errors", r.errors);
    j.i("accuracy", fix(r.accuracy, S)).i("error", fix(r.error, S)).i("precision", fix(r.precision, S)).i("recall", fix(r.recall, S));
    j.i("sensitivity", fix(r.sensitivity, S)).i("specificity", fix(r.specificity, S)).i("fscore", fix(r.fscore, S));
    return j.end();
}
template <class M> static std::string matrix(const M &m) { return arr(m, [](const auto &r) { return ints(r); }); }
static std::string runsJson() {
    return arr(g_runs, [](const Run &r) { return J().raw("train", ints(r.train)).raw("tested", ints(r.tested)).end(); });
}
static std::string op(const std::string &o, In &in) {
    namespace V = mltk::validation;
    if (o == "conf") {
        auto d = readData(in);
        g_pred = {in.list<double>()};
        auto positives = rows(in);
        auto before = fingerprint(d);
        Table t;
        auto m = V::generateConfusionMatrix<double>(d, t);
        double macc = V::confusionMatrixAccuracy(m);
        double acc = V::accuracy(d, t);
        double acc2 = V::accuracy(d, t, false);
        J j;
        j.raw("matrix", matrix(m)).raw("classes", ints(d.classes())).i("macc", fix(macc, 10000)).i("acc", acc == acc2 ? fix(acc, 1000000) : BIG).i("trained", t.trained);
        std::string rs = "[";
        for (size_t k = 0; k < positives.size(); k++) {
            std::vector<int> pos(positives[k].begin(), positives[k].end());
            if (k) rs += ",";
            rs += report(V::metricsReport<double>(d, m, pos), &positives[k]);
        }
        return j.raw("reports", rs + "]").b("kept", before == fingerprint(d)).end();
    }
    if (o == "crep") {
        auto real = in.list<int>(), pred = in.list<int>();
        Point<int> a(real.size()), b(pred.size());
        for (size_t i = 0; i < real.size(); i++) { a[i] = real[i]; b[i] = pred[i]; }
        return J().raw("report", report(V::classificationReport(a, b), nullptr)).end();
    }
    if (o == "kfold" || o == "kkfold") {
        bool dual = in.i() != 0, strict = in.i() != 0, strat = in.i() != 0;
        size_t folds = (size_t) in.i(), times = (size_t) in.i(), seed = (size_t) in.i();
        auto d = readData(in);
        g_pred = rows(in);
        auto before = fingerprint(d);
        Primal p;
        Dual q;
        p.ret = seed % 3 != 0;
        mltk::classifier::Classifier<double> &c = dual ? (mltk::classifier::Classifier<double> &) q : (mltk::classifier::Classifier<double> &) p;
        auto r = o == "kfold" ? V::kfold<double>(d, c, folds, strat, seed, 0) : V::kkfold<double>(d, c, times, folds, strat, seed, 0);
        J j;
        (void) strict;
        std::string runs = runsJson();
        bool same = true;
        if (seed > 0) {     // 0 asks for a random seed
            g_runs.clear();
            auto again = o == "kfold" ? V::kfold<double>(d, c, folds, strat, seed, 0) : V::kkfold<double>(d, c, times, folds, strat, seed, 0);
            same = runs == runsJson() && again.error == r.error;
        }
        j.i("precision", fix(r.precision, 1000)).i("recall", fix(r.recall, 1000)).i("tnrate", fix(r.tnrate, 1000)).b("same", same);
        j.raw("runs", runs).b("right", g_right).b("kept", before == fingerprint(d));
        j.i("error", fix(r.error, 1000)).i("accuracy", fix(r.accuracy, 1000));
        j.i("truePositive", r.truePositive).i("trueNegative", r.trueNegative).i("falsePositive", r.falsePositive).i("falseNegative", r.falseNegative);
        return j.end();
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] {}, op); }
