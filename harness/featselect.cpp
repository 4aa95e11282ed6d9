// Driver for feature selection, with a classifier that records the features it is trained on
// and answers weights, margins and successes from a table.
#include <algorithm>
#include <numeric>
#include <set>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/FeatureSelection.hpp>

using namespace vt;
using mltk::Data;
using mltk::Point;
typedef std::vector<std::vector<double>> Rows;
static Rows rows(In &in) { Rows r; long n = in.i(); for (long k = 0; k < n; k++) r.push_back(in.list<double>()); return r; }

static std::vector<int> g_ids, g_names;
static std::vector<double> g_ys;
static Rows g_xs, g_weights;
static std::vector<int> g_rets, g_errs;
static std::vector<std::vector<int>> g_seen;
static bool g_right = true, g_hash = false;
static long g_seed = 0, g_failing = 0;
static int g_evals = 0, g_error = 0, g_failed = 0;

static size_t column(int name) {
    for (size_t k = 0; k < g_names.size(); k++) if (g_names[k] == name) return k;
    g_right = false;
    return 0;
}
static bool intact(const Data<double> &d) {
    auto names = d.getFeaturesNames();
    if (d.size() != g_ids.size() || d.dim() != names.size()) return false;
    for (size_t i = 0; i < d.size(); i++) {
        const auto &p = *d[i];
        if ((int) p.Id() != g_ids[i] || p.Y() != g_ys[i] || p.size() != names.size()) return false;
        for (size_t k = 0; k < names.size(); k++) if (p[k] != g_xs[i][column(names[k])]) return false;
    }
    return true;
}
static unsigned long mix(unsigned long h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdUL; h ^= h >> 29; h *= 0xc4ceb9fe1a85ec53UL; return h ^ (h >> 32); }
struct Asked {
    bool ret;
    std::vector<double> w;
    double margin;
};
static Asked answer(const Data<double> &d) {
    auto names = d.getFeaturesNames();
    std::vector<int> sorted(names);
    std::sort(sorted.begin(), sorted.end());
    Asked a{true, std::vector<double>(names.size(), 0), 1};
    if (d.size() != g_ids.size()) {      // a fold of a cross-validation
        for (size_t k = 0; k < names.size(); k++) a.w[k] = (double) ((k * 7 + 3) % 11);
        return a;
    }
    if (!intact(d)) g_right = false;
    size_t call = g_seen.size();
    g_seen.push_back(names);
    g_evals = 0;
    g_error = g_errs.empty() ? 0 : g_errs[std::min(call, g_errs.size() - 1)];
    if (g_hash) {
        unsigned long h = (unsigned long) g_seed + 1;
        for (int n: sorted) h = mix(h * 31 + (unsigned long) n);
        a.margin = 0.5 + (double) (h % 40) / 8;
        a.ret = call == 0 || (long) (mix(h) % 100) >= g_failing;
        for (size_t k = 0; k < names.size(); k++) a.w[k] = (double) (mix(h + (unsigned long) names[k] * 977) % 9) - 4;
        if (std::all_of(a.w.begin(), a.w.end(), [](double v) { return v == 0; })) a.w[0] = 1;
    } else {
        a.ret = call >= g_rets.size() || g_rets[call];
        if (!g_weights.empty()) {
            const auto &w = g_weights[std::min(call, g_weights.size() - 1)];
            for (size_t k = 0; k < names.size(); k++) a.w[k] = w[column(names[k])];
        }
    }
    if (!a.ret) g_failed++;
    return a;
}
static double guess(const Point<double> &p) {
    int at = g_evals++ % (int) g_ids.size();
    return at < g_error ? -p.Y() : p.Y();
}
struct Primal : public mltk::classifier::PrimalClassifier<double> {
    bool train() override {
        auto a = answer(*samples);
        solution.w = a.w;
        solution.margin = a.margin;
        return a.ret;
    }
    double evaluate(const Point<double> &p, bool = false) override { return guess(p); }
};
struct Dual : public mltk::classifier::DualClassifier<double> {
    bool train() override {
        auto a = answer(*samples);
        solution.w = a.w;
        solution.margin = a.margin;
        return a.ret;
    }
    double evaluate(const Point<double> &p, bool = false) override { return guess(p); }
};
static Data<double> readData(In &in) {
    g_ids = in.list<int>();
    g_ys = in.list<double>();
    g_xs = rows(in);
    g_names = in.list<int>();
    std::vector<double> flat;
    for (const auto &x: g_xs) flat.insert(flat.end(), x.begin(), x.end());
    auto d = dataset(g_ids, g_ys, flat);
    d.setFeaturesNames(g_names);
    return d;
}
static std::string show(const Data<double> &d) {
    J j;
    std::vector<int> ids;
    std::vector<double> ys;
    Rows xs;
    for (size_t i = 0; i < d.size(); i++) { ids.push_back((int) d[i]->Id()); ys.push_back(d[i]->Y()); xs.push_back(d[i]->X()); }
    return j.i("dim", (long) d.dim()).i("size", (long) d.size()).raw("names", ints(d.getFeaturesNames())).raw("ids", ints(ids)).raw("ys", ints(ys))
            .raw("xs", arr(xs, [](const auto &x) { return ints(x); })).raw("classes", ints(d.classes())).raw("dist", ints(d.classesDistribution())).end();
}
static std::string seen() { return arr(g_seen, [](const auto &s) { return ints(s); }); }
static void start() { g_seen.clear(); g_failed = 0; g_evals = 0; g_error = 0; }

static std::string run(mltk::featselect::FeatureSelection<double> &f, const Data<double> &d, long times) {
    auto before = fingerprint(d);
    start();
    std::string first = show(f.selectFeatures()), calls = seen();
    int failed = g_failed;
    bool same = true;
    for (long k = 1; k < times; k++) {
        start();
        same = same && show(f.selectFeatures()) == first && seen() == calls;
    }
    return J().raw("result", first).raw("seen", calls).i("failed", failed).b("right", g_right).b("same", same).b("kept", before == fingerprint(d)).end();
}
static void reset() {
    g_hash = false; g_right = true; g_weights.clear(); g_rets.clear(); g_errs.clear();
    g_names.clear(); g_ids.clear(); g_failing = 0; g_seed = 0;
}
static std::string op(const std::string &o, In &in) {
    namespace F = mltk::featselect;
    reset();
    Primal p;
    Dual q;
    if (o == "rank") {
        bool fisher = in.i() != 0, dual = in.i() != 0;
        int number = (int) in.i();
        long times = in.i();
        auto d = readData(in);
        g_rets = in.list<int>();
        mltk::classifier::Classifier<double> *c = dual ? (mltk::classifier::Classifier<double> *) &q : &p;
        if (fisher) { F::Fisher<double> f(d, c, number); return run(f, d, times); }
        F::Golub<double> g(d, c, number);
        return run(g, d, times);
    }
    if (o == "rfe") {
        bool dual = in.i() != 0;
        int final_dim = (int) in.i(), jump = (int) in.i();
        long times = in.i();
        mltk::validation::CrossValidation cv;
        cv.qtde = (size_t) in.i(); cv.fold = (int) in.i(); cv.jump = (int) in.i(); cv.limit_error = (double) in.i();
        auto d = readData(in);
        g_rets = in.list<int>();
        g_errs = in.list<int>();
        g_weights = rows(in);
        mltk::classifier::Classifier<double> *c = dual ? (mltk::classifier::Classifier<double> *) &q : &p;
        F::RFE<double> f(d, c, final_dim, cv.qtde ? &cv : nullptr, 1, jump);
        return run(f, d, times);
    }
    if (o == "aos") {
        int final_dim = (int) in.i(), breadth = (int) in.i(), sorting = (int) in.i(), choice = (int) in.i(), ahead = (int) in.i(), cut = (int) in.i();
        long times = in.i();
        g_seed = in.i(); g_failing = in.i();
        auto d = readData(in);
        g_hash = true;
        F::AOS<double> f(d, &p, final_dim, nullptr, breadth, sorting, choice, ahead, cut);
        return run(f, d, times);
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] {}, op); }
