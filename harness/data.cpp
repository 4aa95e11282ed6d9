// Driver for mltk::Data: executes operation histories over a few dataset slots and
// reports, after every public call, the full observable state of every slot.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/valid/Validation.hpp>
#include "vt.hpp"
#include <algorithm>

using D = mltk::Data<double>;
using P = mltk::Point<double>;
using namespace vt;

static const int SLOTS = 3;
static std::vector<D> S;
static std::string scratch;
// values travel as integers, optionally scaled (fractional contents in the file scenarios)
static const double SCALE = std::getenv("VT_SCALE") ? std::atof(std::getenv("VT_SCALE")) : 1;
static std::string scaled(const std::vector<double> &v) {
    return arr(v, [](double x) { return std::to_string(num(x * SCALE)); });
}

static bool regression = false;
static long lbl(double y) { return num(regression ? y * SCALE : y); }
static std::string pt(const P &p) {
    return J().i("id", (long) p.Id()).i("y", lbl(p.Y())).raw("x", scaled(p.X())).end();
}
static std::string proj(const D &d) {
    std::vector<std::string> pts;
    J j;
    regression = !d.isClassification();
    pts.clear();
    for (const auto &p: d.points()) pts.push_back(p ? pt(*p) : std::string("null"));
    j.raw("pts", arr(pts, [](const std::string &s) { return s; }));
    j.raw("cls", ints(d.classes())).raw("nm", strs(d.classesNames())).raw("dist", ints(d.classesDistribution()));
    j.raw("fn", ints(d.getFeaturesNames())).raw("ix", ints(d.getIndex()));
    std::string lab = arr(d.getLabels().X(), [](double y) { return std::to_string(lbl(y)); });
    j.raw("lab", lab).i("dim", (long) d.dim()).i("n", (long) d.size()).b("emp", d.isEmpty());
    j.str("typ", d.isClassification() ? "C" : "R");
    return j.end();
}
static std::string projs(const std::vector<D> &v) { return arr(v, [](const D &d) { return proj(d); }); }
static std::string projp(const std::vector<mltk::validation::TrainTestPair<double>> &v) {
    return arr(v, [](const auto &p) {
        return J().raw("train", proj(p.train)).raw("test", proj(p.test)).i("fold", (long) p.fold).i("exec", (long) p.execution).end();
    });
}
// change every point of a derived dataset: must never show in its source
static void scramble(D &d) {
    for (size_t i = 0; i < d.size(); i++) {
        auto p = d.point((int) i);
        for (auto &x: p->X()) x += 5000;
        p->Y() = 77;
        p->Id() = 7777;
    }
}
// the documented precondition of column selection: at least one point, all names exist once
template <class T> static bool named(const D &d, const std::vector<T> &f) {
    auto fn = d.getFeaturesNames();
    for (auto n: f) if (std::count(fn.begin(), fn.end(), (int) n) != 1) return false;
    return d.size() > 0 && !f.empty();
}

static void reset() {
    S.clear();
    for (int i = 0; i < SLOTS; i++) S.emplace_back();
}

static std::string op(const std::string &o, In &in) {
    J j;
    if (o == "new") {
        int s = in.i() - 1;
        std::string typ = in.word();
        S[s] = D();
        if (typ == "R") S[s].setType("Regression");
    } else if (o == "clear") {
        S[in.i() - 1].clear();
    } else if (o == "ins") {
        int s = in.i() - 1; long via = in.i(); double y = in.d(); long id = in.i(); bool keep = in.i();
        P p(in.list<double>());
        for (auto &x: p.X()) x /= SCALE;
        if (!S[s].isClassification()) y /= SCALE;
        p.Y() = y; p.Id() = (size_t) id;
        bool r = via ? S[s].insertPoint(std::make_shared<P>(p), keep) : S[s].insertPoint(p, keep);
        j.b("res", r);
    } else if (o == "insall") {
        int s = in.i() - 1; bool keep = in.i();
        auto ids = in.list<long>();
        auto ys = in.list<double>(), xs = in.list<double>();
        bool ok = true;
        size_t dim = xs.size() / ids.size();
        for (size_t i = 0; i < ids.size(); i++) {
            P p(std::vector<double>(xs.begin() + i * dim, xs.begin() + (i + 1) * dim));
            for (auto &x: p.X()) x /= SCALE;
            p.Y() = S[s].isClassification() ? ys[i] : ys[i] / SCALE;
            p.Id() = (size_t) ids[i];
            ok = S[s].insertPoint(p, keep) && ok;
        }
        j.b("res", ok);
    } else if (o == "insfrom") {
        int s = in.i() - 1, src = in.i() - 1, i = in.i(); bool keep = in.i();
        j.b("res", S[s].insertPoint(S[src], i, keep));
    } else if (o == "rm") {
        int s = in.i() - 1;
        j.b("res", S[s].removePoint((int) in.i()));
    } else if (o == "rmm") {
        int s = in.i() - 1;
        j.raw("res", bools(S[s].removePoints(in.list<int>())));
    } else if (o == "upd") {
        int s = in.i() - 1; size_t i = (size_t) in.i(); double y = in.d();
        if (!S[s].isClassification()) y /= SCALE;
        j.b("res", S[s].updatePointValue(i, y));
    } else if (o == "copy") {
        int d = in.i() - 1, s = in.i() - 1, how = in.i();
        if (how == 0) { D c = S[s].copy(); j.b("res", c == S[s] && S[s] == c); S[d].copy(c); j.b("res2", S[d] == S[s]); }
        else if (how == 1) { S[d].copy(S[s]); j.b("res", S[d] == S[s]).b("res2", !(S[d] != S[s])); }
        else if (how == 2) { D *c = new D(S[s]); j.b("res", *c == S[s]); S[d] = *c; j.b("res2", S[d] == *c); scramble(*c); delete c; }
        else { S[d] = S[s]; j.b("res", S[d] == S[s]).b("res2", S[s] == S[d]); }
    } else if (o == "copyz") {
        int d = in.i() - 1, s = in.i() - 1;
        S[d].copyZero(S[s]);
    } else if (o == "join") {
        int d = in.i() - 1, s = in.i() - 1;
        // joining is defined for equal dimensions (an emptied target may remember a larger one)
        if (d != s && (S[s].size() == 0 || (S[d].size() > 0 ? S[d].dim() == S[s].dim() : S[d].getFeaturesNames().size() <= S[s].dim())))
            S[d].join(S[s]);
        else j.b("skip", true);
    } else if (o == "ccopy") {
        int d = in.i() - 1, s = in.i() - 1;
        auto cs = in.list<int>();
        S[d].classesCopy(S[s], cs);
    } else if (o == "byclass") {
        int s = in.i() - 1; bool keep = in.i();
        auto parts = S[s].splitByClasses(keep);
        j.raw("parts", projs(parts));
        for (auto &p: parts) scramble(p);
    } else if (o == "selfeat") {
        int d = in.i() - 1, s = in.i() - 1; int size = in.i();
        auto f = in.list<size_t>();
        if (named(S[s], f)) {
            D r = S[s].selectFeatures(f, size);
            S[d] = r;
            scramble(r);
        } else j.b("skip", true);
    } else if (o == "insfeat") {
        int d = in.i() - 1, s = in.i() - 1; bool keep = in.i();
        auto f = in.list<int>();
        if (named(S[s], f)) {
            D r = S[s].insertFeatures(f, keep);
            S[d] = r;
            scramble(r);
        } else j.b("skip", true);
    } else if (o == "rmfeat") {
        int s = in.i() - 1;
        j.b("res", S[s].removeFeatures(in.list<int>()));
    } else if (o == "rmfeatc") {
        int d = in.i() - 1, s = in.i() - 1, fs = in.i();
        const D &c = S[s];
        D r = c.removeFeatures(in.list<int>(), fs);
        S[d] = r;
        scramble(r);
    } else if (o == "setfn") {
        int s = in.i() - 1;
        S[s].setFeaturesNames(in.list<int>());
    } else if (o == "shuffle") {
        int s = in.i() - 1; size_t seed = (size_t) in.i();
        D c(S[s]);
        S[s].shuffle(seed);
        c.shuffle(seed);
        j.b("same", proj(c) == proj(S[s]));
    } else if (o == "samp") {
        int d = in.i() - 1, s = in.i() - 1; size_t size = (size_t) in.i(); bool wr = in.i(); int seed = in.i();
        if (size <= S[s].size() && S[s].size() > 0) {
            D a = S[s].sampling(size, wr, seed), b = S[s].sampling(size, wr, seed);
            j.b("same", seed == 0 || proj(a) == proj(b));
            S[d] = a;
            scramble(a);
        } else j.b("skip", true);
    } else if (o == "split") {
        int s = in.i() - 1; size_t k = (size_t) in.i(); bool strat = in.i(), keep = in.i(); size_t seed = (size_t) in.i();
        auto a = S[s].splitSample(k, strat, keep, seed), b = S[s].splitSample(k, strat, keep, seed);
        j.b("same", seed == 0 || projs(a) == projs(b)).raw("parts", projs(a));
        for (auto &p: a) scramble(p);
    } else if (o == "kfs" || o == "kkfs") {
        int s = in.i() - 1; size_t k = (size_t) in.i(), q = (size_t) in.i(); bool strat = in.i(), keep = in.i(); size_t seed = (size_t) in.i();
        auto run = [&]() {
            return o == "kfs" ? mltk::validation::kfoldsplit(S[s], k, strat, keep, seed)
                              : mltk::validation::kfoldsplit(S[s], k, q, strat, keep, seed);
        };
        auto a = run(), b = run();
        j.b("same", seed == 0 || projp(a) == projp(b)).raw("pairs", projp(a));
        for (auto &p: a) { scramble(p.train); scramble(p.test); }
    } else if (o == "ptt") {
        int s = in.i() - 1; size_t k = (size_t) in.i(); bool strat = in.i(), keep = in.i(); size_t seed = (size_t) in.i();
        std::vector<mltk::validation::TrainTestPair<double>> a, b;
        a.push_back(mltk::validation::partTrainTest(S[s], k, strat, keep, seed));
        b.push_back(mltk::validation::partTrainTest(S[s], k, strat, keep, seed));
        j.b("same", seed == 0 || projp(a) == projp(b)).raw("pairs", projp(a));
        scramble(a[0].train); scramble(a[0].test);
    } else if (o == "compdist") {
        S[in.i() - 1].computeClassesDistribution();
    } else if (o == "setx") {
        int s = in.i() - 1, i = in.i(), k = in.i(); double v = in.d();
        if (i < (int) S[s].size() && k < (int) S[s].point(i)->X().size()) S[s].point(i)->X()[k] = v / SCALE;
    } else if (o == "cover") {
        int s = in.i() - 1; size_t size = (size_t) in.i(); bool wr = in.i(); int seeds = in.i();
        std::map<long, bool> seen;
        if (size > S[s].size()) seeds = 0;
        if (seeds == 0) j.b("skip", true);
        for (int k = 1; k <= seeds; k++) {
            D a = S[s].sampling(size, wr, k);
            for (size_t i = 0; i < a.size(); i++) seen[num(a.point((int) i)->X()[0] * SCALE)] = true;
        }
        std::vector<long> v;
        for (auto &e: seen) v.push_back(e.first);
        j.raw("seen", ints(v));
    } else if (o == "covershuf") {
        int s = in.i() - 1; int seeds = in.i();
        std::map<long, bool> seen;
        for (int k = 1; k <= seeds; k++) { D a(S[s]); a.shuffle((size_t) k); if (a.size()) seen[num(a.point(0)->X()[0] * SCALE)] = true; }
        std::vector<long> v;
        for (auto &e: seen) v.push_back(e.first);
        j.raw("seen", ints(v));
    } else if (o == "write") {
        int s = in.i() - 1; std::string nm = in.word(), ext = in.word();
        S[s].write(scratch + "/" + nm, ext);
    } else if (o == "load") {
        int s = in.i() - 1; std::string f = in.word(); int how = in.i();
        std::string path = scratch + "/" + f;
        bool r = true;
        if (how == 0) r = S[s].load(path);
        else if (how == 1) r = S[s].load(path, false);
        else if (how == 2) { D d(path.c_str()); S[s] = d; }
        else if (how == 3) { D d(path, false); S[s] = d; }
        else r = S[s].load(path, true);
        j.b("res", r);
    } else if (o == "rawfile") {
        // rawfile name line|line|...   ('^' for space)
        std::string f = in.word(), body = in.word();
        FILE *h = std::fopen((scratch + "/" + f).c_str(), "w");
        for (char c: body) std::fputc(c == '|' ? '\n' : c == '^' ? ' ' : c, h);
        std::fclose(h);
    } else {
        j.str("exc", "unknown operation " + o);
    }
    j.raw("st", projs(S));
    return j.end();
}

int main(int, char **argv) {
    scratch = argv[1] ? argv[1] : ".";
    return loop(reset, op);
}
