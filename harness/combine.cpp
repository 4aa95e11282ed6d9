// Driver for one-vs-one, one-vs-all and ensembles, with learners that record what they are given.
#include <cassert>
#include <numeric>
#include <set>
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/core/Sampling.hpp>
#include <ufjfmltk/classifier/OneVsOne.hpp>
#include <ufjfmltk/classifier/OneVsAll.hpp>
#include <ufjfmltk/classifier/Perceptron.hpp>
#include <ufjfmltk/ensemble/VotingClassifier.hpp>
#include <ufjfmltk/ensemble/BaggingClassifier.hpp>
#include <ufjfmltk/ensemble/AdaBoostClassifier.hpp>
#include <ufjfmltk/ensemble/PerceptronCommittee.hpp>

using namespace vt;
using mltk::Data;
using mltk::Point;
typedef std::vector<std::vector<double>> Rows;

static Rows rows(In &in) {
    Rows r;
    long n = in.i();
    for (long k = 0; k < n; k++) r.push_back(in.list<double>());
    return r;
}
// ---------------------------------------------------------------- what the recording learners see
struct Training {
    std::vector<int> seen, pos, neg;    // positions in the user's data
    int other = 0, markers = 0;
    bool right = true;                  // labels and coordinates as in the user's data
};
static std::vector<int> g_ids;
static std::vector<double> g_ys, g_xs;
static std::vector<Training> g_log;     // one per call of train
static std::vector<int> g_count;        // trainings per member
static bool g_rude = false;
static size_t dim() { return g_ids.empty() ? 0 : g_xs.size() / g_ids.size(); }
static std::vector<int> classList() {
    std::vector<int> c;
    for (double y: g_ys) if (std::find(c.begin(), c.end(), (int) y) == c.end()) c.push_back((int) y);
    return c;
}
// the first coordinate of a point is unique: it names the position
static int positionOf(const Point<double> &p) {
    for (size_t i = 0; i < g_ids.size(); i++) if (g_xs[i * dim()] == p.X()[0]) return (int) i + 1;
    return 0;
}
static Training look(const Data<double> &d) {
    Training t;
    for (size_t i = 0; i < d.size(); i++) {
        const auto &p = *d[i];
        int at = positionOf(p);
        if (p.X()[0] == -7777) { t.markers++; continue; }
        t.seen.push_back(at);
        if (p.Y() == 1) t.pos.push_back(at);
        else if (p.Y() == -1) t.neg.push_back(at);
        else t.other++;
        if (at == 0 || p.Y() != g_ys[at - 1] || p.size() != dim()) t.right = false;
        else for (size_t k = 0; k < dim(); k++) if (p.X()[k] != g_xs[(at - 1) * dim() + k]) t.right = false;
    }
    return t;
}
static std::string trainings() {
    return arr(g_log, [](const Training &t) { return J().raw("pos", ints(t.pos)).raw("neg", ints(t.neg)).i("other", t.other).end(); });
}

// ---------------------------------------------------------------- stubs
static Rows g_table;                    // g_table[m][q]: answer of member m to query q
static Rows g_own;                      // g_own[m][i]: answer of member m to training point i
static std::vector<Rows> g_pair;        // g_pair[q][i][j] or g_pair[q][0][c]
static std::vector<std::vector<double>> g_queries;
static int queryOf(const Point<double> &p) {
    for (size_t q = 0; q < g_queries.size(); q++) if (g_queries[q] == p.X()) return (int) q;
    return -1;
}
static int classOf(const std::vector<int> &seen) {
    if (seen.empty() || seen[0] == 0) return -1;
    auto c = classList();
    return (int) (std::find(c.begin(), c.end(), (int) g_ys[seen[0] - 1]) - c.begin());
}
template <class T> struct Stub : public mltk::classifier::PrimalClassifier<T> {
    int tag = -1;
    int plus = -1, minus = -1;          // classes of the points it was trained on
    Stub() = default;
    explicit Stub(int t) : tag(t) {}
    bool train() override {
        if (tag < 0) tag = (int) g_count.size();
        if ((size_t) tag >= g_count.size()) g_count.resize(tag + 1, 0);
        g_count[tag]++;
        Training t = look(*this->samples);
        g_log.push_back(t);
        plus = classOf(t.pos);
        minus = classOf(t.neg);
        if (g_rude) this->samples->shuffle(3);
        return true;
    }
    double evaluate(const Point<T> &p, bool raw = false) override {
        int q = queryOf(p);
        if (!g_pair.empty()) {
            if (plus < 0) return 0;
            if (g_pair[q].size() > 1) return g_pair[q][plus][minus];       // decisions of the pair
            double s = g_pair[q][0][plus];
            return raw ? s : (s >= 0 ? 1 : -1);
        }
        if (tag < 0 || (size_t) tag >= g_table.size()) return 0;
        if (q >= 0) return g_table[tag][q];
        int at = positionOf(p);
        return at > 0 && (size_t) tag < g_own.size() ? g_own[tag][at - 1] : 0;
    }
    std::string getFormulationString() override { return "Primal"; }
};
static std::vector<mltk::classifier::PerceptronPrimal<double> *> g_models;
template <class T> struct Recorded : public mltk::classifier::PerceptronPrimal<T> {
    Recorded() = default;
    bool train() override {
        g_log.push_back(look(*this->samples));
        g_models.push_back(this);
        this->setMaxIterations(30);
        return mltk::classifier::PerceptronPrimal<T>::train();
    }
};
// an over-sampling method that adds one point, and remembers whether the description of its data was right
struct Marker : public mltk::OverSampling<double> {
    int calls = 0;
    bool right = true;
    Data<double> operator()(Data<double> &d) override {
        calls++;
        auto cl = d.classes();
        auto di = d.classesDistribution();
        for (size_t c = 0; c < cl.size(); c++) {
            size_t n = 0;
            for (size_t i = 0; i < d.size(); i++) if (d[i]->Y() == cl[c]) n++;
            if (c >= di.size() || di[c] != n) right = false;
        }
        for (int y: {-1, 1}) if (std::find(cl.begin(), cl.end(), y) == cl.end()) right = false;
        std::vector<double> x(d.dim(), -7777);
        d.insertPoint(point<Point<double>>(x, 1, 0));
        return d;
    }
};

// ---------------------------------------------------------------- operations
static std::unique_ptr<Data<double>> g_data;
static std::string g_before;
static void readData(In &in) {
    g_ids = in.list<int>();
    g_ys = in.list<double>();
    g_xs.clear();
    for (auto &r: rows(in)) g_xs.insert(g_xs.end(), r.begin(), r.end());
    g_data = std::make_unique<Data<double>>(dataset(g_ids, g_ys, g_xs));
    g_before = fingerprint(*g_data);
    g_log.clear();
    g_count.clear();
    g_models.clear();
    g_table.clear();
    g_own.clear();
    g_pair.clear();
    g_queries.clear();
}
static Point<double> query(size_t q) { return Point<double>(g_queries[q]); }
template <class L> static void predict(J &j, L &l) {
    std::vector<double> a, b(g_queries.size());
    for (size_t q = 0; q < g_queries.size(); q++) a.push_back(l.evaluate(query(q)));
    for (size_t q = g_queries.size(); q-- > 0;) b[q] = l.evaluate(query(q));
    j.raw("pred", ints(a)).raw("again", ints(b));
}
static void namedQueries(size_t n) { for (size_t q = 0; q < n; q++) { std::vector<double> x(dim(), 5); x[0] = 5000 + (double) q; g_queries.push_back(x); } }
static std::string tableJson(const Rows &r) { return arr(r, [](const std::vector<double> &x) { return ints(x); }); }

template <class C, class L> static std::string decompose(L &learner, bool sampled, const std::function<void(J &)> &answers) {
    Marker m;
    C c(*g_data, learner, sampled ? &m : nullptr);
    c.train();
    J j;
    int marked = 0;
    for (auto &t: g_log) if (t.markers == (sampled ? 1 : 0)) marked++;
    predict(j, c);
    answers(j);
    j.raw("trained", trainings()).b("kept", g_before == fingerprint(*g_data));
    j.b("sampler", m.right && m.calls == (int) g_log.size() && marked == (int) g_log.size());
    return j.end();
}
template <class E> static std::string members(E &e) {
    std::string s;
    for (auto it = e.begin(); it != e.end(); ++it) { auto d = (*it)->getSamples(); s += d ? fingerprint(*d) : "-"; s += '|'; }
    for (int c: g_count) s += std::to_string(c) + ",";
    return s;
}
static void sawJson(J &j) {
    bool right = true;
    for (auto &t: g_log) right = right && t.right;
    j.raw("saw", arr(g_log, [](const Training &t) { return ints(t.seen); })).b("sawRight", right).raw("trainings", ints(g_count));
}
static std::unique_ptr<mltk::ensemble::VotingClassifier<double>> g_vote;
template <class E> static std::string answers(E &e, bool withTraining) {
    J j;
    if (withTraining) sawJson(j);
    auto before = members(e);
    predict(j, e);
    j.b("membersKept", before == members(e)).b("kept", g_before == fingerprint(*g_data));
    j.i("size", (long) e.size());
    return j.end();
}

static std::string op(const std::string &o, In &in) {
    if (o == "ovo" || o == "ova") {
        bool sampled = in.i() != 0;
        readData(in);
        long n = in.i();
        for (long q = 0; q < n; q++) if (o == "ovo") g_pair.push_back(rows(in)); else g_pair.push_back({in.list<double>()});
        namedQueries((size_t) n);
        Stub<double> s;
        if (o == "ovo") return decompose<mltk::classifier::OneVsOne<double>>(s, sampled, [](J &) {});
        return decompose<mltk::classifier::OneVsAll<double>>(s, sampled, [](J &) {});
    }
    if (o == "ovap") {
        readData(in);
        g_queries = rows(in);
        Recorded<double> s;
        return decompose<mltk::classifier::OneVsAll<double>>(s, false, [](J &j) {
            // the learners in the order of the classes they stand for
            auto cl = classList();
            Rows score(g_queries.size(), std::vector<double>(cl.size(), 0));
            for (size_t m = 0; m < g_models.size(); m++) {
                int c = classOf(g_log[m].pos);
                auto sol = g_models[m]->getSolution();
                for (size_t q = 0; q < g_queries.size(); q++) {
                    double f = sol.bias;
                    for (size_t k = 0; k < dim(); k++) f += sol.w[k] * g_queries[q][k];
                    if (c >= 0 && (size_t) c < cl.size()) score[q][c] = f * 2;
                }
            }
            j.raw("score", tableJson(score));
        });
    }
    if (o == "vnew") {
        std::string type = in.word();
        g_rude = in.i() != 0;
        readData(in);
        g_table = rows(in);
        namedQueries(g_table[0].size());
        typedef mltk::ensemble::VotingClassifier<double> V;
        typedef Stub<double> S;
        switch (g_table.size()) {
            case 1: g_vote.reset(new V(*g_data, type, S(0))); break;
            case 2: g_vote.reset(new V(*g_data, type, S(0), S(1))); break;
            case 3: g_vote.reset(new V(*g_data, type, S(0), S(1), S(2))); break;
            case 4: g_vote.reset(new V(*g_data, type, S(0), S(1), S(2), S(3))); break;
            case 5: g_vote.reset(new V(*g_data, type, S(0), S(1), S(2), S(3), S(4))); break;
            case 8: g_vote.reset(new V(*g_data, type, S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7))); break;
            default: g_vote.reset(new V(*g_data, type, S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(10)));
        }
        g_vote->train();
        J j;
        sawJson(j);
        return j.b("membersKept", true).b("kept", g_before == fingerprint(*g_data)).i("size", (long) g_vote->size()).end();
    }
    if (o == "vtype") { std::string t = in.word(); if (!g_vote) return "{\"skip\":true}"; g_vote->setVotingType(t); return "{}"; }
    if (o == "vweights") { auto w = in.list<double>(); if (!g_vote) return "{\"skip\":true}"; g_vote->setWeights(w); return "{}"; }
    if (o == "vassign") {
        auto v = std::make_unique<mltk::ensemble::VotingClassifier<double>>();
        *v = *g_vote;
        g_vote = std::move(v);
        return "{}";
    }
    if (o == "veval") {
        if (!g_vote) return "{\"skip\":true}";
        std::string a = answers(*g_vote, false);
        return a.substr(0, a.size() - 1) + ",\"table\":" + tableJson(g_table) + ",\"ys\":" + ints(g_ys) + "}";
    }
    if (o == "bag") {
        int seed = in.i();
        g_rude = in.i() != 0;
        readData(in);
        g_table = rows(in);
        namedQueries(g_table[0].size());
        Stub<double> s;
        mltk::ensemble::BaggingClassifier<double> e(*g_data, s, g_table.size(), (size_t) seed);
        e.train();
        return answers(e, true);
    }
    if (o == "boost") {
        g_rude = in.i() != 0;
        readData(in);
        g_table = rows(in);
        g_own = rows(in);
        namedQueries(g_table[0].size());
        Stub<double> s;
        mltk::ensemble::AdaBoostClassifier<double> e(*g_data, s, g_table.size());
        e.train();
        return answers(e, true);
    }
    if (o == "comm") {
        int n = in.i();
        readData(in);
        g_queries = rows(in);
        mltk::ensemble::PerceptronCommittee<double> e(*g_data, (size_t) n);
        e.train();
        for (auto it = e.begin(); it != e.end(); ++it) g_log.push_back(look(*(*it)->getSamples()));
        for (auto it = e.begin(); it != e.end(); ++it) {
            std::vector<double> r;
            for (size_t q = 0; q < g_queries.size(); q++) r.push_back((*it)->evaluate(query(q)));
            g_table.push_back(r);
        }
        std::string a = answers(e, true);
        return a.substr(0, a.size() - 1) + ",\"table\":" + tableJson(g_table) + "}";
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] { g_vote.reset(); g_rude = false; }, op); }
