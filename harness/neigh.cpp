// Driver for nearest neighbours and over-sampling.
#include "vt.hpp"
#include "ds.hpp"
#include <ufjfmltk/core/DistanceMatrix.hpp>
#include <ufjfmltk/core/Sampling.hpp>
#include <ufjfmltk/classifier/KNNClassifier.hpp>
#include <ufjfmltk/regressor/KNNRegressor.hpp>

using namespace vt;
namespace D = mltk::metrics::dist;

struct Set {
    std::vector<int> ids;
    std::vector<double> ys, xs;
    size_t dim() const { return ids.empty() ? 0 : xs.size() / ids.size(); }
    mltk::Data<double> all() const { return dataset(ids, ys, xs); }
    mltk::Data<double> part(const std::vector<int> &pos) const {
        Set s;
        for (int p: pos) {
            s.ids.push_back(ids[p - 1]);
            s.ys.push_back(ys[p - 1]);
            for (size_t k = 0; k < dim(); k++) s.xs.push_back(xs[(p - 1) * dim() + k]);
        }
        return s.all();
    }
};
static Set read(In &in) {
    Set s;
    s.ids = in.list<int>();
    s.ys = in.list<double>();
    long n = in.i();
    for (long i = 0; i < n; i++) for (double v: in.list<double>()) s.xs.push_back(v);
    return s;
}

template <class M> static std::string knn(const Set &s, const std::vector<int> &train, int k, const std::string &mode, int threads) {
    auto all = s.all();
    auto sub = s.part(train);
    std::string before = fingerprint(sub), ball = fingerprint(all);
    mltk::classifier::KNNClassifier<double, M> c((size_t) k);
    if (mode != "brute") c.setPrecomputedDistances(c.precomputeDistances(all, mode == "tri", (size_t) threads));
    c.setSamples(sub);
    c.train();
    std::vector<double> pred, again(all.size());
    for (size_t i = 0; i < all.size(); i++) pred.push_back(c.evaluate(*all[i]));
    for (size_t i = all.size(); i-- > 0;) again[i] = c.evaluate(*all[i]);
    return J().raw("pred", ints(pred)).raw("again", ints(again)).b("kept", before == fingerprint(sub) && ball == fingerprint(all)).end();
}
template <class M> static std::string knnr(const Set &s, const std::vector<int> &train, int k) {
    auto all = s.all();
    auto sub = s.part(train);
    std::string before = fingerprint(sub);
    mltk::regressor::KNNRegressor<double, M> c((size_t) k);
    c.setSamples(sub);
    c.train();
    auto sum = [&](size_t i) { double v = c.evaluate(*all[i]) * k, r = std::round(v); return std::fabs(v - r) < 1e-6 ? r : v; };
    std::vector<double> a, b(all.size());
    for (size_t i = 0; i < all.size(); i++) a.push_back(sum(i));
    for (size_t i = all.size(); i-- > 0;) b[i] = sum(i);
    return J().raw("sum", ints(a)).raw("again", ints(b)).b("kept", before == fingerprint(sub)).end();
}
static std::string points(const mltk::Data<double> &d) {
    std::string o = "[";
    for (size_t i = 0; i < d.size(); i++) {
        if (i) o += ",";
        o += J().i("id", num((double) d[i]->Id())).i("y", num(d[i]->Y()))
              .raw("x", arr(d[i]->X(), [](double v) { return std::to_string(fix(v, 1000)); })).end();
    }
    return o + "]";
}
template <class M> static std::string smote(const Set &s, int k, int seed, bool border) {
    auto d = s.all();
    if (border) { mltk::BorderlineSMOTEOne<double, M> f((size_t) k, 0.1, 3, (size_t) seed); f(d); }
    else { mltk::SMOTE<double, M> f((size_t) k, 0.1, (size_t) seed); f(d); }
    return J().raw("after", points(d)).end();
}

static std::string op(const std::string &o, In &in) {
    std::string metric = in.word();
    Set s = read(in);
    if (o == "knn") {
        auto train = in.list<int>();
        int k = in.i();
        std::string mode = in.word();
        int th = in.i();
        if (metric == "m") return knn<D::Manhattan<double>>(s, train, k, mode, th);
        if (metric == "c") return knn<D::Chebyshev<double>>(s, train, k, mode, th);
        return knn<D::Euclidean<double>>(s, train, k, mode, th);
    }
    if (o == "knnr") {
        auto train = in.list<int>();
        int k = in.i();
        if (metric == "m") return knnr<D::Manhattan<double>>(s, train, k);
        if (metric == "c") return knnr<D::Chebyshev<double>>(s, train, k);
        return knnr<D::Euclidean<double>>(s, train, k);
    }
    if (o == "smote" || o == "bsmote") {
        int k = in.i(), seed = in.i();
        if (metric == "m") return smote<D::Manhattan<double>>(s, k, seed, o == "bsmote");
        if (metric == "c") return smote<D::Chebyshev<double>>(s, k, seed, o == "bsmote");
        return smote<D::Euclidean<double>>(s, k, seed, o == "bsmote");
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] {}, op); }
