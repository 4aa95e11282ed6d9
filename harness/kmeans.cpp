// Driver for k-means clustering.
#include "vt.hpp"
#include "ds.hpp"
#include <set>
#include <ufjfmltk/clusterer/KMeans.hpp>

using namespace vt;
namespace D = mltk::metrics::dist;
using Rows = std::vector<std::vector<double>>;

static Rows rows(In &in) {
    Rows r;
    long n = in.i();
    for (long i = 0; i < n; i++) r.push_back(in.list<double>());
    return r;
}
static mltk::Data<double> make(const std::vector<int> &ids, const std::vector<double> &ys, const Rows &xs) {
    std::vector<double> flat;
    for (auto &x: xs) for (double v: x) flat.push_back(v);
    return dataset(ids, ys, flat);
}
static std::string centres(std::vector<mltk::Point<double>> cs, double scale) {
    return arr(cs, [&](const auto &c) { return arr(c.X(), [&](double v) { return std::to_string(fix(v, scale)); }); });
}
static std::string clusters(const std::vector<mltk::Point<size_t>> &cl) {
    return arr(cl, [](const auto &c) { return arr(c.X(), [](size_t p) { return std::to_string(num((double) p) + 1); }); });
}
struct Quiet {
    std::ostringstream out;
    std::streambuf *old;
    Quiet() : old(std::cout.rdbuf(out.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};

template <class M> static std::string km(In &in) {
    using K = mltk::clusterer::KMeans<double, M>;
    auto ids = in.list<int>();
    auto ys = in.list<double>();
    Rows xs = rows(in), qs = rows(in);
    size_t k = in.i();
    std::string init = in.word();
    size_t seed = in.i();
    int verbose = in.i(), part = in.i();
    long ms = in.i();
    Quiet quiet;
    auto data = make(ids, ys, xs);
    std::string before = fingerprint(data);
    auto model = [&](auto use) {
        // built on the first points only, then given all of them
        K c(part ? make({ids.begin(), ids.begin() + part}, {ys.begin(), ys.begin() + part}, {xs.begin(), xs.begin() + part}) : data, k, init, seed, verbose);
        if (part) c.setSamples(data);
        c.setMaxTime((double) ms);
        bool ok = c.train();
        return use(c, ok);
    };
    std::string again = model([&](K &c, bool) { return centres(c.centers(), 1000); });
    return model([&](K &c, bool ok) {
        J j;
        j.b("ok", ok).raw("cen", centres(c.centers(), 1000));
        std::vector<double> near, near2(qs.size()), own(data.size());
        auto ask = [&](const std::vector<double> &x) { auto p = point<mltk::Point<double>>(x, 0, 0); return c.evaluate(*p); };
        for (auto &q: qs) near.push_back(ask(q));
        j.raw("cl", clusters(c.clusters())).raw("cl2", clusters(c.clusters()));
        for (size_t i = qs.size(); i-- > 0;) near2[i] = ask(qs[i]);
        for (size_t i = data.size(); i-- > 0;) own[i] = c.evaluate(*data[i]);
        j.raw("near", ints(near)).raw("near2", ints(near2)).raw("own", ints(own)).raw("again", again);
        c.train();
        j.raw("retrained", centres(c.centers(), 1000)).raw("clr", clusters(c.clusters()));
        return j.b("kept", before == fingerprint(data)).end();
    });
}
static std::string span(In &in) {
    auto ids = in.list<int>();
    auto ys = in.list<double>();
    Rows xs = rows(in);
    size_t k = in.i();
    std::string init = in.word();
    size_t from = in.i(), count = in.i();
    auto data = make(ids, ys, xs);
    std::string before = fingerprint(data);
    std::set<std::string> seen;
    for (size_t s = from; s < from + count; s++) {
        mltk::clusterer::KMeans<double> c(data, k, init, s);
        c.setMaxTime(600000);
        c.train();
        seen.insert(centres(c.centers(), 60));
    }
    return J().raw("seen", arr(seen, [](const std::string &s) { return s; })).b("kept", before == fingerprint(data)).end();
}
static std::string op(const std::string &o, In &in) {
    if (o == "span") return span(in);
    if (o == "km") {
        std::string metric = in.word();
        if (metric == "m") return km<D::Manhattan<double>>(in);
        if (metric == "c") return km<D::Chebyshev<double>>(in);
        return km<D::Euclidean<double>>(in);
    }
    return J().str("exc", "unknown operation " + o).end();
}
int main() { return loop([] {}, op); }
