// Driver for the distance matrix: its threads run under the controlled scheduler, and every
// distance computed is a point where another thread may continue.
#include "sim.hpp"
#include <ufjfmltk/core/Data.hpp>
#define std sim
#include <ufjfmltk/core/ThreadPool.hpp>
#undef std
#include <ufjfmltk/core/DistanceMatrix.hpp>
#include "vt.hpp"
#include "ds.hpp"
#include <sys/wait.h>

using namespace vt;
namespace D = mltk::metrics::dist;

template <class M> struct Stepped : M {
    double operator()(const mltk::Point<double> &a, const mltk::Point<double> &b) const {
        simcore::point();
        double v = M::operator()(a, b);
        simcore::point();
        return v;
    }
};
static long square(double v) {
    double r = std::round(v * v);
    return std::fabs(v * v - r) < 1e-6 ? num(r) : BIG + 2;
}
template <class M> static std::string compute(mltk::Data<double> d, bool tri, int threads, bool sq) {
    D::DistanceMatrix<Stepped<M>> m(d, tri, (size_t) threads);
    std::string rows = "[";
    for (size_t i = 0; i < m.size(); i++) {
        if (i) rows += ",";
        rows += arr(m[i].X(), [sq](double v) { return std::to_string(sq ? square(v) : num(v)); });
    }
    return J().raw("rows", rows + "]").b("isTri", m.isDiagonalMatrix()).end();
}

static std::string op(const std::string &o, In &in) {
    if (o != "mat") return J().str("exc", "unknown operation " + o).end();
    std::string metric = in.word();
    auto ids = in.list<int>();
    long n = in.i();
    std::vector<double> xs;
    for (long i = 0; i < n; i++) for (double v: in.list<double>()) xs.push_back(v);
    bool tri = in.i() != 0;
    int threads = in.i();
    std::string policy = in.word();
    int seed = in.i();
    auto d = dataset(ids, std::vector<double>(ids.size(), 1.0), xs);
    int fd[2];
    if (pipe(fd)) _exit(96);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(60);
        auto send = [&](const std::string &s) { size_t k = 0; while (k < s.size()) { ssize_t w = ::write(fd[1], s.data() + k, s.size() - k); if (w <= 0) _exit(98); k += (size_t) w; } };
        simcore::S.policy = policy;
        simcore::S.limit = 400000;
        simcore::S.rng.seed((unsigned) seed);
        const double ps[] = {0.05, 0.2, 0.5, 0.9};
        simcore::S.pswitch = ps[seed % 4];
        if (policy == "pct") for (int i = 0; i < 3; i++) simcore::S.pct.insert((long) (simcore::S.rng() % 400));
        simcore::S.on_stuck = [&](const char *why) { send(J().str("died", why).end()); _exit(0); };
        std::string r;
        simcore::spawn("c1", [&] {
            if (metric == "m") r = compute<D::Manhattan<double>>(d, tri, threads, false);
            else if (metric == "c") r = compute<D::Chebyshev<double>>(d, tri, threads, false);
            else r = compute<D::Euclidean<double>>(d, tri, threads, true);
        });
        simcore::run_all();
        send(r);
        _exit(0);
    }
    close(fd[1]);
    std::string buf;
    char b[65536];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) buf.append(b, (size_t) k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (buf.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) return J().str("died", "signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0)).end();
    return buf;
}
int main() { return loop([] {}, op); }
