// Driver for mltk::ThreadPool. Compiled twice: against the controlled scheduler of sim.hpp
// (every interleaving of atomic operations can be produced and replayed), and, with VT_REAL,
// against real threads.
#include "sim.hpp"
#ifndef VT_REAL
#define std sim
#include <ufjfmltk/core/ThreadPool.hpp>
#undef std
#else
#include <ufjfmltk/core/ThreadPool.hpp>
#endif
#include "vt.hpp"
#include <algorithm>
#include <csignal>
#include <poll.h>
#include <stdexcept>
#include <sys/wait.h>

using namespace vt;
using Pool = mltk::ThreadPool;
using Strs = std::vector<std::string>;

static Strs cut(const std::string &s, char c) {
    Strs v;
    std::string cur;
    for (char x: s) if (x == c) { v.push_back(cur); cur.clear(); } else cur += x;
    v.push_back(cur);
    return v;
}

// ------------------------------------------------------------------ environment
static int out_fd = -1;
static bool quiet_exit = false;
#ifndef VT_REAL
static std::string who() { return simcore::me ? simcore::me->name : "main"; }
static void ev(const std::string &kind, const std::string &key, J &j) {
    j.str("e", kind);
    simcore::event(kind + key, j.end());
}
// logged in the same step as the operation before it
static void note(const std::string &kind, J &j) { j.str("e", kind); simcore::S.log.push_back(j.end()); }
static void pause_here() { simcore::point(); }
static void gate_pause() { simcore::gate("pause"); }
static std::vector<int> gates(16, 0);
static void open_gate(int g) { simcore::point(); gates[g] = 1; simcore::wrote(); }
static void pass_gate(int g) { simcore::point(); if (!gates[g]) simcore::block([g] { return gates[g] != 0; }); }
template <class P> static void until(P p) { simcore::point(); if (!p()) simcore::block(p); }
#else
static std::mutex logm;
static Strs rlog;
static thread_local std::string myname;
static std::atomic<int> wcount{0};
static std::string who() {
    if (myname.empty()) myname = "w" + std::to_string(++wcount);
    return myname;
}
static void ev(const std::string &kind, const std::string &, J &j) {
    j.str("e", kind);
    std::lock_guard<std::mutex> g(logm);
    rlog.push_back(j.end());
}
static void note(const std::string &kind, J &j) { ev(kind, "", j); }
static void pause_here() { std::this_thread::yield(); }
static void gate_pause() { J j; j.str("c", "c1"); ev("pausing", "", j); }
static std::vector<std::atomic<int>> gates(16);
static void open_gate(int g) { gates[g] = 1; }
static void pass_gate(int g) { while (!gates[g]) std::this_thread::yield(); }
template <class P> static void until(P p) { while (!p()) std::this_thread::yield(); }
#endif

static Pool *pool = nullptr;    // stays set while the pool is being destroyed
static std::future<bool> fbool[2000];
static std::future<int> fint[2000];
static std::future<std::string> fstr[2000];

static void nested(int t);
static void work(int t, const std::string &body) {
    { J j; j.str("w", who()).i("t", t); ev("start", ":" + std::to_string(t), j); }
    for (const auto &b: cut(body, '+')) {
        if (b.empty()) continue;
        if (b[0] == 'g') pass_gate(std::atoi(b.c_str() + 1));
        else if (b[0] == 'p') nested(std::atoi(b.c_str() + 1));
        else for (int k = std::atoi(b.c_str()); k > 0; k--) pause_here();
    }
    { J j; j.str("w", who()).i("t", t); ev("end", ":" + std::to_string(t), j); }
}
static void pcall(const std::string &c, int t) { J j; j.str("c", c).i("t", t); ev("pcall", "", j); }
static void pret(const std::string &c, int t) { J j; j.str("c", c).i("t", t); ev("pret", "", j); }
static void nested(int t) {
    pcall(who(), t);
    pool->push_task([t] { work(t, ""); });
    pret(who(), t);
}

template <class A, class B>
static void do_loop(int id, A first, B last, int nb, const std::string &body) {
    auto next = std::make_shared<int>(0);
    pool->parallelize_loop(first, last, [id, next, body](auto a, auto b) {
        int t = 1000 * id + (*next)++;
        { J j; j.str("w", who()).i("t", t).i("id", id).i("a", (long) a).i("b", (long) b); ev("bstart", "", j); }
        for (int k = std::atoi(body.c_str()); k > 0; k--) pause_here();
        { J j; j.str("w", who()).i("t", t).i("id", id); ev("bend", "", j); }
    }, (std::uint_fast32_t) nb);
}

static void client_op(const std::string &c, const Strs &a) {
    const std::string &o = a[0];
    auto I = [&](size_t k) { return k < a.size() ? std::atoi(a[k].c_str()) : 0; };
    auto B = [&](size_t k) { return k < a.size() ? a[k] : std::string(); };
    if (o == "push") {
        int t = I(1); std::string b = B(2);
        pcall(c, t);
        pool->push_task([t, b] { work(t, b); });
        pret(c, t);
    } else if (o == "pusha") {
        int t = I(1); std::string b = B(2);
        pcall(c, t);
        pool->push_task([](int x, const std::string &y) { work(x, y); }, t, b);
        pret(c, t);
    } else if (o == "submit") {
        int t = I(1), v = I(4); std::string b = B(2), kind = B(3);
        pcall(c, t);
        if (kind == "n") fbool[t] = pool->submit([t, b] { work(t, b); });
        else if (kind == "na") fbool[t] = pool->submit([](int x, const std::string &y) { work(x, y); }, t, b);
        else if (kind == "v") fint[t] = pool->submit([t, b, v] { work(t, b); return v; });
        else if (kind == "va") fint[t] = pool->submit([b](int x, int p, int q) { work(x, b); return p * 10 + q; }, t, v / 10, v % 10);
        else if (kind == "s") fstr[t] = pool->submit([t, b, v] { work(t, b); return std::to_string(v); });
        else if (kind == "nx") fbool[t] = pool->submit([t, b, v] { work(t, b); throw std::runtime_error(std::to_string(v)); });
        else fint[t] = pool->submit([t, b, v]() -> int { work(t, b); throw std::runtime_error(std::to_string(v)); });
        pret(c, t);
    } else if (o == "get" || o == "poll") {
        int t = I(1);
        auto ready = [t] {
            auto z = std::chrono::seconds(0);
            if (fbool[t].valid()) return fbool[t].wait_for(z) == std::future_status::ready;
            if (fint[t].valid()) return fint[t].wait_for(z) == std::future_status::ready;
            return fstr[t].wait_for(z) == std::future_status::ready;
        };
        if (o == "poll") {
            J j; j.str("c", c).i("t", t).b("ready", ready());
            ev("poll", "", j);
            return;
        }
        { J j; j.str("c", c).i("t", t); ev("gcall", "", j); }
        until(ready);
        std::string kind = "?";
        long v = 0;
        try {
            if (fbool[t].valid()) { kind = "n"; v = fbool[t].get() ? 1 : 0; }
            else if (fint[t].valid()) { kind = "v"; v = fint[t].get(); }
            else { kind = "v"; v = std::atol(fstr[t].get().c_str()); }
        } catch (const std::runtime_error &e) { kind = "x"; v = std::atol(e.what()); }
        catch (...) { kind = "?"; }
        J j; j.str("c", c).i("t", t).str("kind", kind).i("v", v);
        ev("gret", "", j);
    } else if (o == "pause") {
        gate_pause();
        pool->paused = true;
        J j; j.str("c", c); ev("pause", "", j);
    } else if (o == "unpause") {
        // announced before the store takes effect
        { J j; j.str("c", c); ev("unpause", "", j); }
        pool->paused = false;
        { J j; j.str("c", c); note("unpaused", j); }
    } else if (o == "wait") {
        { J j; j.str("c", c); ev("wcall", "", j); }
        pool->wait_for_tasks();
        { J j; j.str("c", c); ev("wret", "", j); }
    } else if (o == "reset") {
        int n = I(1);
        { J j; j.str("c", c).i("n", n); ev("rcall", "", j); }
        pool->reset((std::uint_fast32_t) n);
        { J j; j.str("c", c).i("n", (long) pool->get_thread_count()); ev("rret", "", j); }
    } else if (o == "counts") {
        { J j; j.str("c", c); ev("ccall", "", j); }
        long q = (long) pool->get_tasks_queued(), r = (long) pool->get_tasks_running(), tot = (long) pool->get_tasks_total();
        auto small = [](long x) { return std::min(x, 1000000L); };
        J j; j.str("c", c).i("q", small(q)).i("r", small(r)).i("tot", small(tot)).i("n", (long) pool->get_thread_count());
        ev("cret", "", j);
    } else if (o == "open") {
        open_gate(I(1));
    } else if (o == "sleep") {
        for (int k = 0; k < I(1); k++) pause_here();
    } else if (o == "loop") {
        int id = I(1), nb = I(4);
        std::string body = B(5), ty = B(6);
        { J j; j.str("c", c).i("id", id).i("first", I(2)).i("last", I(3)).i("nb", nb); ev("lcall", "", j); }
        if (ty == "u") do_loop(id, (unsigned) I(2), (unsigned) I(3), nb, body);
        else if (ty == "l") do_loop(id, (long) I(2), I(3), nb, body);
        else if (ty == "z") do_loop(id, 0, (size_t) I(3), nb, body);
        else do_loop(id, I(2), I(3), nb, body);
        { J j; j.str("c", c).i("id", id); ev("lret", "", j); }
    } else if (o == "destroy") {
        { J j; j.str("c", c); ev("dcall", "", j); }
        delete pool;
        { J j; j.str("c", c); ev("dret", "", j); }
    }
}

// executes one program in this process and returns the events
static Strs execute(int W, int sleep_us, const std::vector<std::vector<Strs>> &prog) {
#ifndef VT_REAL
    std::vector<bool> done(prog.size(), false);
    for (size_t k = 0; k < prog.size(); k++) {
        std::string c = "c" + std::to_string(k + 1);
        simcore::spawn(c, [&, k, c] {
            if (k == 0) {
                pool = new Pool((std::uint_fast32_t) W);
                pool->sleep_duration = (std::uint_fast32_t) sleep_us;
                J j; j.i("n", (long) pool->get_thread_count()); ev("ctor", "", j);
            } else simcore::block([] { return pool != nullptr && pool->get_thread_count() > 0 && !simcore::S.log.empty(); });
            for (const auto &a: prog[k]) {
                if (a[0] == "join") { simcore::block([&] { for (size_t i = 1; i < done.size(); i++) if (!done[i]) return false; return true; }); continue; }
                client_op(c, a);
            }
            done[k] = true;
            simcore::wrote();
        });
    }
    for (auto &x: simcore::S.t) if (x->name[0] == 'c' && simcore::S.policy == "pct") x->prio = (int) (simcore::S.rng() % 1000);
    simcore::run_all();
    return simcore::S.log;
#else
    pool = new Pool((std::uint_fast32_t) W);
    pool->sleep_duration = (std::uint_fast32_t) sleep_us;
    { J j; j.i("n", (long) pool->get_thread_count()); ev("ctor", "", j); }
    std::vector<std::thread> ts;
    for (size_t k = 1; k < prog.size(); k++)
        ts.emplace_back([&, k] { myname = "c" + std::to_string(k + 1); for (const auto &a: prog[k]) client_op(myname, a); });
    myname = "c1";
    bool joined = false;
    for (const auto &a: prog[0]) {
        if (a[0] == "join") { for (auto &t: ts) t.join(); joined = true; continue; }
        client_op("c1", a);
    }
    if (!joined) for (auto &t: ts) t.join();
    return rlog;
#endif
}

static void send_all(const std::string &s) {
    const char *p = s.data();
    size_t n = s.size();
    while (n > 0) { ssize_t w = ::write(out_fd, p, n); if (w <= 0) _exit(98); p += w; n -= (size_t) w; }
}

struct Run { Strs log; bool realised = true; std::vector<std::pair<long, std::vector<int>>> choices; long steps = 0; };

// one execution in a child process
template <class Setup>
static Run forked(int W, int sleep_us, const std::vector<std::vector<Strs>> &prog, Setup setup) {
    int fd[2];
    if (pipe(fd)) _exit(96);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        out_fd = fd[1];
        alarm(60);
#ifndef VT_REAL
        auto report = [] {
            std::string o;
            for (auto &l: simcore::S.log) o += "L" + l + "\n";
            for (auto &c: simcore::S.choices) {
                o += "C" + std::to_string(c.first);
                for (int x: c.second) o += " " + std::to_string(x);
                o += "\n";
            }
            o += std::string("R") + (simcore::S.goals_failed ? "0" : "1") + " " + std::to_string(simcore::S.steps) + "\n";
            send_all(o);
        };
        simcore::S.on_stuck = [report](const char *why) {
            simcore::S.log.push_back(J().str("e", "stuck").str("why", why).end());
            report();
            _exit(0);
        };
        setup();
        execute(W, sleep_us, prog);
        report();
#else
        setup();
        Strs l = execute(W, sleep_us, prog);
        std::string o;
        for (auto &x: l) o += "L" + x + "\n";
        send_all(o + "R1 0\n");
#endif
        _exit(0);
    }
    close(fd[1]);
    std::string buf;
    char b[65536];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, (size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Run r;
    bool complete = false;
    std::istringstream ss(buf);
    std::string l;
    while (std::getline(ss, l)) {
        if (l[0] == 'L') r.log.push_back(l.substr(1));
        else if (l[0] == 'C') {
            std::istringstream cs(l.substr(1));
            long step; cs >> step;
            std::vector<int> v; int x;
            while (cs >> x) v.push_back(x);
            r.choices.emplace_back(step, v);
        } else if (l[0] == 'R') { complete = true; r.realised = l[1] == '1'; r.steps = std::atol(l.c_str() + 3); }
    }
    if (!complete || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        r.log.push_back(J().str("e", sig == SIGALRM ? "stuck" : "died").str("why", "signal " + std::to_string(sig)).end());
    }
    return r;
}

static std::string reply(const std::vector<Strs> &logs, long runs, long realised, long steps) {
    J j;
    j.raw("logs", arr(logs, [](const Strs &l) { return arr(l, [](const std::string &x) { return x; }); }));
    return j.i("runs", runs).i("realised", realised).i("steps", steps).end();
}

static std::string op(const std::string &o, In &in) {
    if (o != "run") return J().str("exc", "unknown operation " + o).end();
    int W = in.i(), sl = in.i();
    std::string policy = in.word();
    long seed = in.i(), runs = in.i();
    std::string goals = in.word(), ps = in.word();
    std::vector<std::vector<Strs>> prog;
    for (auto &c: cut(ps, ';')) {
        prog.emplace_back();
        for (auto &x: cut(c, '|')) if (!x.empty()) prog.back().push_back(cut(x, ':'));
    }
    std::vector<Strs> logs;
    std::set<std::string> seen;
    long done = 0, real = 0, steps = 0;
    auto keep = [&](const Run &r) {
        done++;
        real += r.realised;
        steps += r.steps;
        std::string k;
        for (auto &l: r.log) k += l;
        if (seen.insert(k).second) logs.push_back(r.log);
    };
#ifndef VT_REAL
    if (policy == "dfs") {
        // all schedules with at most `seed` preemptions, in order of their number, up to `runs` executions
        std::deque<std::map<long, int>> todo{{}};
        while (!todo.empty() && done < runs) {
            auto f = todo.front();
            todo.pop_front();
            Run r = forked(W, sl, prog, [&] { simcore::S.policy = "dfs"; simcore::S.forced = f; });
            keep(r);
            if (!r.log.empty() && (r.log.back().find("\"died\"") != std::string::npos || r.log.back().find("\"stuck\"") != std::string::npos)) break;
            if ((long) f.size() < seed)
                for (auto &c: r.choices) if (f.empty() || c.first > f.rbegin()->first)
                    for (int x: c.second) { auto g = f; g[c.first] = x; todo.push_back(g); }
        }
    } else
#endif
    for (long k = 0; k < runs; k++) {
        Run r = forked(W, sl, prog, [&] {
#ifndef VT_REAL
            simcore::S.rng.seed((unsigned) (seed * 7919 + k));
            simcore::S.policy = policy;
            const double ps[] = {0.02, 0.1, 0.3, 0.6};
            simcore::S.pswitch = ps[(seed + k) % 4];
            if (policy == "pct") for (int i = 0; i < 3; i++) simcore::S.pct.insert((long) (simcore::S.rng() % 300));
            if (policy == "goal") for (auto &g: cut(goals, ',')) { auto w = cut(g, '/'); if (w.size() == 2) simcore::S.goals.push_back({w[0], w[1]}); }
#endif
        });
        keep(r);
    }
    return reply(logs, done, real, steps);
}

int main() {
    std::signal(SIGPIPE, SIG_IGN);
    return loop([] {}, op);
}
