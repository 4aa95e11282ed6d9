// A controlled scheduler for code written against the C++ thread library: threads, mutexes,
// atomics and queues with the same interface as their std counterparts, of which exactly one
// runs at a time and which give up control at every operation on shared state. Code under
// test is compiled against it with "#define std sim".
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <unistd.h>

namespace simcore {
    struct Thr {
        int id = 0;
        std::string name;
        std::thread os;
        std::mutex m;
        std::condition_variable cv;
        bool turn = false, finished = false;
        std::function<bool()> blocked_until;   // empty: runnable
        long seen = 0;                         // writes seen at the last wake-up
        bool sleeping = false, woken = false;
        int prio = 0;
    };
    struct Goal { std::string who, ev; };
    struct Sched {
        std::vector<std::unique_ptr<Thr>> t;
        Thr *cur = nullptr;
        long writes = 0, steps = 0, limit = 60000, streak = 0;
        int preemptions = 0, rescue = 0;
        std::vector<std::string> log;
        // policy
        std::string policy = "rand";
        std::mt19937 rng{1};
        double pswitch = 0.2;
        std::map<long, int> forced;                     // step -> thread (dfs)
        std::vector<std::pair<long, std::vector<int>>> choices;   // steps where others could run
        std::vector<Goal> goals;
        size_t goal = 0;
        std::string actor;                              // who reached the last goal
        bool goals_failed = false;
        long goal_steps = 0;
        std::set<long> pct;                             // priority change points
        int lowest = 0;
        std::function<void(const char *)> on_stuck;
        Sched() { t.reserve(4096); }
    };
    inline Sched S;
    inline thread_local Thr *me = nullptr;

    inline bool runnable(Thr &x) { return !x.finished && (!x.blocked_until || x.blocked_until()); }
    inline void hand(Thr *n) {
        S.cur = n;
        { std::lock_guard<std::mutex> g(n->m); n->turn = true; }
        n->cv.notify_one();
    }
    inline void wait_turn(Thr *x) {
        std::unique_lock<std::mutex> g(x->m);
        x->cv.wait(g, [x] { return x->turn; });
        x->turn = false;
    }
    inline Thr *by_name(const std::string &n) {
        for (auto &x: S.t) if (x->name == n) return x.get();
        return nullptr;
    }
    inline void drop_goals() { S.goals_failed = true; S.goal = S.goals.size(); S.policy = "rand"; }
    inline Thr *choose(const std::vector<Thr *> &r, Thr *self) {
        bool self_ok = false;
        for (auto x: r) if (x == self) self_ok = true;
        if (S.policy == "goal" && S.goal < S.goals.size()) {
            // the thread of the next goal if it can move; otherwise somebody whose progress it may need
            if (++S.goal_steps < 400) {
                Thr *g = by_name(S.goals[S.goal].who);
                std::vector<Thr *> cl;
                for (auto x: r) if (x == g) return x;
                for (auto x: r) if (x->name == S.actor) return x;
                for (auto x: r) if (x->name[0] == 'c') cl.push_back(x);
                const auto &from = cl.empty() ? r : cl;
                return from[std::uniform_int_distribution<size_t>(0, from.size() - 1)(S.rng)];
            }
            drop_goals();
        }
        if (S.policy == "dfs") {
            auto f = S.forced.find(S.steps);
            if (f != S.forced.end()) for (auto x: r) if (x->id == f->second) return x;
            if (self_ok && r.size() > 1) {
                std::vector<int> others;
                for (auto x: r) if (x != self) others.push_back(x->id);
                S.choices.emplace_back(S.steps, others);
            }
            if (self_ok && S.streak < 150) return self;
            for (auto x: r) if (!self || x->id > self->id) if (x != self) return x;
            for (auto x: r) if (x != self) return x;
            return r[0];
        }
        if (S.policy == "pct") {
            if (S.pct.count(S.steps) && self) self->prio = --S.lowest;
            if (S.streak > 150 && self) self->prio = --S.lowest;
            Thr *b = r[0];
            for (auto x: r) if (x->prio > b->prio) b = x;
            return b;
        }
        if (self_ok && S.streak < 150 && std::uniform_real_distribution<double>(0, 1)(S.rng) >= S.pswitch) return self;
        return r[std::uniform_int_distribution<size_t>(0, r.size() - 1)(S.rng)];
    }
    // Give up control. The caller continues when it is scheduled again (and its condition holds).
    inline void schedule(Thr *self) {
        if (++S.steps > S.limit) S.on_stuck("limit");
        std::vector<Thr *> r;
        for (auto &x: S.t) if (runnable(*x)) r.push_back(x.get());
        if (r.empty() && S.rescue++ < 6) {
            // time passes: every sleeper looks again (state may have changed without an atomic write)
            for (auto &x: S.t) if (!x->finished && x->sleeping) { x->woken = true; r.push_back(x.get()); }
        }
        if (r.empty() && S.policy == "goal") {
            drop_goals();
            for (auto &x: S.t) if (runnable(*x)) r.push_back(x.get());
        }
        if (r.empty()) S.on_stuck("deadlock");
        Thr *n = choose(r, self);
        if (n == self) { S.streak++; }
        else {
            S.streak = 0;
            bool self_ok = false;
            for (auto x: r) if (x == self) self_ok = true;
            if (self_ok) S.preemptions++;
            hand(n);
            if (self && !self->finished) wait_turn(self);
        }
        if (self) self->blocked_until = nullptr;
    }
    inline void point() { if (me) schedule(me); }
    inline void wrote() { S.writes++; S.rescue = 0; }
    inline void block(std::function<bool()> p) {
        if (!me) return;
        me->blocked_until = std::move(p);
        schedule(me);
    }
    // nothing to do: sleep until somebody changed shared state since the last time we looked
    inline void sleep() {
        if (!me) return;
        Thr *self = me;
        long seen = self->seen;
        self->sleeping = true;
        self->woken = false;
        block([seen, self] { return self->woken || S.writes != seen; });
        self->sleeping = false;
        self->seen = S.writes;
    }
    inline bool steering() { return S.policy == "goal" && S.goal < S.goals.size() && me; }
    inline bool next_goal(const std::string &who, const std::string &kind) {
        return S.goals[S.goal].who == who && S.goals[S.goal].ev == kind;
    }
    inline void reached() {
        S.actor = me->name;
        S.goal_steps = 0;
        if (++S.goal >= S.goals.size()) S.policy = "rand";
    }
    // holds a thread back until its event is the next goal
    inline void gate(const std::string &kind) {
        if (!steering() || kind == "ctor" || next_goal(me->name, kind)) return;
        std::string n = me->name;
        block([n, kind] { return !(S.policy == "goal" && S.goal < S.goals.size()) || next_goal(n, kind); });
    }
    inline void event(const std::string &kind, const std::string &json) {
        gate(kind);
        S.log.push_back(json);
        S.rescue = 0;
        if (steering() && kind != "ctor") { if (next_goal(me->name, kind)) reached(); else drop_goals(); }
    }
    // an internal step a goal may name; it cannot be held back
    inline void internal(const std::string &kind) {
        if (steering()) { if (next_goal(me->name, kind)) reached(); else drop_goals(); }
    }
    inline Thr *spawn(const std::string &name, std::function<void()> f) {
        auto x = std::make_unique<Thr>();
        Thr *p = x.get();
        p->id = (int) S.t.size();
        p->name = name;
        p->seen = S.writes;
        p->prio = (int) (S.rng() % 1000);
        S.t.push_back(std::move(x));
        p->os = std::thread([p, f] {
            wait_turn(p);
            me = p;
            f();
            p->finished = true;
            S.writes++;
            bool any = false;
            for (auto &y: S.t) if (!y->finished) any = true;
            if (any) schedule(p);
        });
        return p;
    }
    // Starts the first thread and returns when every thread has ended. Threads add to S.t while
    // they run, so nothing is read from it before the first (which outlives what it creates) is done.
    inline void run_all() {
        Thr *first = S.t[0].get();
        hand(first);
        first->os.join();
        for (size_t i = 1; i < S.t.size(); i++) S.t[i]->os.join();
    }
}

namespace sim {
    using namespace std;

    class mutex {
        bool held = false;
    public:
        mutex() = default;
        mutex(const mutex &) = delete;
        void lock() {
            simcore::point();
            if (held) simcore::block([this] { return !held; });
            held = true;
        }
        bool try_lock() { simcore::point(); if (held) return false; held = true; return true; }
        void unlock() { held = false; simcore::point(); }
    };
    using recursive_mutex = mutex;
    using timed_mutex = mutex;
    using shared_mutex = mutex;

    enum class cv_status { no_timeout, timeout };
    class condition_variable {
        long signals = 0, waiting = 0;
    public:
        void notify_one() { simcore::point(); signals++; simcore::wrote(); }
        void notify_all() { simcore::point(); signals++; simcore::wrote(); }
        template <class L> void wait(L &l) {
            long s = signals;
            l.unlock();
            simcore::block([this, s] { return signals != s; });
            l.lock();
        }
        template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
        template <class L, class D> cv_status wait_for(L &l, const D &) { l.unlock(); simcore::sleep(); l.lock(); return cv_status::timeout; }
        template <class L, class D, class P> bool wait_for(L &l, const D &d, P p) { while (!p()) wait_for(l, d); return true; }
    };
    using condition_variable_any = condition_variable;

    template <class T> class atomic {
        T v{};
        void rd() const { simcore::point(); }
        void wr() const { simcore::point(); simcore::wrote(); }
    public:
        atomic() = default;
        constexpr atomic(T x) : v(x) {}
        atomic(const atomic &) = delete;
        T load(memory_order = memory_order_seq_cst) const { rd(); return v; }
        void store(T x, memory_order = memory_order_seq_cst) { wr(); v = x; }
        operator T() const { return load(); }
        T operator=(T x) { store(x); return x; }
        T exchange(T x, memory_order = memory_order_seq_cst) { wr(); T o = v; v = x; return o; }
        template <class... A> bool compare_exchange_strong(T &e, T d, A...) { wr(); if (v == e) { v = d; return true; } e = v; return false; }
        template <class... A> bool compare_exchange_weak(T &e, T d, A...) { return compare_exchange_strong(e, d); }
        template <class U> T fetch_add(U d, memory_order = memory_order_seq_cst) { wr(); T o = v; v = (T) (v + d); return o; }
        template <class U> T fetch_sub(U d, memory_order = memory_order_seq_cst) { wr(); T o = v; v = (T) (v - d); return o; }
        T operator++() { return (T) (fetch_add(1) + 1); }
        T operator--() { return (T) (fetch_sub(1) - 1); }
        T operator++(int) { return fetch_add(1); }
        T operator--(int) { return fetch_sub(1); }
        template <class U> T operator+=(U d) { return (T) (fetch_add(d) + d); }
        template <class U> T operator-=(U d) { return (T) (fetch_sub(d) - d); }
    };
    using atomic_bool = atomic<bool>;
    using atomic_int = atomic<int>;

    // a queue whose every operation is a step of its own: unprotected use shows
    template <class T, class C = std::deque<T>> class queue {
        std::queue<T, C> q;
        mutable int readers = 0, writers = 0;
        // overlapping operations on one queue are undefined behaviour
        struct use {
            int &n;
            use(const queue &o, bool w) : n(w ? o.writers : o.readers) {
                if (o.writers || (w && o.readers)) simcore::S.on_stuck("the task queue was used by two threads at once");
                n++;
                simcore::point();
            }
            ~use() { n--; }
        };
    public:
        queue() = default;
        bool empty() const { use u(*this, false); return q.empty(); }
        size_t size() const { use u(*this, false); return q.size(); }
        T &front() { use u(*this, false); return q.front(); }
        T &back() { use u(*this, false); return q.back(); }
        void pop() { use u(*this, true); simcore::wrote(); q.pop(); simcore::internal("pop"); }
        template <class U> void push(U &&x) { use u(*this, true); simcore::wrote(); q.push(std::forward<U>(x)); simcore::internal("enq"); }
        template <class... A> void emplace(A &&...a) { use u(*this, true); simcore::wrote(); q.emplace(std::forward<A>(a)...); simcore::internal("enq"); }
        void swap(queue &o) { q.swap(o.q); }
    };

    class thread {
        simcore::Thr *t = nullptr;
    public:
        using id = int;
        inline static int workers = 0;
        thread() = default;
        thread(thread &&o) noexcept : t(o.t) { o.t = nullptr; }
        thread &operator=(thread &&o) noexcept { if (t) std::terminate(); t = o.t; o.t = nullptr; return *this; }
        template <class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, thread>>>
        explicit thread(F &&f, A &&...a) {
            auto bound = [f = std::decay_t<F>(std::forward<F>(f)), tup = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable {
                std::apply([&](auto &...x) { std::invoke(f, x...); }, tup);
            };
            auto sh = std::make_shared<decltype(bound)>(std::move(bound));
            t = simcore::spawn("w" + std::to_string(++workers), [sh] { (*sh)(); });
            simcore::wrote();
            simcore::point();
        }
        ~thread() { if (t) std::terminate(); }
        bool joinable() const { return t != nullptr; }
        void join() {
            if (!t) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
            simcore::Thr *x = t;
            simcore::point();
            if (!x->finished) simcore::block([x] { return x->finished; });
            t = nullptr;
        }
        void detach() { t = nullptr; }
        id get_id() const { return t ? t->id : -1; }
        static unsigned hardware_concurrency() { return 3; }
        void swap(thread &o) { std::swap(t, o.t); }
    };
    namespace this_thread {
        template <class D> void sleep_for(const D &) { simcore::sleep(); }
        template <class D> void sleep_until(const D &) { simcore::sleep(); }
        inline void yield() { simcore::sleep(); }
        inline int get_id() { return simcore::me ? simcore::me->id : -1; }
    }
}
