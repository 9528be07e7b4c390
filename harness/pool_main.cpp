// Thread pool monitors (C13, C14).
//   pool PROP --seed S --cases N [--from F] [--case K] --out FILE
// C13: histories of submissions, every task tagged; exactly-once, outcome and
//      thread identity are checked from the recorded events.
// C14: children that create pools and leave; checked after the pool is gone.
#include <DedicatedThreadPool.hpp>
#include <dirent.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "ref.hpp"
#include "report.hpp"
#ifdef V_DELAYS
#include "delay.hpp"
static void set_delays(int m, std::uint64_t s) { delay_seed = s | 1; delay_mode = m; }
#else
static void set_delays(int, std::uint64_t) {}
#endif

static Report rep;
typedef std::size_t sz;
typedef std::chrono::steady_clock Clock;

// state of all threads of this process but the calling one
static bool all_asleep(pid_t pid, pid_t self, long& cpu, int& n) {
    std::string d = fmt("/proc/%d/task", int(pid));
    DIR* dir = opendir(d.c_str());
    cpu = 0;
    n = 0;
    if (!dir) return false;
    bool ok = true;
    while (dirent* e = readdir(dir)) {
        int t = std::atoi(e->d_name);
        if (t <= 0) continue;
        ++n;
        if (t == self) continue;
        std::FILE* f = std::fopen((d + "/" + e->d_name + "/stat").c_str(), "r");
        if (!f) continue;
        char buf[1024];
        sz k = std::fread(buf, 1, sizeof buf - 1, f);
        buf[k] = 0;
        std::fclose(f);
        char* p = std::strrchr(buf, ')');
        if (!p) continue;
        char st = p[2];
        long ut = 0, stt = 0;
        std::sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld", &ut, &stt);
        cpu += ut + stt;
        if (st != 'S' && st != 'D') ok = false;
    }
    closedir(dir);
    return ok;
}
static int thread_count() { long c; int n; all_asleep(getpid(), 0, c, n); return n; }

// ------------------------------------------------------------------ C13
// a pool per return type: tags give fresh pools
template <int K> struct Tag {
    long v;
    std::unique_ptr<long> heap;   // move only
    Tag() : v(0) {}
    explicit Tag(long x) : v(x), heap(new long(x * 3 + 1)) {}
    Tag(Tag&& o) : v(o.v), heap(std::move(o.heap)) {}
    Tag& operator=(Tag&& o) { v = o.v; heap = std::move(o.heap); return *this; }
    bool ok(long x) const { return v == x && heap && *heap == x * 3 + 1; }
};
struct MyError : std::runtime_error { long id; MyError(long i) : std::runtime_error("task " + std::to_string(i)), id(i) {} };

struct Rec {
    std::atomic<int> runs, bodies;   // executions started and completed
    std::atomic<std::size_t> tid;    // hash of the executing thread
    Rec() : runs(0), bodies(0), tid(0) {}
};
static std::size_t my_tid() { return std::hash<std::thread::id>()(std::this_thread::get_id()); }
static std::atomic<long> finished(0);
static std::atomic<bool> watching(false);
static std::atomic<bool> stop_watch(false);
static std::string out_path;

// tasks outstanding, nothing finishing and every thread asleep for long
static void watchdog(double limit) {
    long last = finished.load(), lastcpu = 0;
    auto t0 = Clock::now();
    pid_t me = pid_t(gettid());
    while (!stop_watch.load()) {
        std::this_thread::sleep_for(std::chrono::milliseconds(200));
        long cpu;
        int n;
        bool asleep = all_asleep(getpid(), me, cpu, n);
        long f = finished.load();
        if (!watching.load() || f != last || !asleep || cpu != lastcpu) { last = f; lastcpu = cpu; t0 = Clock::now(); continue; }
        if (std::chrono::duration<double>(Clock::now() - t0).count() > limit) {
            rep.violation(fmt("a submitted task is never executed: %ld tasks done, every thread asleep for %.0f s", f, limit));
            rep.finish(out_path.c_str());
            _exit(1);
        }
    }
}

template <class T> struct Res;
template <int K> struct Res<Tag<K>> {
    static Tag<K> make(long i) { return Tag<K>(i); }
    static bool good(std::future<Tag<K>>& f, long i) { return f.get().ok(i); }
};
template <> struct Res<void> {
    static void make(long) {}
    static bool good(std::future<void>& f, long) { f.get(); return true; }
};
template <> struct Res<std::string> {
    static std::string make(long i) { return "result number " + std::to_string(i); }
    static bool good(std::future<std::string>& f, long i) { return f.get() == make(i); }
};
template <> struct Res<int> {
    static int make(long i) { return int(i * 7 - 3); }
    static bool good(std::future<int>& f, long i) { return f.get() == make(i); }
};

// a callable that can only be moved
#ifdef V_COPYABLE
typedef std::shared_ptr<long> IdPtr;
#else
typedef std::unique_ptr<long> IdPtr;
#endif
template <class T> struct Job {
    IdPtr id;
    Rec* rec;
    int kind;       // 0 plain, 1 throws, 2 throws int, 3 spins, 4 sleeps
    unsigned work;
    Job(long i, Rec* r, int k, unsigned w) : id(new long(i)), rec(r), kind(k), work(w) {}
#ifdef V_COPYABLE
    Job(const Job& o) : id(o.id), rec(o.rec), kind(o.kind), work(o.work) {}
#else
    Job(Job&& o) : id(std::move(o.id)), rec(o.rec), kind(o.kind), work(o.work) {}
#endif
    T operator()() {
        rec->runs.fetch_add(1);
        rec->tid.store(my_tid());
        if (kind == 3) { volatile unsigned s = 0; for (unsigned k = 0; k < work; ++k) s = s + k; }
        if (kind == 4) std::this_thread::sleep_for(std::chrono::microseconds(work));
        rec->bodies.fetch_add(1);
        finished.fetch_add(1);
        if (kind == 1) throw MyError(*id);
        if (kind == 2) throw int(*id);
        return Res<T>::make(*id);
    }
};
template <class T> struct Pool {
    typedef intp::DedicatedThreadPool<T> P;
    P* p;
    sz want, main_tid;
    std::string name;
    std::set<sz> tids;
    std::mutex tmx;
    Pool(const char* n, sz threads) : p(&P::get_instance(threads)), want(threads == 0 ? 8 : threads), main_tid(my_tid()), name(n) {
        ++rep.evals;
        if (p->thread_num() != want) rep.violation(fmt("pool %s: %zu threads requested, has %zu", n, want, p->thread_num()));
        P& again = P::get_instance(threads + 3);
        ++rep.evals;
        if (&again != p || again.thread_num() != want) rep.violation("get_instance gives another pool");
    }
    struct Batch {
        std::vector<std::unique_ptr<Rec>> recs;
        std::vector<std::future<T>> fut;
        std::vector<int> kind;
        std::vector<char> kept;
    };
    std::future<T> submit(long id, Rec* rec, int kind, unsigned work) { return p->queue_task(Job<T>(id, rec, kind, work)); }
    void check_one(long id, Rec& r, std::future<T>& f, int kind, bool kept) {
        ++rep.evals;
        if (kept) {
            if (f.wait_for(std::chrono::seconds(0)) == std::future_status::timeout) f.wait();
            try {
                bool g = Res<T>::good(f, id);
                if (kind == 1 || kind == 2) rep.violation(fmt("pool %s task %ld threw but its future has a value", name.c_str(), id));
                else if (!g) rep.violation(fmt("pool %s task %ld: wrong result", name.c_str(), id));
            } catch (const MyError& e) { if (kind != 1 || e.id != id) rep.violation(fmt("pool %s task %ld (kind %d): exception of task %ld", name.c_str(), id, kind, e.id)); }
            catch (int e) { if (kind != 2 || e != int(id)) rep.violation(fmt("pool %s task %ld (kind %d): int exception %d", name.c_str(), id, kind, e)); }
            catch (const std::exception& e) { rep.violation(fmt("pool %s task %ld (kind %d): %s", name.c_str(), id, kind, e.what())); }
        } else
            while (r.bodies.load() == 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
        int n = r.runs.load();
        if (n != 1) rep.violation(fmt("pool %s task %ld executed %d times", name.c_str(), id, n));
        sz t = r.tid.load();
        if (t == main_tid) rep.violation(fmt("pool %s task %ld ran on the submitting thread", name.c_str(), id));
        std::lock_guard<std::mutex> g(tmx);
        tids.insert(t);
    }
    void check_threads() {
        ++rep.evals;
        if (tids.size() > want) rep.violation(fmt("pool %s: tasks ran on %zu threads, the pool has %zu", name.c_str(), tids.size(), want));
        rep.maxi("threads_seen_" + name, (long double)tids.size());
    }
    void once(const Batch& b) {  // still exactly once, later
        for (sz k = 0; k < b.recs.size(); ++k) { ++rep.evals; if (b.recs[k]->runs.load() != 1) rep.violation(fmt("pool %s task %zu executed %d times in the end", name.c_str(), k, b.recs[k]->runs.load())); }
    }
    int kind_of(Rng& r, bool thr) {
#ifdef V_NO_THROW
        thr = false;
#endif
        return thr && r.chance(.15) ? r.range(1, 2) : r.chance(.3) ? 3 : r.chance(.05) ? 4 : 0;
    }
    // all from one thread, in bursts with gaps
    void bursts(Rng& r, int rounds, int maxn, bool thr) {
        std::vector<Batch> all;
        for (int q = 0; q < rounds; ++q) {
            Batch b;
            sz n = 1 + r.below(sz(maxn));
            if (r.chance(.2)) n = 1;
            if (r.chance(.2)) n = 15 + r.below(4);   // around the batch size
            watching = true;
            for (sz k = 0; k < n; ++k) {
                b.recs.emplace_back(new Rec);
                b.kind.push_back(kind_of(r, thr));
                b.kept.push_back(!r.chance(.1));
                std::future<T> f = submit(long(k), b.recs[k].get(), b.kind[k], 1 + unsigned(r.below(300)));
                if (b.kept[k]) b.fut.push_back(std::move(f)); else b.fut.push_back(std::future<T>());
                if (r.chance(.05)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
            }
            for (sz k = 0; k < n && !rep.full(); ++k) check_one(long(k), *b.recs[k], b.fut[k], b.kind[k], b.kept[k]);
            watching = false;
            ++rep.evals;
            if (!p->is_main_queue_empty()) rep.violation(fmt("pool %s: main queue not empty after all tasks ran", name.c_str()));
            if (r.chance(.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
            rep.add("tasks", n);
            rep.distinct.insert(mix(mix(1, want), mix(n, thr)));
            all.push_back(std::move(b));
        }
        for (auto& b : all) once(b);
        rep.add("bursts", sz(rounds));
    }
    // single tasks handed to a parked pool
    void pingpong(Rng& r, int n) {
        for (int k = 0; k < n && !rep.full(); ++k) {
            Rec rec;
            int kd = kind_of(r, true);
            watching = true;
            std::future<T> f = submit(k, &rec, kd, 10);
            check_one(k, rec, f, kd, true);
            watching = false;
            if (r.chance(.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(80)));
        }
        rep.add("tasks", sz(n));
        rep.add("handoffs_to_idle_pool", sz(n));
        rep.distinct.insert(mix(2, want));
    }
    // several submitters at once
    void crowd(Rng& r, int S, int M) {
        std::vector<Batch> bs;
        for (int s = 0; s < S; ++s) bs.emplace_back();
        std::vector<std::thread> th;
        std::vector<std::uint64_t> seeds;
        for (int s = 0; s < S; ++s) seeds.push_back(r.u64());
        std::atomic<int> go(0);
        watching = true;
        for (int s = 0; s < S; ++s)
            th.emplace_back([&, s] {
                Rng q(seeds[sz(s)]);
                Batch& b = bs[sz(s)];
                b.recs.reserve(sz(M));
                go.fetch_add(1);
                while (go.load() < S) std::this_thread::yield();
                for (int k = 0; k < M; ++k) {
                    b.recs.emplace_back(new Rec);
                    b.kind.push_back(kind_of(q, true));
                    b.fut.push_back(submit(long(s) * 100000 + k, b.recs.back().get(), b.kind.back(), 1 + unsigned(q.below(200))));
                    if (q.chance(.1)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(40)));
                }
            });
        for (auto& t : th) t.join();
        for (int s = 0; s < S && !rep.full(); ++s)
            for (int k = 0; k < M && !rep.full(); ++k) check_one(long(s) * 100000 + k, *bs[sz(s)].recs[sz(k)], bs[sz(s)].fut[sz(k)], bs[sz(s)].kind[sz(k)], true);
        watching = false;
        for (auto& b : bs) once(b);
        rep.add("tasks", sz(S * M));
        rep.add("concurrent_submitters", sz(S));
        rep.distinct.insert(mix(mix(3, want), sz(S)));
    }
    // tasks that submit further tasks (without waiting for them)
    struct Tree {
        std::mutex mx;
        std::vector<std::unique_ptr<Rec>> recs;
        std::vector<std::future<T>> fut;
        std::atomic<long> made, left;
    };
    struct Node {
        Pool* pool;
        Tree* t;
        Rec* rec;
        int depth, fan;
        T operator()() {
            rec->runs.fetch_add(1);
            rec->tid.store(my_tid());
            if (depth > 0)
                for (int k = 0; k < fan; ++k) pool->spawn(*t, depth - 1, fan);
            rec->bodies.fetch_add(1);
            finished.fetch_add(1);
            t->left.fetch_sub(1);
            return Res<T>::make(5);
        }
    };
    void spawn(Tree& t, int depth, int fan) {
        t.left.fetch_add(1);
        t.made.fetch_add(1);
        Rec* r = new Rec;
        { std::lock_guard<std::mutex> g(t.mx); t.recs.emplace_back(r); }
        Node n = {this, &t, r, depth, fan};
        std::future<T> f = p->queue_task(n);
        std::lock_guard<std::mutex> g(t.mx);
        t.fut.push_back(std::move(f));
    }
    void tree(Rng& r) {
        Tree t;
        t.made = 0;
        t.left = 0;
        int depth = r.range(1, 4), fan = r.range(1, depth > 2 ? 3 : 6);
        watching = true;
        spawn(t, depth, fan);
        while (t.left.load() > 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
        long expect = 0, lay = 1;
        for (int d = 0; d <= depth; ++d) { expect += lay; lay *= fan; }
        ++rep.evals;
        for (;;) { std::lock_guard<std::mutex> g(t.mx); if (long(t.fut.size()) >= expect) break; }
        if (t.made.load() != expect) rep.violation(fmt("pool %s: tree of %ld tasks made %ld", name.c_str(), expect, t.made.load()));
        for (auto& f : t.fut) { ++rep.evals; if (!Res<T>::good(f, 5)) rep.violation(fmt("pool %s: wrong result of a nested task", name.c_str())); }
        watching = false;
        for (auto& q : t.recs) { ++rep.evals; if (q->runs.load() != 1) rep.violation(fmt("pool %s: nested task executed %d times", name.c_str(), q->runs.load())); tids.insert(q->tid.load()); }
        rep.add("tasks", sz(expect));
        rep.add("nested_tasks", sz(expect - 1));
        rep.distinct.insert(mix(mix(4, want), mix(sz(depth), sz(fan))));
    }
    // every worker held back while a long queue builds up, then released
    void flood(Rng& r, int n) {
        Batch b;
        std::shared_ptr<std::atomic<int>> gate(new std::atomic<int>(0)), in(new std::atomic<int>(0));
        std::vector<std::future<T>> held;
        const bool hold = r.chance(.7);
        if (hold) for (sz k = 0; k < want; ++k) held.push_back(p->queue_task([gate, in] { in->fetch_add(1); while (!gate->load()) std::this_thread::sleep_for(std::chrono::microseconds(50)); finished.fetch_add(1); return Res<T>::make(3); }));
        // a worker may have taken several of them: go on when one is running
        if (hold) while (in->load() < 1) std::this_thread::yield();
        for (int k = 0; k < n; ++k) {
            b.recs.emplace_back(new Rec);
            b.kind.push_back(kind_of(r, true));
            if (b.kind.back() > 2) b.kind.back() = 0;
            b.fut.push_back(submit(k, b.recs.back().get(), b.kind.back(), 1));
        }
        watching = true;
        gate->store(1);
        for (auto& f : held) { ++rep.evals; if (!Res<T>::good(f, 3)) rep.violation(fmt("pool %s: wrong result of a gated task", name.c_str())); }
        for (int k = 0; k < n && !rep.full(); ++k) check_one(k, *b.recs[sz(k)], b.fut[sz(k)], b.kind[sz(k)], true);
        watching = false;
        once(b);
        rep.add("tasks", sz(n));
        rep.maxi("longest_queue", (long double)n);
        rep.distinct.insert(mix(mix(5, want), sz(n / 64)));
    }
    static T plain() { finished.fetch_add(1); return Res<T>::make(11); }
    static T bound(long a, long b) { finished.fetch_add(1); return Res<T>::make(a * b); }
    // callables of every kind: functions, big and stateful objects, std::function, binders, nested packages
    void callables(Rng& r, int n) {
        struct Big { long pad[512]; };
        for (int k = 0; k < n && !rep.full(); ++k) {
            long id = long(r.below(1000));
            std::future<T> f;
            long want_id = id;
            watching = true;
            switch (r.below(7)) {
                case 0: f = p->queue_task(&Pool::plain); want_id = 11; break;
                case 1: f = p->queue_task(std::bind(&Pool::bound, id, 3L)); want_id = id * 3; break;
                case 2: { Big g; for (long q = 0; q < 512; ++q) g.pad[q] = id + q; f = p->queue_task([g] { long bad = 0; for (long q = 0; q < 512; ++q) bad += g.pad[q] != g.pad[0] + q; finished.fetch_add(1); return Res<T>::make(bad ? -1 : g.pad[0]); }); break; }
                case 3: { std::function<T()> fn = [id] { finished.fetch_add(1); return Res<T>::make(id); }; f = p->queue_task(fn); break; }
                case 4: { long c = id - 1; f = p->queue_task([c]() mutable { ++c; finished.fetch_add(1); return Res<T>::make(c); }); break; }
                case 5: { auto s = std::make_shared<std::string>(std::to_string(id)); f = p->queue_task([s] { finished.fetch_add(1); return Res<T>::make(std::stol(*s)); }); s.reset(); break; }
                default: { auto f2 = p->queue_task([id] { finished.fetch_add(1); return Res<T>::make(id); }); std::future<T> f3(std::move(f2)); f = std::move(f3); break; }
            }
            ++rep.evals;
            try { if (!Res<T>::good(f, want_id)) rep.violation(fmt("pool %s: wrong result of a callable", name.c_str())); }
            catch (const std::exception& e) { rep.violation(fmt("pool %s: callable: %s", name.c_str(), e.what())); }
            watching = false;
        }
        rep.add("tasks", sz(n));
        rep.add("callables", sz(n));
        rep.distinct.insert(mix(6, want));
    }
    void history(Rng& r, int which) {
        switch (which % 7) {
            case 5: flood(r, r.chance(.1) ? r.range(2000, 9000) : r.range(20, 800)); break;
            case 6: callables(r, r.range(10, 50)); break;
            case 0: bursts(r, r.range(1, 6), 120, true); break;
            case 1: pingpong(r, r.range(20, 60)); break;
            case 2: crowd(r, r.range(2, 6), r.range(5, 60)); break;
            case 3: tree(r); break;
            default: bursts(r, r.range(5, 20), 6, false); break;
        }
        check_threads();
    }
};
static int c13(std::uint64_t seed, long from, long cases, long only) {
    std::thread dog(watchdog, 12.);
    {
        Pool<Tag<1>> a("one_thread", 1);
        Pool<Tag<2>> b("two_threads", 2);
        Pool<void> c("void_8", 8);
        Pool<std::string> d("string_3", 3);
        Pool<Tag<0>> e("default_size", 0);
        Pool<int> f("int_16", 16);
        long done = 0;
        for (long i = only >= 0 ? only : from; only >= 0 ? i == only : i < from + cases; ++i) {
            Rng r(mix(mix(seed, 1300), sz(i)));
            rep.case_id = i;
            int mode = int(i % 4);
            set_delays(mode, r.u64());
            int which = r.range(0, 6);
            switch (r.range(0, 5)) {
                case 0: a.history(r, which); break;
                case 1: b.history(r, which); break;
                case 2: c.history(r, which); break;
                case 3: d.history(r, which); break;
                case 4: e.history(r, which); break;
                default: f.history(r, which); break;
            }
            rep.add(fmt("histories_delay_mode_%d", mode));
            ++done;
            if (rep.full()) break;
        }
        set_delays(0, 1);
        rep.add("cases", sz(done));
        rep.sample(fmt("%ld histories: bursts, hand-offs to an idle pool, %d submitter crowds, task trees on pools of 1, 2, 3, 8, 8 and 16 threads", done, 6));
    }
    stop_watch = true;
    dog.join();
#ifdef V_DELAYS
    rep.add("synchronisation_points", sz(delay_events.load()));
    rep.add("delays_injected", sz(delay_taken.load()));
#endif
    return rep.finish(out_path.c_str());
}

// ------------------------------------------------------------------ C14
// The child: everything is decided after main, when the pools are gone.
namespace child {
static std::uint64_t seed;
static int baseline = 1, plan = 0;
static int pipe_fd = -1;
static std::vector<std::function<int()>>* stranded = nullptr;  // futures to look at
static std::vector<std::unique_ptr<Rec>>* recs = nullptr;
static std::atomic<int> waiter_state(0);  // 0 none, 1 waiting, 2 released
static void say(const std::string& s) { ssize_t k = write(pipe_fd, s.c_str(), s.size()); (void)k; }
// registered before any pool exists, hence run after all pools are destroyed
static void after() {
    set_delays(0, 1);
    int n = 0;
    // a joined thread may linger in /proc for an instant
    for (int k = 0; k < 2000; ++k) { n = thread_count() - (waiter_state.load() == 1 ? 1 : 0); if (n <= baseline) break; usleep(1000); }
    if (n > baseline) say(fmt("V %d threads alive after the pool was destroyed, %d before\n", n, baseline));
    long ready = 0, broken = 0;
    for (auto& f : *stranded) {
        int s = f();
        if (s < 0) { say("V a future is still pending after the pool was destroyed\n"); break; }
        if (s == 1) ++broken; else ++ready;
    }
    for (auto& r : *recs) if (r->runs.load() > 1) { say(fmt("V a task was executed %d times\n", r->runs.load())); break; }
    for (auto& r : *recs) if (r->runs.load() != r->bodies.load()) { say("V a task was cut off in the middle\n"); break; }
    if (waiter_state.load() != 0) {
        for (int k = 0; k < 5000 && waiter_state.load() != 2; ++k) usleep(1000);
        if (waiter_state.load() != 2) say("V a thread waiting for an abandoned task was not released\n");
    }
    say(fmt("K ready=%ld broken=%ld plan=%d\n", ready, broken, plan));
    _exit(0);
}
template <class T> static void keep(std::shared_ptr<std::future<T>> f) {
    stranded->push_back([f]() -> int {
        if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return -1;
        try { f->get(); } catch (const std::future_error&) { return 1; } catch (...) { return 0; }
        return 0;
    });
}
static std::mutex grow_mx;
// a chain of tasks, each submitting the next
template <class T> struct Grower {
    intp::DedicatedThreadPool<T>* p;
    Rec* rec;
    int left;
    unsigned work;
    T operator()();
};
template <class T> static void grow(intp::DedicatedThreadPool<T>& p, int left, unsigned work) {
    Rec* rec = new Rec;
    { std::lock_guard<std::mutex> g(grow_mx); recs->emplace_back(rec); }
    Grower<T> q = {&p, rec, left, work};
    auto f = std::make_shared<std::future<T>>(p.queue_task(q));
    std::lock_guard<std::mutex> g(grow_mx);
    keep<T>(f);
}
template <class T> T Grower<T>::operator()() {
    rec->runs.fetch_add(1);
    if (left > 0) grow<T>(*p, left - 1, work);
    volatile unsigned s = 0;
    for (unsigned k = 0; k < work * 20; ++k) s = s + k;
    rec->bodies.fetch_add(1);
    return Res<T>::make(1);
}
template <class T> static void use(Rng& r, sz threads) {
    typedef intp::DedicatedThreadPool<T> P;
    P& p = P::get_instance(threads);
    int what = r.range(0, 8);
    auto task = [&](int kind, unsigned w) {
        Rec* rec = new Rec;
        auto f = std::make_shared<std::future<T>>(p.queue_task(Job<T>(long(w), rec, kind, w)));
        std::lock_guard<std::mutex> g(grow_mx);
        recs->emplace_back(rec);
        keep<T>(f);
    };
    auto rec_new = [&]() -> Rec* { Rec* rec = new Rec; std::lock_guard<std::mutex> g(grow_mx); recs->emplace_back(rec); return rec; };
    if (what == 0) return;                                                      // never used
    if (what == 1) { usleep(useconds_t(r.below(3000))); return; }               // idle
    if (what == 2) { for (int k = r.range(1, 40); k > 0; --k) task(3, unsigned(r.below(500))); return; }   // queue full at exit
    if (what == 3) { for (int k = r.range(1, 10); k > 0; --k) task(4, unsigned(r.below(3000))); usleep(useconds_t(r.below(300))); return; }  // running at exit
    if (what == 4) {  // used, drained, idle
        std::vector<std::future<T>> v;
        for (int k = r.range(1, 30); k > 0; --k) { v.push_back(p.queue_task(Job<T>(k, rec_new(), 0, 1))); }
        for (auto& f : v) f.wait();
        if (r.chance(.5)) usleep(useconds_t(r.below(500)));
        return;
    }
    if (what == 5) { for (int k = r.range(1, 200); k > 0; --k) task(k % 50 == 0 ? 4 : 0, 100); return; }
    if (what == 7) { for (int k = r.range(500, 4000); k > 0; --k) task(k % 100 == 0 ? 3 : 0, 100); return; }   // a long queue at exit
    if (what == 8) {  // tasks submit further tasks while the pool shuts down
        for (int k = r.range(1, 12); k > 0; --k) grow<T>(p, r.range(1, 40), unsigned(r.below(300)));
        if (r.chance(.5)) usleep(useconds_t(r.below(500)));
        return;
    }
    // a waiter in another thread, on a task that may be abandoned
    if (waiter_state.load() == 0) {
        for (int k = 0; k < 20; ++k) task(4, 1000);
        auto f = std::make_shared<std::future<T>>(p.queue_task(Job<T>(1, rec_new(), 0, 1)));
        waiter_state = 1;
        std::thread([f] { f->wait(); waiter_state = 2; }).detach();
    }
}
static int create_failure(Rng& r) {
#ifdef V_DELAYS
    typedef intp::DedicatedThreadPool<Tag<9>> P;
    sz n = 1 + r.below(9);
    long k = long(r.below(n));
    create_fail_at = k;
    bool threw = false;
    try { P::get_instance(n); } catch (const std::system_error&) { threw = true; }
    create_fail_at = -1;
    if (!threw) { say(fmt("V creating thread %ld of %zu failed, the constructor did not throw\n", k, n)); return 0; }
    int left = 0;
    for (int q = 0; q < 2000; ++q) { left = thread_count(); if (left <= baseline) break; usleep(1000); }
    if (left > baseline) { say(fmt("V %d threads left behind by a failed construction (thread %ld of %zu)\n", left - baseline, k, n)); return 0; }
    // the next attempt works
    try {
        P& p = P::get_instance(n);
        Rec rec;
        std::future<Tag<9>> f = p.queue_task(Job<Tag<9>>(4, &rec, 0, 1));
        if (!f.get().ok(4) || p.thread_num() != n) say("V pool created after a failed attempt does not work\n");
    } catch (const std::exception& e) { say(std::string("V second attempt to create the pool failed: ") + e.what() + "\n"); }
#else
    (void)r;
#endif
    return 0;
}
static int run(std::uint64_t s, int mode, int fd) {
    pipe_fd = fd;
    seed = s;
    Rng r(s);
    stranded = new std::vector<std::function<int()>>;
    recs = new std::vector<std::unique_ptr<Rec>>;
#ifdef V_NO_THROW
    std::thread([] {}).join();   // the race detector starts a thread of its own
    usleep(2000);
#endif
    baseline = thread_count();
    std::atexit(after);
    plan = r.range(0, 3);
    set_delays(mode, r.u64());
    if (plan == 0) { create_failure(r); if (r.chance(.5)) return 0; }
    int pools = r.range(1, 5);
    for (int k = 0; k < pools; ++k) {
        sz n = r.chance(.2) ? 1 : 1 + r.below(10);
        switch (r.range(0, 5)) {
            case 0: use<Tag<20>>(r, n); break;
            case 1: use<Tag<21>>(r, n); break;
            case 2: use<void>(r, n); break;
            case 3: use<int>(r, n); break;
            case 4: use<std::string>(r, n); break;
            default: use<Tag<22>>(r, n); break;
        }
        plan = plan * 7 + int(n);
    }
    return 0;
}
}  // namespace child
static int c14(std::uint64_t seed, long from, long cases, long only, const char* self) {
    struct Run { pid_t pid; int fd; long id; Clock::time_point t0; long cpu; Clock::time_point idle; std::string text; };
    std::vector<Run> live;
    long next = only >= 0 ? only : from, end = only >= 0 ? only + 1 : from + cases;
    while ((next < end || !live.empty()) && !rep.full()) {
        while (next < end && live.size() < 12) {
            int fd[2];
            if (pipe(fd)) return 3;
            std::uint64_t s = mix(mix(seed, 1400), sz(next));
            int mode = int(next % 4);
            pid_t p = fork();
            if (p < 0) return 3;
            if (p == 0) {
                close(fd[0]);
                std::string a = fmt("%llu", (unsigned long long)s), b = fmt("%d", mode), c = fmt("%d", fd[1]);
                execl(self, self, "child", a.c_str(), b.c_str(), c.c_str(), (char*)nullptr);
                _exit(77);
            }
            close(fd[1]);
            Run q = {p, fd[0], next, Clock::now(), -1, Clock::now(), ""};
            live.push_back(q);
            ++next;
        }
        usleep(500);
        for (sz k = 0; k < live.size();) {
            Run& q = live[k];
            int st;
            pid_t w = waitpid(q.pid, &st, WNOHANG);
            rep.case_id = q.id;
            if (w == q.pid) {
                char buf[4096];
                ssize_t n;
                while ((n = read(q.fd, buf, sizeof buf)) > 0) q.text.append(buf, sz(n));
                close(q.fd);
                rep.add("shutdowns");
                ++rep.evals;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 66) rep.violation(fmt("race detected in a process with pools (replay: %s child %llu %ld 1)", self, (unsigned long long)mix(mix(seed, 1400), sz(q.id)), q.id % 4));
                sz pos = 0;
                while ((pos = q.text.find("V ", pos)) != std::string::npos) { sz e = q.text.find('\n', pos); rep.violation(q.text.substr(pos + 2, e - pos - 2)); pos = e; if (pos == std::string::npos) break; }
                long a, b;
                int pl;
                sz kk = q.text.find("K ");
                if (kk != std::string::npos && std::sscanf(q.text.c_str() + kk, "K ready=%ld broken=%ld plan=%d", &a, &b, &pl) == 3) {
                    rep.add("futures_ready", sz(a));
                    rep.add("futures_abandoned", sz(b));
                    rep.distinct.insert(mix(sz(pl), mix(a > 0, b > 0)));
                } else if (WIFSIGNALED(st)) rep.violation(fmt("process with pools was killed by signal %d on its way out", WTERMSIG(st)));
                else if (q.text.find("V ") == std::string::npos) rep.violation(fmt("process with pools ended early with status %d", WEXITSTATUS(st)));
                live.erase(live.begin() + long(k));
                continue;
            }
            // still there: is anything moving?
            if (std::chrono::duration<double>(Clock::now() - q.t0).count() > 3) {
                long cpu;
                int n;
                bool asleep = all_asleep(q.pid, 0, cpu, n);
                if (!asleep || cpu != q.cpu) { q.cpu = cpu; q.idle = Clock::now(); }
                else if (std::chrono::duration<double>(Clock::now() - q.idle).count() > 12) {
                    rep.violation(fmt("shutdown hangs: process with pools never exits, its %d threads all asleep for 12 s (replay: %s child %llu %ld 1)", n, self, (unsigned long long)mix(mix(seed, 1400), sz(q.id)), q.id % 4));
                    kill(q.pid, SIGKILL);
                    waitpid(q.pid, &st, 0);
                    close(q.fd);
                    live.erase(live.begin() + long(k));
                    continue;
                }
                usleep(20000);
            }
            ++k;
        }
    }
    for (auto& q : live) { kill(q.pid, SIGKILL); int st; waitpid(q.pid, &st, 0); }
    rep.sample("child process: pools of 1-10 threads left idle, with a full queue, with running tasks, with a waiter, or with an injected thread creation failure, then exit");
    rep.add("cases", sz(end - (only >= 0 ? only : from)));
    return rep.finish(out_path.c_str());
}

int main(int argc, char** argv) {
    if (argc < 2) return 3;
    if (!std::strcmp(argv[1], "child") && argc >= 5) return child::run(std::strtoull(argv[2], nullptr, 10), std::atoi(argv[3]), std::atoi(argv[4]));
    std::string prop = argv[1];
    std::uint64_t seed = 1;
    long cases = 100, from = 0, only = -1;
    for (int a = 2; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = std::strtoull(argv[a + 1], nullptr, 10);
        else if (k == "--cases") cases = std::atol(argv[a + 1]);
        else if (k == "--from") from = std::atol(argv[a + 1]);
        else if (k == "--case") only = std::atol(argv[a + 1]);
        else if (k == "--out") out_path = argv[a + 1];
    }
    rep.prop = prop;
    rep.config = V_CONFIG_NAME;
    if (prop == "C13") return c13(seed, from, cases, only);
    if (prop == "C14") return c14(seed, from, cases, only, argv[0]);
    return 3;
}
