// Concurrency monitor (C12): threads run random scripts over shared and own
// objects; the record of every script must equal, bit for bit, the record of
// the same script run alone. Data races are watched by ThreadSanitizer.
//   mt C12 --seed S --cases N --from F --out FILE
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sched.h>
#include <stdexcept>
#include <thread>
#include <time.h>
#include "gen.hpp"
#include "hook.hpp"
#ifdef V_DELAYS
#include "delay.hpp"
#endif
static Report rep;
typedef std::unique_ptr<IFn> Fn;
typedef std::unique_ptr<ITpl> Tpl;
typedef std::unique_ptr<IProxy> Prox;
typedef std::size_t sz;

static std::atomic<int> jitter(0);
static std::atomic<long> hook_ops(0), hook_naps(0);
static std::atomic<unsigned> hook_threads(0);
extern "C" void va_hook(int) {
    static thread_local std::uint64_t st = 0;
    static thread_local bool seen = false;
    if (!seen) { seen = true; hook_threads.fetch_add(1, std::memory_order_relaxed); }
    int m = jitter.load(std::memory_order_relaxed);
    if (!m) return;
    if (!st) st = (std::uint64_t(reinterpret_cast<std::uintptr_t>(&st)) * 0x9E3779B97F4A7C15ull) | 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    if (st % 4096 < std::uint64_t(m)) {
        hook_naps.fetch_add(1, std::memory_order_relaxed);
        if (st >> 40 & 3) sched_yield();
        else { timespec t = {0, 2000 + long(st >> 50)}; nanosleep(&t, nullptr); }
    }
}

struct Problem {
    Case c;
    std::vector<Values> data;
    std::vector<std::vector<ld>> pts;
    Tpl tpl;
    Tpl warm;                     // cold cases: produced fns and prox, tpl itself is unused so far
    std::vector<Fn> fns;          // shared, const; the last one is not a template product
    std::vector<Prox> prox;       // shared, one per point (null: no cells)
};
static std::uint64_t bits(const ld* v, int nc) {
    std::uint64_t h = 7;
    for (int k = 0; k < nc; ++k) {
        double d = double(v[k]);
        double e = double(v[k] - ld(d));
        std::uint64_t a, b;
        if (d != d) { a = 1; b = 0; } else { std::memcpy(&a, &d, 8); std::memcpy(&b, &e, 8); if (e != e) b = 0; }
        h = mix(mix(h, a), b);
    }
    return h;
}
struct Entry { int op; std::uint64_t h; };
typedef std::vector<Entry> Record;
static std::uint64_t look(const IFn& f, const Problem& p, Rng& r, int n) {
    std::uint64_t h = 1;
    ld out[MAXC];
    for (int k = 0; k < n; ++k) {
        const std::vector<ld>& x = p.pts[r.below(p.pts.size())];
        try { f.eval(x.data(), r.range(0, 3), out); h = mix(h, bits(out, p.c.v.nc)); }
        catch (const std::domain_error&) { h = mix(h, 99); }
        if (p.c.inst->has_deriv && k % 2) {
            std::size_t q[MAXD];
            for (int d = 0; d < p.c.s.D; ++d) q[d] = r.below(sz(p.c.s.order) + 2);
            try { f.deriv(x.data(), q, r.range(0, 5), out); h = mix(h, bits(out, p.c.v.nc)); }
            catch (const std::domain_error&) { h = mix(h, 98); }
        }
    }
    return h;
}
static std::uint64_t print(const IFn& f, const Problem& p) {
    std::uint64_t h = 1;
    ld out[MAXC];
    for (auto& x : p.pts) { f.eval(x.data(), 0, out); h = mix(h, bits(out, p.c.v.nc)); }
    return h;
}
static std::uint64_t apply_proxies(const Problem& p, Rng& r) {
    std::uint64_t h = 3;
    ld out[MAXC];
    for (int k = 0; k < 6; ++k) {
        sz q = r.below(p.pts.size()), f = r.below(p.fns.size() - 1);
        bool own = r.chance(.4);
        int form = r.range(0, 1);
        if (!p.prox[q]) continue;
        if (own) { Prox z((p.warm ? p.warm : p.tpl)->proxy(p.pts[q].data(), form)); z->call(*p.fns[f], out); }
        else p.prox[q]->call(*p.fns[f], out);
        h = mix(h, bits(out, p.c.v.nc));
    }
    return h;
}
// first: operation that all threads begin with on the first problem (-1: none)
static void script(const std::vector<std::unique_ptr<Problem>>& ps, std::uint64_t seed, int ops, int first, Record& out) {
    Rng r(seed);
    std::vector<Fn> own(ps.size());
    for (int k = 0; k < ops; ++k) {
        sz pi = r.below(ps.size());
        int op = r.range(0, 9);
        if (first >= 0 && k < 2) { pi = k ? ps.size() - 1 : 0; op = k ? (first + 1) % 10 : first; }
        const Problem& p = *ps[pi];
        std::uint64_t h = 0;
        const Values& v = p.data[r.below(p.data.size())];
        switch (op) {
            case 0: { Fn f(p.c.inst->make(p.c.s, v, int(r.below(p.c.s.D == 1 ? 12 : 8)))); h = look(*f, p, r, 6); own[pi] = std::move(f); break; }
            case 1: case 2: { Fn f(p.tpl->make(v, r.range(0, p.c.s.D == 1 ? 5 : 2))); h = look(*f, p, r, 6); own[pi] = std::move(f); break; }
            case 3: if (own[pi]) { p.tpl->make_into(*own[pi], v); h = look(*own[pi], p, r, 5); } break;
            case 4: case 5: h = look(*p.fns[r.below(p.fns.size())], p, r, 25); break;
            case 6: h = apply_proxies(p, r); break;
            case 7: { Fn f(p.fns[r.below(p.fns.size())]->clone(r.range(0, 3))); h = look(*f, p, r, 4); own[pi] = std::move(f); break; }
            case 8: { Tpl t(p.tpl->clone(r.range(0, 1))); Fn f(r.chance(.5) ? t->make(v, 0) : t->make_consume(v)); h = look(*f, p, r, 4); break; }
            default: {
                Tpl t(p.c.inst->tpl(p.c.s, int(r.below(2))));
                Fn f(t->make(v, 1));
                h = look(*f, p, r, 4);
                const IFn& s = *p.fns[0];
                for (int d = 0; d < p.c.s.D; ++d) { ld a, b; s.range(d, a, b); h = mix(h, mix(bits(&a, 1), bits(&b, 1))); h = mix(h, s.periodicity(d) * 2 + s.uniform(d)); }
            }
        }
        out.push_back({op, h});
    }
}
static std::unique_ptr<Problem> problem(Rng& r, long i) {
    std::unique_ptr<Problem> p(new Problem);
    GenOpt o;
    o.small = true;
    o.size_mode = r.chance(.5) ? 3 : 2;
    if (r.chance(.12)) { o.small = false; o.size_mode = 4; }
    if (!gen_case(r, i, o, p->c)) return nullptr;
    for (int k = 0; k < 3; ++k) { Values v; gen_values(r, *p->c.inst, p->c.s, v, 0); p->data.push_back(v); }
    for (int k = 0; k < 24; ++k) {
        std::vector<ld> x;
        for (int d = 0; d < p->c.s.D; ++d) {
            int kind;
            ld y = gen_coord(r, p->c, d, kind);
            if (r.chance(.15)) y = p->c.inst->round_coord(y + (p->c.s.x[d].back() - p->c.s.x[d].front()) * ld(r.uni(-3, 3)));
            x.push_back(y);
        }
        p->pts.push_back(x);
    }
    return p;
}
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    std::uint64_t seed = 1;
    long cases = 20, from = 0;
    std::string out;
    for (int a = 2; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = std::strtoull(argv[a + 1], nullptr, 10);
        else if (k == "--cases") cases = std::atol(argv[a + 1]);
        else if (k == "--from") from = std::atol(argv[a + 1]);
        else if (k == "--case") { from = std::atol(argv[a + 1]); cases = 1; }
        else if (k == "--out") out = argv[a + 1];
    }
    rep.prop = argv[1];
    rep.config = config_info().name;
    if (insts().empty()) return 3;
    for (long i = from; i < from + cases && !rep.full(); ++i) {
        rep.case_id = i;
        Rng r(mix(mix(seed, 12), std::uint64_t(i)));
        std::vector<std::unique_ptr<Problem>> ps;
        std::string what;
        for (int k = 0; k < 3; ++k) {
            std::unique_ptr<Problem> p = problem(r, i * 3 + k);
            if (p) { what += p->c.desc() + "; "; ps.push_back(std::move(p)); }
        }
        if (ps.empty()) continue;
        int T = r.range(2, 8), ops = r.range(6, 14);
        jitter = r.chance(.6) ? (r.chance(.5) ? 3 : 40) : 0;
#ifdef V_DELAYS
        delay_seed = r.u64() | 1;
        delay_mode = int(r.below(4));
#endif
        std::uint64_t base = r.u64();
        // half the cases: shared objects that nobody has used before, and all threads begin with the same operation
        bool cold = r.chance(.5);
        int first = cold || r.chance(.3) ? r.range(0, 9) : -1;
        std::vector<Record> conc(static_cast<sz>(T)), alone(static_cast<sz>(T));
        std::vector<std::string> fail(static_cast<sz>(T) + ps.size());
        // shared objects: built by the main thread, or by several at once
        bool par_build = i % 2 == 0;
        auto build = [&](sz k) {
            Problem& p = *ps[k];
            try {
                p.tpl.reset(p.c.inst->tpl(p.c.s, 0));
                if (cold) p.warm.reset(p.c.inst->tpl(p.c.s, 0));
                ITpl& t = cold ? *p.warm : *p.tpl;
                for (int q = 0; q < 2; ++q) p.fns.emplace_back(t.make(p.data[sz(q)], 0));
                p.fns.emplace_back(p.c.inst->make(p.c.s, p.data[2], p.c.path));
                for (auto& x : p.pts) p.prox.emplace_back(t.proxy(x.data(), 0));
            } catch (const std::exception& e) { fail[sz(T) + k] = e.what(); }
        };
        if (par_build) {
            std::atomic<int> gate(0);
            std::vector<std::thread> th;
            for (sz k = 0; k < ps.size(); ++k) th.emplace_back([&, k] { gate.fetch_add(1); while (gate.load() < int(ps.size())) sched_yield(); build(k); });
            for (auto& t : th) t.join();
        } else for (sz k = 0; k < ps.size(); ++k) build(k);
        auto run_alone = [&] { for (int t = 0; t < T; ++t) try { script(ps, mix(base, sz(t)), ops, first, alone[sz(t)]); } catch (const std::exception& e) { fail[sz(t)] = e.what(); } };
        auto run_conc = [&] {
            std::atomic<int> gate(0);
            std::vector<std::thread> th;
            for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
                gate.fetch_add(1);
                while (gate.load() < T) sched_yield();
                try { script(ps, mix(base, sz(t)), ops, first, conc[sz(t)]); } catch (const std::exception& e) { fail[sz(t)] = e.what(); }
            });
            for (auto& t : th) t.join();
        };
        bool failed = false;
        for (auto& f : fail) failed = failed || !f.empty();
        std::vector<std::uint64_t> before, after;
        if (!failed) {
            if (!cold) for (auto& p : ps) for (auto& f : p->fns) before.push_back(print(*f, *p));
            if (cold || i % 4 < 2) { run_conc(); run_alone(); } else { run_alone(); run_conc(); }
            for (auto& p : ps) for (auto& f : p->fns) after.push_back(print(*f, *p));
        }
        jitter = 0;
#ifdef V_DELAYS
        delay_mode = 0;
#endif
        for (auto& f : fail) if (!f.empty()) { rep.violation(fmt("exception '%s' while %d threads use the library: %s", f.c_str(), T, what.c_str())); failed = true; break; }
        if (failed) continue;
        rep.sample(fmt("%d threads x %d operations over %s", T, ops, what.c_str()));
        for (int t = 0; t < T; ++t) {
            const Record &a = alone[sz(t)], &b = conc[sz(t)];
            for (sz k = 0; k < a.size(); ++k) {
                ++rep.evals;
                static const char* name[] = {"construction", "template product", "template product", "refill", "shared evaluation", "shared evaluation", "proxy", "copy", "template copy", "template construction"};
                if (k >= b.size() || a[k].h != b[k].h) { rep.violation(fmt("%s (operation %zu of thread %d of %d) gives other bits than alone: %s", name[a[k].op], k, t, T, what.c_str())); t = T; break; }
                rep.add(name[a[k].op]);
                rep.distinct.insert(mix(mix(sz(T), sz(a[k].op)), ps[0]->c.sig));
            }
        }
        if (!cold && before != after) rep.violation("shared functions changed while they were read concurrently: " + what);
        rep.add("cases");
        if (cold) rep.add("cases_with_unused_shared_objects");
        rep.add("threads", sz(T));
    }
    rep.add("value_operations_perturbed", std::uint64_t(hook_naps.load()));
    rep.maxi("threads_operating_on_values", hook_threads.load());
#ifdef V_DELAYS
    rep.add("delay_points", std::uint64_t(delay_events.load()));
    rep.add("delays_taken", std::uint64_t(delay_taken.load()));
#endif
    return rep.finish(out.c_str());
}
