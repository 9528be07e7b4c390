// Failure injection (C22): the k-th allocation, or the k-th operation of the
// value type, fails while an object is built; what the caller sees, what is
// left allocated and what a retry gives is judged.
//   fault C22 --seed S --cases N --from F --out FILE
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
#include "gen.hpp"
#include "hook.hpp"

static std::atomic<long> live(0);        // blocks allocated and not freed
static std::atomic<long> allocs(0), ops(0), fired(0);
static std::atomic<long> fail_alloc(-1), fail_op(-1);
static std::atomic<bool> armed(false), sticky(false);
struct FaultError : std::runtime_error { FaultError() : std::runtime_error("injected value failure") {} };

static bool fail_now() {
    if (!armed.load()) return false;
    long n = allocs.fetch_add(1), k = fail_alloc.load();
    if (k >= 0 && (n == k || (sticky.load() && n > k))) { fired.fetch_add(1); return true; }
    return false;
}
extern "C" {
void va_hook(int) {
    if (!armed.load(std::memory_order_relaxed)) return;
    long n = ops.fetch_add(1), k = fail_op.load(std::memory_order_relaxed);
    if (k >= 0 && (n == k || (sticky.load() && n > k))) { fired.fetch_add(1); throw FaultError(); }
}
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void __real_free(void*);
int __real_posix_memalign(void**, std::size_t, std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
void* __wrap_malloc(std::size_t n) { if (fail_now()) return nullptr; void* p = __real_malloc(n); if (p) ++live; return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { if (fail_now()) return nullptr; void* p = __real_calloc(a, b); if (p) ++live; return p; }
void __wrap_free(void* p) { if (p) --live; __real_free(p); }
int __wrap_posix_memalign(void** o, std::size_t a, std::size_t n) { if (fail_now()) return 12; int e = __real_posix_memalign(o, a, n); if (!e) ++live; return e; }
void* __wrap_aligned_alloc(std::size_t a, std::size_t n) { if (fail_now()) return nullptr; void* p = __real_aligned_alloc(a, n); if (p) ++live; return p; }
}
static void* get(std::size_t n, std::size_t a) {
    if (fail_now()) return nullptr;
    void* p = nullptr;
    if (a <= 16) p = __real_malloc(n ? n : 1);
    else if (__real_posix_memalign(&p, a, n ? n : 1)) p = nullptr;
    if (p) ++live;
    return p;
}
static void put(void* p) { if (p) { --live; __real_free(p); } }
void* operator new(std::size_t n) { void* p = get(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = get(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = get(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = get(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { put(p); }

static Report rep;
typedef std::unique_ptr<IFn> Fn;
typedef std::unique_ptr<ITpl> Tpl;
typedef std::unique_ptr<IProxy> Prox;
typedef std::size_t sz;

static std::vector<std::vector<ld>> pts;
static int NC;
static std::uint64_t print(const IFn& f) {
    std::uint64_t h = 1;
    ld out[MAXC];
    for (auto& x : pts) {
        f.eval(x.data(), 0, out);
        for (int k = 0; k < NC; ++k) { double d = double(out[k]); std::uint64_t a = 0; if (d == d) std::memcpy(&a, &d, 8); h = mix(h, a); }
    }
    return h;
}
struct Outcome { int what; std::uint64_t h; std::string text; };  // 0 ok 1 bad_alloc 2 FaultError 3 other
static Outcome attempt(const std::function<std::uint64_t(bool arm)>& f, bool arm) {
    Outcome o = {0, 0, ""};
    try { o.h = f(arm); }
    catch (const std::bad_alloc&) { o.what = 1; }
    catch (const FaultError&) { o.what = 2; }
    catch (const std::exception& e) { armed = false; o.what = 3; o.text = e.what(); }
    catch (...) { armed = false; o.what = 3; o.text = "unknown exception"; }
    armed = false;
    return o;
}
struct Arm {  // armed for the lifetime of this object
    explicit Arm(bool on) { if (on) { allocs = 0; ops = 0; fired = 0; armed = true; } }
    ~Arm() { armed = false; }
};

// one scenario: builds something with faults armed, disarms, returns a print
struct Scenario { const char* name; std::function<std::uint64_t(bool)> f; };

static bool scenario(Rng& r, const Case& c, const ITpl& t, std::uint64_t base_print, const Values& v, const Scenario& s, bool mt) {
    fail_alloc = fail_op = -1;
    sticky = false;
    Outcome o = attempt(s.f, true);   // counts
    long na = allocs.load(), no = ops.load();
    if (o.what) { rep.violation(fmt("%s fails without any fault: %s in %s", s.name, o.text.c_str(), c.desc().c_str())); return false; }
    std::uint64_t want = o.h;
    for (int kind = 0; kind < 2; ++kind) {
        long n = kind ? no : na, tries = std::min<long>(n, kind ? 12 : 40);
        for (long q = 0; q < tries; ++q) {
            long k = n <= tries ? q : q < 6 ? q : q < 10 ? n - 1 - (q - 6) : long(r.below(sz(n)));
            bool st = r.chance(.4);
            long before = live.load();
            sticky = st;
            (kind ? fail_op : fail_alloc) = k;
            (kind ? fail_alloc : fail_op) = -1;
            o = attempt(s.f, true);
            bool hit = fired.load() > 0;
            long after = live.load();
            fail_alloc = fail_op = -1;
            ++rep.evals;
            if (!hit) rep.add("fault_not_reached");
            else rep.add(kind ? "value_faults" : "allocation_faults");
            rep.add(o.what == 0 ? (hit ? "absorbed" : "no_fault") : "propagated");
            std::string where = fmt("%s with %s %ld of %ld failing%s", s.name, kind ? "value operation" : "allocation", k, n, st ? " and all later ones" : "");
            if (o.what == 3 || (o.what == 1 && kind == 1) || (o.what == 2 && kind == 0)) {
                rep.violation(fmt("%s: the caller got another exception (%s) in %s", where.c_str(), o.what == 3 ? o.text.c_str() : "wrong type", c.desc().c_str()));
                return false;
            }
            if (o.what && !hit) { rep.violation(fmt("%s: exception without a fault in %s", where.c_str(), c.desc().c_str())); return false; }
            if (o.what == 0 && o.h != want) { rep.violation(fmt("%s: the failure was swallowed and the result is wrong in %s", where.c_str(), c.desc().c_str())); return false; }
            if (!mt && after != before) { rep.violation(fmt("%s: %ld blocks %s in %s", where.c_str(), std::labs(after - before), after > before ? "leaked" : "freed twice", c.desc().c_str())); return false; }
            rep.add("leak_checks", mt ? 0 : 1);
            if (mesh_modified().exchange(false)) { rep.violation(fmt("%s: the data mesh was modified in %s", where.c_str(), c.desc().c_str())); return false; }
            if (q % 4 == 0 || q + 1 == tries) {
                Outcome again = attempt(s.f, false);
                if (again.what || again.h != want) { rep.violation(fmt("%s: a retry %s in %s", where.c_str(), again.what ? "fails" : "gives another result", c.desc().c_str())); return false; }
                rep.add("retries");
                Fn f(t.make(v, 0));
                if (print(*f) != base_print) { rep.violation(fmt("%s: the template gives another function afterwards in %s", where.c_str(), c.desc().c_str())); return false; }
            }
            rep.distinct.insert(mix(mix(c.sig, std::uint64_t(reinterpret_cast<std::uintptr_t>(s.name))), mix(sz(k), sz(kind))));
        }
    }
    return true;
}
static bool one_case(Rng& r, long i, bool mt, bool cold, long cold_k) {
    Case c;
    GenOpt o;
    o.small = true;
    if (cold) o.size_mode = 2;
    if (!gen_case(r, i, o, c)) return true;
    if (c.path == 9) c.path = 10;   // coordinates from a stream: streams swallow bad_alloc
    NC = c.v.nc;
    pts.clear();
    for (int k = 0; k < 12; ++k) {
        std::vector<ld> x;
        for (int d = 0; d < c.s.D; ++d) { int kd; x.push_back(gen_coord(r, c, d, kd)); }
        pts.push_back(x);
    }
    Values v2;
    gen_values(r, *c.inst, c.s, v2, 0);
    const Values& v = c.v;
    if (cold) {
        // very first use of the library in this process
        auto f = [&](bool a) { Fn g; { Arm z(a); g.reset(c.inst->make(c.s, v, c.path)); } return print(*g); };
        sticky = r.chance(.4);
        fail_alloc = cold_k;
        Outcome q = attempt(f, true);
        bool hit = fired.load() > 0;
        fail_alloc = -1;
        Outcome w = attempt(f, false);
        if (w.what) { rep.violation(fmt("first use with allocation %ld failing: a retry fails in %s", cold_k, c.desc().c_str())); return false; }
        if (q.what >= 2) { rep.violation(fmt("first use with allocation %ld failing: another exception %s in %s", cold_k, q.text.c_str(), c.desc().c_str())); return false; }
        if (q.what == 1 && !hit) { rep.violation("exception without a fault in " + c.desc()); return false; }
        if (q.what == 0 && q.h != w.h) { rep.violation(fmt("first use with allocation %ld failing: wrong result in %s", cold_k, c.desc().c_str())); return false; }
        return true;
    }
    rep.sample(c.desc());
    Tpl t(c.inst->tpl(c.s, 0));
    Fn base(t->make(v, 0)), other(t->make(v2, 0));
    std::uint64_t bp = print(*base);
    // shared targets of refills, reused across failures
    Fn target(t->make(v2, 0));
    std::vector<Scenario> S;
    int path = c.path, how = r.range(0, 2), ch = r.range(0, 3), th = r.range(0, 1);
    S.push_back({"direct construction", [&](bool a) { Fn g; { Arm z(a); g.reset(c.inst->make(c.s, v, path)); } return print(*g); }});
    S.push_back({"template construction", [&](bool a) { Tpl g; { Arm z(a); g.reset(c.inst->tpl(c.s, 0)); } Fn f(g->make(v, 0)); return print(*f); }});
    S.push_back({"template product", [&](bool a) { Fn g; { Arm z(a); g.reset(t->make(v, how)); } return print(*g); }});
    S.push_back({"refill", [&](bool a) { Fn g(other->clone(0)); { Arm z(a); t->make_into(*g, v); } return print(*g); }});
    S.push_back({"copy of a function", [&](bool a) { Fn g; { Arm z(a); g.reset(base->clone(ch)); } return print(*g); }});
    S.push_back({"copy of a template", [&](bool a) { Tpl g; { Arm z(a); g.reset(t->clone(th)); } Fn f(g->make(v, 0)); return print(*f); }});
    S.push_back({"assignment", [&](bool a) { Fn g(other->clone(0)); { Arm z(a); g->assign(*base); } return print(*g); }});
    S.push_back({"consumed template", [&](bool a) { Tpl g(t->clone(0)); Fn f; { Arm z(a); f.reset(g->make_consume(v)); } return print(*f); }});
    if (config_info().cell) S.push_back({"proxy", [&](bool a) {
        std::uint64_t h = 1;
        for (int k = 0; k < 2; ++k) {
            Prox p, q;
            { Arm z(a && k == 1); p.reset(t->proxy(pts[sz(k)].data(), k)); q.reset(p->clone()); }
            ld out[MAXC];
            q->call(*base, out);
            for (int e = 0; e < NC; ++e) { double d = double(out[e]); std::uint64_t b; std::memcpy(&b, &d, 8); h = mix(h, b); }
        }
        return h; }});
    for (auto& s : S) {
        if (!scenario(r, c, *t, bp, v, s, mt)) return false;
        if (print(*base) != bp) { rep.violation(fmt("an unrelated function changed after failures of %s in %s", s.name, c.desc().c_str())); return false; }
    }
    // refills of one and the same function, failing again and again
    for (int k = 0; k < 25; ++k) {
        sticky = false;
        fail_alloc = long(r.below(30));
        Outcome q = attempt([&](bool a) { { Arm z(a); t->make_into(*target, k % 2 ? v : v2); } return 0; }, true);
        fail_alloc = -1;
        ++rep.evals;
        if (q.what > 1) { rep.violation("refill: another exception in " + c.desc()); return false; }
        if (k % 5 == 4) { t->make_into(*target, v); if (print(*target) != bp) { rep.violation("refill after failed refills gives another function in " + c.desc()); return false; } }
        rep.add("repeated_refills");
    }
    rep.add("cases");
    return true;
}
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    std::uint64_t seed = 1;
    long cases = 20, from = 0, only = -1;
    std::string out;
    for (int a = 2; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = std::strtoull(argv[a + 1], nullptr, 10);
        else if (k == "--cases") cases = std::atol(argv[a + 1]);
        else if (k == "--from") from = std::atol(argv[a + 1]);
        else if (k == "--case") only = std::atol(argv[a + 1]);
        else if (k == "--out") out = argv[a + 1];
    }
    rep.prop = argv[1];
    rep.config = config_info().name;
    if (insts().empty()) return 3;
    bool mt = config_info().mt;
    long n = only >= 0 ? only + 1 : from + cases;
    if (mt && only < 0) {   // no threads exist yet
        for (long k = 0; k < 60 && !rep.full(); ++k) {
            int fd[2];
            if (pipe(fd)) return 3;
            pid_t p = fork();
            if (p < 0) return 3;
            if (p == 0) {
                close(fd[0]);
                Rng r(mix(mix(seed, 2200 + sz(from)), sz(k)));
                bool ok = one_case(r, from + k, mt, true, k);
                std::string t = ok ? "ok" : rep.violations.empty() ? "?" : rep.violations[0];
                ssize_t w = write(fd[1], t.data(), t.size());
                (void)w;
                std::exit(ok ? 0 : 1);
            }
            close(fd[1]);
            std::string t;
            char buf[2000];
            ssize_t m;
            while ((m = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, sz(m));
            close(fd[0]);
            int st;
            waitpid(p, &st, 0);
            rep.case_id = from + k;
            ++rep.evals;
            rep.add("first_use_faults");
            if (t != "ok") rep.violation(t.empty() ? fmt("first use with allocation %ld failing: the process died (status %d)", k, st) : t);
            else if (!WIFEXITED(st) || WEXITSTATUS(st)) rep.violation(fmt("first use with allocation %ld failing: the process died on exit (status %d)", k, st));
        }
    }
    if (mt) {   // the pool exists from here on
        Rng r(mix(seed, 1));
        Case c;
        GenOpt o;
        o.small = true;
        for (long q = 0; q < 3; ++q) if (gen_case(r, q * 3 + 1, o, c)) { Fn f(c.inst->make(c.s, c.v, 0)); }
    }
    for (long i = only >= 0 ? only : from; i < n && !rep.full(); ++i) {
        rep.case_id = i;
        watch_case(out.c_str(), i, 250);
        Rng r(mix(mix(seed, 22), std::uint64_t(i)));
        one_case(r, i, mt, false, -1);
    }
    return rep.finish(out.c_str());
}
