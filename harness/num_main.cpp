// Workloads and monitors for the numerical properties.
//   num PROP --seed S --cases N [--case K] [--time SEC] [--out FILE]
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include "gen.hpp"

static Report rep;
static const ld INF = HUGE_VALL;
typedef std::unique_ptr<IFn> Fn;
typedef std::unique_ptr<ITpl> Tpl;

static std::string last_case;  // for reports about exceptions
static bool new_case(Rng& r, long i, const GenOpt& o, Case& c) {
    bool ok = gen_case(r, i, o, c);
    last_case = ok ? c.desc() : "?";
    if (std::getenv("V_CASE") && ok) for (int d = 0; d < c.s.D; ++d) { std::fprintf(stderr, "axis %d:", d); for (ld x : c.s.x[d]) std::fprintf(stderr, " %.21Lg", x); std::fprintf(stderr, "\n"); }
    return ok;
}
static bool near_overflow(const Case& c, const RefVal& R);
static bool check(const Case& c, const char* what, const RefVal& R, const ld* got, const ld* x, const std::size_t* r = nullptr) {
    ld ratio;
    if (near_overflow(c, R)) { rep.add("near_overflow"); return true; }
    ++rep.evals;
    bool ok = agree(R, got, c.v.nc, &ratio);
    rep.maxi("max_err_over_tol", ratio);
    if (std::getenv("V_NEAR") && ratio > .1L && ok) std::fprintf(stderr, "near %.3Lg %s at %s got %.17Lg exp %.17Lg tol %.3Lg %s\n", ratio, what, pt(x, c.s.D).c_str(), got[0], R.v[0], R.tol, c.desc().c_str());
    if (!ok) {
        std::string rs;
        if (r) for (int d = 0; d < c.s.D; ++d) rs += fmt(" d%zu", r[d]);
        rep.violation(fmt("%s: at %s%s got %.17Lg expected %.17Lg (tol %.3Lg) in %s", what, pt(x, c.s.D).c_str(), rs.c_str(), got[0], R.v[0], R.tol, c.desc().c_str()));
    }
    return ok;
}
// a tolerance so wide that a wrong value could hide is not worth an evaluation
static bool near_overflow(const Case& c, const RefVal& R) {
    ld m = R.growth * std::max<ld>(1, c.ref.cmax);
    return m > (c.inst->epsT > 1e-10L || c.inst->epsU > 1e-10L ? 1e25L : 1e250L);
}
static bool informative(const Case& c, const RefVal& R) {
    if (near_overflow(c, R)) return false;
    ld s = 0;
    for (int k = 0; k < c.v.nc; ++k) s = std::max(s, std::fabs(R.v[k]));
    ld lim = c.inst->epsT > 1e-10L || c.inst->epsU > 1e-10L ? .05L : 1e-5L;
    return R.tol <= lim * std::max(s, c.ref.fmax);
}
static void note(const Case& c, int extra) {
    rep.distinct.insert(mix(c.sig, std::uint64_t(extra)));
}
static void evalp(const IFn& f, const ld* x, int form, ld* out) { f.eval(x, form, out); }

// ---------------------------------------------------------------- large meshes
// Tens of thousands of points: beyond the reference, but smooth data are
// reproduced (exactly for polynomials, to discretisation error on periodic axes).
// what: 0 nodes, 1 between nodes, 2 first derivatives
static void large_case(Rng& r, long i, int what) {
    std::vector<const Inst*> pick;
    for (const Inst* q : insts()) if (q->D <= 3 && q->tkind == 0 && q->O >= 3 && q->O <= 5) pick.push_back(q);
    if (pick.empty()) return;
    Case c;
    c.inst = pick[r.below(pick.size())];
    Spec& s = c.s;
    s.D = c.inst->D;
    s.order = c.inst->O;
    ld lo[MAXD], len[MAXD], ph[MAXD];
    for (int d = 0; d < s.D; ++d) {
        s.periodic[d] = r.chance(.4);
        s.uniform[d] = c.inst->umask >> d & 1;
        s.n[d] = s.D == 1 ? 33000 + r.below(100000) : s.D == 2 ? 257 + r.below(150) : 30 + r.below(25);
        if (s.D == 2 && r.chance(.3)) s.n[d] = d == 0 ? 66000 + r.below(4000) : 300;
        lo[d] = r.range(-3, 3);
        len[d] = r.range(1, 9);
        ph[d] = r.uni(0, 6);
    }
    if (s.D == 2 && s.n[0] > 60000) s.n[1] = std::size_t(s.order) + 12;
    for (int d = 0; d < s.D; ++d) {
        std::size_t pts = s.n[d] + (s.periodic[d] ? 1 : 0);
        s.x[d].clear();
        for (std::size_t k = 0; k < pts; ++k) {
            ld u = k + 1 == pts ? 1 : (ld(k) + (s.uniform[d] || !k ? 0 : .2L * std::sin(ld(k)))) / ld(pts - 1);
            s.x[d].push_back(c.inst->round_coord(lo[d] + len[d] * u));
        }
    }
    auto fun = [&](const ld* x, int der) {  // der: axis to differentiate, -1 none
        ld p = 1;
        for (int d = 0; d < s.D; ++d) {
            ld u = (x[d] - lo[d]) / len[d];
            if (s.periodic[d]) { ld w = 2 * 3.14159265358979323846L; p *= der == d ? -w / len[d] * std::sin(w * u + ph[d]) : 1 + std::cos(w * u + ph[d]); }
            else p *= der == d ? (1 - 6 * u + 6 * u * u) / len[d] : .3L + u - 3 * u * u + 2 * u * u * u;
        }
        return p;
    };
    std::size_t P = s.points();
    c.v.nc = 1;
    c.v.dummy = int(r.below(3));
    c.v.v.resize(P);
    for (std::size_t q = 0; q < P; ++q) {
        std::size_t rem = q;
        ld x[MAXD];
        for (int d = s.D - 1; d >= 0; --d) { x[d] = s.x[d][rem % s.n[d]]; rem /= s.n[d]; }
        c.v.v[q] = c.inst->round_val(fun(x, -1));
    }
    c.path = int(r.below(s.D == 1 ? 12 : 8));
    last_case = c.desc();
    Fn f(c.inst->make(s, c.v, c.path));
    rep.add("large_functions");
    rep.sample("large " + c.desc());
    ld scale = 1;
    for (int d = 0; d < s.D; ++d) scale *= s.periodic[d] ? 2 : 1;
    for (int k = 0; k < 400; ++k) {
        ld x[MAXD], got[MAXC], want, tol;
        for (int d = 0; d < s.D; ++d) {
            std::size_t id = k < 8 ? (k >> d & 1 ? s.n[d] - 1 : 0) : r.below(s.n[d]);
            if (k >= 8 && s.n[d] > 65540 && r.chance(.1)) id = 65530 + r.below(10);
            x[d] = s.x[d][id];
            if (what && id + 1 < s.x[d].size()) x[d] = c.inst->round_coord(x[d] + (s.x[d][id + 1] - x[d]) * ld(r.unit()));
        }
        std::size_t dr[MAXD] = {0};
        if (what == 2) {
            int a = int(r.below(std::size_t(s.D)));
            dr[a] = 1;
            f->deriv(x, dr, r.range(0, 2), got);
            want = fun(x, a);
            tol = scale / len[a] * .05L;
        } else {
            f->eval(x, r.range(0, 1), got);
            want = fun(x, -1);
            tol = what ? scale * 1e-3L : scale * 1e-7L;
        }
        ++rep.evals;
        if (!(std::fabs(got[0] - want) <= tol)) { rep.violation(fmt("large mesh, %s: at %s got %.17Lg expected %.17Lg (tol %.3Lg) in %s", what == 0 ? "node" : what == 1 ? "value" : "derivative", pt(x, s.D).c_str(), got[0], want, tol, c.desc().c_str())); return; }
    }
    rep.distinct.insert(mix(mix(991, std::uint64_t(s.D * 100 + s.order)), std::uint64_t(i)));
}
static bool inf_deriv(const Case& c, const RefVal& R);
// ---------------------------------------------------------------- look-alikes
// Functions built one after the other that agree in everything cheap to compare
// (shape, end points, sometimes all coordinates, most values), often at the same
// address: nothing may be remembered of the one before.
// what: 0 nodes, 1 between nodes, 2 derivatives
static void alikes(Rng& r, const Case& c0, Fn& f, const ld* xlast, int what) {
    if (c0.s.points() > 3000) return;
    Case c = c0;
    Fn old;
    Case oldc;
    ld xl[MAXD];
    for (int d = 0; d < c.s.D; ++d) xl[d] = xlast[d];
    for (int round = 0; round < 2 && !rep.full(); ++round) {
        Case n = c;
        const int kind = r.range(0, 4);
        // 0 new values, 1 one value changed, 2..3 inner coordinates moved, 4 other periodicity
        if (kind == 2 || kind == 3) {
            for (int d = 0; d < n.s.D; ++d) {
                std::vector<ld>& x = n.s.x[d];
                if (n.s.uniform[d]) continue;
                const std::vector<ld> y = x;
                const std::size_t one = kind == 2 ? x.size() : 1 + r.below(x.size());
                ld big = std::max(std::fabs(x.front()), std::fabs(x.back()));
                for (std::size_t k = 1; k + 1 < x.size(); ++k) {
                    if (one < x.size() && k != one) continue;
                    ld z = n.inst->round_coord(y[k] + (r.chance(.5) ? y[k + 1] - y[k] : y[k - 1] - y[k]) * ld(r.uni(.05, .4)));
                    if (z - x[k - 1] > 32 * n.inst->epsU * big && y[k + 1] - z > 32 * n.inst->epsU * big) x[k] = z;
                }
            }
        }
        if (kind == 4) {
            int d = int(r.below(std::size_t(n.s.D)));
            n.s.periodic[d] = !n.s.periodic[d];
            if (n.s.periodic[d]) { if (n.s.n[d] <= std::max<std::size_t>(2, std::size_t(n.s.order) + 1)) continue; --n.s.n[d]; }
            else ++n.s.n[d];
        }
        if (kind >= 2) {
            n.ref.grid(n.s, n.inst->epsT, n.inst->epsU);
            if (!(n.ref.kprod < (n.inst->epsT > 1e-10L || n.inst->epsU > 1e-10L ? 2e2L : 1e7L))) continue;
        }
        if (kind == 1) { std::size_t k = r.below(n.v.v.size()); n.v.v[k] = n.inst->round_val(n.v.v[k] + ld(r.uni(.5, 1)) * std::max<ld>(n.ref.fmax, 1e-3L)); }
        else gen_values(r, *n.inst, n.s, n.v);
        n.ref.data(n.v);
        if (r.chance(.3)) { old = std::move(f); oldc = c; } else { f.reset(); }
        f.reset(n.inst->make(n.s, n.v, r.chance(.5) ? c.path : int(r.below(n.inst->D == 1 ? 12 : 8))));
        last_case = n.desc();
        rep.add(fmt("alike_kind%d", kind));
        c = n;
        for (int k = 0; k < 14 && !rep.full(); ++k) {
            ld x[MAXD], got[MAXC];
            int kd;
            std::size_t dr[MAXD] = {0};
            for (int d = 0; d < c.s.D; ++d) {
                x[d] = k == 0 ? xl[d] : what == 0 ? c.inst->round_coord(c.ref.ax[d].x[r.below(c.ref.ax[d].n)]) : gen_coord(r, c, d, kd);
                if (what == 2) dr[d] = r.below(std::size_t(c.s.order) + 1);
            }
            for (int turn = 0; turn < (old ? 3 : 1); ++turn) {
                const bool prev = turn == 1;
                const Case& q = prev ? oldc : c;
                RefVal R = q.ref.eval(x, what == 2 ? dr : nullptr);
                if (what == 2) {
                    ld nat = q.ref.fmax;
                    for (int d = 0; d < q.s.D; ++d) for (std::size_t e = 0; e < dr[d] && e < 10; ++e) nat /= (q.ref.ax[d].hi - q.ref.ax[d].lo) / ld(q.s.n[d]);
                    R.scale = nat;
                    if (!inf_deriv(q, R)) continue;
                    (prev ? old : f)->deriv(x, dr, r.range(0, 2), got);
                } else {
                    if (!informative(q, R)) continue;
                    (prev ? old : f)->eval(x, int(r.below(2)), got);
                }
                rep.add("alike_points");
                if (!check(q, prev ? "another function of the same shape was built: value" : "after another function of the same shape: value", R, got, x, what == 2 ? dr : nullptr)) return;
            }
            for (int d = 0; d < c.s.D; ++d) xl[d] = x[d];
        }
    }
}
// ---------------------------------------------------------------- C01
// coordinates far from zero compared with their spacing: positions are coarse,
// but the nodes are exact numbers and the data must still come back
static void c01_far(Rng& r, long i) {
    std::vector<const Inst*> pick;
    for (const Inst* q : insts()) if (q->D == 1 && q->umask == 0 && q->tkind == 0) pick.push_back(q);
    if (pick.empty()) return;
    Case c;
    c.inst = pick[std::size_t(i / 8) % pick.size()];
    Spec& s = c.s;
    s.D = 1;
    s.order = c.inst->O;
    s.periodic[0] = s.uniform[0] = false;
    s.n[0] = std::size_t(s.order) + 2 + r.below(r.chance(.5) ? 40 : 3000);
    ld big = std::ldexp(1.0L, r.range(20, 34)) * ld(r.uni(1, 1.3)) * (r.chance(.3) ? -1 : 1);
    ld gap = std::fabs(big) * std::ldexp(1.0L, -52 + r.range(7, 16));
    s.x[0].clear();
    ld v = 0;
    for (std::size_t k = 0; k < s.n[0]; ++k) { s.x[0].push_back(ld(double(big + v))); v += gap * ld(r.uni(.9, 1.1)); }
    gen_values(r, *c.inst, s, c.v, 0);
    c.path = int(r.below(12));
    c.sig = mix(4242, std::uint64_t(s.order));
    last_case = c.desc();
    Fn f(c.inst->make(s, c.v, c.path));
    ld m = 0, got[MAXC];
    for (ld q : c.v.v) m = std::max(m, std::fabs(q));
    for (std::size_t k = 0; k < s.n[0]; ++k) {
        f->eval(&s.x[0][k], int(k % 4), got);
        ++rep.evals;
        if (!(std::fabs(got[0] - c.v.v[k]) <= 1e-3L * m)) { rep.violation(fmt("node %zu at %.21Lg far from zero: got %.17Lg expected %.17Lg in %s", k, s.x[0][k], got[0], c.v.v[k], c.desc().c_str())); return; }
    }
    rep.add("far_nodes", s.n[0]);
    note(c, int(s.n[0]));
}
static void c01(Rng& r, long i) {
    if (i % 8 == 3) { c01_far(r, i); return; }
    if (i % 250 == 7) { large_case(r, i, 0); return; }
    Case c;
    if (!new_case(r, i, GenOpt(), c)) { rep.add("skipped_ill_conditioned"); return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.add("functions");
    rep.sample(c.desc());
    std::size_t P = c.s.points();
    std::size_t m = P <= 400 ? P : 260;
    ld xl[MAXD];
    for (int d = 0; d < c.s.D; ++d) xl[d] = c.s.x[d].front();
    for (std::size_t k = 0; k < m && !rep.full(); ++k) {
        std::size_t q = P <= 400 ? k : k < 8 ? (k % 2 ? P - 1 - k / 2 : k / 2) : r.below(P);
        std::size_t rem = q, id[MAXD];
        for (int d = c.s.D - 1; d >= 0; --d) { id[d] = rem % c.s.n[d]; rem /= c.s.n[d]; }
        ld x[MAXD], got[MAXC];
        bool img = false;
        for (int d = 0; d < c.s.D; ++d) {
            x[d] = c.ref.ax[d].x[id[d]];
            if (c.s.periodic[d]) {
                if (id[d] == 0 && r.chance(.5)) { x[d] = c.s.x[d][c.s.n[d]]; img = true; }
                else if (r.chance(.15)) { x[d] += c.ref.ax[d].period * r.range(-3, 3); img = true; }
            }
            x[d] = c.inst->round_coord(x[d]);
        }
        RefVal R = c.ref.eval(x, nullptr);
        if (!informative(c, R)) { rep.add("uninformative"); continue; }
        // the oracle is the datum itself
        for (int cc = 0; cc < c.v.nc; ++cc) R.v[cc] = c.v.v[q * std::size_t(c.v.nc) + std::size_t(cc)];
        R.alt.clear();
        int form = r.range(0, 7);
        try { f->eval(x, form, got); }
        catch (const std::exception& e) { rep.violation(fmt("node %s rejected: %s in %s", pt(x, c.s.D).c_str(), e.what(), c.desc().c_str())); return; }
        rep.add(img ? "periodic_image_nodes" : "nodes");
        if (!check(c, "node value", R, got, x)) return;
        note(c, form);
        for (int d = 0; d < c.s.D; ++d) xl[d] = x[d];
    }
    alikes(r, c, f, xl, 0);
}

// ---------------------------------------------------------------- C02
static void c02(Rng& r, long i) {
    if (i % 250 == 7) { large_case(r, i, 1); return; }
    Case c;
    if (!new_case(r, i, GenOpt(), c)) { rep.add("skipped_ill_conditioned"); return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.add("functions");
    rep.sample(c.desc());
    int pts = c.s.D >= 4 ? 40 : 120;
    ld xl[MAXD];
    for (int d = 0; d < c.s.D; ++d) xl[d] = c.s.x[d].front();
    for (int k = 0; k < pts && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC];
        int kind[MAXD], km = 0;
        for (int d = 0; d < c.s.D; ++d) { x[d] = gen_coord(r, c, d, kind[d]); km = km * 10 + kind[d]; }
        RefVal R = c.ref.eval(x, nullptr);
        if (!informative(c, R)) { rep.add("uninformative"); continue; }
        evalp(*f, x, int(r.below(2)), got);
        if (R.step) rep.add("points_at_jumps");
        if (!check(c, "value", R, got, x)) return;
        note(c, km);
        for (int d = 0; d < c.s.D; ++d) xl[d] = x[d];
    }
    if (r.chance(.5)) { alikes(r, c, f, xl, 1); return; }
    // second oracle: an aperiodic interpolant of degree k reproduces polynomials
    bool any = false;
    for (int d = 0; d < c.s.D; ++d) any = any || c.s.periodic[d];
    if (any) return;
    std::vector<ld> co[MAXD][MAXC];
    for (int d = 0; d < c.s.D; ++d)
        for (int cc = 0; cc < c.v.nc; ++cc)
            for (int q = 0; q <= c.s.order; ++q) co[d][cc].push_back(ld(r.uni(-1, 1)));
    auto poly = [&](const ld* x, int cc) {
        ld p = 1;
        for (int d = 0; d < c.s.D; ++d) {
            const Axis& a = c.ref.ax[d];
            ld u = 2 * (x[d] - a.lo) / (a.hi - a.lo) - 1, s = 0;
            for (int q = c.s.order; q >= 0; --q) s = s * u + co[d][cc][std::size_t(q)];
            p *= s;
        }
        return p;
    };
    Case p = c;
    std::size_t P = c.s.points();
    for (std::size_t q = 0; q < P; ++q) {
        std::size_t rem = q;
        ld x[MAXD];
        for (int d = c.s.D - 1; d >= 0; --d) { x[d] = c.ref.ax[d].x[rem % c.s.n[d]]; rem /= c.s.n[d]; }
        for (int cc = 0; cc < c.v.nc; ++cc) p.v.v[q * std::size_t(c.v.nc) + std::size_t(cc)] = c.inst->round_val(poly(x, cc));
    }
    p.ref.data(p.v);
    if (c.s.order == 0) return;  // a constant: covered above
    Fn g(c.inst->make(p.s, p.v, c.path));
    for (int k = 0; k < 25 && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC];
        int kd;
        for (int d = 0; d < c.s.D; ++d) x[d] = gen_coord(r, p, d, kd);
        RefVal R = p.ref.eval(x, nullptr);
        if (!informative(p, R)) { rep.add("uninformative"); continue; }
        R.alt.clear();
        for (int cc = 0; cc < c.v.nc; ++cc) R.v[cc] = poly(x, cc);
        evalp(*g, x, int(r.below(2)), got);
        rep.add("polynomial_points");
        if (!check(p, "polynomial reproduction", R, got, x)) return;
    }
}

// ---------------------------------------------------------------- C03
static void c03(Rng& r, long i) {
    Case c;
    GenOpt o;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    bool allp = true;
    for (int d = 0; d < c.s.D; ++d) allp = allp && c.s.periodic[d];
    if (allp) { o.perio = 0; if (!new_case(r, i, o, c)) return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.add("functions");
    rep.sample(c.desc());
    int pts = c.s.D >= 4 ? 30 : 90;
    for (int k = 0; k < pts && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC];
        int kd, km = 0;
        bool out = false;
        for (int tries = 0; !out && tries < 20; ++tries) {
            km = 0;
            for (int d = 0; d < c.s.D; ++d) {
                const Axis& a = c.ref.ax[d];
                km *= 8;
                if (a.periodic || r.chance(.35)) { x[d] = gen_coord(r, c, d, kd); continue; }
                ld len = a.hi - a.lo;
                int m = r.range(0, 5);
                bool up = r.chance(.5);
                ld delta;
                switch (m) {
                    case 0: x[d] = coord_ulp(*c.inst, up ? c.s.x[d].back() : c.s.x[d].front(), up ? r.range(1, 3) : -r.range(1, 3)); delta = -1; break;
                    case 1: delta = a.gap * ld(r.uni(0, 1)); break;
                    case 2: delta = len * ld(r.uni(0, .1)); break;
                    case 3: delta = len * ld(r.uni(0, 1.5)); break;
                    case 4: delta = len * ld(r.uni(1, 20)); break;
                    default: delta = len * std::pow(10.L, ld(r.uni(1, 6))); break;
                }
                if (m) x[d] = c.inst->round_coord(up ? a.hi + delta : a.lo - delta);
                if (x[d] > a.hi || x[d] < a.lo) out = true;
                km += m + 1 + (up ? 1 : 0);
            }
        }
        if (!out) continue;
        int form = int(r.below(2));
        if (c.inst->has_deriv && r.chance(.4)) {
            std::size_t dr[MAXD];
            for (int d = 0; d < c.s.D; ++d) dr[d] = r.chance(.5) ? 0 : r.below(std::size_t(c.s.order) + 1);
            RefVal R = c.ref.eval(x, dr);
            ld s = 0;
            for (int q = 0; q < c.v.nc; ++q) s = std::max(s, std::fabs(R.v[q]));
            if (near_overflow(c, R) || (R.tol > 1e-5L * s && R.tol > 0 && !(c.inst->epsU > 1e-10L && R.tol < .05L * s))) { rep.add("uninformative"); continue; }
            f->deriv(x, dr, int(r.below(3)), got);
            rep.add("derivative_points");
            if (!check(c, "extrapolated derivative", R, got, x, dr)) return;
        } else {
            RefVal R = c.ref.eval(x, nullptr);
            if (!informative(c, R)) { rep.add("uninformative"); continue; }
            f->eval(x, form, got);
            rep.add("points");
            if (!check(c, "extrapolated value", R, got, x)) return;
        }
        note(c, km);
    }
}

// ---------------------------------------------------------------- C04
static void c04(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.perio = 1;
    o.dyadic = i % 3 == 0;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.add("functions");
    rep.sample(c.desc());
    int pts = c.s.D >= 4 ? 30 : 90;
    for (int k = 0; k < pts && !rep.full(); ++k) {
        ld x[MAXD], y[MAXD], got[MAXC], got0[MAXC];
        int kd, km = 0;
        bool exact = true, moved = false, huge_shift = false;
        for (int d = 0; d < c.s.D; ++d) {
            x[d] = gen_coord(r, c, d, kd);
            y[d] = x[d];
            km = km * 8;
            if (!c.s.periodic[d]) continue;
            if (r.chance(.25) && moved) continue;
            int m = r.range(0, 5);
            if (m == 5 && (c.inst->epsU > 1e-10L || c.ref.ax[d].period * 1e13L > 1e18L)) m = 1;
            if (m == 5) {  // counts beyond any 32 bit integer; coarse coordinates keep the shift exact
                huge_shift = true;
                if (o.dyadic) {
                    ld z = std::floor(x[d] * 256) / 256;
                    if (z >= c.ref.ax[d].lo) x[d] = y[d] = z;
                }
            }
            ld kk = m == 5 ? std::ldexp(1.0L, r.range(31, 36)) + r.range(-5, 5) : m == 0 ? 1 : m == 1 ? r.range(1, 9) : m == 2 ? r.range(1, 1000) : m == 3 ? 1048576.L * r.range(1, 3) : r.range(1, 100000);
            bool neg = r.chance(.5);
            if (neg) kk = -kk;
            ld want = x[d] + kk * c.ref.ax[d].period;
            y[d] = c.inst->round_coord(want);
            // exact only if the library's own period and origin are exact and
            // every intermediate of the reduction is representable
            ld lo, hi;
            f->range(d, lo, hi);
            // one grid for all of them: fine for ordinary shifts, coarse for huge ones
            bool big = std::fabs(y[d]) >= 1073741824.L;
            auto dy = [big](ld v) { return big ? std::fabs(v) < 8796093022208.L && std::floor(v * 256.L) == v * 256.L : std::fabs(v) < 1073741824.L && std::floor(v * 1048576.L) == v * 1048576.L; };
            if (y[d] != want || hi - lo != c.ref.ax[d].period || lo != c.ref.ax[d].lo || !dy(lo) || !dy(hi) || !dy(x[d]) || !dy(y[d]) || c.inst->epsU > 1e-10L) exact = false;
            moved = true;
            km += m * 2 + neg;
        }
        std::size_t dr[MAXD] = {0};
        bool dv = c.inst->has_deriv && r.chance(.4);
        if (dv) for (int d = 0; d < c.s.D; ++d) dr[d] = r.below(std::size_t(c.s.order) + 1);
        RefVal R = c.ref.eval(y, dr);
        RefVal R0 = c.ref.eval(x, dr);
        ld s = 0;
        for (int q = 0; q < c.v.nc; ++q) s = std::max(s, std::fabs(R0.v[q]));
        if (dv) { f->deriv(y, dr, r.range(0, 2), got); f->deriv(x, dr, r.range(0, 2), got0); }
        else { f->eval(y, r.range(0, 1), got); f->eval(x, r.range(0, 1), got0); }
        bool inf2 = dv ? true : informative(c, R);
        if (dv && R.tol > 1e-4L * s) inf2 = false;
        if (huge_shift) inf2 = !near_overflow(c, R) && R.tol <= .05L * std::max(s, dv ? 0 : c.ref.fmax);
        if (huge_shift) rep.add(inf2 ? "huge_shifts" : exact ? "huge_shifts_exact" : "huge_shifts_coarse");
        if (inf2) {
            rep.add(dv ? "derivative_images" : "images");
            if (!check(c, "periodic image", R, got, y, dr)) return;
            note(c, km);
        }
        if (exact && moved && o.dyadic) {
            // the shift is exact: the two evaluations see the same point, so
            // they agree even where the function jumps
            RefVal Q = R0;
            Q.alt.clear();
            for (int q = 0; q < MAXC; ++q) Q.v[q] = got0[q];
            rep.add(R0.step ? "exact_shift_pairs_at_jumps" : "exact_shift_pairs");
            if (!check(c, "f(x+kP) against f(x)", Q, got, y, dr)) return;
        }
    }
    // the dummy point along periodic axes carries no information
    if (config_info().dummy) {
        Values w = c.v;
        for (int dm = 0; dm < 3; ++dm) {
            w.dummy = dm;
            Fn g(c.inst->make(c.s, w, c.path));
            for (int k = 0; k < 6; ++k) {
                ld x[MAXD], a[MAXC], b[MAXC];
                int kd;
                for (int d = 0; d < c.s.D; ++d) x[d] = gen_coord(r, c, d, kd);
                f->eval(x, 0, a);
                g->eval(x, 0, b);
                RefVal R = c.ref.eval(x, nullptr);
                for (int q = 0; q < MAXC; ++q) R.v[q] = a[q];
                rep.add("dummy_variations");
                if (!check(c, "dummy point changed the result", R, b, x)) return;
            }
        }
    }
}

// ---------------------------------------------------------------- C05
static bool inf_deriv(const Case& c, const RefVal& R) {
    ld s = 0;
    for (int q = 0; q < c.v.nc; ++q) s = std::max(s, std::fabs(R.v[q]));
    ld lim = c.inst->epsT > 1e-10L || c.inst->epsU > 1e-10L ? .05L : 1e-4L;
    return R.tol == 0 || R.tol <= lim * std::max(s, R.scale);
}
static void c05(Rng& r, long i) {
    if (i % 250 == 7) { large_case(r, i, 2); return; }
    Case c;
    GenOpt o;
    o.need_deriv = true;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.add("functions");
    rep.sample(c.desc());
    int pts = c.s.D >= 4 ? 30 : c.s.D == 1 ? 140 : 90;
    ld xl[MAXD];
    for (int d = 0; d < c.s.D; ++d) xl[d] = c.s.x[d].front();
    for (int k = 0; k < pts && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC];
        int kd, km = 0;
        std::size_t dr[MAXD];
        bool beyond = false, wide = false;
        for (int d = 0; d < c.s.D; ++d) {
            x[d] = gen_coord(r, c, d, kd);
            dr[d] = r.below(std::size_t(c.s.order) + 1);
            if (r.chance(.3)) dr[d] = 0;
            if (r.chance(.08)) dr[d] = std::size_t(c.s.order) + 1 + r.below(4) * r.below(1000);
            if (r.chance(.03)) {  // orders that do not fit a narrower integer
                static const int sh[] = {8, 16, 31, 32, 33, 48, 63};
                dr[d] = (std::size_t(1) << sh[r.below(7)]) + r.below(std::size_t(c.s.order) + 1);
                if (r.chance(.2)) dr[d] = std::size_t(-1) - r.below(std::size_t(c.s.order) + 2);
                wide = true;
            }
            if (dr[d] > std::size_t(c.s.order)) beyond = true;
            km = km * 10 + int(std::min<std::size_t>(dr[d], 9));
        }
        RefVal R = c.ref.eval(x, dr);
        // reference scale: the natural size of this derivative
        ld nat = c.ref.fmax;
        for (int d = 0; d < c.s.D; ++d) for (std::size_t q = 0; q < dr[d] && q < 10; ++q) nat /= (c.ref.ax[d].hi - c.ref.ax[d].lo) / ld(c.s.n[d]);
        R.scale = nat;
        if (!inf_deriv(c, R)) { rep.add("uninformative"); continue; }
        f->deriv(x, dr, wide ? 3 * r.range(0, 1) : r.range(0, 5), got);
        rep.add(wide ? "wide_orders" : beyond ? "beyond_order" : "points");
        if (R.step) rep.add("points_at_jumps");
        if (!check(c, "derivative", R, got, x, dr)) return;
        note(c, km);
        for (int d = 0; d < c.s.D; ++d) xl[d] = x[d];
    }
    alikes(r, c, f, xl, 2);
}

// ---------------------------------------------------------------- C06
static void c06(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.small = true;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    Fn f(c.inst->make(c.s, c.v, c.path));
    if (r.chance(.3)) f.reset(f->clone(r.range(0, 3)));
    rep.add("functions");
    rep.sample(c.desc());
    if (f->get_order() != std::size_t(c.s.order)) { rep.violation("get_order in " + c.desc()); return; }
    for (int d = 0; d < c.s.D; ++d) {
        const Axis& a = c.ref.ax[d];
        ld lo, hi;
        f->range(d, lo, hi);
        rep.add("metadata");
        if (f->periodicity(d) != c.s.periodic[d]) { rep.violation(fmt("periodicity(%d) in ", d) + c.desc()); return; }
        if (f->uniform(d) != c.s.uniform[d]) { rep.violation(fmt("uniform(%d) in ", d) + c.desc()); return; }
        if (c.s.periodic[d]) {
            // one period, starting at the first data point (odd order) or half
            // a cell before it (even order)
            ld tol = 16 * c.inst->epsU * (a.xmax + a.period);
            if (!(std::fabs(lo - a.lo) <= tol && std::fabs(hi - a.hi) <= tol)) { rep.violation(fmt("range(%d)=[%.17Lg,%.17Lg], expected [%.17Lg,%.17Lg] in ", d, lo, hi, a.lo, a.hi) + c.desc()); return; }
        } else if (lo != c.s.x[d].front() || hi != c.s.x[d].back()) {
            rep.violation(fmt("range(%d)=[%.17Lg,%.17Lg] in ", d, lo, hi) + c.desc());
            return;
        }
    }
    for (int k = 0; k < 80 && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC], raw[MAXC];
        int kd, km = 0;
        bool out = false;
        for (int d = 0; d < c.s.D; ++d) {
            const Axis& a = c.ref.ax[d];
            ld F = c.s.x[d].front(), B = c.s.x[d].back(), len = a.hi - a.lo;
            int m = r.chance(.6) ? 0 : r.range(1, 9);
            switch (m) {
                case 0: x[d] = gen_coord(r, c, d, kd); break;
                case 1: x[d] = F; break;
                case 2: x[d] = B; break;
                case 3: x[d] = coord_ulp(*c.inst, F, -1); break;
                case 4: x[d] = coord_ulp(*c.inst, B, 1); break;
                case 5: x[d] = c.inst->round_coord(F - len * ld(r.uni(0, 3))); break;
                case 6: x[d] = c.inst->round_coord(B + len * ld(r.uni(0, 3))); break;
                case 7: x[d] = coord_ulp(*c.inst, F, 1); break;
                case 8: x[d] = coord_ulp(*c.inst, B, -1); break;
                default: x[d] = c.inst->round_coord(r.chance(.5) ? -1e30L : 1e30L); if (r.chance(.3)) x[d] = r.chance(.5) ? INF : -INF; break;
            }
            if (!c.s.periodic[d] && (x[d] < F || x[d] > B)) out = true;
            km = km * 10 + m;
        }
        bool dv = c.inst->has_deriv && r.chance(.4);
        std::size_t dr[MAXD];
        for (int d = 0; d < c.s.D; ++d) dr[d] = r.below(std::size_t(c.s.order) + 2);
        int form = dv ? r.range(3, 5) : r.range(2, 3);
        int threw = 0;
        std::string what;
        try { if (dv) f->deriv(x, dr, form, got); else f->eval(x, form, got); }
        catch (const std::domain_error&) { threw = 1; }
        catch (const std::exception& e) { threw = 2; what = e.what(); }
        ++rep.evals;
        note(c, km * 2 + dv);
        rep.add(out ? "outside" : "inside");
        if (threw == 2) { rep.violation("wrong exception " + what + " at " + pt(x, c.s.D) + " in " + c.desc()); return; }
        if (out != (threw == 1)) { rep.violation(fmt("%s at %s in %s", out ? "out of range accepted" : "in range rejected", pt(x, c.s.D).c_str(), c.desc().c_str())); return; }
        // the unchecked form never throws and agrees
        try { if (dv) f->deriv(x, dr, r.range(0, 2), raw); else f->eval(x, r.range(0, 1), raw); }
        catch (const std::exception& e) { rep.violation(std::string("unchecked form threw ") + e.what() + " at " + pt(x, c.s.D) + " in " + c.desc()); return; }
        if (!out)
            for (int q = 0; q < c.v.nc; ++q)
                if (!(std::memcmp(&got[q], &raw[q], 10) == 0 || got[q] == raw[q] || (got[q] != got[q] && raw[q] != raw[q]))) {
                    RefVal R = c.ref.eval(x, dv ? dr : nullptr);
                    for (int z = 0; z < MAXC; ++z) R.v[z] = raw[z];
                    bool fin = true;
                    for (int d = 0; d < c.s.D; ++d) fin = fin && std::isfinite(x[d]) && std::fabs(x[d]) < 1e29L;
                    if (fin && !check(c, "checked access differs from unchecked", R, got, x, dr)) return;
                }
    }
}

// ---------------------------------------------------------------- C07
struct Live { Fn f; Ref ref; Values v; std::vector<ld> px; std::vector<ld> snap; };
static void c07(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.data = false;
    o.small = r.chance(.7);
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    Tpl t(c.inst->tpl(c.s, r.range(0, c.s.D == 1 ? 11 : 1)));
    Case other;  // same type, another grid
    bool has_other;
    if (r.chance(.5)) has_other = new_case(r, i + long(insts().size() * r.below(16)), o, other);
    else {  // a look-alike: same sizes, ends and periodicity, other coordinates in between
        std::vector<const Inst*> kin;
        for (const Inst* q : insts()) if (q->tkind == c.inst->tkind && q->D == c.inst->D && q->O == c.inst->O && q->nc == c.inst->nc && q->epsU == c.inst->epsU) kin.push_back(q);
        other.inst = kin[r.below(kin.size())];
        other.s = c.s;
        other.path = c.path;
        other.sig = c.sig;
        has_other = true;
        for (int d = 0; d < c.s.D; ++d) {
            std::vector<ld>& x = other.s.x[d];
            other.s.uniform[d] = other.inst->umask >> d & 1;
            ld lo = x.front(), hi = x.back(), h = (hi - lo) / ld(x.size() - 1);
            for (std::size_t q = 1; q + 1 < x.size(); ++q) x[q] = c.inst->round_coord(lo + h * (ld(q) + (other.s.uniform[d] ? 0 : ld(r.uni(-.3, .3)))));
            for (std::size_t q = 0; q + 1 < x.size(); ++q) if (!(x[q + 1] - x[q] > 32 * c.inst->epsU * std::max(std::fabs(lo), std::fabs(hi)))) has_other = false;
        }
        if (has_other) {
            other.ref.grid(other.s, c.inst->epsT, c.inst->epsU);
            if (!(other.ref.kprod < (c.inst->epsT > 1e-10L || c.inst->epsU > 1e-10L ? 2e2L : 1e7L))) has_other = false;
        }
        if (has_other) rep.add("look_alike_templates");
    }
    Tpl t2(has_other ? other.inst->tpl(other.s, 0) : nullptr);
    rep.sample(c.desc());
    std::vector<std::unique_ptr<Live>> live;
    const int D = c.s.D, nc = c.inst->nc;
    ld x0[MAXD];          // where the function was last evaluated before it was refilled
    std::size_t dr0[MAXD] = {0};
    bool use0 = false;
    auto verify = [&](Live& l, const char* how) {
        Case k;
        k.inst = c.inst; k.s = l.ref.spec; k.v.nc = nc; k.path = c.path; k.sig = c.sig;
        k.ref = l.ref;
        l.px.clear(); l.snap.clear();
        if (c.inst->has_deriv) for (int q = 0; q < 3; ++q) {
            ld x[MAXD], got[MAXC];
            std::size_t dr[MAXD] = {0};
            int kd;
            for (int d = 0; d < D; ++d) { x[d] = gen_coord(r, k, d, kd); dr[d] = r.below(std::size_t(c.s.order) + 1); }
            if (q == 0) { if (!use0) continue; for (int d = 0; d < D; ++d) { x[d] = x0[d]; dr[d] = dr0[d]; } }
            RefVal R = l.ref.eval(x, dr);
            ld nat = l.ref.fmax;
            for (int d = 0; d < D; ++d) for (std::size_t e = 0; e < dr[d]; ++e) nat /= (l.ref.ax[d].hi - l.ref.ax[d].lo) / ld(k.s.n[d]);
            R.scale = nat;
            if (!inf_deriv(k, R)) continue;
            l.f->deriv(x, dr, 0, got);
            rep.add("derivatives");
            if (!check(k, how, R, got, x, dr)) return false;
        }
        for (int q = 0; q < 10; ++q) {
            ld x[MAXD], got[MAXC];
            int kd;
            for (int d = 0; d < D; ++d) x[d] = gen_coord(r, k, d, kd);
            if (use0 && q < 2) for (int d = 0; d < D; ++d) x[d] = x0[d];
            RefVal R = l.ref.eval(x, nullptr);
            l.f->eval(x, 0, got);
            for (int d = 0; d < D; ++d) l.px.push_back(x[d]);
            for (int z = 0; z < nc; ++z) l.snap.push_back(got[z]);
            if (!informative(k, R)) { rep.add("uninformative"); continue; }
            if (!check(k, how, R, got, x)) return false;
        }
        for (int d = 0; d < D; ++d) {
            ld lo, hi;
            l.f->range(d, lo, hi);
            if (l.f->periodicity(d) != k.s.periodic[d] || l.f->uniform(d) != k.s.uniform[d] || (!k.s.periodic[d] && (lo != k.s.x[d].front() || hi != k.s.x[d].back()))) {
                rep.violation(std::string("metadata after ") + how + " in " + k.desc());
                return false;
            }
        }
        return true;
    };
    auto same = [&](Live& l, const char* how) {
        for (std::size_t q = 0; q * std::size_t(D) < l.px.size(); ++q) {
            ld got[MAXC];
            l.f->eval(&l.px[q * std::size_t(D)], 0, got);
            ++rep.evals;
            for (int z = 0; z < nc; ++z) {
                ld a = got[z], b = l.snap[q * std::size_t(nc) + std::size_t(z)];
                if (!(a == b || (a != a && b != b))) {
                    rep.violation(fmt("a function changed after %s: %.17Lg was %.17Lg in %s", how, a, b, c.desc().c_str()));
                    return false;
                }
            }
        }
        return true;
    };
    int steps = r.range(4, 9);
    std::string hist;
    for (int st = 0; st < steps && !rep.full(); ++st) {
        int op = r.range(0, 7);
        std::unique_ptr<Live> l(new Live);
        const char* how = "";
        bool on2 = false;
        switch (op) {
            case 4: {  // replace the template by a copy, drop the original
                ITpl* q = t->clone(r.range(0, 1));
                if (has_other && r.chance(.6)) {  // over a template of another shape
                    std::unique_ptr<ITpl> z(t2->clone(0)), w(q);
                    if (z->assign(*w, r.range(0, 1))) { rep.add("template_assignments"); q = z.release(); }
                    else q = w.release();
                }
                t.reset(q);
                rep.add("template_copies");
                hist += 'c';
                continue;
            }
            case 5: on2 = has_other; break;
            default: on2 = has_other && r.chance(.4); break;
        }
        l->ref = on2 ? other.ref : c.ref;
        gen_values(r, *c.inst, l->ref.spec, l->v);
        l->ref.data(l->v);
        ITpl& T = on2 ? *t2 : *t;
        use0 = false;
        auto touch = [&](const IFn& f) {
            Case k;
            k.inst = c.inst; k.s = l->ref.spec; k.v.nc = nc; k.ref = l->ref;
            int kd;
            ld got[MAXC];
            for (int d = 0; d < D; ++d) x0[d] = gen_coord(r, k, d, kd);
            f.eval(x0, r.range(0, 1), got);
            for (int d = 0; d < D; ++d) dr0[d] = r.below(std::size_t(c.s.order) + 1);
            if (c.inst->has_deriv) f.deriv(x0, dr0, 0, got);
            use0 = true;
        };
        // values that look alike: one of them differs
        auto almost = [&](const Values& w) {
            if (w.v.size() != l->v.v.size() || !r.chance(.5)) return;
            l->v.v = w.v;
            std::size_t q = r.below(w.v.size());
            if (w.v.size() > 2 && r.chance(.7)) q = 1 + r.below(w.v.size() - 2);
            ld m = 1e-3L;
            for (ld e : w.v) m = std::max(m, std::fabs(e));
            l->v.v[q] = c.inst->round_val(l->v.v[q] + m * ld(r.uni(.5, 1)));
            l->ref.data(l->v);
            rep.add("look_alike_values");
        };
        if (op == 0 || op == 5) { l->f.reset(T.make(l->v, r.range(0, 5))); how = "interpolate"; hist += 'i'; }
        else if (op == 1) {
            bool from2 = has_other && r.chance(.5);
            const Case& src = from2 ? other : c;
            Values w;
            gen_values(r, *c.inst, src.s, w);
            l->f.reset(src.inst->make(src.s, w, 0));
            if (from2 == on2) almost(w);
            touch(*l->f);
            T.make_into(*l->f, l->v, r.range(0, 2));
            if (from2 != on2) rep.add("refilled_from_other_template");
            how = "in-place interpolate over existing"; hist += 'o'; }
        else if (op == 2 && !live.empty()) {
            std::size_t z = r.below(live.size());
            l->f = std::move(live[z]->f);
            almost(live[z]->v);
            live.erase(live.begin() + long(z));
            touch(*l->f);
            T.make_into(*l->f, l->v, r.range(0, 2));
            how = "in-place interpolate over another function";
            hist += 'r';
        } else if (op == 3) { Tpl q(T.clone(0)); l->f.reset(q->make_consume(l->v, r.range(0, 2))); how = "rvalue interpolate"; hist += 'm'; }
        else if (op == 6) { Tpl q(T.clone(r.range(0, 1))); l->f.reset(q->make(l->v, r.range(0, 5))); q.reset(); how = "interpolate of a copied template"; hist += 'k'; }
        else { l->f.reset(T.make(l->v, 0)); l->f.reset(l->f->clone(r.range(0, 3))); how = "copied result"; hist += 'p'; }
        rep.add("interpolations");
        if (!verify(*l, how)) return;
        for (auto& z : live) if (!same(*z, how)) return;
        live.push_back(std::move(l));
    }
    t.reset();
    t2.reset();
    for (auto& z : live) if (!same(*z, "destroying the template")) return;
    std::uint64_t h = c.sig;
    for (char ch : hist) h = mix(h, std::uint64_t(ch));
    rep.distinct.insert(h);
}

// ---------------------------------------------------------------- C08
static void c08(Rng& r, long i) {
    if (!config_info().cell) { rep.add("config_without_proxy"); return; }
    Case c;
    GenOpt o;
    o.data = false;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    Tpl t(c.inst->tpl(c.s, r.range(0, c.s.D == 1 ? 11 : 1)));
    const int D = c.s.D;
    std::vector<std::unique_ptr<IProxy>> px;
    std::vector<std::vector<ld>> xs;
    std::vector<int> kinds;
    rep.sample(c.desc());
    for (int k = 0; k < 40; ++k) {
        std::vector<ld> x(MAXD, 0);
        int km = 0;
        for (int d = 0; d < D; ++d) {
            int kd;
            x[std::size_t(d)] = gen_coord(r, c, d, kd);
            km = km * 16 + kd;
            const Axis& a = c.ref.ax[d];
            if (r.chance(.25)) {
                km += 10;
                if (a.periodic) x[std::size_t(d)] = c.inst->round_coord(x[std::size_t(d)] + a.period * r.range(-4, 4));
                else x[std::size_t(d)] = c.inst->round_coord(r.chance(.5) ? a.lo - (a.hi - a.lo) * ld(r.uni(0, 1)) : a.hi + (a.hi - a.lo) * ld(r.uni(0, 1)));
            }
        }
        std::unique_ptr<IProxy> p(t->proxy(x.data(), r.range(0, 1)));
        if (r.chance(.2)) p.reset(p->clone());
        px.push_back(std::move(p));
        xs.push_back(x);
        kinds.push_back(km);
    }
    int nf = r.range(1, 3);
    for (int q = 0; q < nf; ++q) {
        Case k = c;
        gen_values(r, *c.inst, c.s, k.v);
        k.ref.data(k.v);
        const bool own = r.chance(.5);
        Fn f(own ? t->make(k.v, r.range(0, 2)) : c.inst->make(c.s, k.v, c.path));
        if (r.chance(.3)) f.reset(f->clone(r.range(0, 3)));
        if (q == nf - 1 && r.chance(.5)) t.reset(c.inst->tpl(c.s, 0));  // proxies outlive their template
        for (std::size_t z = 0; z < px.size() && !rep.full(); ++z) {
            ld a[MAXC], b[MAXC];
            px[z]->call(*f, a);
            f->eval(xs[z].data(), 0, b);
            RefVal R = k.ref.eval(xs[z].data(), nullptr);
            rep.add("proxy_evaluations");
            if (informative(k, R) && !check(k, "proxy value", R, a, xs[z].data())) return;
            // a range given in another type may put the knots of the function a rounding error away
            // from those of the template, and at a jump that picks the other side
            if (!own && !R.alt.empty()) { rep.add("direct_comparison_at_jump_skipped"); continue; }
            RefVal Q = R;
            Q.alt.clear();
            for (int y = 0; y < MAXC; ++y) Q.v[y] = b[y];
            if (!check(k, "proxy against direct evaluation", Q, a, xs[z].data())) return;
            note(k, kinds[z]);
        }
    }
}

// ---------------------------------------------------------------- C19
static void c19(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.small = true;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    const int D = c.s.D, nc = c.inst->nc;
    rep.sample(c.desc());
    Fn f(c.inst->make(c.s, c.v, c.path));
    Case k2 = c;
    gen_values(r, *c.inst, c.s, k2.v, 0);
    k2.ref.data(k2.v);
    // linearity in the data
    ld al = c.inst->round_val(ld(r.uni(-2, 2))), be = c.inst->round_val(ld(r.uni(-2, 2)));
    Case k3 = c;
    ld f3 = 0;
    for (std::size_t q = 0; q < c.v.v.size(); ++q) { k3.v.v[q] = c.inst->round_val(al * c.v.v[q] + be * k2.v.v[q]); f3 = std::max(f3, std::fabs(al * c.v.v[q]) + std::fabs(be * k2.v.v[q])); }
    k3.ref.data(k3.v);
    Fn g(c.inst->make(c.s, k2.v, c.path)), h(c.inst->make(c.s, k3.v, c.path));
    std::vector<std::array<ld, MAXD>> X;
    std::vector<std::array<ld, MAXC>> Y, G;
    for (int q = 0; q < 30; ++q) {
        std::array<ld, MAXD> x{};
        int kd;
        for (int d = 0; d < D; ++d) {
            x[std::size_t(d)] = gen_coord(r, c, d, kd);
            if (r.chance(.1)) x[std::size_t(d)] = c.inst->round_coord(x[std::size_t(d)] + (c.ref.ax[d].hi - c.ref.ax[d].lo));
        }
        std::array<ld, MAXC> y{}, y2{}, y3{};
        f->eval(x.data(), 0, y.data());
        g->eval(x.data(), 0, y2.data());
        h->eval(x.data(), 0, y3.data());
        X.push_back(x); Y.push_back(y); G.push_back(y2);
        RefVal R1 = c.ref.eval(x.data(), nullptr), R2 = k2.ref.eval(x.data(), nullptr), R3 = k3.ref.eval(x.data(), nullptr);
        RefVal R = R1;
        R.alt.clear();
        for (int z = 0; z < nc; ++z) R.v[z] = al * y[std::size_t(z)] + be * y2[std::size_t(z)];
        R.tol = R3.tol + std::fabs(al) * R1.tol + std::fabs(be) * R2.tol + 8 * c.inst->epsT * c.ref.kprod * f3 * (R3.tol / std::max(R3.tol, 24 * c.ref.eps * std::max(k3.ref.cmax, 1e-300L))) ;
        // rounding of the combined data itself
        ld L = R3.tol / (24 * c.ref.eps * c.ref.kprod * std::max(k3.ref.cmax, 1e-300L));
        R.tol += 4 * c.inst->epsT * f3 * c.ref.kprod * std::max<ld>(1, L);
        ld sc = std::max(c.ref.fmax * std::fabs(al), k2.ref.fmax * std::fabs(be));
        if (R.tol < (c.inst->epsT > 1e-10L || c.inst->epsU > 1e-10L ? .1L : 1e-4L) * sc) {
            rep.add("linearity_points");
            if (!check(k3, "linearity", R, y3.data(), x.data())) return;
        }
        if (informative(c, R1)) {
            rep.add("component_points");
            if (!check(c, "componentwise value", R1, y.data(), x.data())) return;
        }
    }
    bool back = false;
    auto unchanged = [&](const IFn& q, const std::vector<std::array<ld, MAXC>>& W, const char* how) {
        // another order of evaluation, beginning where the last one ended
        back = !back;
        for (std::size_t z = 0; z < X.size(); ++z) {
            ld got[MAXC];
            std::size_t p = ((back ? X.size() - 1 - z : z) * 7 + 3) % X.size();
            q.eval(X[p].data(), 1, got);
            ++rep.evals;
            for (int u = 0; u < nc; ++u) {
                ld a = got[u], b = W[p][std::size_t(u)];
                if (!(a == b || (a != a && b != b))) {
                    rep.violation(fmt("%s: %.17Lg, was %.17Lg at %s in %s", how, a, b, pt(X[p].data(), D).c_str(), c.desc().c_str()));
                    return false;
                }
            }
        }
        return true;
    };
    if (!unchanged(*f, Y, "repeated evaluation")) return;
    if (c.inst->has_deriv) {
        std::size_t dr[MAXD] = {0};
        ld tmp[MAXC];
        for (int q = 0; q < 5; ++q) { for (int d = 0; d < D; ++d) dr[d] = r.below(std::size_t(c.s.order) + 2); f->deriv(X[std::size_t(q)].data(), dr, 0, tmp); }
        if (!unchanged(*f, Y, "evaluation after derivatives")) return;
    }
    // derivatives at a few points, to be found again in copies
    struct Der { std::size_t x, dr[MAXD]; std::array<ld, MAXC> y, z; };
    std::vector<Der> DY;
    if (c.inst->has_deriv) for (int q = 0; q < 4; ++q) {
        Der e{};
        e.x = r.below(X.size());
        for (int d = 0; d < D; ++d) e.dr[d] = r.below(std::size_t(c.s.order) + 1);
        f->deriv(X[e.x].data(), e.dr, 0, e.y.data());
        g->deriv(X[e.x].data(), e.dr, 0, e.z.data());
        DY.push_back(e);
    }
    bool dback = false;
    auto derivs = [&](const IFn& q, const char* how, bool second = false) {
        dback = !dback;   // begin where the last one ended
        for (std::size_t z = 0; z < DY.size(); ++z) {
            const Der& e = DY[dback ? DY.size() - 1 - z : z];
            const std::array<ld, MAXC>& want = second ? e.z : e.y;
            ld got[MAXC];
            q.deriv(X[e.x].data(), e.dr, 0, got);
            ++rep.evals;
            for (int u = 0; u < nc; ++u) if (!(got[u] == want[std::size_t(u)] || (got[u] != got[u] && want[std::size_t(u)] != want[std::size_t(u)]))) { rep.violation(fmt("%s: derivative %.17Lg, was %.17Lg in %s", how, got[u], want[std::size_t(u)], c.desc().c_str())); return false; }
        }
        return true;
    };
    // a function of another shape, as source and target of assignments
    Case o2;
    Fn far;
    std::vector<std::array<ld, MAXD>> FX;
    std::vector<std::array<ld, MAXC>> FY;
    if (gen_case(r, i + long(insts().size() * r.below(16)), o, o2)) {
        far.reset(o2.inst->make(o2.s, o2.v, o2.path));
        for (int q = 0; q < 6; ++q) {
            std::array<ld, MAXD> x{};
            std::array<ld, MAXC> y{};
            int kd;
            for (int d = 0; d < D; ++d) x[std::size_t(d)] = gen_coord(r, o2, d, kd);
            far->eval(x.data(), 0, y.data());
            FX.push_back(x); FY.push_back(y);
        }
    }
    auto isfar = [&](const IFn& q, const char* how) {
        for (std::size_t z = 0; z < FX.size(); ++z) {
            ld got[MAXC];
            q.eval(FX[z].data(), 0, got);
            ++rep.evals;
            for (int u = 0; u < nc; ++u) { ld e = FY[z][std::size_t(u)]; if (!(got[u] == e || (got[u] != got[u] && e != e))) { rep.violation(fmt("%s: %.17Lg, was %.17Lg at %s in %s, other shape %s", how, got[u], e, pt(FX[z].data(), D).c_str(), c.desc().c_str(), o2.desc().c_str())); return false; } }
        }
        for (int d = 0; d < D; ++d) {
            ld l1, h1, l2, h2;
            far->range(d, l1, h1);
            q.range(d, l2, h2);
            if (l1 != l2 || h1 != h2 || q.uniform(d) != o2.s.uniform[d] || q.periodicity(d) != o2.s.periodic[d]) { rep.violation(std::string("metadata after ") + how + " in " + o2.desc()); return false; }
        }
        return true;
    };
    for (int how = 0; how < 4; ++how) {
        Fn a(f->clone(how));
        rep.add("copies");
        if (!unchanged(*a, Y, "copy") || !derivs(*a, "copy")) return;
        if (far) {
            a->assign(*far);
            if (!isfar(*a, "assignment of another shape")) return;
            a->assign(*f);
            if (!unchanged(*a, Y, "assignment over another shape") || !derivs(*a, "assignment over another shape")) return;
            Fn b(far->clone(0));
            a->assign_move(*b);
            if (!isfar(*a, "move assignment of another shape")) return;
            b->assign(*f);   // a moved-from function is a valid target
            b->assign(*a);
            a->assign(*f);
            if (!isfar(*b, "assignment to a moved-from function")) return;
            b->assign_move(*a);
            a.reset(b.release());
            if (!unchanged(*a, Y, "move assignment over another shape") || !derivs(*a, "move assignment over another shape")) return;
            if (!isfar(*far, "source of assignments of another shape")) return;
            rep.add("shape_changing_assignments", 5);
        }
        for (int d = 0; d < D; ++d) {
            ld l1, h1, l2, h2;
            f->range(d, l1, h1);
            a->range(d, l2, h2);
            if (l1 != l2 || h1 != h2 || a->uniform(d) != f->uniform(d) || a->periodicity(d) != f->periodicity(d)) { rep.violation("metadata of a copy in " + c.desc()); return; }
        }
        a->assign(*g);
        if (r.chance(.5) ? !derivs(*a, "assignment", true) || !unchanged(*a, G, "assignment") : !unchanged(*a, G, "assignment") || !derivs(*a, "assignment", true)) return;
        if (!derivs(*f, "original after its copy was assigned to", false) || !unchanged(*f, Y, "original after its copy was assigned to")) return;
        a->assign(*a);
        if (!derivs(*a, "self assignment", true) || !unchanged(*a, G, "self assignment")) return;
        Fn b(f->clone(0));
        a->assign_move(*b);
        b.reset();
        if (!derivs(*a, "move assignment", false) || !unchanged(*a, Y, "move assignment")) return;
        if (!derivs(*g, "source of assignment", true) || !unchanged(*g, G, "source of assignment")) return;
    }
    Fn a(f->clone(0));
    f.reset();
    g.reset();
    if (!derivs(*a, "copy after the original is gone", false) || !unchanged(*a, Y, "copy after the original is gone")) return;
    note(c, c.path);
}

// --------------------------------------------------- hostile workload (C10/C11)
// No value oracle: the sanitizer watches. Every public entry point is driven
// with ordinary and with hostile coordinates.
static ld hostile(Rng& r, const Case& c, int d) {
    const Axis& a = c.ref.ax[d];
    ld len = a.hi - a.lo, v;
    int kd;
    switch (r.range(0, 17)) {
        case 0: v = NAN; break;
        case 1: v = INF; break;
        case 2: v = -INF; break;
        case 3: v = 1e300L; break;
        case 4: v = -1e300L; break;
        case 5: v = 1e19L * (r.chance(.5) ? 1 : -1); break;
        case 6: v = 0; break;
        case 7: v = -0.0L; break;
        case 8: v = 5e-324L; break;
        case 9: v = a.lo - len * r.range(0, 5); break;
        case 10: v = a.hi + len * r.range(0, 5); break;
        case 11: v = coord_ulp(*c.inst, c.inst->round_coord(a.lo), -r.range(1, 2)); break;
        case 12: v = coord_ulp(*c.inst, c.inst->round_coord(a.hi), r.range(-2, 2)); break;
        case 13: { v = c.inst->round_coord(a.t[r.below(a.t.size())]); v = coord_ulp(*c.inst, v, r.range(-1, 1)); break; }
        case 14: v = a.lo + len * ld(r.uni(-50, 50)); break;
        default: v = gen_coord(r, c, d, kd); break;
    }
    return c.inst->round_coord(v);
}
// everything observed, for the comparison of runs that differ only in what
// unwritten memory holds
static std::uint64_t trace_hash = 0, trace_n = 0;
static std::FILE* evlog = nullptr;
static void seen(const ld* v, int n) {
    for (int k = 0; k < n; ++k) {
        std::uint64_t m = 0;
        std::uint16_t e = 0;
        if (v[k] != v[k]) m = 0x7ff8;
        else { std::memcpy(&m, &v[k], 8); std::memcpy(&e, reinterpret_cast<const char*>(&v[k]) + 8, 2); }
        trace_hash = mix(mix(trace_hash, m), e);
        ++trace_n;
    }
}
static void flush_trace(long i, int k) {
    if (evlog) std::fprintf(evlog, "%ld %d %016llx %llu\n", i, k, (unsigned long long)trace_hash, (unsigned long long)trace_n);
}
static void __attribute__((noinline)) scribble() {
    volatile unsigned char a[60000];
    static unsigned char pat = (unsigned char)(std::getenv("V_STACK_PATTERN") ? std::atoi(std::getenv("V_STACK_PATTERN")) : 0);
    for (unsigned k = 0; k < sizeof a; ++k) a[k] = pat;
}
static void c10(Rng& r, long i) {
    trace_hash = trace_n = 0;
    scribble();
    Case c;
    GenOpt o;
    o.small = r.chance(.8);
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    const int D = c.s.D;
    rep.sample(c.desc());
    ld out[MAXC];
    Fn f(c.inst->make(c.s, c.v, c.path));
    Tpl t(c.inst->tpl(c.s, r.range(0, D == 1 ? 11 : 1)));
    Fn g(t->make(c.v, r.range(0, 2)));
    t->make_into(*f, c.v);
    ld sink = 0;
    for (int d = 0; d < D; ++d) {
        ld q[4];
        f->range(d, q[0], q[1]);
        g->range(d, q[2], q[3]);
        seen(q, 4);
        q[0] = ld(f->uniform(d)) + 2 * ld(g->uniform(d)) + 4 * ld(f->periodicity(d)) + 8 * ld(g->periodicity(d));
        seen(q, 1);
    }
    flush_trace(i, -1);
    scribble();
    for (int k = 0; k < 60; ++k) {
        ld x[MAXD];
        std::size_t dr[MAXD];
        int km = 0;
        for (int d = 0; d < D; ++d) { x[d] = r.chance(.5) ? hostile(r, c, d) : INF; if (x[d] == INF) { int kd; x[d] = r.chance(.1) ? INF : gen_coord(r, c, d, kd); } dr[d] = r.below(std::size_t(c.s.order) + 2); km = km * 3 + (x[d] != x[d] ? 2 : std::isinf(x[d]) ? 1 : 0); }
        for (int form = 0; form < 4; ++form) {
            try { (form % 2 ? f : g)->eval(x, form, out); seen(out, c.inst->nc); sink += out[0] == out[0] ? 1 : 0; }
            catch (const std::domain_error&) { rep.add("domain_errors"); }
            ++rep.evals;
        }
        if (c.inst->has_deriv)
            for (int form = k % 2; form < 6; form += 2) {
                try { (form % 2 ? f : g)->deriv(x, dr, form, out); seen(out, c.inst->nc); sink += out[0] == out[0] ? 1 : 0; }
                catch (const std::domain_error&) { rep.add("domain_errors"); }
                ++rep.evals;
            }
        if (config_info().cell && k % 3 == 0) {
            std::unique_ptr<IProxy> p(t->proxy(x, k % 2));
            p->call(*g, out);
            seen(out, c.inst->nc);
            sink += out[0] == out[0] ? 1 : 0;
            rep.add("proxies");
        }
        note(c, km);
        flush_trace(i, k);
    }
    // history: copies, moves, consumption, destruction in any order
    Fn a(g->clone(r.range(0, 3)));
    Tpl u(t->clone(r.range(0, 1)));
    t.reset();
    Fn b(u->make_consume(c.v));
    u.reset();
    a->assign_move(*b);
    b.reset();
    g.reset();
    int kd;
    ld x[MAXD];
    for (int d = 0; d < D; ++d) x[d] = gen_coord(r, c, d, kd);
    a->eval(x, 0, out);
    seen(out, c.inst->nc);
    flush_trace(i, 99);
    rep.add("finite_results", std::uint64_t(sink));
    rep.add("functions", 3);
}

// ------------------------------------------- C09: event log for comparison
static void c09(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.doubles_only = true;
    o.small = r.chance(.6);
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    if (c.v.dummy == 2) c.v.dummy = 0;
    Fn f(c.inst->make(c.s, c.v, c.path));
    rep.sample(c.desc());
    for (int k = 0; k < 40 && !rep.full(); ++k) {
        ld x[MAXD], got[MAXC];
        int kd;
        std::size_t dr[MAXD];
        for (int d = 0; d < c.s.D; ++d) {
            x[d] = gen_coord(r, c, d, kd);
            if (r.chance(.1)) x[d] = c.inst->round_coord(x[d] + (c.ref.ax[d].hi - c.ref.ax[d].lo) * ld(r.uni(-1, 1)));
            dr[d] = r.below(std::size_t(c.s.order) + 2);
        }
        bool dv = k % 2;
        int form = r.range(0, 1);
        RefVal R = c.ref.eval(x, dv ? dr : nullptr);
        if (dv) f->deriv(x, dr, form, got); else f->eval(x, form, got);
        if (R.step) continue;
        ld s = std::max(std::fabs(R.v[0]), dv ? 0 : c.ref.fmax);
        if (R.tol > 0 && R.tol > 1e-4L * s) { rep.add("uninformative"); continue; }
        ++rep.evals;
        if (evlog) std::fprintf(evlog, "%ld %d %d %.20Lg %.4Lg\n", i, k, int(dv), got[0], R.tol);
        if (!check(c, dv ? "derivative" : "value", R, got, x, dv ? dr : nullptr)) return;
        note(c, k);
    }
}

// ------------------------------------------- C18: valid input is accepted
static void c18(Rng& r, long i) {
    if (!config_info().assertion) { rep.add("not_an_assertion_build"); return; }
    switch (i % 6) {
        case 0: c01(r, i); break;
        case 1: c02(r, i); break;
        case 2: c05(r, i); break;
        case 3: c06(r, i); break;
        case 4: c07(r, i); break;
        default: if (config_info().cell) c08(r, i); else c04(r, i); break;
    }
}

// ------------------------------------------- C20: control point storage
static void c20(Rng& r, long i) {
    Case c;
    GenOpt o;
    o.small = true;
    if (!new_case(r, i, o, c)) { rep.add("skipped_ill_conditioned"); return; }
    rep.sample(c.desc());
    auto aligned = [&](const IFn& f, const char* what) {
        ++rep.evals;
        std::uintptr_t p = reinterpret_cast<std::uintptr_t>(f.ctrl_data());
        if (p % 32) rep.violation(fmt("control points of %s at %p not on a 32 byte boundary in %s", what, f.ctrl_data(), c.desc().c_str()));
        rep.add("control_point_storages");
        return p % 32 == 0;
    };
    std::vector<std::unique_ptr<char[]>> noise;  // shift the heap
    auto shift = [&] { for (int k = r.range(0, 3); k > 0; --k) noise.emplace_back(new char[8 + r.below(100)]); };
    shift();
    Fn f(c.inst->make(c.s, c.v, c.path));
    shift();
    Tpl t(c.inst->tpl(c.s, 0));
    if (!aligned(*f, "a function")) return;
    for (int how = 0; how < 4; ++how) {
        shift();
        Fn g(f->clone(how)), h(t->make(c.v, how % 3));
        if (!aligned(*g, "a copy") || !aligned(*h, "a template product")) return;
        g->assign(*h);
        if (!aligned(*g, "an assigned function")) return;
        g->assign_move(*h);
        if (!aligned(*g, "a move-assigned function")) return;
        t->make_into(*g, c.v);
        if (!aligned(*g, "a refilled function")) return;
    }
    note(c, 0);
}

typedef void (*Work)(Rng&, long);
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    std::string prop = argv[1], out, log;
    std::uint64_t seed = 1;
    long cases = 200, only = -1, from = 0;
    double tmax = 0;
    for (int a = 2; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = std::strtoull(argv[a + 1], nullptr, 10);
        else if (k == "--cases") cases = std::atol(argv[a + 1]);
        else if (k == "--from") from = std::atol(argv[a + 1]);
        else if (k == "--case") only = std::atol(argv[a + 1]);
        else if (k == "--time") tmax = std::atof(argv[a + 1]);
        else if (k == "--out") out = argv[a + 1];
        else if (k == "--log") log = argv[a + 1];
    }
    rep.prop = prop;
    rep.config = config_info().name;
    Work w = prop == "C01" ? c01 : prop == "C02" ? c02 : prop == "C03" ? c03 : prop == "C04" ? c04 : prop == "C05" ? c05 : prop == "C06" ? c06 : prop == "C07" ? c07 : prop == "C08" ? c08 : prop == "C09" ? c09 : prop == "C10" || prop == "C11" ? c10 : prop == "C18" ? c18 : prop == "C19" ? c19 : prop == "C20" ? c20 : nullptr;
    if (!w) { std::fprintf(stderr, "unknown property\n"); return 3; }
    if (!log.empty()) evlog = std::fopen(log.c_str(), "w");
    if (const char* pv = std::getenv("V_PERTURB")) {
        unsigned char want = (unsigned char)(std::atoi(pv) ^ 0xff), * volatile m = static_cast<unsigned char*>(std::malloc(300));
        if (std::atoi(pv) == 0 || (m[10] == want && m[200] == want && m[299] == want)) rep.add("heap_pattern_confirmed");
        std::free(m);
    }
    auto t0 = std::chrono::steady_clock::now();
    long i = only >= 0 ? only : from, done = 0;
    for (;; ++i) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (only < 0 && (tmax > 0 ? el > tmax : i >= from + cases)) break;
        rep.case_id = i;
        watch_case(out.c_str(), i, 150);
        Rng r(mix(mix(seed, prop == "C11" ? 10 : std::uint64_t(std::atoi(prop.c_str() + 1))), std::uint64_t(i)));
        if (prop == "C09") r = Rng(mix(seed, 9000 + std::uint64_t(i)));
        try {
            w(r, i);
            if (mesh_modified().exchange(false)) rep.violation("a data mesh passed by lvalue was modified in " + last_case);
        }
        catch (const std::exception& e) { rep.violation(std::string("unexpected exception: ") + e.what() + " in " + last_case); }
        ++done;
        if (rep.full() || only >= 0) break;
    }
    rep.add("cases", std::uint64_t(done));
    rep.add("instantiations", insts().size());
    if (evlog) std::fclose(evlog);
    return rep.finish(out.c_str());
}
