#include "gen.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

const std::vector<const Inst*>& insts() {
    static std::vector<const Inst*> v;
    if (v.empty()) {
        for (auto& i : registry()) v.push_back(&i);
        std::sort(v.begin(), v.end(), [](const Inst* a, const Inst* b) {
            if (a->tkind != b->tkind) return a->tkind < b->tkind;
            if (a->D != b->D) return a->D < b->D;
            if (a->O != b->O) return a->O < b->O;
            return a->umask < b->umask;
        });
    }
    return v;
}
std::string pt(const ld* x, int D) {
    std::string o = "(";
    for (int d = 0; d < D; ++d) o += fmt("%s%.17Lg", d ? ", " : "", x[d]);
    return o + ")";
}
std::string Case::desc() const {
    std::string o = fmt("%s D=%d order=%d path=%d", inst->tname, s.D, s.order, path);
    for (int d = 0; d < s.D; ++d)
        o += fmt(" ax%d{n=%zu %s %s [%.17Lg,%.17Lg]}", d, s.n[d], s.periodic[d] ? "periodic" : "aperiodic", s.uniform[d] ? "uniform" : "nonuniform", s.x[d].front(), s.x[d].back());
    return o;
}
ld coord_ulp(const Inst& in, ld x, int k) {
    for (; k > 0; --k) {
        if (in.epsU > 1e-10L) x = std::nextafterf(float(x), INFINITY);
        else if (in.epsU > 1e-17L) x = std::nextafter(double(x), double(INFINITY));
        else x = std::nextafterl(x, INFINITY);
    }
    for (; k < 0; ++k) {
        if (in.epsU > 1e-10L) x = std::nextafterf(float(x), -INFINITY);
        else if (in.epsU > 1e-17L) x = std::nextafter(double(x), -double(INFINITY));
        else x = std::nextafterl(x, -INFINITY);
    }
    return x;
}
static std::size_t gen_n(Rng& r, int D, std::size_t minn, int mode) {
    static const int big1[] = {64, 100, 128, 200, 257, 511, 1000, 2100};
    switch (mode) {
        case 0: return minn;
        case 1: return minn + 1 + r.below(2);
        case 2: return minn + r.below(8);
        case 3: return minn + r.below(D == 1 ? 40 : D == 2 ? 24 : D == 3 ? 10 : 4);
        case 4: return D == 1 ? std::size_t(big1[r.below(8)]) + r.below(7) : minn + r.below(D == 2 ? 60 : D == 3 ? 16 : 6);
        default: return minn + r.below(6);
    }
}
void gen_values(Rng& r, const Inst& in, const Spec& s, Values& v, int kind) {
    v.nc = in.nc;
    std::size_t P = s.points();
    v.v.assign(P * std::size_t(v.nc), 0);
    v.dummy = int(r.below(3));
    for (int c = 0; c < v.nc; ++c) {
        int k = kind >= 0 ? kind : r.range(0, 11);
        double sc = r.chance(.15) ? std::pow(10., r.range(-12, 12)) : 1;
        if (r.chance(.04)) sc = std::pow(10., r.range(-80, 80));
        if (in.epsT > 1e-10L && std::fabs(std::log10(sc)) > 6) sc = 1;
        double w[MAXD], ph[MAXD];
        for (int d = 0; d < MAXD; ++d) { w[d] = r.uni(.1, 2.5); ph[d] = r.uni(0, 6.28); }
        std::size_t imp = r.below(P);
        for (std::size_t q = 0; q < P; ++q) {
            std::size_t rem = q, id[MAXD];
            for (int d = s.D - 1; d >= 0; --d) { id[d] = rem % s.n[d]; rem /= s.n[d]; }
            double val = 0;
            switch (k) {
                case 0: case 1: val = r.uni(-1, 1); break;
                case 2: { val = 1; for (int d = 0; d < s.D; ++d) val *= std::sin(w[d] * double(id[d]) + ph[d]); break; }
                case 3: val = q == imp ? 1 : 0; break;
                case 4: { int p = 0; for (int d = 0; d < s.D; ++d) p += int(id[d]); val = p % 2 ? -1 : 1; break; }
                case 5: { for (int d = 0; d < s.D; ++d) val += w[d] * double(id[d]) * (d + 1); break; }
                case 6: val = 1.5; break;
                case 8: val = r.chance(.6) ? (r.chance(.5) ? 0. : -0.) : r.uni(-1, 1); break;  // many zeros
                case 9: {  // zero on the boundary
                    bool edge = false;
                    for (int d = 0; d < s.D; ++d) edge = edge || id[d] == 0 || id[d] + 1 == s.n[d];
                    val = edge ? 0 : r.uni(-1, 1);
                    break;
                }
                case 10: {  // only one plane of one axis is not zero
                    int d = int(imp % std::size_t(s.D));
                    val = id[d] == imp % s.n[d] ? r.uni(-1, 1) : 0;
                    break;
                }
                case 11: val = double(r.range(-1, 1)); break;  // plateaus
                default: val = r.uni(0, 1) + 100; break;
            }
            v.v[q * std::size_t(v.nc) + std::size_t(c)] = in.round_val(ld(val * sc));
        }
    }
}
bool gen_case(Rng& r, long idx, const GenOpt& o, Case& c) {
    const std::vector<const Inst*>& L = insts();
    std::vector<const Inst*> F;
    for (auto i : L) {
        if (o.need_deriv && !i->has_deriv) continue;
        if (o.doubles_only && i->tkind != 0) continue;
        F.push_back(i);
    }
    for (int attempt = 0; attempt < 12; ++attempt) {
        const Inst& in = *F[std::size_t(idx) % F.size()];
        long round = idx / long(F.size());
        c.inst = &in;
        Spec& s = c.s;
        s.D = in.D;
        s.order = in.O;
        unsigned pm = unsigned((std::uint64_t(round) + mix(std::uint64_t(idx) % F.size(), 77)) % (1u << in.D));
        if (o.perio == 0) pm = 0;
        if (o.perio == 1 && pm == 0) pm = 1u + unsigned(r.below((1u << in.D) - 1));
        if (o.perio == 2) pm = (1u << in.D) - 1;
        int sm = o.size_mode >= 0 ? o.size_mode : o.small ? int(r.below(3)) : int(r.below(5));
        c.sig = mix(mix(std::uint64_t(in.D * 100 + in.O * 10 + in.tkind * 1000), in.umask * 16 + pm), std::uint64_t(sm));
        bool clustered = false;
        for (int d = 0; d < s.D; ++d) {
            s.periodic[d] = pm >> d & 1;
            s.uniform[d] = in.umask >> d & 1;
            std::size_t minn = std::max<std::size_t>(2, std::size_t(in.O) + 1);
            int m = sm;
            if (sm == 4 && s.D > 1 && r.chance(.5)) m = 2;  // one long axis
            s.n[d] = gen_n(r, s.D, minn, r.chance(.15) ? int(r.below(3)) : m);
            std::size_t pts = s.n[d] + (s.periodic[d] ? 1 : 0);
            double lo, len;
            int rk = r.range(0, 7);
            switch (rk) {
                case 0: lo = 0; len = 1; break;
                case 1: lo = -1; len = 2; break;
                case 2: lo = 0; len = double(pts - 1); break;
                case 3: lo = r.uni(-20, 20); len = r.uni(.1, 30); break;
                case 4: lo = double(r.range(-5, 5)); len = double(r.range(1, 9)); break;
                case 5: lo = in.epsU > 1e-10L ? 3 : r.uni(-300, 300); len = r.uni(.5, 2); break;
                case 6: lo = -r.uni(0, 1e-5); len = r.uni(1e-6, 1e-4); break;
                default: lo = -r.uni(0, 1e5); len = r.uni(1e5, 1e6); break;
            }
            // far from unit scale
            if (r.chance(.12)) { double z = std::ldexp(1., in.epsU > 1e-10L || in.epsT > 1e-10L ? r.range(-10, 10) : r.range(-40, 40)); lo *= z; len *= z; }
            if (o.dyadic) { lo = double(r.range(-8, 8)) * .25; len = double(1 << r.range(0, 5)); }
            std::vector<ld>& x = s.x[d];
            x.assign(pts, 0);
            if (s.uniform[d]) {
                for (std::size_t i = 0; i < pts; ++i) x[i] = in.round_coord(ld(lo) + ld(len) * ld(i) / ld(pts - 1));
            } else {
                int gk = r.range(0, 6);
                const double jit = std::pow(10., -r.uni(1, 9));
                std::vector<double> g(pts - 1), wide{1, std::pow(10., r.uni(-5, -1)), r.uni(.3, 2)};
                double q = r.uni(1.01, pts > 30 ? 1.05 : 1.35), cur = 1;
                for (auto& e : g) {
                    switch (gk) {
                        case 0: e = 1; break;
                        case 1: e = r.uni(.5, 1.5); break;
                        case 2: e = cur; cur *= q; break;
                        case 3: e = r.chance(.15) ? r.uni(.02, .1) : r.uni(.7, 1.2); break;
                        case 4: e = r.uni(.1, 1); break;
                        case 6: e = 1 + jit * r.uni(-1, 1); break;  // almost uniform
                        default: e = wide[r.below(wide.size())]; break;  // a few very different scales
                    }
                }
                if (gk == 2 && r.chance(.5)) std::reverse(g.begin(), g.end());
                if (gk >= 2) clustered = true;
                double tot = 0;
                for (double e : g) tot += e;
                double acc = 0;
                for (std::size_t i = 0; i < pts; ++i) {
                    x[i] = in.round_coord(ld(lo) + ld(len) * ld(acc / tot));
                    if (i < g.size()) acc += g[i];
                }
                if (o.dyadic) {
                    x[0] = lo;
                    x[pts - 1] = lo + len;
                    for (std::size_t i = 1; i + 1 < pts; ++i) x[i] = std::floor(x[i] * 65536) / 65536;
                }
                bool ok = true;
                ld big = std::max(std::fabs(x[0]), std::fabs(x[pts - 1]));
                for (std::size_t i = 0; i + 1 < pts; ++i) if (!(x[i + 1] - x[i] > 32 * in.epsU * big)) ok = false;
                if (!ok) goto again;
            }
        }
        (void)clustered;
        if (s.points() > (o.small ? 3000u : 60000u)) continue;
        c.ref.grid(s, in.epsT, in.epsU);
        if (!(c.ref.kprod < (in.epsT > 1e-10L || in.epsU > 1e-10L ? 2e2L : 1e7L))) continue;
        c.path = int(r.below(in.D == 1 ? 12 : 8));
        if (o.data) {
            gen_values(r, in, s, c.v);
            c.ref.data(c.v);
        }
        return true;
    again:;
    }
    return false;
}
ld gen_coord(Rng& r, const Case& c, int d, int& kind) {
    const Axis& a = c.ref.ax[d];
    const Inst& in = *c.inst;
    ld lo = a.periodic ? a.lo : c.s.x[d].front(), hi = a.periodic ? a.hi : c.s.x[d].back(), x;
    kind = r.range(0, 9);
    switch (kind) {
        case 0: x = a.x[r.below(a.n)]; break;
        case 1: x = a.t[std::size_t(a.order) + r.below(a.t.size() - 2 * std::size_t(a.order))]; break;
        case 2: { x = in.round_coord(a.t[std::size_t(a.order) + r.below(a.t.size() - 2 * std::size_t(a.order))]); x = coord_ulp(in, x, r.chance(.5) ? r.range(1, 3) : -r.range(1, 3)); break; }
        case 3: x = lo; break;
        case 4: x = hi; break;
        case 5: { std::size_t i = r.below(a.x.size() - 1); x = (a.x[i] + a.x[i + 1]) / 2; break; }
        case 6: x = r.chance(.5) ? lo + (hi - lo) * ld(r.uni(0, .02)) : hi - (hi - lo) * ld(r.uni(0, .02)); break;
        default: x = lo + (hi - lo) * ld(r.unit()); break;
    }
    x = in.round_coord(x);
    if (x < lo) x = coord_ulp(in, in.round_coord(lo), in.round_coord(lo) < lo ? 1 : 0);
    if (x > hi) x = coord_ulp(in, in.round_coord(hi), in.round_coord(hi) > hi ? -1 : 0);
    return x;
}
