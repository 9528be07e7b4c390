// Component monitors: band matrices, band LU, meshes, allocators, assertions,
// stand-alone B-splines. Uses the library through its public API.
//   comp PROP --seed S --cases N [--from F] [--case K] --out FILE
#include <BSpline.hpp>
#include <BandLU.hpp>
#include <BandMatrix.hpp>
#include <Interpolation.hpp>
#include <Mesh.hpp>
#include <aligned-allocator.hpp>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <limits>
#include <list>
#include <sstream>
#include <stdexcept>
#include "ref.hpp"
#include "report.hpp"

static Report rep;
typedef std::size_t sz;
#define EXPECT(cond, ...) do { ++rep.evals; if (!(cond)) { rep.violation(fmt(__VA_ARGS__)); return; } } while (0)
static void note(std::uint64_t a, std::uint64_t b = 0, std::uint64_t c = 0, std::uint64_t d = 0) { rep.distinct.insert(mix(mix(a, b), mix(c, d))); }

// ------------------------------------------------------------------ C15
template <class T> static T small(Rng& r) { return T(r.range(-9, 9)); }
template <> std::complex<double> small(Rng& r) { return std::complex<double>(r.range(-9, 9), r.range(-9, 9)); }
template <class M, class T> struct BandModel {
    sz n, p, q;
    bool ext;
    std::vector<T> a;
    BandModel(sz n_, sz p_, sz q_, bool e) : n(n_), p(p_), q(q_), ext(e), a(n_ * n_, T(0)) {}
    bool main(sz i, sz j) const { return j + p >= i && i + q >= j; }
    bool side(sz i, sz j) const { return ext && (j >= std::max(n - p, i + q + 1) || i >= std::max(n - q, j + p + 1)); }
    bool has(sz i, sz j) const { return main(i, j) || side(i, j); }
    bool same(const M& m, std::string& w) const {
        if (m.dim() != n || m.lower_band_width() != p || m.upper_band_width() != q) { w = "dimensions"; return false; }
        for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j)
            if (has(i, j)) { ++rep.evals; if (!(m(i, j) == a[i * n + j])) { w = fmt("element (%zu,%zu)", i, j); return false; } }
        return true;
    }
};
template <class M> struct Forms {
    template <class T> static void set(M& m, sz i, sz j, T v, bool, int) { m(i, j) = v; }
    template <class T> static T get(const M& m, sz i, sz j, bool, int, T) { return m(i, j); }
};
template <class T> struct Forms<intp::ExtendedBandMatrix<T>> {
    typedef intp::ExtendedBandMatrix<T> M;
    static void set(M& m, sz i, sz j, T v, bool main, int form) {
        if (form == 0) m(i, j) = v;
        else if (main) m.main_bands_val(i, j) = v;
        else m.side_bands_val(i, j) = v;
    }
    static T get(const M& m, sz i, sz j, bool main, int form, T) {
        return form == 0 ? m(i, j) : main ? m.main_bands_val(i, j) : m.side_bands_val(i, j);
    }
};
template <class M, class T> static void c15t(Rng& r, bool ext, const char* tn) {
    sz n = 1 + r.below(r.chance(.3) ? 4 : 14), p = r.below(std::min<sz>(n, 6)), q = r.below(std::min<sz>(n, 6));
    const bool big = r.chance(.02);
    if (big) { n = 20 + r.below(280); p = r.below(std::min<sz>(n, r.chance(.5) ? 6 : 40)); q = r.below(std::min<sz>(n, r.chance(.5) ? 6 : 40)); }
    if (r.chance(.1)) { p = n - 1; }
    if (r.chance(.1)) { q = n - 1; }
    if (ext && n < p + q + 1) { p = p % ((n + 1) / 2); q = q % ((n + 1) / 2); }
    M m(n, p, q);
    BandModel<M, T> mod(n, p, q, ext);
    std::string w;
    rep.sample(fmt("%s%s n=%zu p=%zu q=%zu", ext ? "extended " : "", tn, n, p, q));
    std::string id = fmt("%s%s matrix n=%zu lower=%zu upper=%zu", ext ? "extended " : "", tn, n, p, q);
    EXPECT(mod.same(m, w), "new %s not zero: %s", id.c_str(), w.c_str());
    std::vector<std::pair<sz, sz>> cells;
    for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) if (mod.has(i, j)) cells.push_back(std::make_pair(i, j));
    for (sz k = cells.size(); k > 1; --k) std::swap(cells[k - 1], cells[r.below(k)]);
    for (sz k = 0; k < cells.size() * 2; ++k) {
        sz i = cells[k % cells.size()].first, j = cells[k % cells.size()].second;
        T v = small<T>(r);
        bool mn = mod.main(i, j);
        Forms<M>::set(m, i, j, v, mn, int(r.below(2)));
        mod.a[i * n + j] = v;
        rep.add("writes");
        EXPECT(Forms<M>::get(m, i, j, mn, int(r.below(2)), T()) == v, "%s: (%zu,%zu) not read back", id.c_str(), i, j);
        if (big ? k % (cells.size() / 4 + 1) == 0 : k % 7 == 0 || n < 6) EXPECT(mod.same(m, w), "%s: write to (%zu,%zu) changed %s", id.c_str(), i, j, w.c_str());
    }
    EXPECT(mod.same(m, w), "%s: final contents differ at %s", id.c_str(), w.c_str());
    for (int rep_ = 0; rep_ < 3; ++rep_) {
        std::vector<T> x(n);
        for (sz i = 0; i < n; ++i) x[i] = small<T>(r);
        std::vector<T> x0 = x, y = m * x;
        EXPECT(y.size() == n && x == x0, "%s: product size or operand", id.c_str());
        for (sz i = 0; i < n; ++i) {
            T e = T(0);
            for (sz j = 0; j < n; ++j) if (mod.has(i, j)) e += mod.a[i * n + j] * x[j];
            EXPECT(y[i] == e, "%s: product row %zu wrong", id.c_str(), i);
        }
        rep.add("products");
    }
    EXPECT(mod.same(m, w), "%s: product changed the matrix at %s", id.c_str(), w.c_str());
    // value semantics
    const M c0 = m;
    M c1(c0), c2;
    c2 = m;
    sz i = cells[0].first, j = cells[0].second;
    c1(i, j) += T(1);
    c2(i, j) += T(2);
    EXPECT(mod.same(m, w) && mod.same(c0, w), "%s: copies share storage at %s", id.c_str(), w.c_str());
    M c3(std::move(c2));
    mod.a[i * n + j] += T(2);
    EXPECT(mod.same(c3, w), "%s: moved matrix differs at %s", id.c_str(), w.c_str());
    // into a matrix of another shape that was in use
    {
        sz n2 = ext ? 1 + r.below(12) : 1 + r.below(12), p2 = r.below(std::min<sz>(n2, 4)), q2 = r.below(std::min<sz>(n2, 4));
        if (ext && n2 < p2 + q2 + 1) p2 = q2 = 0;
        M o(n2, p2, q2), o2(n2, q2, p2);
        for (sz a = 0; a < n2; ++a) { o(a, a) = T(3); o2(a, a) = T(5); }
        o = c3;
        EXPECT(mod.same(o, w), "%s: assigned to a matrix n=%zu lower=%zu upper=%zu, differs at %s", id.c_str(), n2, p2, q2, w.c_str());
        std::vector<T> x(n, T(1)), y0 = c3 * x, y1 = o * x;
        EXPECT(y0 == y1, "%s: product of an assigned matrix", id.c_str());
        M& self = o;
        o = self;
        EXPECT(mod.same(o, w), "%s: self assignment, differs at %s", id.c_str(), w.c_str());
        o2 = std::move(o);
        EXPECT(mod.same(o2, w) && mod.same(c3, w), "%s: move assignment, differs at %s", id.c_str(), w.c_str());
        using std::swap;
        M z(n2, p2, q2);
        for (sz a = 0; a < n2; ++a) z(a, a) = T(7);
        swap(z, o2);
        EXPECT(mod.same(z, w), "%s: swapped, differs at %s", id.c_str(), w.c_str());
        bool ok = o2.dim() == n2;
        for (sz a = 0; ok && a < n2; ++a) for (sz b = 0; ok && b < n2; ++b) if (a <= b + p2 && b <= a + q2) ok = o2(a, b) == (a == b ? T(7) : T(0));
        EXPECT(ok, "%s: swapped with n=%zu lower=%zu upper=%zu, the other differs", id.c_str(), n2, p2, q2);
        rep.add("assignments", 4);
    }
    rep.add("matrices");
    note(n, p, q, mix(ext, std::uint64_t(tn[0])));
}
static void c15(Rng& r, long i) {
    switch (i % 7) {
        case 0: c15t<intp::BandMatrix<double>, double>(r, false, "double"); break;
        case 1: c15t<intp::ExtendedBandMatrix<double>, double>(r, true, "double"); break;
        case 2: c15t<intp::BandMatrix<float>, float>(r, false, "float"); break;
        case 3: c15t<intp::ExtendedBandMatrix<float>, float>(r, true, "float"); break;
        case 4: c15t<intp::ExtendedBandMatrix<double>, double>(r, true, "double"); break;
        case 5: c15t<intp::BandMatrix<long double>, long double>(r, false, "long double"); break;
        default: c15t<intp::BandMatrix<std::complex<double>>, std::complex<double>>(r, false, "complex"); break;
    }
}

// ------------------------------------------------------------------ C16
// a reference: dense factorisation without pivoting (the same mathematics),
// with the componentwise bound |x - x^| <= c n eps |A^-1| |L||U| |x|
struct DenseRef {
    sz n;
    std::vector<ld> a, lu, absLU, inv;
    bool ok;
    DenseRef(sz n_, const std::vector<ld>& A, ld unit) : n(n_), a(A), lu(A), absLU(n_ * n_), inv(n_ * n_), ok(true) {
        for (sz k = 0; k < n; ++k) {
            if (std::fabs(lu[k * n + k]) < 1e-6L * unit) { ok = false; return; }
            for (sz i = k + 1; i < n; ++i) {
                ld f = lu[i * n + k] /= lu[k * n + k];
                if (f != 0) for (sz j = k + 1; j < n; ++j) lu[i * n + j] -= f * lu[k * n + j];
            }
        }
        for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) {
            ld s = 0;
            for (sz k = 0; k <= std::min(i, j); ++k) s += (k == i ? 1 : std::fabs(lu[i * n + k])) * std::fabs(lu[k * n + j]);
            absLU[i * n + j] = s;
        }
        std::vector<ld> P(a);
        std::vector<sz> piv(n);
        dense_factor(P, piv, n);
        for (sz j = 0; j < n; ++j) {
            std::vector<ld> e(n, 0);
            e[j] = 1;
            dense_solve(P, piv, n, e.data());
            for (sz i = 0; i < n; ++i) inv[i * n + j] = e[i];
        }
    }
    void solve(const std::vector<ld>& b, std::vector<ld>& x, std::vector<ld>& tol, ld eps) const {
        x.assign(n, 0);
        tol.assign(n, 0);
        for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) x[i] += inv[i * n + j] * b[j];
        for (int step = 0; step < 2; ++step) {  // refinement makes the reference componentwise accurate
            std::vector<ld> res(b);
            for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) res[i] -= a[i * n + j] * x[j];
            for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) x[i] += inv[i * n + j] * res[j];
        }
        std::vector<ld> w(n, 0);
        ld worst = 0;
        for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) w[i] += absLU[i * n + j] * std::fabs(x[j]);
        for (sz i = 0; i < n; ++i) w[i] += std::fabs(b[i]);
        for (sz i = 0; i < n; ++i) {
            for (sz j = 0; j < n; ++j) tol[i] += std::fabs(inv[i * n + j]) * w[j];
            tol[i] *= 12 * ld(n + 2) * eps;
            worst = std::max(worst, tol[i]);
        }
        // the reference itself is only accurate to long double, normwise
        for (sz i = 0; i < n; ++i) tol[i] += worst / 64 + 1e-300L;
    }
};
static bool close(ld a, ld b, ld tol) { ld e = std::fabs(a - b); rep.maxi("max_err_over_tol", e / tol); return e <= tol; }
template <class M, class T> static void c16t(Rng& r, bool ext, const char* tn) {
    sz n, p, q;
    if (ext) {
        p = r.below(6); q = r.chance(.5) ? p : r.below(6);
        n = p + q + 1 + r.below(r.chance(.5) ? 4 : 30);
    } else {
        n = 1 + r.below(r.chance(.3) ? 6 : 34);
        p = r.below(std::min<sz>(n, 7)); q = r.below(std::min<sz>(n, 7));
        if (r.chance(.05)) p = q = n - 1;
    }
    if (r.chance(.02)) {
        n = 40 + r.below(110);
        p = r.below(r.chance(.5) ? 7 : 20); q = r.chance(.5) ? p : r.below(20);
    }
    typedef BandModel<M, T> Mod;
    Mod mod(n, p, q, ext);
    int fam = r.range(0, 3);
    M m(n, p, q);
    std::vector<ld> A(n * n, 0);
    for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) if (mod.has(i, j) && i != j && !r.chance(fam == 3 ? .4 : .05)) A[i * n + j] = ld(T(r.uni(-1, 1)));
    for (sz i = 0; i < n; ++i) {
        ld row = 0, col = 0;
        for (sz j = 0; j < n; ++j) if (j != i) { row += std::fabs(A[i * n + j]); col += std::fabs(A[j * n + i]); }
        ld s = fam == 0 ? row : fam == 1 ? col : std::max(row, col);
        A[i * n + i] = ld(T((s * ld(r.uni(1.05, 2)) + ld(r.uni(.1, 1))) * (r.chance(.5) ? 1 : -1)));
    }
    if (fam == 2 && r.chance(.5)) {  // badly scaled rows
        for (sz i = 0; i < n; ++i) { ld f = std::ldexp(1.0L, r.range(-12, 12)); for (sz j = 0; j < n; ++j) A[i * n + j] *= f; }
    }
    if (fam == 3 && !ext && sizeof(T) >= 8) {  // product of unit band factors: not dominant
        std::vector<ld> L(n * n, 0), U(n * n, 0);
        for (sz i = 0; i < n; ++i) {
            for (sz j = i > p ? i - p : 0; j < i; ++j) L[i * n + j] = ld(r.range(-2, 2)) / 4;
            L[i * n + i] = 1;
            for (sz j = i + 1; j < std::min(n, i + q + 1); ++j) U[i * n + j] = ld(r.range(-3, 3)) / 4;
            U[i * n + i] = ld(r.range(2, 6)) / 4;
        }
        for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) { ld s = 0; for (sz k = 0; k < n; ++k) s += L[i * n + k] * U[k * n + j]; A[i * n + j] = ld(T(s)); }
    }
    int shift = 0;   // the size of the numbers must not matter
    if (r.chance(.3)) {
        shift = sizeof(T) >= 8 ? r.range(-300, 300) : r.range(-30, 30);
        for (ld& v : A) v = std::ldexp(v, shift);
    }
    const ld unit = std::ldexp(1.0L, shift);
    std::vector<sz> order(n * n);
    for (sz k = 0; k < n * n; ++k) order[k] = k;
    for (sz k = n * n; k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
    for (sz k : order) { sz i = k / n, j = k % n; if (mod.has(i, j)) { m(i, j) = T(A[k]); mod.a[k] = T(A[k]); } }
    DenseRef D(n, A, unit);
    if (!D.ok) { rep.add("skipped"); return; }
    ld eps = std::numeric_limits<T>::epsilon() * (sizeof(T) > 8 ? 16 : 1), worst = 0;
    std::string id = fmt("%s%s n=%zu lower=%zu upper=%zu family %d scale 2^%d", ext ? "extended " : "", tn, n, p, q, fam, shift), w;
    rep.sample(id);
    intp::BandLU<M> lu0(m);          // from an lvalue
    EXPECT(mod.same(m, w), "%s: constructing the solver changed the matrix at %s", id.c_str(), w.c_str());
    intp::BandLU<M> lu1;
    lu1.compute(m);
    EXPECT(mod.same(m, w), "%s: compute changed the matrix at %s", id.c_str(), w.c_str());
    M mc = m;
    intp::BandLU<M> lu2(std::move(mc));
    M md = m;
    intp::BandLU<M> lu3;
    lu3.compute(std::move(md));
    const intp::BandLU<M>& clu0 = lu0;
    intp::BandLU<M> lu4(clu0);
    lu1 = clu0;
    // a solver that held another system before
    M other(2, 0, 0);
    other(0, 0) = T(3); other(1, 1) = T(-2);
    intp::BandLU<M> lu5(other), lu6(other);
    lu5 = lu2;
    { intp::BandLU<M> tmp(lu5); lu6 = std::move(tmp); }
    { intp::BandLU<M>& self = lu5; lu5 = self; }
    intp::BandLU<M> lu7(intp::BandLU<M>(static_cast<const intp::BandLU<M>&>(lu6)));
    const intp::BandLU<M>* S[8] = {&lu0, &lu1, &lu2, &lu3, &lu4, &lu5, &lu6, &lu7};
    for (int k = 0; k < 10; ++k) {
        std::vector<ld> bl(n), x, tol;
        std::vector<T> b(n);
        const ld bs = r.chance(.2) ? std::ldexp(1.0L, sizeof(T) >= 8 ? r.range(-100, 100) : r.range(-20, 20)) : 1;
        for (sz i = 0; i < n; ++i) { b[i] = r.chance(.1) ? T(0) : T(r.uni(-2, 2)); if (k == 0) b[i] = T(i == 0); if (k == 1) b[i] = T(i + 1 == n); b[i] *= T(bs); bl[i] = ld(b[i]); }
        D.solve(bl, x, tol, eps);
        ld mx = 0, mt = 0;
        for (sz i = 0; i < n; ++i) { mx = std::max(mx, std::fabs(x[i])); mt = std::max(mt, tol[i]); }
        worst = std::max(worst, mt / (mx + 1e-200L));
        const intp::BandLU<M>& s = *S[k % 8];
        int form = int(r.below(7));
        std::vector<T> res(n);
        bool guard = true;
        if (form == 0) { const std::vector<T> bb = b; res = s.solve(bb); guard = bb == b; }
        else if (form == 1) { std::vector<T> bb = b; res = s.solve(bb); guard = bb == b; }
        else if (form == 2) { std::vector<T> bb = b; res = s.solve(std::move(bb)); }
        else if (form == 3) { res = b; s.solve_in_place(res); }
        else if (form == 4 || form == 5) {
            std::vector<T> buf(n + 8, T(77));
            std::copy(b.begin(), b.end(), buf.begin() + 4);
            if (form == 4) { T* ptr = buf.data() + 4; s.solve_in_place(ptr); }
            else s.solve_in_place(buf.begin() + 4);
            std::copy(buf.begin() + 4, buf.begin() + 4 + std::ptrdiff_t(n), res.begin());
            for (int g = 0; g < 4; ++g) guard = guard && buf[std::size_t(g)] == T(77) && buf[n + 4 + std::size_t(g)] == T(77);
        } else {
            sz c = r.below(3);
            intp::Mesh<T, 2> mesh(n, 3);
            for (sz i = 0; i < n; ++i) for (sz j = 0; j < 3; ++j) mesh(i, j) = j == c ? b[i] : T(55);
            typename intp::Mesh<T, 2>::index_type at{{0, c}};
            auto line = mesh.begin(0, at);
            s.solve(line);  // works on the mesh behind the iterator
            for (sz i = 0; i < n; ++i) for (sz j = 0; j < 3; ++j) if (j == c) res[i] = mesh(i, j); else guard = guard && mesh(i, j) == T(55);
        }
        rep.add(fmt("solves_form%d", form));
        EXPECT(guard, "%s: solve form %d changed something else than the n unknowns", id.c_str(), form);
        EXPECT(res.size() == n, "%s: size of the solution", id.c_str());
        for (sz i = 0; i < n; ++i) EXPECT(close(ld(res[i]), x[i], tol[i]), "%s: form %d solver %d x[%zu]=%.17Lg expected %.17Lg (tol %.3Lg)", id.c_str(), form, k % 8, i, ld(res[i]), x[i], tol[i]);
    }
    // vector valued right-hand side
    std::vector<std::complex<T>> z(n);
    std::vector<ld> re(n), im(n), xr, xi, tr, ti;
    for (sz i = 0; i < n; ++i) { z[i] = std::complex<T>(T(r.uni(-1, 1)), T(r.uni(-1, 1))); re[i] = ld(z[i].real()); im[i] = ld(z[i].imag()); }
    D.solve(re, xr, tr, eps);
    D.solve(im, xi, ti, eps);
    std::vector<std::complex<T>> zz = lu2.solve(z);
    for (sz i = 0; i < n; ++i) EXPECT(close(ld(zz[i].real()), xr[i], tr[i]) && close(ld(zz[i].imag()), xi[i], ti[i]), "%s: complex right-hand side, row %zu", id.c_str(), i);
    rep.maxi("largest_relative_tolerance", worst);
    rep.add("systems");
    if (shift) rep.add("scaled_systems");
    note(n, p, q, mix(ext, std::uint64_t(fam)));
}
static void c16(Rng& r, long i) {
    switch (i % 8) {
        case 6: c16t<intp::BandMatrix<long double>, long double>(r, false, "long double"); break;
        case 7: c16t<intp::ExtendedBandMatrix<long double>, long double>(r, true, "long double"); break;
        case 0: case 2: c16t<intp::BandMatrix<double>, double>(r, false, "double"); break;
        case 1: case 3: c16t<intp::ExtendedBandMatrix<double>, double>(r, true, "double"); break;
        case 4: c16t<intp::BandMatrix<float>, float>(r, false, "float"); break;
        default: c16t<intp::ExtendedBandMatrix<float>, float>(r, true, "float"); break;
    }
}

// ------------------------------------------------------------------ C17
template <sz D, sz... I> static double& at_impl(intp::Mesh<double, D>& m, const std::array<sz, D>& a, intp::util::index_sequence<I...>) { return m(a[I]...); }
template <sz D, sz... I> static const double& cat_impl(const intp::Mesh<double, D>& m, const std::array<sz, D>& a, intp::util::index_sequence<I...>) { return m(a[I]...); }
template <sz D> static double& at(intp::Mesh<double, D>& m, const std::array<sz, D>& a) { return at_impl<D>(m, a, intp::util::make_index_sequence<D>{}); }
template <sz D> static const double& at(const intp::Mesh<double, D>& m, const std::array<sz, D>& a) { return cat_impl<D>(m, a, intp::util::make_index_sequence<D>{}); }
// walk a line iterator and compare every position with the model
template <class It> static bool walk(Rng& r, It b, It e, const std::vector<double>& line, std::string& w, bool lastaxis) {
    std::ptrdiff_t n = std::ptrdiff_t(line.size()), pos = 0;
    if (e - b != n) { w = "end - begin"; return false; }
    if (n > 0 && !(b != e)) { w = "begin == end"; return false; }
    if (b + n != e || !(b + n == e)) { w = "begin + n != end"; return false; }
    {
        std::ptrdiff_t k = 0;
        for (It it = b; it != e; ++it, ++k) { if (k >= n) { w = "runs past the end"; return false; } if (*it != line[sz(k)]) { w = fmt("element %td", k); return false; } ++rep.evals; }
        if (k != n) { w = "length"; return false; }
    }
    It it = b;
    for (int s = 0; s < 24; ++s) {
        std::ptrdiff_t to = std::ptrdiff_t(r.below(sz(n) + 1)), d = to - pos;
        switch (r.range(0, 7)) {
            case 0: it += d; break;
            case 1: it -= -d; break;
            case 2: it = it + d; break;
            case 3: it = it - (-d); break;
            case 4: it = d + it; break;
            case 5: while (pos < to) { It o = it++; if (!(o == b + pos)) { w = "post-increment"; return false; } ++pos; } while (pos > to) { It o = it--; if (!(o == b + pos)) { w = "post-decrement"; return false; } --pos; } break;
            case 6: while (pos < to) { if (!(++it == b + pos + 1)) { w = "increment"; return false; } ++pos; } while (pos > to) { if (!(--it == b + pos - 1)) { w = "decrement"; return false; } --pos; } break;
            default: it = e - (n - to); break;
        }
        pos = to;
        ++rep.evals;
        if (it - b != pos || e - it != n - pos) { w = fmt("distance at %td", pos); return false; }
        if (pos < n && (*it != line[sz(pos)] || it[0] != line[sz(pos)] || *(it.operator->()) != line[sz(pos)])) { w = fmt("dereference at %td", pos); return false; }
        if (n > 0) { std::ptrdiff_t o = std::ptrdiff_t(r.below(sz(n))); if (it[o - pos] != line[sz(o)]) { w = fmt("subscript %td from %td", o - pos, pos); return false; }
            It ot = b + o;
            if ((it < ot) != (pos < o) || (it > ot) != (pos > o) || (it <= ot) != (pos <= o) || (it >= ot) != (pos >= o) || (it == ot) != (pos == o) || (it != ot) != (pos != o)) { w = "comparison"; return false; } }
    }
    (void)lastaxis;
    return true;
}
template <sz D> static void c17t(Rng& r) {
    typedef intp::Mesh<double, D> M;
    typedef std::array<sz, D> Ix;
    Ix dims;
    sz total = 1;
    for (sz d = 0; d < D; ++d) { dims[d] = 1 + r.below(D == 1 ? 12 : D == 2 ? 8 : D == 3 ? 5 : 4); total *= dims[d]; }
    if (r.chance(.1)) { sz s = 1 + r.below(4); dims.fill(s); total = 1; for (sz d = 0; d < D; ++d) total *= s; }
    else if (r.chance(.12)) {  // long axes
        dims[r.below(D)] = 1 + r.below(D == 1 ? 4000 : 300);
        if (D == 2 && r.chance(.1)) dims.fill(1 + r.below(130));
        total = 1;
        for (sz d = 0; d < D; ++d) total *= dims[d];
    }
    std::string id = fmt("mesh %zuD (", D);
    for (sz d = 0; d < D; ++d) id += fmt(d ? ",%zu" : "%zu", dims[d]);
    id += ")";
    rep.sample(id);
    intp::MeshDimension<D> md(dims);
    M m = r.chance(.5) ? M(md) : M(md, std::allocator<double>());
    if (std::all_of(dims.begin(), dims.end(), [&](sz v) { return v == dims[0]; }) && D > 1) m = M(dims[0]);
    const M& cm = m;
    EXPECT(cm.size() == total && md.size() == total && cm.dimension().size() == total, "%s: size %zu expected %zu", id.c_str(), cm.size(), total);
    for (sz d = 0; d < D; ++d) EXPECT(cm.dim_size(d) == dims[d] && md.dim_size(d) == dims[d], "%s: size of axis %zu", id.c_str(), d);
    {
        Ix conv = md;
        EXPECT(conv == dims, "%s: conversion of dimensions", id.c_str());
        sz acc = 1;
        for (sz d = 0; d <= D; ++d) { EXPECT(md.dim_acc_size(d) == acc, "%s: accumulated size of %zu trailing axes", id.c_str(), d); if (d < D) acc *= dims[D - 1 - d]; }
    }
    for (auto v : cm) EXPECT(v == 0, "%s: new mesh not zero", id.c_str());
    std::vector<double> model(total);
    auto lin = [&](const Ix& ix) { sz k = 0; for (sz d = 0; d < D; ++d) k = k * dims[d] + ix[d]; return k; };
    auto unlin = [&](sz k) { Ix ix; for (sz d = D; d-- > 0;) { ix[d] = k % dims[d]; k /= dims[d]; } return ix; };
    // write in random order, through both access forms
    std::vector<sz> ord(total);
    for (sz k = 0; k < total; ++k) ord[k] = k;
    for (sz k = total; k > 1; --k) std::swap(ord[k - 1], ord[r.below(k)]);
    for (sz k : ord) { Ix ix = unlin(k); model[k] = double(k) + .5; if (r.chance(.5)) m(ix) = model[k]; else at<D>(m, ix) = model[k]; }
    for (sz k = 0; k < total; ++k) {
        Ix ix = unlin(k);
        EXPECT(m(ix) == model[k] && cm(ix) == model[k] && at<D>(m, ix) == model[k] && at<D>(cm, ix) == model[k] && cm.data()[k] == model[k], "%s: element %zu differs between access forms", id.c_str(), k);
        EXPECT(&m(ix) == cm.data() + k && &cm(ix) == &at<D>(cm, ix), "%s: element %zu has two addresses", id.c_str(), k);
        EXPECT(cm.dimension().indexing(ix) == k && cm.dimension().indexing_safe(ix) == k && cm.dimension().dimwise_indices(k) == ix, "%s: index arithmetic at %zu", id.c_str(), k);
    }
    {
        sz k = 0;
        for (auto it = cm.begin(); it != cm.end(); ++it, ++k) { EXPECT(*it == model[k] && cm.iter_indices(it) == unlin(k), "%s: linear iteration at %zu", id.c_str(), k); }
        EXPECT(k == total, "%s: linear iteration visits %zu elements", id.c_str(), k);
    }
    std::string w;
    for (sz ax = 0; ax < D; ++ax) {
        std::vector<char> seen(total, 0);
        for (sz k = 0; k < total; ++k) {
            Ix ix = unlin(k);
            if (ix[ax] != 0) continue;
            std::vector<double> line(dims[ax]);
            for (sz j = 0; j < dims[ax]; ++j) { Ix y = ix; y[ax] = j; line[j] = model[lin(y)]; }
            Ix given = ix;
            given[ax] = r.below(dims[ax]);  // ignored by begin and end
            EXPECT(walk(r, m.begin(ax, given), m.end(ax, given), line, w, ax + 1 == D), "%s: line along axis %zu from element %zu: %s", id.c_str(), ax, k, w.c_str());
            EXPECT(walk(r, cm.begin(ax, given), cm.end(ax, given), line, w, ax + 1 == D), "%s: const line along axis %zu from element %zu: %s", id.c_str(), ax, k, w.c_str());
            sz j = 0;
            for (auto it = m.begin(ax, given), e = m.end(ax, given); it != e; ++it, ++j) {
                Ix y = ix;
                y[ax] = j;
                EXPECT(m.iter_indices(it) == y, "%s: indices of a line iterator", id.c_str());
                ++seen[lin(y)];
                double v = r.uni(-1, 1);
                *it = v;
                model[lin(y)] = v;
                EXPECT(cm(y) == v, "%s: write through a line iterator", id.c_str());
            }
            {   // a mutable line iterator used where a const one is expected
                auto cb = cm.begin(ax, given), ce = cm.end(ax, given);
                cb = m.begin(ax, given);
                ce = m.end(ax, given);
                for (sz q = 0; q < dims[ax]; ++q) { Ix y = ix; y[ax] = q; line[q] = model[lin(y)]; }
                EXPECT(cb == cm.begin(ax, given) && ce == cm.end(ax, given), "%s: line iterator along axis %zu converted to const", id.c_str(), ax);
                EXPECT(walk(r, cb, ce, line, w, ax + 1 == D), "%s: converted line along axis %zu from element %zu: %s", id.c_str(), ax, k, w.c_str());
            }
            auto cit = cm.begin(ax, given);
            EXPECT(cm.iter_indices(cit) == ix, "%s: indices of a const line iterator", id.c_str());
            rep.add("lines");
        }
        for (sz k = 0; k < total; ++k) EXPECT(seen[k] == 1, "%s: element %zu visited %d times by lines along axis %zu", id.c_str(), k, int(seen[k]), ax);
    }
    // value semantics and allocator conversion
    M c1(m), c2(1);
    c2 = m;
    typedef intp::Mesh<double, D, intp::AlignedAllocator<double, intp::Alignment::AVX512>> AM;
    AM am(m);
    M back(am);
    typedef typename intp::BSpline<double, D, 2>::ControlPointContainer CP;
    CP cp(m);
    M back2(cp);
    for (sz k = 0; k < total; ++k) { Ix ix = unlin(k); EXPECT(c1(ix) == model[k] && c2(ix) == model[k] && am(ix) == model[k] && back(ix) == model[k] && cp(ix) == model[k] && back2(ix) == model[k], "%s: copy differs at %zu", id.c_str(), k); }
    c1(unlin(0)) += 1;
    am(unlin(total - 1)) += 1;
    EXPECT(m(unlin(0)) == model[0] && back(unlin(total - 1)) == model[total - 1] && c2(unlin(0)) == model[0], "%s: copies share storage", id.c_str());
    M mv(std::move(c2));
    for (sz d = 0; d < D; ++d) EXPECT(mv.dim_size(d) == dims[d] && back.dim_size(d) == dims[d], "%s: dimension of a copy", id.c_str());
    for (sz k = 0; k < total; ++k) EXPECT(mv(unlin(k)) == model[k], "%s: moved mesh", id.c_str());
    // resize: elements keep their linear position
    Ix nd;
    sz nt = 1;
    for (sz d = 0; d < D; ++d) { nd[d] = 1 + r.below(5); nt *= nd[d]; }
    m.resize(nd);
    EXPECT(m.size() == nt, "%s: size after resize", id.c_str());
    for (sz d = 0; d < D; ++d) EXPECT(m.dim_size(d) == nd[d], "%s: axis %zu after resize", id.c_str(), d);
    for (sz k = 0; k < nt; ++k) { EXPECT(cm.data()[k] == (k < total ? model[k] : 0), "%s: contents after resize at %zu", id.c_str(), k); EXPECT(&m(m.dimension().dimwise_indices(k)) == cm.data() + k, "%s: addressing after resize", id.c_str()); }
    // a history of resizes, writes and assignments between meshes of other shapes
    {
        std::vector<double> cur(cm.data(), cm.data() + nt);
        Ix cd = nd;
        M other(1 + r.below(3));
        for (int q = 0; q < 10; ++q) {
            sz tot = cur.size();
            switch (r.below(8)) {
                case 0: {
                    sz t = 1;
                    for (sz d = 0; d < D; ++d) { cd[d] = 1 + r.below(r.chance(.2) ? 12 : 5); t *= cd[d]; }
                    m.resize(cd);
                    cur.resize(t, 0);
                    break;
                }
                case 6: {   // another shape with as many elements
                    Ix old = cd;
                    if (D > 1) { sz a = r.below(D), b = r.below(D); std::swap(cd[a], cd[b]); if (cd == old) for (sz p : {2, 3, 5}) if (a != b && cd[a] % p == 0) { cd[a] /= p; cd[b] *= p; break; } }
                    m.resize(cd);
                    break;
                }
                case 7: {   // from and to a mesh of another shape with as many elements
                    Ix od = cd;
                    std::reverse(od.begin(), od.end());
                    M t{intp::MeshDimension<D>(od)};
                    for (sz k = 0; k < t.size(); ++k) t(t.dimension().dimwise_indices(k)) = -5;
                    t = m;
                    m = M(1);
                    m = t;
                    break;
                }
                case 1: { sz k = r.below(tot); cur[k] = r.uni(-1, 1); m(m.dimension().dimwise_indices(k)) = cur[k]; break; }
                case 2: { M& self = m; m = self; break; }
                case 3: { other = m; m = M(1 + r.below(3)); m = std::move(other); other = M(2); break; }
                case 4: { M t(std::move(m)); m = t; break; }
                default: { using std::swap; M t(1 + r.below(3)); swap(t, m); swap(m, t); break; }
            }
            EXPECT(cm.size() == cur.size(), "%s: size after a history of resizes and assignments", id.c_str());
            for (sz d = 0; d < D; ++d) EXPECT(cm.dim_size(d) == cd[d], "%s: axis %zu after a history of resizes and assignments", id.c_str(), d);
            sz k = 0;
            for (auto it = cm.begin(); it != cm.end(); ++it, ++k) EXPECT(k < cur.size() && *it == cur[k] && &cm(cm.dimension().dimwise_indices(k)) == cm.data() + k, "%s: element %zu after a history of resizes and assignments", id.c_str(), k);
            EXPECT(k == cur.size(), "%s: iteration after a history of resizes and assignments", id.c_str());
            sz ax = r.below(D);
            Ix at0 = m.dimension().dimwise_indices(r.below(cur.size()));
            at0[ax] = 0;
            k = 0;
            for (auto it = m.begin(ax, at0), e = m.end(ax, at0); it != e; ++it, ++k) { Ix y = at0; y[ax] = k; EXPECT(&*it == &m(y), "%s: line along axis %zu after a history of resizes and assignments", id.c_str(), ax); }
            EXPECT(k == cd[ax], "%s: line along axis %zu after a history of resizes and assignments", id.c_str(), ax);
            rep.add("history_steps");
        }
    }
    // index arithmetic of meshes of any size, without storage
    for (int q = 0; q < 40; ++q) {
        Ix big;
        sz all = 1;
        for (sz d = 0; d < D; ++d) { big[d] = 1 + r.below(r.chance(.5) ? 400 : sz(1) << r.range(1, int(60 / D))); all *= big[d]; }
        intp::MeshDimension<D> bd(big);
        std::string bid = fmt("dimension %zuD (", D);
        for (sz d = 0; d < D; ++d) bid += fmt(d ? ",%zu" : "%zu", big[d]);
        EXPECT(bd.size() == all, "%s): size %zu expected %zu", bid.c_str(), bd.size(), all);
        for (int t = 0; t < 6; ++t) {
            sz k = t == 0 ? all - 1 : t == 1 && all > big[D - 1] ? big[D - 1] * (1 + r.below(all / big[D - 1] - 1)) : r.below(all);
            if (t == 2 && k) k -= k % big[D - 1] ? k % big[D - 1] : 1;
            Ix ix;
            sz kk = k;
            for (sz d = D; d-- > 0;) { ix[d] = kk % big[d]; kk /= big[d]; }
            EXPECT(bd.dimwise_indices(k) == ix && bd.indexing(ix) == k && bd.indexing_safe(ix) == k, "%s): index arithmetic at %zu", bid.c_str(), k);
        }
    }
    rep.add("meshes");
    std::uint64_t h = D;
    for (sz d = 0; d < D; ++d) h = mix(h, dims[d]);
    note(h);
}
static void c17_1(Rng& r) {
    sz n = r.below(9);
    std::vector<double> v(n);
    for (auto& x : v) x = double(r.range(-99, 99));
    std::list<double> l(v.begin(), v.end());
    std::stringstream ss;
    for (auto x : v) ss << x << ' ';
    intp::Mesh<double, 1> a(std::make_pair(v.begin(), v.end())), b(std::make_pair(l.begin(), l.end())), c(std::make_pair(std::istream_iterator<double>(ss), std::istream_iterator<double>())), d(intp::util::get_range(v));
    EXPECT(a.size() == n && b.size() == n && c.size() == n && d.size() == n && a.dim_size(0) == n && c.dim_size(0) == n, "1D mesh from %zu values: size", n);
    for (sz i = 0; i < n; ++i) EXPECT(a(i) == v[i] && b(i) == v[i] && c(i) == v[i] && d(i) == v[i], "1D mesh from values: element %zu", i);
    intp::Mesh<int, 3> im(2, 3, 4);
    EXPECT(im.size() == 24 && im.dim_size(0) == 2 && im.dim_size(1) == 3 && im.dim_size(2) == 4, "mesh from three sizes");
    rep.add("meshes_from_ranges", 4);
}
static void c17(Rng& r, long i) {
    switch (i % 5) {
        case 0: c17_1(r); c17t<1>(r); break;
        case 1: c17t<2>(r); break;
        case 2: c17t<3>(r); break;
        case 3: c17t<4>(r); break;
        default: c17t<3>(r); break;
    }
}

// ------------------------------------------------------------------ C20
// an allocation nobody can see may be optimised away
static void* volatile sink;
static void escape(void* p) { sink = p; sink = nullptr; }
struct Odd { char c[13]; };
static bool huge = true;  // memcheck reports absurd sizes as errors
template <class T, intp::Alignment A> static void aligned_history(Rng& r, const char* tn) {
    typedef intp::AlignedAllocator<T, A> Al;
    Al a;
    struct B { T* p; sz n; unsigned char pat; };
    std::vector<B> live;
    const sz al = sz(A);
    for (int k = 0; k < 60; ++k) {
        if (live.empty() || r.chance(.6)) {
            sz n = r.chance(.2) ? r.below(3) : r.below(400);
            Al a2(a);
            T* p = (k % 2 ? a : a2).allocate(n);
            EXPECT(reinterpret_cast<std::uintptr_t>(p) % al == 0, "aligned allocator<%s,%zu>: block of %zu at %p", tn, al, n, (void*)p);
            for (auto& b : live) EXPECT(n == 0 || b.n == 0 || (char*)(p + n) <= (char*)b.p || (char*)(b.p + b.n) <= (char*)p, "aligned allocator<%s,%zu>: overlapping blocks", tn, al);
            unsigned char pat = (unsigned char)(k * 37 + 1);
            std::memset((void*)p, pat, n * sizeof(T));
            B b = {p, n, pat};
            live.push_back(b);
            rep.add("aligned_blocks");
        } else {
            sz j = r.below(live.size());
            B b = live[j];
            for (sz q = 0; q < b.n * sizeof(T); ++q) EXPECT(((unsigned char*)b.p)[q] == b.pat, "aligned allocator<%s,%zu>: block overwritten", tn, al);
            a.deallocate(b.p, b.n);
            live[j] = live.back();
            live.pop_back();
        }
    }
    for (auto& b : live) a.deallocate(b.p, b.n);
    typedef intp::AlignedAllocator<double, A> Al2;
    EXPECT(a == Al2() && !(a != Al2()), "aligned allocators of one alignment are not equal");
    bool threw = !huge;
    if (huge) try { T* p = a.allocate(a.max_size() / 2); escape(p); a.deallocate(p, 1); } catch (const std::bad_alloc&) { threw = true; }
    EXPECT(threw, "aligned allocator<%s,%zu>: impossible size did not raise bad_alloc", tn, al);
    if (huge && sizeof(T) > 1) {
        threw = false;
        sz n = sz(-1) / sizeof(T) + 1 + r.below(4);   // the byte count wraps around
        try { T* p = a.allocate(n); escape(p); a.deallocate(p, n); } catch (const std::bad_alloc&) { threw = true; }
        EXPECT(threw, "aligned allocator<%s,%zu>: allocate(%zu) did not raise bad_alloc", tn, al, n);
    }
    // containers
    std::vector<T, Al> v;
    for (int k = 0; k < 70; ++k) { v.push_back(T()); EXPECT(reinterpret_cast<std::uintptr_t>(v.data()) % al == 0, "vector with aligned allocator<%s,%zu> misaligned at %d", tn, al, k); }
    std::vector<T, intp::util::default_init_allocator<T, Al>> dv(5, T());
    for (int k = 0; k < 6; ++k) { dv.resize(dv.size() * 2 + 1); EXPECT(reinterpret_cast<std::uintptr_t>(dv.data()) % al == 0, "vector with default-init aligned allocator<%s,%zu> misaligned", tn, al); }
    note(sizeof(T), al);
}
#ifdef INTP_STACK_ALLOCATOR
template <class T, sz N> static void stack_history(Rng& r) {
    std::vector<T> mem(N + 2);
    unsigned char* raw = reinterpret_cast<unsigned char*>(mem.data());
    T* buf = mem.data() + 1;
    std::memset((void*)mem.data(), 0xEE, sizeof(T) * (N + 2));
    typedef intp::util::stack_allocator<T, N> Al;
    Al a(buf);
    EXPECT(Al::capacity() == N && a.max_size() == N && a.buffer() == buf, "stack allocator<%zu>: capacity", N);
    struct B { T* p; sz n; };
    std::vector<B> st;
    T* freed = nullptr;
    sz freed_n = 0;
    sz used = 0;
    for (int k = 0; k < 120; ++k) {
        if (r.chance(.6)) {
            sz n = r.chance(.1) ? N + r.below(5) : r.below(N / 4 + 2);
            if (r.chance(.15)) n = N - used;      // exactly full
            if (r.chance(.1)) n = N - used + 1;   // one too many
            if (r.chance(.08)) n = r.chance(.5) ? sz(-1) / sizeof(T) - r.below(N) : sz(-1) - r.below(N);  // sums wrap around
            if (r.chance(.03)) n = sz(1) << r.range(31, 63);
            if (freed && r.chance(.5)) n = freed_n;
            bool threw = false;
            T* p = nullptr;
            try { p = a.allocate(n); escape(p); } catch (const std::bad_alloc&) { threw = true; }
            EXPECT(threw == (n > N - used), "stack allocator<%zu>: %zu of %zu used, allocate(%zu) %s", N, used, N, n, threw ? "threw" : "did not throw");
            rep.add(threw ? "stack_refused" : "stack_blocks");
            if (threw) { note(N, used, n); continue; }
            EXPECT(p >= buf && p + n <= buf + N, "stack allocator<%zu>: block outside the buffer", N);
            if (freed && n == freed_n) EXPECT(p == freed, "stack allocator<%zu>: freed space not reused", N);
            freed = nullptr;
            for (auto& b : st) EXPECT(p >= b.p + b.n || p + n <= b.p, "stack allocator<%zu>: overlapping blocks", N);
            B b = {p, n};
            st.push_back(b);
            used += n;
        } else if (!st.empty()) {
            a.deallocate(st.back().p, st.back().n);
            freed = st.back().p;
            freed_n = st.back().n;
            used -= st.back().n;
            st.pop_back();
        }
    }
    for (sz q = 0; q < sizeof(T); ++q) EXPECT(raw[q] == 0xEE && raw[sizeof(T) * (N + 1) + q] == 0xEE, "stack allocator<%zu>: wrote outside the buffer", N);
    Al b(a), c(mem.data());
    EXPECT(a == b && !(a != b) && a != c, "stack allocator<%zu>: equality", N);
    // through a mesh, as the library uses it
    std::vector<T> mem2(N);
    Al e(mem2.data());
    sz s = 1;
    while ((s + 1) * (s + 1) * 2 <= N) ++s;
    {
        intp::Mesh<T, 2, Al> x(s, e);
        intp::Mesh<T, 2, Al> y = x;
        const T* px = x.data();
        const T* py = y.data();
        EXPECT(px >= mem2.data() && px + s * s <= mem2.data() + N && py >= mem2.data() && py + s * s <= mem2.data() + N, "stack allocator<%zu>: mesh outside the buffer", N);
        EXPECT(px + s * s <= py || py + s * s <= px, "stack allocator<%zu>: two meshes overlap", N);
    }
    bool threw = false;
    sz k = 1, room = sz(std::sqrt(double(N)));
    while (k * k * 2 <= N) ++k;   // fits once, not twice
    try { intp::Mesh<T, 2, Al> x(std::min(k, room), e); intp::Mesh<T, 2, Al> y = x; rep.add("stack_meshes", sz(y.data() == x.data())); } catch (const std::bad_alloc&) { threw = true; }
    EXPECT(threw || 2 * std::min(k, room) * std::min(k, room) <= N, "stack allocator<%zu>: two meshes larger than the buffer accepted", N);
    threw = false;
    try { intp::Mesh<T, 2, Al> big(s * 3 + 2, e); } catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { threw = true; }
    EXPECT(threw, "stack allocator<%zu>: mesh larger than the buffer accepted", N);
}
#endif
template <class T, sz D, sz O> static void spline_alignment(Rng& r) {
    typedef intp::InterpolationFunction<T, D, O> F;
    std::array<sz, D> n;
    for (sz d = 0; d < D; ++d) n[d] = O + 2 + r.below(5);
    intp::Mesh<T, D> mesh{intp::MeshDimension<D>(n)};
    for (sz k = 0; k < mesh.size(); ++k) mesh(mesh.dimension().dimwise_indices(k)) = T(r.uni(-1, 1));
    typedef typename F::spline_type S;
    typename S::ControlPointContainer cp(mesh);
    EXPECT(reinterpret_cast<std::uintptr_t>(cp.data()) % 32 == 0, "control point mesh not aligned");
    S s(std::array<bool, D>{});
    for (int k = 0; k < 3; ++k) {
        s.load_ctrlPts(cp);
        EXPECT(reinterpret_cast<std::uintptr_t>(s.control_points().data()) % 32 == 0, "control points of a spline not aligned");
        S s2(s), s3(std::move(s2));
        EXPECT(reinterpret_cast<std::uintptr_t>(s3.control_points().data()) % 32 == 0, "control points of a copied spline not aligned");
        rep.add("spline_storage");
    }
}
static void c20(Rng& r, long i) {
    using intp::Alignment;
    rep.sample(fmt("case %ld: allocation histories", i));
    aligned_history<double, Alignment::AVX>(r, "double");
    aligned_history<char, Alignment::AVX512>(r, "char");
    aligned_history<Odd, Alignment::AVX>(r, "13 byte struct");
    aligned_history<float, Alignment::SSE>(r, "float");
    aligned_history<std::complex<double>, Alignment::NORMAL>(r, "complex");
#ifdef INTP_STACK_ALLOCATOR
    stack_history<double, 1000>(r);
    stack_history<double, 37>(r);
    stack_history<float, 16>(r);
    stack_history<std::complex<double>, 64>(r);
#endif
    spline_alignment<double, 1, 3>(r);
    spline_alignment<float, 2, 2>(r);
    spline_alignment<std::complex<double>, 2, 1>(r);
    spline_alignment<double, 3, 2>(r);
}

// ------------------------------------------------------------------ C21
template <class T> static ld comp(const T& v, int k) { return k ? 0 : ld(v); }
template <> ld comp(const std::complex<double>& v, int k) { return k ? v.imag() : v.real(); }
template <class T> static T mk(ld a, ld) { return T(a); }
template <> std::complex<double> mk(ld a, ld b) { return std::complex<double>(double(a), double(b)); }
template <sz D> struct Knots {
    Axis ax[D];
};
// knots of one axis; m control points
template <class U> static void gen_knots(Rng& r, Axis& a, sz order, bool periodic, sz m) {
    const sz k = order;
    a.order = int(order);
    a.periodic = periodic;
    a.n = m;
    a.t.clear();
    ld base = ld(U(r.uni(-3, 3))), step = ld(U(std::ldexp(1.0, r.range(-3, 3))));
    if (!periodic) {
        bool clamped = r.chance(.6);
        ld v = base;
        sz mult = 1;
        for (sz j = 0; j < m + k + 1; ++j) {
            if (j > 0) {
                bool grow;
                if (clamped && (j <= k || j > m)) grow = false;
                else if (j == k + 1 || j == m) grow = true;   // first and last cell not empty
                else grow = mult >= std::max<sz>(1, k) || r.chance(.75);
                if (clamped && j == m) grow = true;
                if (grow) { v = ld(U(v + step * ld(r.uni(.1, 2)))); mult = 1; } else ++mult;
            }
            a.t.push_back(v);
        }
        a.lo = a.t[k];
        a.hi = a.t[m];
        a.period = 0;
    } else {
        std::vector<ld> b(m);
        ld v = base;
        for (sz i = 0; i < m; ++i) { b[i] = v; v = ld(U(v + step * ld(r.uni(.3, 2)))); }
        ld P = ld(U(v - base));
        a.t.resize(m + 2 * k + 1);
        for (sz j = 0; j < a.t.size(); ++j) {
            long q = long(j) - long(k);
            long blk = q >= 0 ? q / long(m) : -((-q + long(m) - 1) / long(m));
            a.t[j] = ld(U(b[sz(q - blk * long(m))] + ld(blk) * P));
        }
        a.lo = a.t[k];
        a.hi = a.t[k + m];
        a.period = a.hi - a.lo;
    }
    a.gap = 1e300L;
    a.xmax = 0;
    for (sz j = 0; j + 1 < a.t.size(); ++j) { ld g = a.t[j + 1] - a.t[j]; if (g > 0) a.gap = std::min(a.gap, g); }
    for (ld t : a.t) a.xmax = std::max(a.xmax, std::fabs(t));
}
// other knots that look alike: the same number, the same outermost knots,
// the same multiplicities, some of the positions between moved
template <class U> static void alike_knots(Rng& r, Axis& a, sz m) {
    const sz k = sz(a.order);
    if (!a.periodic) {
        std::vector<ld> v;
        std::vector<sz> id;
        for (ld t : a.t) { if (v.empty() || t != v.back()) v.push_back(t); id.push_back(v.size() - 1); }
        std::vector<ld> w(v);
        const bool all = r.chance(.5);
        for (sz i = 1; i + 1 < v.size(); ++i)
            if (all || r.chance(.5)) { ld e = r.chance(.5) ? (v[i + 1] - v[i]) : (v[i - 1] - v[i]); w[i] = ld(U(v[i] + e * ld(r.uni(.05, .4)))); }
        for (sz j = 0; j < a.t.size(); ++j) a.t[j] = w[id[j]];
        a.lo = a.t[k];
        a.hi = a.t[m];
    } else {
        const ld P = a.period;
        std::vector<ld> b(a.t.begin() + long(k), a.t.begin() + long(k + m)), w(b);
        const sz f0 = (m * (k / m + 1) - k) % m, f1 = k % m;
        for (sz i = 0; i < m; ++i) {
            if (i == f0 || i == f1) continue;
            ld up = i + 1 < m ? b[i + 1] : b[0] + P, dn = i ? b[i - 1] : b[m - 1] - P;
            w[i] = ld(U(b[i] + (r.chance(.5) ? up - b[i] : dn - b[i]) * ld(r.uni(.05, .4))));
        }
        for (sz j = 0; j < a.t.size(); ++j) {
            if (j == 0 || j + 1 == a.t.size()) continue;   // kept
            long q = long(j) - long(k);
            long blk = q >= 0 ? q / long(m) : -((-q + long(m) - 1) / long(m));
            a.t[j] = ld(U(w[sz(q - blk * long(m))] + ld(blk) * P));
        }
        a.lo = a.t[k];
        a.hi = a.t[k + m];
        a.period = a.hi - a.lo;
    }
    a.gap = 1e300L;
    for (sz j = 0; j + 1 < a.t.size(); ++j) { ld g = a.t[j + 1] - a.t[j]; if (g > 0) a.gap = std::min(a.gap, g); }
}
template <class T, class U, sz D, sz O> struct SplineCase {
    typedef intp::BSpline<T, D, O, U> S;
    typedef typename S::ControlPointContainer CP;
    Axis ax[D];
    std::array<bool, D> per;
    std::array<sz, D> m;
    intp::Mesh<T, D> ctrl;
    ld cmax;
    SplineCase() : ctrl(1) {}
    void grid(Rng& r) { for (sz d = 0; d < D; ++d) { per[d] = r.chance(.35); m[d] = O + 1 + r.below(D == 1 ? 12 : D == 2 ? 6 : 3); if (D <= 2 && r.chance(.08)) m[d] += r.below(D == 1 ? 300 : 40); if (per[d] && m[d] < 2) m[d] = 2; gen_knots<U>(r, ax[d], O, per[d], m[d]); } }
    void data(Rng& r) {
        ctrl.resize(m);
        cmax = 0;
        for (sz k = 0; k < ctrl.size(); ++k) { ld a = ld(r.uni(-2, 2)), b = ld(r.uni(-2, 2)); ctrl(ctrl.dimension().dimwise_indices(k)) = mk<T>(a, b); cmax = std::max(cmax, std::max(std::fabs(a), std::fabs(b))); }
    }
    std::vector<U> knots(sz d) const { std::vector<U> v; for (ld t : ax[d].t) v.push_back(U(t)); return v; }
    std::string desc() const {
        std::string s = fmt("BSpline D=%zu order=%zu", D, O);
        for (sz d = 0; d < D; ++d) { s += fmt(" ax%zu{%s ctrl=%zu knots", d, per[d] ? "periodic" : "aperiodic", m[d]); for (sz j = 0; j < ax[d].t.size() && j < 24; ++j) s += fmt(" %.6Lg", ax[d].t[j]); s += "}"; }
        return s;
    }
    // value with a forward error bound
    void eval(const ld* x, const sz* dr, ld* v, ld& tol, bool& jump, ld epsT, ld epsU) const {
        std::vector<ld> B[D];
        sz seg[D];
        jump = false;
        ld L = 1, pos = 0, g = 1;
        ld lam[D], lam1[D], dx[D];
        for (sz d = 0; d < D; ++d) {
            if (dr[d] > O) { v[0] = v[1] = 0; tol = 0; return; }
        }
        for (sz d = 0; d < D; ++d) {
            const Axis& a = ax[d];
            ld xx = a.wrap(x[d]);
            // last non-empty cell holding xx
            sz first = O, last = a.t.size() - O - 2;
            seg[d] = first;
            for (sz s = first; s <= last; ++s) if (a.t[s] <= xx) seg[d] = s;
            while (seg[d] > first && !(a.t[seg[d]] < a.t[seg[d] + 1])) --seg[d];
            dx[d] = 8 * epsU * (std::fabs(x[d]) + a.xmax + std::fabs(a.hi - a.lo)) * (a.periodic ? 2 + std::fabs(x[d] - a.lo) / a.period : 1);
            ld kd = 1e300L;
            for (sz s = first; s <= last + 1; ++s) if ((s > first && s <= last) || a.periodic) kd = std::min(kd, std::fabs(a.t[s] - xx));
            if (kd <= dx[d]) jump = true;  // several pieces are possible: judged only if exact
            B[d].assign(O + 1, 0);
            std::vector<ld> B1(O + 1, 0);
            a.basis(seg[d], xx, dr[d], B[d].data());
            lam[d] = lam1[d] = 0;
            for (ld b : B[d]) lam[d] += std::fabs(b);
            if (dr[d] < O) { a.basis(seg[d], xx, dr[d] + 1, B1.data()); for (ld b : B1) lam1[d] += std::fabs(b); }
            ld f = 1;
            for (sz q = 0; q < dr[d]; ++q) f *= ld(O - q) * 2 / a.gap;
            lam[d] = std::max(lam[d], dr[d] ? f : lam[d]);
            L *= lam[d];
            g += 1 + ld(O + 1) * (a.xmax + a.hi - a.lo) / a.gap;
        }
        for (sz d = 0; d < D; ++d) { ld p = dx[d] * lam1[d]; for (sz e = 0; e < D; ++e) if (e != d) p *= lam[e]; pos += p; }
        v[0] = v[1] = 0;
        sz tot = 1;
        for (sz d = 0; d < D; ++d) tot *= O + 1;
        for (sz q = 0; q < tot; ++q) {
            std::array<sz, D> ix;
            ld w = 1;
            sz rem = q;
            for (sz d = D; d-- > 0;) { int j = int(rem % (O + 1)); rem /= O + 1; w *= B[d][sz(j)]; ix[d] = ax[d].ctrl(seg[d], j); }
            const T& c = ctrl(ix);
            v[0] += w * comp(c, 0);
            v[1] += w * comp(c, 1);
        }
        tol = cmax * 24 * std::max(epsT, epsU) * L * g + 4 * cmax * pos;
    }
};
template <class T, class U, sz D, sz O> struct Builder;
template <class T, class U, sz O> struct Builder<T, U, 1, O> {
    typedef intp::BSpline<T, 1, O, U> S;
    static S make(const SplineCase<T, U, 1, O>& c, bool aper) {
        std::vector<U> k0 = c.knots(0);
        typename S::ControlPointContainer cp(c.ctrl);
        return aper ? S(cp, std::make_pair(k0.begin(), k0.end())) : S(c.per, cp, std::make_pair(k0.data(), k0.data() + k0.size()));
    }
};
template <class T, class U, sz O> struct Builder<T, U, 2, O> {
    typedef intp::BSpline<T, 2, O, U> S;
    static S make(const SplineCase<T, U, 2, O>& c, bool aper) {
        std::vector<U> k0 = c.knots(0), k1 = c.knots(1);
        typename S::ControlPointContainer cp(c.ctrl);
        return aper ? S(cp, std::make_pair(k0.begin(), k0.end()), std::make_pair(k1.begin(), k1.end())) : S(c.per, cp, std::make_pair(k0.begin(), k0.end()), std::make_pair(k1.data(), k1.data() + k1.size()));
    }
};
template <class T, class U, sz O> struct Builder<T, U, 3, O> {
    typedef intp::BSpline<T, 3, O, U> S;
    static S make(const SplineCase<T, U, 3, O>& c, bool aper) {
        std::vector<U> k0 = c.knots(0), k1 = c.knots(1), k2 = c.knots(2);
        typename S::ControlPointContainer cp(c.ctrl);
        return aper ? S(cp, std::make_pair(k0.begin(), k0.end()), std::make_pair(k1.begin(), k1.end()), std::make_pair(k2.begin(), k2.end())) : S(c.per, cp, std::make_pair(k0.begin(), k0.end()), std::make_pair(k1.begin(), k1.end()), std::make_pair(k2.begin(), k2.end()));
    }
};
template <class T, class U, sz D, sz O> static void c21t(Rng& r, long) {
    typedef SplineCase<T, U, D, O> C;
    typedef typename C::S S;
    C c;
    c.grid(r);
    bool aper = r.chance(.3);
    if (aper) for (sz d = 0; d < D; ++d) if (c.per[d]) { c.per[d] = false; gen_knots<U>(r, c.ax[d], O, false, c.m[d]); }
    c.data(r);
    const ld epsT = std::numeric_limits<U>::epsilon(), epsU = epsT;
    S s = Builder<T, U, D, O>::make(c, aper);
    rep.sample(c.desc());
    const int rounds = 5;
    ld xlast[D];
    for (int round = 0; round < rounds; ++round) {
        if (round == 1) { c.data(r); typename S::ControlPointContainer cp(c.ctrl); s.load_ctrlPts(cp); rep.add("reloaded_control_points"); }
        if (round == 2) {
            std::array<bool, D> keep = c.per;
            C c2;
            c2.per = keep;
            for (sz d = 0; d < D; ++d) { c2.m[d] = O + 1 + r.below(6); if (keep[d] && c2.m[d] < 2) c2.m[d] = 2; gen_knots<U>(r, c2.ax[d], O, keep[d], c2.m[d]); }
            c2.data(r);
            c.per = c2.per; c.m = c2.m; c.cmax = c2.cmax;
            for (sz d = 0; d < D; ++d) c.ax[d] = c2.ax[d];
            c.ctrl = c2.ctrl;
            for (sz d = 0; d < D; ++d) { std::vector<U> k = c.knots(d); if (r.chance(.5)) s.load_knots(d, k); else s.load_knots(d, std::move(k)); }
            typename S::ControlPointContainer cp(c.ctrl);
            s.load_ctrlPts(std::move(cp));
            rep.add("reloaded_knots");
        }
        if (round == 3) {
            // knots that look alike, on some of the axes
            const sz only = r.below(D + 1);
            for (sz d = 0; d < D; ++d) {
                if (only < D && d != only) continue;
                alike_knots<U>(r, c.ax[d], c.m[d]);
                std::vector<U> k = c.knots(d);
                if (r.chance(.5)) s.load_knots(d, k); else s.load_knots(d, std::move(k));
            }
            rep.add("reloaded_alike_knots");
        }
        if (round == 4) {
            // control points that look alike: one of them differs
            sz k = r.below(c.ctrl.size());
            if (c.ctrl.size() > 2 && r.chance(.7)) k = 1 + r.below(c.ctrl.size() - 2);
            ld a = ld(r.uni(-2, 2)), b = ld(r.uni(-2, 2));
            c.ctrl(c.ctrl.dimension().dimwise_indices(k)) = mk<T>(a, b);
            c.cmax = std::max(c.cmax, std::max(std::fabs(a), std::fabs(b)));
            typename S::ControlPointContainer cp(c.ctrl);
            if (r.chance(.5)) s.load_ctrlPts(cp); else s.load_ctrlPts(std::move(cp));
            rep.add("reloaded_alike_control_points");
        }
        EXPECT(s.get_order() == O, "%s: order", c.desc().c_str());
        for (sz d = 0; d < D; ++d) {
            EXPECT(s.periodicity(d) == c.per[d] && s.knots_num(d) == c.ax[d].t.size(), "%s: metadata of axis %zu", c.desc().c_str(), d);
            EXPECT(ld(s.range(d).first) == c.ax[d].lo && ld(s.range(d).second) == c.ax[d].hi, "%s: range of axis %zu", c.desc().c_str(), d);
            EXPECT(sz(s.knots_end(d) - s.knots_begin(d)) == c.ax[d].t.size(), "%s: knots of axis %zu", c.desc().c_str(), d);
            sz j = 0;
            for (auto it = s.knots_begin(d); it != s.knots_end(d); ++it, ++j) EXPECT(ld(*it) == c.ax[d].t[j], "%s: knot %zu of axis %zu", c.desc().c_str(), j, d);
        }
        for (int k = 0; k < 40; ++k) {
            ld x[D];
            sz dr[D], hint[D];
            bool exact = false;
            std::uint64_t km = 0;
            for (sz d = 0; d < D; ++d) {
                const Axis& a = c.ax[d];
                int kind = r.range(0, 9);
                sz first = O, last = a.t.size() - O - 2;
                if (kind == 0) x[d] = a.lo;
                else if (kind == 1) x[d] = a.hi;
                else if (kind == 2) { x[d] = a.t[first + r.below(last - first + 2)]; }
                else if (kind == 3) x[d] = ld(U(a.lo - (a.hi - a.lo) * ld(r.uni(0, .7))));
                else if (kind == 4) x[d] = ld(U(a.hi + (a.hi - a.lo) * ld(r.uni(0, .7))));
                else { sz q = first + r.below(last - first + 1); x[d] = ld(U(a.t[q] + (a.t[q + 1] - a.t[q]) * ld(r.uni(0, 1)))); }
                dr[d] = r.below(O + 2);
                hint[d] = first + r.below(last - first + 1);
                km = km * 11 + sz(kind);
            }
            const bool dv = k % 2;
            // where the spline was last evaluated before it was reloaded
            if (round && k < 2) for (sz d = 0; d < D; ++d) x[d] = xlast[d];
            for (sz d = 0; d < D; ++d) xlast[d] = x[d];
            if (!dv) for (sz d = 0; d < D; ++d) dr[d] = 0;
            ld v[2], tol;
            bool jump;
            c.eval(x, dr, v, tol, jump, epsT, epsU);
            if (tol > (epsU > 1e-10L ? .02L : 1e-7L) * std::max(c.cmax, std::max(std::fabs(v[0]), std::fabs(v[1]))) && tol > 0) { rep.add("uninformative"); continue; }
            // aperiodic axes: the piece right of a knot is the definition there
            // and no rounding happens in the search, so jumps are judged too
            if (jump) { bool anyp = false; for (sz d = 0; d < D; ++d) anyp = anyp || c.per[d]; if (anyp && O <= 2) { rep.add("at_jumps"); continue; } if (anyp) { rep.add("at_seam_or_knot"); bool low = false; for (sz d = 0; d < D; ++d) if (dr[d] + 1 >= O) low = true; if (low) continue; } }
            (void)exact;
            T got[3];
            int ng = 0;
            if (!dv) {
                std::array<std::pair<U, sz>, D> ch;
                std::array<double, D> cd;
                for (sz d = 0; d < D; ++d) { ch[d] = std::make_pair(U(x[d]), hint[d]); cd[d] = double(x[d]); }
                got[ng++] = s(ch);
                for (sz d = 0; d < D; ++d) ch[d].second = O + r.below(c.ax[d].t.size() - 2 * O - 1);
                got[ng++] = s(ch);
                got[ng++] = s(cd);
            } else {
                std::array<std::tuple<U, sz, sz>, D> ct;
                std::array<std::pair<U, sz>, D> cd;
                for (sz d = 0; d < D; ++d) { ct[d] = std::make_tuple(U(x[d]), hint[d], dr[d]); cd[d] = std::make_pair(U(x[d]), dr[d]); }
                got[ng++] = s.derivative_at(ct);
                got[ng++] = s.derivative_at(cd);
            }
            for (int q = 0; q < ng; ++q) {
                ld e = std::max(std::fabs(comp(got[q], 0) - v[0]), std::fabs(comp(got[q], 1) - v[1]));
                if (tol > 0) rep.maxi("max_err_over_tol", e / tol);
                EXPECT(e <= tol, "%s: %s form %d at (%.17Lg..) hint %zu order %zu: %.17Lg expected %.17Lg tol %.3Lg", c.desc().c_str(), dv ? "derivative" : "value", q, x[0], hint[0], dr[0], comp(got[q], 0), v[0], tol);
                rep.add(dv ? "derivatives" : "values");
            }
            note(mix(D, O), km, mix(c.per[0], std::uint64_t(dv)), c.m[0]);
        }
        // the spline goes on in a copy, in a moved object, in an object that
        // held another spline before
        switch (r.below(4)) {
            case 0: { S copy(s); s = copy; break; }
            case 1: { S moved(std::move(s)); S back(moved); s = std::move(back); break; }
            case 2: {
                C o;
                for (sz d = 0; d < D; ++d) { o.per[d] = !aper && r.chance(.35); o.m[d] = O + 1 + r.below(5); if (o.per[d] && o.m[d] < 2) o.m[d] = 2; gen_knots<U>(r, o.ax[d], O, o.per[d], o.m[d]); }
                o.data(r);
                S other = Builder<T, U, D, O>::make(o, aper);
                other = s;
                { S gone(std::move(s)); }
                s = other;
                break;
            }
            default: break;
        }
    }
    rep.add("splines");
}
static void c21(Rng& r, long i) {
    switch (i % 16) {
        case 0: c21t<double, double, 1, 0>(r, i); break;
        case 1: c21t<double, double, 1, 1>(r, i); break;
        case 2: c21t<double, double, 1, 2>(r, i); break;
        case 3: c21t<double, double, 1, 3>(r, i); break;
        case 4: c21t<double, double, 1, 4>(r, i); break;
        case 5: c21t<double, double, 1, 5>(r, i); break;
        case 6: c21t<double, double, 2, 0>(r, i); break;
        case 7: c21t<double, double, 2, 1>(r, i); break;
        case 8: c21t<double, double, 2, 2>(r, i); break;
        case 9: c21t<double, double, 2, 3>(r, i); break;
        case 10: c21t<double, double, 2, 4>(r, i); break;
        case 11: c21t<double, double, 3, 1>(r, i); break;
        case 12: c21t<double, double, 3, 2>(r, i); break;
        case 13: c21t<double, double, 3, 3>(r, i); break;
        case 14: c21t<float, float, 1, 3>(r, i); break;
        default: c21t<std::complex<double>, double, 2, 3>(r, i); break;
    }
}

// ------------------------------------------------------------------ C18
#ifdef INTP_ENABLE_ASSERTION
template <class F> static int outcome(F f) {
    try { f(); } catch (const std::runtime_error&) { return 1; } catch (const std::exception&) { return 2; }
    return 0;
}
#define MUST_THROW(f, ...) do { int o_ = outcome(f); rep.add("rejections"); EXPECT(o_ == 1, "%s: %s", fmt(__VA_ARGS__).c_str(), o_ ? "wrong exception type" : "accepted"); } while (0)
#define MUST_PASS(f, ...) do { int o_ = outcome(f); rep.add("acceptances"); EXPECT(o_ == 0, "%s: rejected", fmt(__VA_ARGS__).c_str()); } while (0)
template <sz O> static void c18coords(Rng& r) {
    typedef intp::InterpolationFunction<double, 1, O> F1;
    typedef intp::InterpolationFunctionTemplate<double, 1, O> T1;
    typedef intp::InterpolationFunction<double, 2, O> F2;
    const bool per = r.chance(.5);
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
    const sz less = per ? 1 : 0;
#else
    const sz less = 0;
#endif
    sz n = std::max<sz>(O + 2, 3) + r.below(9);   // coordinates, closing one included
    std::vector<double> x(n), f(n - less);
    double v = r.uni(-5, 5);
    for (auto& c : x) { c = v; v += r.chance(.2) ? 1e-9 : r.uni(.05, 1); }
    for (auto& c : f) c = r.uni(-1, 1);
    std::string id = fmt("order %zu %s, %zu coordinates", O, per ? "periodic" : "aperiodic", n);
    rep.sample(id);
    auto mk1 = [&](std::vector<double>& xs, std::vector<double>& fs) { F1 g(per, std::make_pair(fs.begin(), fs.end()), std::make_pair(xs.begin(), xs.end())); (void)g; };
    auto mkt = [&](std::vector<double>& xs, std::vector<double>& fs) { T1 t(per, fs.size(), std::make_pair(xs.begin(), xs.end())); (void)t; };
    MUST_PASS([&] { mk1(x, f); }, "valid input, %s", id.c_str());
    MUST_PASS([&] { mkt(x, f); }, "valid input to a template, %s", id.c_str());
    // every position, several ways of not increasing
    for (sz k = 1; k < n; ++k) {
        std::vector<double> y = x;
        int how = r.range(0, 4);
        if (how == 0) y[k] = y[k - 1];
        else if (how == 1) std::swap(y[k], y[k - 1]);
        else if (how == 2) y[k] = y[k - 1] - 1e-12 * std::max(1., std::fabs(y[k - 1]));
        else if (how == 3) y[k] = std::numeric_limits<double>::quiet_NaN();
        else y[k] = y[0] - 1;
        MUST_THROW([&] { mk1(y, f); }, "coordinate %zu not increasing (way %d), %s", k, how, id.c_str());
        MUST_THROW([&] { mkt(y, f); }, "template: coordinate %zu not increasing (way %d), %s", k, how, id.c_str());
        note(O, per, k, mix(n, sz(how)));
    }
    { std::vector<double> y = x; y[0] = y[1]; MUST_THROW([&] { mk1(y, f); }, "first coordinate not increasing, %s", id.c_str()); }
    { std::vector<double> y(x.rbegin(), x.rend()); MUST_THROW([&] { mk1(y, f); }, "decreasing coordinates, %s", id.c_str()); }
    // counts
    for (int dl = -2; dl <= 3; ++dl) {
        if (dl == 0) continue;
        std::vector<double> y = x;
        double e = x.back();
        if (dl < 0) y.resize(n - sz(-dl)); else for (int q = 0; q < dl; ++q) y.push_back(e += 1);
        MUST_THROW([&] { mk1(y, f); }, "%zu coordinates for %zu values, %s", y.size(), f.size(), id.c_str());
        MUST_THROW([&] { mkt(y, f); }, "template: %zu coordinates for %zu values, %s", y.size(), f.size(), id.c_str());
        note(O, per, 1000 + sz(dl + 5), n);
    }
    // the second axis of a 2D problem
    {
        sz m = O + 2 + r.below(4);
        std::vector<double> z(m);
        double w = 0;
        for (auto& c : z) c = w += r.uni(.1, 1);
        std::array<bool, 2> pp{{false, per}};
        intp::Mesh<double, 2> mesh(m, f.size());
        auto go = [&](std::vector<double>& a, std::vector<double>& b) { F2 g(pp, mesh, std::make_pair(a.begin(), a.end()), std::make_pair(b.begin(), b.end())); (void)g; };
        MUST_PASS([&] { go(z, x); }, "valid 2D input, %s", id.c_str());
        std::vector<double> y = x;
        sz k = 1 + r.below(n - 1);
        y[k] = y[k - 1];
        MUST_THROW([&] { go(z, y); }, "axis 1 coordinate %zu repeated, %s", k, id.c_str());
        std::vector<double> zz = z;
        k = 1 + r.below(m - 1);
        zz[k] = zz[k - 1] - .5;
        MUST_THROW([&] { go(zz, x); }, "axis 0 coordinate %zu decreasing, %s", k, id.c_str());
        y = x;
        y.push_back(x.back() + 1);
        MUST_THROW([&] { go(z, y); }, "axis 1: one coordinate too many, %s", id.c_str());
        zz = z;
        zz.pop_back();
        MUST_THROW([&] { go(zz, x); }, "axis 0: one coordinate missing, %s", id.c_str());
    }
}
template <sz O> static void c18spline(Rng& r) {
    typedef intp::BSpline<double, 1, O> S;
    bool per = r.chance(.5);
    sz m = O + 2 + r.below(6);
    sz good = m + (per ? 2 * O + 1 : O + 1);
    for (int dl = -1; dl <= 2; ++dl) {
        sz kn = sz(long(good) + dl);
        if (kn < 2 * O + 2) continue;
        std::vector<double> k(kn);
        for (sz i = 0; i < kn; ++i) k[i] = double(i);
        typename S::ControlPointContainer cp{intp::MeshDimension<1>(m)};
        auto go = [&] { S s(std::array<bool, 1>{{per}}, cp, std::make_pair(k.begin(), k.end())); (void)s; };
        if (dl == 0) MUST_PASS(go, "order %zu %s spline, %zu control points, %zu knots", O, per ? "periodic" : "aperiodic", m, kn);
        else MUST_THROW(go, "order %zu %s spline, %zu control points, %zu knots", O, per ? "periodic" : "aperiodic", m, kn);
        note(77, O, per, mix(m, sz(dl + 3)));
    }
    typedef intp::BSpline<double, 2, O> S2;
    std::array<bool, 2> pp{{r.chance(.5), r.chance(.5)}};
    std::array<sz, 2> mm{{O + 2 + r.below(3), O + 2 + r.below(3)}};
    for (int bad = 0; bad < 3; ++bad) {
        std::vector<double> k[2];
        for (sz d = 0; d < 2; ++d) { k[d].resize(mm[d] + (pp[d] ? 2 * O + 1 : O + 1) + (bad == int(d) + 1 ? 1 : 0)); for (sz i = 0; i < k[d].size(); ++i) k[d][i] = double(i); }
        typename S2::ControlPointContainer cp{intp::MeshDimension<2>(mm)};
        auto go = [&] { S2 s(pp, cp, std::make_pair(k[0].begin(), k[0].end()), std::make_pair(k[1].begin(), k[1].end())); (void)s; };
        if (bad == 0) MUST_PASS(go, "2D spline order %zu", O);
        else MUST_THROW(go, "2D spline order %zu with a surplus knot on axis %d", O, bad - 1);
    }
}
static void c18mesh(Rng& r) {
    sz a = 1 + r.below(5), b = 1 + r.below(5), c = 1 + r.below(5);
    intp::Mesh<double, 3> m(a, b, c);
    const intp::Mesh<double, 3>& cm = m;
    std::array<sz, 3> n{{a, b, c}};
    for (int k = 0; k < 30; ++k) {
        std::array<sz, 3> ix{{r.below(a), r.below(b), r.below(c)}};
        MUST_PASS([&] { m(ix[0], ix[1], ix[2]) = 3; }, "mesh (%zu,%zu,%zu) element (%zu,%zu,%zu)", a, b, c, ix[0], ix[1], ix[2]);
        MUST_PASS([&] { rep.add("reads", sz(cm(ix[0], ix[1], ix[2]) == 3)); }, "const mesh element");
        sz d = r.below(3);
        std::array<sz, 3> bad = ix;
        bad[d] = n[d] + (r.chance(.5) ? 0 : r.below(5));
        if (r.chance(.15)) bad[d] = sz(-1) - r.below(3);
        MUST_THROW([&] { m(bad[0], bad[1], bad[2]) = 1; }, "mesh (%zu,%zu,%zu) write of element (%zu,%zu,%zu)", a, b, c, bad[0], bad[1], bad[2]);
        MUST_THROW([&] { double v = cm(bad[0], bad[1], bad[2]); rep.add("reads", sz(v > 0)); }, "mesh (%zu,%zu,%zu) read of element (%zu,%zu,%zu)", a, b, c, bad[0], bad[1], bad[2]);
        MUST_PASS([&] { m(ix) = 3; rep.add("reads", sz(cm(ix) == 3)); }, "mesh element by array");
        MUST_THROW([&] { rep.add("reads", cm.dimension().indexing_safe(bad)); }, "index (%zu,%zu,%zu)", bad[0], bad[1], bad[2]);
        note(a, b, c, mix(d, bad[d]));
    }
    intp::Mesh<int, 1> m1(a);
    MUST_PASS([&] { m1(a - 1) = 1; }, "last element of a 1D mesh");
    MUST_THROW([&] { m1(a) = 1; }, "1D mesh past the end");
    std::array<sz, 3> z{{0, 0, 0}};
    MUST_PASS([&] { auto it = m.begin(0, z); auto e = m.end(0, z); rep.add("reads", sz(e - it)); }, "line iterators");
}
template <class M> static void c18band(Rng& r, bool ext) {
    sz n = 1 + r.below(12), p = r.below(std::min<sz>(n, 4)), q = r.below(std::min<sz>(n, 4));
    if (r.chance(.3)) { p = r.below(n); q = r.below(n); }
    if (ext) { p = std::min(p, (n - 1) / 2); q = std::min(q, (n - 1) / 2); }
    BandModel<M, double> mod(n, p, q, ext);
    M m(n, p, q);
    const M& cm = m;
    for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) {
        if (mod.has(i, j)) {
            MUST_PASS([&] { m(i, j) = 1; rep.add("reads", sz(cm(i, j))); }, "band element (%zu,%zu) of n=%zu p=%zu q=%zu", i, j, n, p, q);
        } else {
            MUST_THROW([&] { m(i, j) = 1; }, "%s: write of (%zu,%zu) outside the bands n=%zu p=%zu q=%zu", ext ? "extended" : "plain", i, j, n, p, q);
            MUST_THROW([&] { rep.add("reads", sz(cm(i, j) > 5)); }, "%s: read of (%zu,%zu) outside the bands n=%zu p=%zu q=%zu", ext ? "extended" : "plain", i, j, n, p, q);
        }
        note(n, mix(p, q), i, mix(j, ext));
    }
    // still usable
    std::vector<double> x(n, 1.), y;
    MUST_PASS([&] { y = cm * x; }, "product after rejected accesses");
    for (sz i = 0; i < n; ++i) { double e = 0; for (sz j = 0; j < n; ++j) e += mod.has(i, j); EXPECT(y[i] == e, "rejected access changed the matrix n=%zu p=%zu q=%zu row %zu", n, p, q, i); }
    for (sz i = 0; i < n; ++i) m(i, i) = double(p + q + 5);
    MUST_PASS([&] { intp::BandLU<M> lu(cm); y = lu.solve(x); }, "solving a valid %s system n=%zu p=%zu q=%zu", ext ? "extended" : "plain", n, p, q);
}
template <class T> static void c18side(Rng& r) {
    sz n = 3 + r.below(10), p = r.below((n + 1) / 2), q = r.below((n + 1) / 2);
    typedef intp::ExtendedBandMatrix<T> M;
    M m(n, p, q);
    const M& cm = m;
    BandModel<M, T> mod(n, p, q, true);
    for (sz i = 0; i < n; ++i) for (sz j = 0; j < n; ++j) {
        if (!mod.main(i, j)) MUST_THROW([&] { m.main_bands_val(i, j) = 1; }, "main band access to (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (!mod.main(i, j) && !mod.side(i, j)) MUST_THROW([&] { m.side_bands_val(i, j) = 1; }, "side band access to (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (!mod.main(i, j)) MUST_THROW([&] { rep.add("reads", sz(cm.main_bands_val(i, j) > T(5))); }, "const main band access to (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (mod.main(i, j)) MUST_PASS([&] { m.main_bands_val(i, j) = 1; rep.add("reads", sz(cm.main_bands_val(i, j) > T(5))); }, "main band element (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (!mod.side(i, j)) MUST_THROW([&] { m.side_bands_val(i, j) = 1; }, "side band access to (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (!mod.side(i, j)) MUST_THROW([&] { rep.add("reads", sz(cm.side_bands_val(i, j) > T(5))); }, "const side band access to (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (mod.side(i, j)) MUST_PASS([&] { rep.add("reads", sz(cm.side_bands_val(i, j) > T(5))); }, "const side band element (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
        if (mod.side(i, j)) MUST_PASS([&] { m.side_bands_val(i, j) = 1; }, "side band element (%zu,%zu) n=%zu p=%zu q=%zu", i, j, n, p, q);
    }
}
static void c18(Rng& r, long i) {
    switch (i % 9) {
        case 0: c18coords<0>(r); break;
        case 1: c18coords<1>(r); c18spline<1>(r); break;
        case 2: c18coords<2>(r); c18spline<2>(r); break;
        case 3: c18coords<3>(r); c18spline<3>(r); break;
        case 4: c18coords<4>(r); break;
        case 5: c18mesh(r); break;
        case 6: c18band<intp::BandMatrix<double>>(r, false); break;
        case 7: c18band<intp::ExtendedBandMatrix<double>>(r, true); break;
        default: c18side<double>(r); c18spline<4>(r); break;
    }
}
#else
static void c18(Rng&, long) {}
#endif

typedef void (*Work)(Rng&, long);
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    std::string prop = argv[1], out, log;
    std::uint64_t seed = 1;
    long cases = 200, only = -1, from = 0;
    rep.config = V_CONFIG_NAME;
    for (int a = 2; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = std::strtoull(argv[a + 1], nullptr, 10);
        else if (k == "--cases") cases = std::atol(argv[a + 1]);
        else if (k == "--from") from = std::atol(argv[a + 1]);
        else if (k == "--case") only = std::atol(argv[a + 1]);
        else if (k == "--out") out = argv[a + 1];
        else if (k == "--log") log = argv[a + 1];
    }
    std::FILE* lf = log.empty() ? nullptr : std::fopen(log.c_str(), "w");
    rep.prop = prop;
    huge = prop != "C11";
    Work w = prop == "C15" ? c15 : prop == "C16" ? c16 : prop == "C17" ? c17 : prop == "C18" ? c18 : prop == "C20" ? c20 : prop == "C21" ? c21 : nullptr;
    bool all = prop == "C10" || prop == "C11";
    if (!w && !all) return 3;
    Work every[] = {c15, c16, c17, c20, c21, c18};
    long done = 0;
    for (long i = only >= 0 ? only : from; only >= 0 ? i == only : i < from + cases; ++i) {
        rep.case_id = i;
        watch_case(out.c_str(), i, 150);
        Rng r(mix(mix(seed, 4000 + std::uint64_t(std::atoi(prop.c_str() + 1))), std::uint64_t(i)));
        try { if (all) every[i % 6](r, i / 6); else w(r, i); }
        catch (const std::exception& e) { rep.violation(std::string("unexpected exception: ") + e.what()); }
        ++done;
        // what the monitors of the other properties concluded, for comparison
        if (lf) std::fprintf(lf, "%ld %llu %zu\n", i, (unsigned long long)rep.evals, rep.violations.size());
        if (all) rep.forget();  // values are judged by the other properties
        if (rep.full()) break;
    }
    if (lf) std::fclose(lf);
    rep.add("cases", std::uint64_t(done));
    return rep.finish(out.c_str());
}
