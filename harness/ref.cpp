#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    std::uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
Rng::Rng(std::uint64_t seed) {
    s[0] = mix(seed, 1);
    s[1] = mix(seed, 2) | 1;
}
std::uint64_t Rng::u64() {
    std::uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
}

void dense_factor(std::vector<ld>& a, std::vector<std::size_t>& piv, std::size_t n) {
    piv.assign(n, 0);
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k + 1; i < n; ++i)
            if (std::fabs(a[i * n + k]) > std::fabs(a[p * n + k])) p = i;
        piv[k] = p;
        if (p != k)
            for (std::size_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
        for (std::size_t i = k + 1; i < n; ++i) {
            ld f = a[i * n + k] / a[k * n + k];
            a[i * n + k] = f;
            if (f != 0)
                for (std::size_t j = k + 1; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
        }
    }
}
void dense_solve(const std::vector<ld>& a, const std::vector<std::size_t>& piv, std::size_t n, ld* v) {
    for (std::size_t k = 0; k < n; ++k) std::swap(v[k], v[piv[k]]);
    for (std::size_t k = 0; k < n; ++k)
        for (std::size_t j = 0; j < k; ++j) v[k] -= a[k * n + j] * v[j];
    for (std::size_t k = n; k-- > 0;) {
        for (std::size_t j = k + 1; j < n; ++j) v[k] -= a[k * n + j] * v[j];
        v[k] /= a[k * n + k];
    }
}

void LinSolver::factor(std::size_t n, std::size_t hb, bool cyclic,
                       const std::vector<std::vector<std::pair<std::size_t, ld>>>& rows) {
    n_ = n;
    if (n <= 48 || n < 8 * hb + 8) {
        dense_ = true;
        a_.assign(n * n, 0);
        for (std::size_t i = 0; i < n; ++i)
            for (auto& e : rows[i]) a_[i * n + e.first] += e.second;
        dense_factor(a_, piv_, n);
        return;
    }
    dense_ = false;
    b_ = cyclic ? 2 * hb + 2 : 0;
    m_ = n - b_;
    kl_ = hb;
    ku_ = 2 * hb;  // room for pivoting fill
    w_ = kl_ + ku_ + 1;
    band_.assign(m_ * w_, 0);
    std::vector<ld> Cm(m_ * b_, 0), E(b_ * b_, 0);
    D_.assign(b_ * m_, 0);
    for (std::size_t i = 0; i < n; ++i)
        for (auto& e : rows[i]) {
            std::size_t j = e.first;
            if (i < m_ && j < m_) {
                if (j + kl_ < i || j > i + hb) { std::fprintf(stderr, "ref: band overflow\n"); std::abort(); }
                band_[i * w_ + (j + kl_ - i)] += e.second;
            } else if (i < m_) Cm[i * b_ + (j - m_)] += e.second;
            else if (j < m_) D_[(i - m_) * m_ + j] += e.second;
            else E[(i - m_) * b_ + (j - m_)] += e.second;
        }
    band_factor();
    if (b_) {
        C_.assign(m_ * b_, 0);
        std::vector<ld> col(m_);
        for (std::size_t c = 0; c < b_; ++c) {
            for (std::size_t i = 0; i < m_; ++i) col[i] = Cm[i * b_ + c];
            band_solve(col.data());
            for (std::size_t i = 0; i < m_; ++i) C_[i * b_ + c] = col[i];
        }
        S_ = E;
        for (std::size_t r = 0; r < b_; ++r)
            for (std::size_t i = 0; i < m_; ++i) {
                ld f = D_[r * m_ + i];
                if (f != 0)
                    for (std::size_t c = 0; c < b_; ++c) S_[r * b_ + c] -= f * C_[i * b_ + c];
            }
        dense_factor(S_, spiv_, b_);
    }
}
void LinSolver::band_factor() {
    bpiv_.assign(m_, 0);
    L_.assign(m_ * std::max<std::size_t>(kl_, 1), 0);
    auto at = [&](std::size_t i, std::size_t j) -> ld& { return band_[i * w_ + (j + kl_ - i)]; };
    for (std::size_t k = 0; k < m_; ++k) {
        std::size_t last = std::min(m_ - 1, k + kl_), p = k;
        for (std::size_t i = k + 1; i <= last; ++i)
            if (std::fabs(at(i, k)) > std::fabs(at(p, k))) p = i;
        bpiv_[k] = p;
        std::size_t jl = std::min(m_ - 1, k + ku_);
        if (p != k)
            for (std::size_t j = k; j <= jl; ++j) {
                // row p holds columns up to p+ku_, row k up to k+ku_
                std::swap(at(k, j), at(p, j));
            }
        for (std::size_t i = k + 1; i <= last; ++i) {
            ld f = at(i, k) / at(k, k);
            L_[k * kl_ + (i - k - 1)] = f;
            at(i, k) = 0;
            if (f != 0)
                for (std::size_t j = k + 1; j <= jl; ++j) at(i, j) -= f * at(k, j);
        }
    }
}
void LinSolver::band_solve(ld* v) const {
    for (std::size_t k = 0; k < m_; ++k) {
        if (bpiv_[k] != k) std::swap(v[k], v[bpiv_[k]]);
        std::size_t last = std::min(m_ - 1, k + kl_);
        for (std::size_t i = k + 1; i <= last; ++i) v[i] -= L_[k * kl_ + (i - k - 1)] * v[k];
    }
    for (std::size_t k = m_; k-- > 0;) {
        std::size_t jl = std::min(m_ - 1, k + ku_);
        for (std::size_t j = k + 1; j <= jl; ++j) v[k] -= band_[k * w_ + (j + kl_ - k)] * v[j];
        v[k] /= band_[k * w_ + kl_];
    }
}
void LinSolver::solve(std::vector<ld>& v) const {
    if (dense_) { dense_solve(a_, piv_, n_, v.data()); return; }
    band_solve(v.data());
    if (!b_) return;
    ld* g = v.data() + m_;
    for (std::size_t r = 0; r < b_; ++r)
        for (std::size_t i = 0; i < m_; ++i)
            if (D_[r * m_ + i] != 0) g[r] -= D_[r * m_ + i] * v[i];
    dense_solve(S_, spiv_, b_, g);
    for (std::size_t i = 0; i < m_; ++i)
        for (std::size_t c = 0; c < b_; ++c) v[i] -= C_[i * b_ + c] * g[c];
}
ld LinSolver::inv_norm() const {
    std::vector<ld> rs(n_, 0), v(n_);
    // exact for moderate n, sampled columns blocks beyond
    std::size_t step = n_ > 1200 ? 1 + n_ / 600 : 1;
    for (std::size_t c = 0; c < n_; c += (c < 64 || c + 64 >= n_) ? 1 : step) {
        std::fill(v.begin(), v.end(), ld(0));
        v[c] = 1;
        solve(v);
        ld f = (c < 64 || c + 64 >= n_) ? 1 : ld(step);
        for (std::size_t i = 0; i < n_; ++i) rs[i] += f * std::fabs(v[i]);
    }
    ld m = 1;
    for (ld r : rs) { if (!(r < 1e30L)) return 1e30L; m = std::max(m, r); }  // also not a number: singular
    return m;
}

void Axis::build(const Spec& s, int d) {
    order = s.order;
    periodic = s.periodic[d];
    uniform = s.uniform[d];
    n = s.n[d];
    x = s.x[d];
    const std::size_t k = std::size_t(order);
    if (uniform) {
        // only the end points are given to the library
        ld a = x.front(), b = x.back();
        std::size_t m = x.size() - 1;
        for (std::size_t i = 0; i <= m; ++i) x[i] = i == m ? b : a + ld(i) * ((b - a) / ld(m));
    }
    gap = x[1] - x[0];
    xmax = 0;
    for (std::size_t i = 0; i + 1 < x.size(); ++i) gap = std::min(gap, x[i + 1] - x[i]);
    for (ld v : x) xmax = std::max(xmax, std::fabs(v));
    if (periodic) {
        period = x[n] - x[0];
        // base knots over one period
        std::vector<ld> base(n);
        for (std::size_t i = 0; i < n; ++i)
            base[i] = k % 2 ? x[i] : (i == 0 ? (x[0] + x[n - 1] - period) / 2 : (x[i - 1] + x[i]) / 2);
        t.resize(n + 2 * k + 1);
        for (std::size_t j = 0; j < t.size(); ++j) {
            long q = long(j) - long(k);
            long blk = q >= 0 ? q / long(n) : -((-q + long(n) - 1) / long(n));
            t[j] = base[std::size_t(q - blk * long(n))] + ld(blk) * period;
        }
        lo = t[k];
        hi = t[k + n];
    } else {
        lo = x.front();
        hi = x.back();
        t.assign(n + k + 1, lo);
        for (std::size_t i = n; i < n + k + 1; ++i) t[i] = hi;
        for (std::size_t i = k + 1; i < n; ++i) {
            if (k == 0) t[i] = (x[i - 1] + x[i]) / 2;
            else {
                ld s2 = 0;
                for (std::size_t j = i - k; j < i; ++j) s2 += x[j];
                t[i] = s2 / ld(k);
            }
        }
    }
    std::vector<std::vector<std::pair<std::size_t, ld>>> rows(n);
    std::vector<ld> B(k + 1);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t seg = periodic ? k + i : i + 1 == n ? n - 1 : segment(x[i]);
        basis(seg, x[i], 0, B.data());
        for (int j = 0; j <= order; ++j) {
            if (B[std::size_t(j)] == 0) continue;
            std::size_t c = ctrl(seg, j);
            if (periodic) c = (c + n - (k / 2) % n) % n;
            rows[i].push_back(std::make_pair(c, B[std::size_t(j)]));
        }
    }
    lu.factor(n, std::max<std::size_t>(k, 1), periodic, rows);
    kappa = lu.inv_norm();
}
ld Axis::wrap(ld v) const {
    if (!periodic) return v;
    ld y = std::fmod(v - lo, period);
    if (y < 0) y += period;
    if (y >= period) y = 0;
    return lo + y;
}
std::size_t Axis::segment(ld v) const {
    const std::size_t k = std::size_t(order);
    std::size_t a = k, b = periodic ? k + n - 1 : n - 1;
    // last s in [a,b] with t[s] <= v
    while (a < b) {
        std::size_t m = (a + b + 1) / 2;
        if (t[m] <= v) a = m; else b = m - 1;
    }
    return a;
}
void Axis::basis(std::size_t seg, ld v, std::size_t r, ld* B) const {
    const std::size_t k = std::size_t(order);
    for (std::size_t j = 0; j <= k; ++j) B[j] = 0;
    if (r > k) return;
    // values of degree k-r basis functions, by the two-term recurrence
    std::vector<ld> N(k + 3, 0), M(k + 3, 0);
    auto T = [&](long i) { return t[std::size_t(i)]; };
    const long S = long(seg);
    // N[j]: function with index S-k+j
    N[k] = 1;
    for (std::size_t q = 1; q <= k - r; ++q) {
        for (std::size_t j = 0; j <= k; ++j) {
            long i = S - long(k) + long(j);
            ld a = 0;
            if (N[j] != 0) { ld den = T(i + long(q)) - T(i); if (den != 0) a += (v - T(i)) / den * N[j]; }
            if (j + 1 <= k && N[j + 1] != 0) {
                ld den = T(i + long(q) + 1) - T(i + 1);
                if (den != 0) a += (T(i + long(q) + 1) - v) / den * N[j + 1];
            }
            M[j] = a;
        }
        N.swap(M);
    }
    // raise the derivative
    for (std::size_t q = k - r + 1; q <= k; ++q) {
        for (std::size_t j = 0; j <= k; ++j) {
            long i = S - long(k) + long(j);
            ld a = 0;
            if (N[j] != 0) { ld den = T(i + long(q)) - T(i); if (den != 0) a += ld(q) / den * N[j]; }
            if (j + 1 <= k && N[j + 1] != 0) {
                ld den = T(i + long(q) + 1) - T(i + 1);
                if (den != 0) a -= ld(q) / den * N[j + 1];
            }
            M[j] = a;
        }
        N.swap(M);
    }
    for (std::size_t j = 0; j <= k; ++j) B[j] = N[j];
}
ld Axis::knot_dist(ld v, std::size_t& other, std::size_t seg) const {
    const std::size_t k = std::size_t(order);
    std::size_t first = k, last = periodic ? k + n - 1 : n - 1;
    ld dl = std::fabs(v - t[seg]), dr = std::fabs(t[seg + 1] - v);
    bool hasl = periodic || seg > first, hasr = periodic || seg < last;
    other = seg;
    ld best = 1e300L;
    if (hasl && dl < best) { best = dl; other = seg > first ? seg - 1 : last; }
    if (hasr && dr < best) { best = dr; other = seg < last ? seg + 1 : first; }
    return best;
}

void Ref::grid(const Spec& s, ld epsT, ld eu) {
    spec = s;
    eps = std::max(epsT, eu);
    epsU = eu;
    kprod = 1;
    for (int d = 0; d < s.D; ++d) {
        ax[d].build(s, d);
        kprod *= ax[d].kappa;
    }
}
void Ref::data(const Values& v) {
    nc = v.nc;
    cp = v.v;
    fmax = 0;
    for (ld f : v.v) if (std::isfinite(f)) fmax = std::max(fmax, std::fabs(f));
    std::size_t total = spec.points();
    std::size_t stride = 1;
    for (int d = spec.D - 1; d >= 0; --d) {
        std::size_t n = spec.n[d];
        std::vector<ld> line(n);
        for (std::size_t base = 0; base < total; ++base) {
            if ((base / stride) % n) continue;
            for (int c = 0; c < nc; ++c) {
                for (std::size_t i = 0; i < n; ++i) line[i] = cp[(base + i * stride) * std::size_t(nc) + std::size_t(c)];
                ax[d].lu.solve(line);
                const std::size_t sh = ax[d].periodic ? std::size_t(ax[d].order / 2) % n : 0;
                for (std::size_t i = 0; i < n; ++i)
                    cp[(base + (i + sh) % n * stride) * std::size_t(nc) + std::size_t(c)] = line[i];
            }
        }
        stride *= n;
    }
    cmax = 0;
    for (ld c : cp) cmax = std::max(cmax, std::fabs(c));
}
RefVal Ref::eval(const ld* xin, const std::size_t* r) const {
    const int D = spec.D;
    RefVal R;
    R.step = false;
    std::size_t seg[MAXD], alt[MAXD];
    bool two[MAXD];
    ld xx[MAXD], xalt[MAXD];
    ld lam[MAXD], lam1[MAXD], dxv[MAXD];
    std::vector<ld> B[MAXD], B1;
    bool zero = false, wild = false;
    for (int d = 0; d < D; ++d) if (r && r[d] > std::size_t(spec.order)) zero = true;
    for (int c = 0; c < MAXC; ++c) R.v[c] = 0;
    R.tol = 0;
    R.scale = fmax;
    R.growth = 0;
    if (zero) return R;
    const std::size_t K = std::size_t(spec.order) + 1;
    for (int d = 0; d < D; ++d) {
        const Axis& a = ax[d];
        std::size_t rd = r ? r[d] : 0;
        xx[d] = a.wrap(xin[d]);
        seg[d] = a.segment(xx[d]);
        // absolute uncertainty of the position relative to the knots
        dxv[d] = 8 * epsU * (std::fabs(xin[d]) + a.xmax + std::fabs(a.hi - a.lo) + std::fabs(a.lo));
        // the period is the difference of two rounded ends, taken k times
        // inner knots are averages of data coordinates
        if (!a.periodic && !a.uniform) dxv[d] += epsU * a.xmax * ld(std::min<std::size_t>(a.n, 32));
        if (a.periodic) dxv[d] += 4 * epsU * (a.xmax + a.period) * (std::fabs(xin[d] - a.lo) / a.period);
        ld kd = a.knot_dist(xx[d], alt[d], seg[d]);
        two[d] = kd <= dxv[d];
        xalt[d] = xx[d];
        if (two[d] && a.periodic) {
            // continue across the seam if needed
            if (alt[d] > seg[d] + 1) xalt[d] = xx[d] + a.period;
            else if (seg[d] > alt[d] + 1) xalt[d] = xx[d] - a.period;
            if (a.n == 1) xalt[d] = xx[d];
            if (a.n == 2 && alt[d] != seg[d]) {
                // two segments only: decide by proximity
                ld c1 = std::fabs(xx[d] - a.t[alt[d]]), c2 = std::fabs(xx[d] - a.t[alt[d] + 1]);
                if (std::min(c1, c2) > 2 * dxv[d]) xalt[d] = xx[d] + (alt[d] > seg[d] ? a.period : -a.period);
            }
        }
        B[d].resize(K);
        a.basis(seg[d], xx[d], rd, B[d].data());
        lam[d] = 0;
        for (ld b : B[d]) lam[d] += std::fabs(b);
        // scale of the cancelling terms behind a derivative
        ld l1 = 0;
        if (rd < std::size_t(spec.order)) {
            B1.resize(K);
            a.basis(seg[d], xx[d], rd + 1, B1.data());
            for (ld b : B1) l1 += std::fabs(b);
        }
        if (two[d]) {
            std::vector<ld> B2(K);
            a.basis(alt[d], xalt[d], rd, B2.data());
            ld s2 = 0;
            for (ld b : B2) s2 += std::fabs(b);
            lam[d] = std::max(lam[d], s2);
        }
        // the position is uncertain: take the steepest segment it may lie in
        if (two[d] && rd < std::size_t(spec.order)) {
            const long first = spec.order, last = a.periodic ? long(a.order + a.n) - 1 : long(a.n) - 1;
            const long cnt = last - first + 1;
            for (int dir = -1; dir <= 1; dir += 2) {
                ld sh = 0;  // shift of the walked copy of the knots
                long sgm = long(seg[d]);
                for (int steps = 0;; ++steps) {
                    ld edge = dir > 0 ? a.t[std::size_t(sgm) + 1] + sh : a.t[std::size_t(sgm)] + sh;
                    if (std::fabs(edge - xx[d]) > dxv[d]) break;
                    if (steps > 6 || steps >= cnt) { wild = true; break; }
                    sgm += dir;
                    if (sgm > last) { if (!a.periodic) break; sgm = first; sh += a.period; }
                    if (sgm < first) { if (!a.periodic) break; sgm = last; sh -= a.period; }
                    B1.resize(K);
                    a.basis(std::size_t(sgm), edge - sh, rd + 1, B1.data());
                    ld t1 = 0;
                    for (ld b : B1) t1 += std::fabs(b);
                    l1 = std::max(l1, t1);
                }
            }
        } else if (two[d]) {
            // a jump next to another one within the uncertainty
            ld w = std::min(a.t[seg[d] + 1] - a.t[seg[d]], a.t[alt[d] + 1] - a.t[alt[d]]);
            if (w <= 2 * dxv[d]) wild = true;
        }
        lam1[d] = l1;
    }
    auto sum = [&](const std::vector<ld>* W, const std::size_t* sg, ld* out) {
        for (int c = 0; c < MAXC; ++c) out[c] = 0;
        std::size_t tot = 1;
        for (int d = 0; d < D; ++d) tot *= K;
        for (std::size_t q = 0; q < tot; ++q) {
            ld w = 1;
            std::size_t idx = 0, rem = q, stride = 1;
            for (int d = D - 1; d >= 0; --d) {
                int j = int(rem % K);
                rem /= K;
                w *= W[d][std::size_t(j)];
                idx += ax[d].ctrl(sg[d], j) * stride;
                stride *= spec.n[d];
            }
            if (w == 0) continue;
            for (int c = 0; c < nc; ++c) out[c] += w * cp[idx * std::size_t(nc) + std::size_t(c)];
        }
    };
    sum(B, seg, R.v);
    ld L = 1, g = 1;
    for (int d = 0; d < D; ++d) { L *= lam[d]; g += 1 + ld(spec.order + 1) * (ax[d].xmax + ax[d].hi - ax[d].lo) / ax[d].gap * (!ax[d].periodic && !ax[d].uniform ? 1 + ld(ax[d].n) / 16 : 1); }
    ld pos = 0;
    for (int d = 0; d < D; ++d) {
        ld p = dxv[d] * lam1[d];
        for (int e = 0; e < D; ++e) if (e != d) p *= lam[e];
        pos += p;
    }
    R.growth = L;
    R.tol = cmax * kprod * (24 * eps * L * g) + 4 * cmax * pos;
    R.tol += cmax * 1e-4000L;
    if (wild) R.tol = 1e300L;
    // alternatives at discontinuities
    bool disc = false;
    for (int d = 0; d < D; ++d)
        if (two[d] && (r ? r[d] : 0) + 1 > std::size_t(spec.order)) disc = true;
    if (disc) {
        R.step = true;
        for (int m = 1; m < (1 << D); ++m) {
            std::size_t sg[MAXD];
            std::vector<ld> W[MAXD];
            bool ok = true;
            for (int d = 0; d < D; ++d) {
                sg[d] = seg[d];
                W[d] = B[d];
                if (m >> d & 1) {
                    if (!two[d]) { ok = false; break; }
                    sg[d] = alt[d];
                    ax[d].basis(alt[d], xalt[d], r ? r[d] : 0, W[d].data());
                }
            }
            if (!ok) continue;
            std::array<ld, MAXC> o;
            sum(W, sg, o.data());
            R.alt.push_back(o);
        }
    }
    return R;
}

bool agree(const RefVal& r, const ld* got, int nc, ld* ratio) {
    auto dist = [&](const ld* a) {
        ld m = 0;
        for (int c = 0; c < nc; ++c) {
            ld e = std::fabs(a[c] - got[c]);
            if (!(e <= m)) m = e;  // NaN sticks
            if (e != e) return e;
        }
        return m;
    };
    ld best = dist(r.v);
    for (auto& a : r.alt) { ld e = dist(a.data()); if (e < best || best != best) best = e; }
    if (ratio) *ratio = r.tol > 0 ? best / r.tol : (best == 0 ? 0 : 1e30L);
    return best <= r.tol;
}
