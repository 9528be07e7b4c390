// Independent long double reference: knots, collocation, tensor-product
// evaluation with error bounds. Shares no code with the library.
#ifndef V_REF_HPP
#define V_REF_HPP
#include "iface.hpp"
#include <cstdint>

struct Rng {
    std::uint64_t s[2];
    explicit Rng(std::uint64_t seed);
    std::uint64_t u64();
    std::size_t below(std::size_t n) { return n ? std::size_t(u64() % n) : 0; }
    int range(int a, int b) { return a + int(below(std::size_t(b - a + 1))); }
    double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
std::uint64_t mix(std::uint64_t a, std::uint64_t b);

// General banded / bordered-cyclic linear solver with partial pivoting.
class LinSolver {
   public:
    // rows[i]: list of (col, val)
    void factor(std::size_t n, std::size_t halfband, bool cyclic,
                const std::vector<std::vector<std::pair<std::size_t, ld>>>& rows);
    void solve(std::vector<ld>& b) const;
    ld inv_norm() const;  // || A^-1 ||_inf, exact
   private:
    std::size_t n_ = 0, m_ = 0, b_ = 0, kl_ = 0, ku_ = 0, w_ = 0;
    bool dense_ = true;
    // dense LU
    std::vector<ld> a_;
    std::vector<std::size_t> piv_;
    // banded part (m_ x m_), border b_
    std::vector<ld> band_;
    std::vector<std::size_t> bpiv_;
    std::vector<ld> L_;
    std::vector<ld> C_;   // B^-1 C, m_ x b_
    std::vector<ld> D_;   // b_ x m_
    std::vector<ld> S_;   // schur b_ x b_ LU
    std::vector<std::size_t> spiv_;
    void band_factor();
    void band_solve(ld* v) const;
};
void dense_factor(std::vector<ld>& a, std::vector<std::size_t>& piv, std::size_t n);
void dense_solve(const std::vector<ld>& a, const std::vector<std::size_t>& piv, std::size_t n, ld* v);

struct Axis {
    int order = 0;
    bool periodic = false, uniform = false;
    std::size_t n = 0;
    std::vector<ld> x, t;
    ld lo = 0, hi = 0, period = 0, kappa = 1, gap = 0, xmax = 0;
    LinSolver lu;
    void build(const Spec& s, int d);
    ld wrap(ld v) const;
    // segment s with t[s] <= x < t[s+1], clamped to the valid segments
    std::size_t segment(ld v) const;
    // r-th derivative of the order+1 basis functions alive on segment seg
    // (continued polynomially outside), written to B[0..order]
    void basis(std::size_t seg, ld v, std::size_t r, ld* B) const;
    std::size_t ctrl(std::size_t seg, int j) const {
        std::size_t i = seg - std::size_t(order) + std::size_t(j);
        return periodic ? i % n : i;
    }
    // distance from v (already wrapped) to the nearest inner knot / seam
    ld knot_dist(ld v, std::size_t& seg_other, std::size_t seg) const;
};

struct RefVal {
    ld v[MAXC];
    ld tol;       // bound on the difference of a correct implementation
    bool step;    // discontinuous here: alternatives listed
    std::vector<std::array<ld, MAXC>> alt;
    ld scale;
    ld growth;    // size of the basis: overflow is near if huge
};

class Ref {
   public:
    Spec spec;
    int nc = 1;
    ld eps, epsU;
    Axis ax[MAXD];
    std::vector<ld> cp;  // nc components
    ld fmax = 0, cmax = 0, kprod = 1;
    // grid part
    void grid(const Spec& s, ld epsT, ld epsU);
    void data(const Values& v);
    // x: coordinates as given to the library; r: derivative orders (or null)
    RefVal eval(const ld* x, const std::size_t* r) const;
    // tolerance at data points with the data as the oracle
    ld illness() const { return kprod; }
};

bool agree(const RefVal& r, const ld* got, int nc, ld* ratio);
#endif
