// Instantiates the library behind the type-erased interface. One object set
// per build configuration (macros, standard, compiler, sanitizer).
#ifndef V_ADAPTOR_HPP
#define V_ADAPTOR_HPP
#include <Interpolation.hpp>
#include <atomic>
#include <complex>
#include <deque>
#include <limits>
#include <list>
#include <sstream>
#include <stdexcept>
#include "hook.hpp"
#include "iface.hpp"

namespace va {
template <std::size_t... I> struct seq {};
template <std::size_t N, std::size_t... I> struct mkseq : mkseq<N - 1, N - 1, I...> {};
template <std::size_t... I> struct mkseq<0, I...> { typedef seq<I...> type; };

// a plain value type: additive group with scalar action
struct Vec3 {
    double a[3];
    Vec3() : a{0, 0, 0} {}
    Vec3(double x, double y, double z) : a{x, y, z} {}
    Vec3& operator+=(const Vec3& o) { for (int i = 0; i < 3; ++i) a[i] += o.a[i]; return *this; }
    Vec3& operator-=(const Vec3& o) { for (int i = 0; i < 3; ++i) a[i] -= o.a[i]; return *this; }
    Vec3& operator*=(double s) { for (int i = 0; i < 3; ++i) a[i] *= s; return *this; }
    Vec3& operator/=(double s) { for (int i = 0; i < 3; ++i) a[i] /= s; return *this; }
};
inline Vec3 operator*(double s, Vec3 v) { v *= s; return v; }
inline Vec3 operator*(Vec3 v, double s) { v *= s; return v; }
inline Vec3 operator/(Vec3 v, double s) { v /= s; return v; }
inline Vec3 operator+(Vec3 v, const Vec3& w) { v += w; return v; }
inline Vec3 operator-(Vec3 v, const Vec3& w) { v -= w; return v; }
inline Vec3 operator-(Vec3 v) { v *= -1.; return v; }
inline bool operator==(const Vec3& v, const Vec3& w) { return v.a[0] == w.a[0] && v.a[1] == w.a[1] && v.a[2] == w.a[2]; }
inline bool operator!=(const Vec3& v, const Vec3& w) { return !(v == w); }
inline std::ostream& operator<<(std::ostream& os, const Vec3& v) { return os << v.a[0]; }

template <class T> struct VT {
    enum { nc = 1, has_deriv = 1 };
    static T get(const ld* p) { return T(*p); }
    static void put(const T& v, ld* p) { p[0] = ld(v); }
    static T nan() { return std::numeric_limits<T>::quiet_NaN(); }
    // the reference itself works in long double
    static ld eps() { return std::numeric_limits<T>::epsilon() * (sizeof(T) > 8 ? 64 : 1); }
    static ld rnd(ld v) { return ld(T(v)); }
};
template <class R> struct VT<std::complex<R>> {
    typedef std::complex<R> T;
    enum { nc = 2, has_deriv = 1 };
    static T get(const ld* p) { return T(R(p[0]), R(p[1])); }
    static void put(const T& v, ld* p) { p[0] = v.real(); p[1] = v.imag(); }
    static T nan() { R q = std::numeric_limits<R>::quiet_NaN(); return T(q, q); }
    static ld eps() { return std::numeric_limits<R>::epsilon(); }
    static ld rnd(ld v) { return ld(R(v)); }
};
template <> struct VT<Vec3> {
    enum { nc = 3, has_deriv = 0 };
    static Vec3 get(const ld* p) { return Vec3(double(p[0]), double(p[1]), double(p[2])); }
    static void put(const Vec3& v, ld* p) { for (int i = 0; i < 3; ++i) p[i] = v.a[i]; }
    static Vec3 nan() { double q = std::numeric_limits<double>::quiet_NaN(); return Vec3(q, q, q); }
    static ld eps() { return std::numeric_limits<double>::epsilon(); }
    static ld rnd(ld v) { return ld(double(v)); }
};

template <> struct VT<Hook> {
    enum { nc = 1, has_deriv = 0 };
    static Hook get(const ld* p) { return Hook(double(p[0])); }
    static void put(const Hook& v, ld* p) { p[0] = v.a; }
    static Hook nan() { return Hook(std::numeric_limits<double>::quiet_NaN()); }
    static ld eps() { return std::numeric_limits<double>::epsilon(); }
    static ld rnd(ld v) { return ld(double(v)); }
};

template <class U> std::vector<U>& coord_store(int d) {
    static thread_local std::vector<U> s[MAXD];
    return s[d];
}
// argument for one axis: (min, max) or (begin, end)
template <class U, bool uni> struct AxArg {
    typedef std::pair<U, U> type;
    static type get(const Spec& s, int d) { return type(U(s.x[d].front()), U(s.x[d].back())); }
};
template <class U> struct AxArg<U, false> {
    typedef typename std::vector<U>::const_iterator It;
    typedef std::pair<It, It> type;
    static type get(const Spec& s, int d) {
        std::vector<U>& v = coord_store<U>(d);
        v.clear();
        for (ld x : s.x[d]) v.push_back(U(x));
        return type(v.cbegin(), v.cend());
    }
};

// the same axis in other types: kind 0 integers / deque, kind 1 long double
template <class U, bool uni, int kind> struct AxArg2 {
    typedef typename std::conditional<kind == 0, int, long double>::type V;
    typedef std::pair<V, V> type;
    static bool can(const Spec& s, int d) {
        return kind == 1 || (std::fabs(double(s.x[d].front())) < 1e6 && std::fabs(double(s.x[d].back())) < 1e6 && ld(int(s.x[d].front())) == s.x[d].front() && ld(int(s.x[d].back())) == s.x[d].back());
    }
    static type get(const Spec& s, int d) { return type(V(s.x[d].front()), V(s.x[d].back())); }
};
template <class U, int kind> struct AxArg2<U, false, kind> {
    typedef typename std::conditional<kind == 0, std::deque<U>, std::vector<long double>>::type C;
    typedef typename C::iterator It;
    typedef std::pair<It, It> type;
    static bool can(const Spec&, int) { return true; }
    static type get(const Spec& s, int d) {
        static thread_local C st[MAXD];
        st[d].clear();
        for (ld x : s.x[d]) st[d].push_back(U(x));
        return type(st[d].begin(), st[d].end());
    }
};

template <class T, std::size_t D> struct MeshMaker {
    typedef intp::Mesh<T, D> M;
    static std::array<std::size_t, D> dims(const Spec& s) {
        std::array<std::size_t, D> a{};
        for (std::size_t d = 0; d < D; ++d) {
            a[d] = s.n[d];
#ifndef INTP_PERIODIC_NO_DUMMY_POINT
            if (s.periodic[d]) ++a[d];
#endif
        }
        return a;
    }
    static bool same(const M& m, const Spec& s, const Values& v) {
        std::size_t P = s.points(), tot = 1;
        std::array<std::size_t, D> id{};
        std::array<std::size_t, D> dm = dims(s);
        for (std::size_t d = 0; d < D; ++d) tot *= dm[d];
        if (m.size() != tot) return false;
        for (std::size_t q = 0; q < P; ++q) {
            std::size_t rem = q;
            for (std::size_t d = D; d-- > 0;) { id[d] = rem % s.n[d]; rem /= s.n[d]; }
            ld a[MAXC];
            VT<T>::put(m(id), a);
            for (int k = 0; k < v.nc; ++k) if (!(a[k] == VT<T>::rnd(v.v[q * std::size_t(v.nc) + std::size_t(k)]))) return false;
        }
        return true;
    }
    static M make(const Spec& s, const Values& v) {
        std::array<std::size_t, D> dm = dims(s);
        M m{intp::MeshDimension<D>(dm)};
        std::size_t tot = 1;
        for (std::size_t d = 0; d < D; ++d) tot *= dm[d];
        std::array<std::size_t, D> id{};
        for (std::size_t q = 0; q < tot; ++q) {
            std::size_t rem = q, src = 0;
            bool dummy = false;
            for (std::size_t d = D; d-- > 0;) { id[d] = rem % dm[d]; rem /= dm[d]; }
            for (std::size_t d = 0; d < D; ++d) {
                if (id[d] == s.n[d]) dummy = true;
                src = src * s.n[d] + id[d] % s.n[d];
            }
            T val = VT<T>::get(&v.v[src * std::size_t(v.nc)]);
            if (dummy && v.dummy == 1) { T g = VT<T>::get(&v.v[0]); for (int k = 0; k < 5; ++k) { val += val; val -= g; } }
            if (dummy && v.dummy == 2) val = VT<T>::nan();
            m(id) = val;
        }
        return m;
    }
};

template <class T, std::size_t D, std::size_t O, class U, bool CanDeriv> struct DerivCall {
    typedef intp::InterpolationFunction<T, D, O, U> F;
    template <std::size_t... I>
    static T go(const F& f, const ld* x, const std::size_t* r, int form, seq<I...>) {
        std::array<U, D> c{{U(x[I])...}};
        std::array<std::size_t, D> q{{r[I]...}};
        switch (form) {
            case 0: return f.derivative(c, q);
            case 1: return f.derivative(c, int(r[I])...);
            case 2: return f.derivative(std::make_pair(U(x[I]), int(r[I]))...);
            case 3: return f.derivative_at(c, q);
            case 4: return f.derivative_at(c, int(r[I])...);
            default: return f.derivative_at(std::make_pair(U(x[I]), unsigned(r[I]))...);
        }
    }
};
template <class T, std::size_t D, std::size_t O, class U> struct DerivCall<T, D, O, U, false> {
    typedef intp::InterpolationFunction<T, D, O, U> F;
    template <class S> static T go(const F&, const ld*, const std::size_t*, int, S) { throw std::logic_error("no derivative"); }
};

template <class T, std::size_t D, std::size_t O, class U>
struct FnImpl : IFn {
    typedef intp::InterpolationFunction<T, D, O, U> F;
    typedef typename mkseq<D>::type S;
    F f;
    FnImpl() : f() {}
    explicit FnImpl(const F& g) : f(g) {}
    explicit FnImpl(F&& g) : f(std::move(g)) {}
    template <std::size_t... I> T ev(const ld* x, int form, seq<I...>) const {
        std::array<U, D> c{{U(x[I])...}};
        switch (form) {
            case 0: return f(c);
            case 1: return f(U(x[I])...);
            case 2: return f.at(c);
            case 4: return f(static_cast<long double>(x[I])...);
            case 5: return f.at(static_cast<long double>(x[I])...);
            case 6: case 7: {
                bool whole = true;
                for (std::size_t d = 0; d < D; ++d) whole = whole && std::fabs(double(x[d])) < 1e6 && ld(int(x[d])) == x[d];
                if (whole) return form == 6 ? f(int(x[I])...) : f.at(int(x[I])...);
                return form == 6 ? f(c) : f.at(c);
            }
            default: return f.at(U(x[I])...);
        }
    }
    void eval(const ld* x, int form, ld* out) const override { VT<T>::put(ev(x, form, S()), out); }
    void deriv(const ld* x, const std::size_t* r, int form, ld* out) const override {
        VT<T>::put(DerivCall<T, D, O, U, VT<T>::has_deriv>::go(f, x, r, form, S()), out);
    }
    bool periodicity(int d) const override { return f.periodicity(std::size_t(d)); }
    bool uniform(int d) const override { return f.uniform(std::size_t(d)); }
    void range(int d, ld& lo, ld& hi) const override {
        lo = f.range(std::size_t(d)).first;
        hi = f.range(std::size_t(d)).second;
    }
    std::size_t get_order() const override { return F::get_order(); }
    IFn* clone(int how) const override {
        if (how == 0) return new FnImpl(f);
        if (how == 1) { F g(f); return new FnImpl(std::move(g)); }
        if (how == 2) { std::unique_ptr<FnImpl> p(new FnImpl()); p->f = f; return p.release(); }
        F g(f);
        std::unique_ptr<FnImpl> p(new FnImpl());
        p->f = std::move(g);
        return p.release();
    }
    void assign(const IFn& o) override { f = static_cast<const FnImpl&>(o).f; }
    void assign_move(IFn& o) override { f = std::move(static_cast<FnImpl&>(o).f); }
    const void* ctrl_data() const override { return f.spline().control_points().data(); }
};

#ifdef INTP_CELL_LAYOUT
template <class T, std::size_t D, std::size_t O, class U>
struct ProxyImpl : IProxy {
    typedef typename intp::InterpolationFunctionTemplate<T, D, O, U>::eval_proxy_t P;
    P p;
    explicit ProxyImpl(const P& q) : p(q) {}
    void call(const IFn& g, ld* out) const override {
        VT<T>::put(p(static_cast<const FnImpl<T, D, O, U>&>(g).f), out);
    }
    IProxy* clone() const override { return new ProxyImpl(p); }
};
#endif

// a one-dimensional template also takes a pair of iterators
template <class T, std::size_t D, std::size_t O, class U> struct IterForms {
    typedef intp::InterpolationFunctionTemplate<T, D, O, U> P;
    typedef intp::InterpolationFunction<T, D, O, U> F;
    enum { ok = 0 };
    static F make(const P& t, const intp::Mesh<T, D>& m, int) { return t.interpolate(m); }
    static F eat(P& t, const intp::Mesh<T, D>& m) { return std::move(t).interpolate(m); }
    static void into(const P& t, F& f, const intp::Mesh<T, D>& m) { t.interpolate(f, m); }
};
template <class T, std::size_t O, class U> struct IterForms<T, 1, O, U> {
    typedef intp::InterpolationFunctionTemplate<T, 1, O, U> P;
    typedef intp::InterpolationFunction<T, 1, O, U> F;
    enum { ok = 1 };
    static F make(const P& t, const intp::Mesh<T, 1>& m, int how) {
        if (how == 3) { const std::vector<T> v(m.begin(), m.end()); return t.interpolate(std::make_pair(v.begin(), v.end())); }
        if (how == 4) { const std::vector<T> v(m.begin(), m.end()); const std::pair<const T*, const T*> q(v.data(), v.data() + v.size()); return t.interpolate(q); }
        const std::list<T> v(m.begin(), m.end());
        return t.interpolate(std::make_pair(v.begin(), v.end()));
    }
    static F eat(P& t, const intp::Mesh<T, 1>& m) { std::vector<T> v(m.begin(), m.end()); return std::move(t).interpolate(std::make_pair(v.begin(), v.end())); }
    static void into(const P& t, F& f, const intp::Mesh<T, 1>& m) { std::vector<T> v(m.begin(), m.end()); t.interpolate(f, std::make_pair(v.begin(), v.end())); }
};
template <class P, bool = std::is_copy_assignable<P>::value> struct TplAssign {
    static void copy(P& a, const P& b) { a = b; }
    static void move(P& a, P& b) { a = std::move(b); }
    enum { ok = 1 };
};
template <class P> struct TplAssign<P, false> {
    static void copy(P&, const P&) {}
    static void move(P&, P&) {}
    enum { ok = 0 };
};

template <class T, std::size_t D, std::size_t O, class U>
struct TplImpl : ITpl {
    typedef intp::InterpolationFunctionTemplate<T, D, O, U> P;
    typedef FnImpl<T, D, O, U> Fn;
    P t;
    Spec s;
    TplImpl(P&& q, const Spec& sp) : t(std::move(q)), s(sp) {}
    TplImpl(const P& q, const Spec& sp) : t(q), s(sp) {}
    IFn* make(const Values& v, int how) const override {
        intp::Mesh<T, D> m = MeshMaker<T, D>::make(s, v);
        if (how == 2) return new Fn(t.interpolate(std::move(m)));
        if (how > 2) return new Fn(IterForms<T, D, O, U>::make(t, m, how));
        struct Watch {   // the user's mesh must come out as it went in
            const intp::Mesh<T, D>& m; const Spec& s; const Values& v;
            ~Watch() { if (!MeshMaker<T, D>::same(m, s, v)) mesh_modified() = true; }
        } watch = {m, s, v};
        if (how == 0) return new Fn(t.interpolate(m));
        const intp::Mesh<T, D>& cm = m;
        return new Fn(t.interpolate(cm));
    }
    IFn* make_consume(const Values& v, int how) override {
        intp::Mesh<T, D> m = MeshMaker<T, D>::make(s, v);
        if (how == 1) return new Fn(std::move(t).interpolate(std::move(m)));
        if (how == 2) return new Fn(IterForms<T, D, O, U>::eat(t, m));
        return new Fn(std::move(t).interpolate(m));
    }
    void make_into(IFn& f, const Values& v, int how) const override {
        if (how == 0) { t.interpolate(static_cast<Fn&>(f).f, MeshMaker<T, D>::make(s, v)); return; }
        intp::Mesh<T, D> m = MeshMaker<T, D>::make(s, v);
        if (how == 1) {
            t.interpolate(static_cast<Fn&>(f).f, m);
            if (!MeshMaker<T, D>::same(m, s, v)) mesh_modified() = true;
        } else IterForms<T, D, O, U>::into(t, static_cast<Fn&>(f).f, m);
    }
    bool assign(const ITpl& o, int how) override {
        const TplImpl& q = static_cast<const TplImpl&>(o);
        if (!TplAssign<P>::ok) return false;
        if (how == 0) TplAssign<P>::copy(t, q.t);
        else { P c(q.t); TplAssign<P>::move(t, c); }
        s = q.s;
        return true;
    }
    ITpl* clone(int how) const override {
        if (how == 0) return new TplImpl(t, s);
        P q(t);
        return new TplImpl(std::move(q), s);
    }
#ifdef INTP_CELL_LAYOUT
    template <std::size_t... I> IProxy* px(const ld* x, int form, seq<I...>) const {
        std::array<U, D> c{{U(x[I])...}};
        if (form == 0) return new ProxyImpl<T, D, O, U>(t.eval_proxy(c));
        return new ProxyImpl<T, D, O, U>(t.eval_proxy(U(x[I])...));
    }
    IProxy* proxy(const ld* x, int form) const override { return px(x, form, typename mkseq<D>::type()); }
#else
    IProxy* proxy(const ld*, int) const override { return nullptr; }
#endif
};

template <class T, std::size_t O, class U, unsigned M, bool one> struct OneD {
    static IFn* go(const Spec&, const Values&, int) { return nullptr; }
    static ITpl* tpl(const Spec&, int) { return nullptr; }
};
// one-dimensional convenience interfaces
template <class T, std::size_t O, class U, unsigned M> struct OneD<T, O, U, M, true> {
    typedef FnImpl<T, 1, O, U> Fn;
    typedef intp::InterpolationFunction<T, 1, O, U> F;
    typedef AxArg<U, (M & 1) != 0> A;
    static std::vector<T> flat(const Spec& s, const Values& v) {
        intp::Mesh<T, 1> m = MeshMaker<T, 1>::make(s, v);
        return std::vector<T>(m.begin(), m.end());
    }
    static IFn* uni(const Spec& s, const Values& v, int path, std::true_type) {
        std::vector<T> f = flat(s, v);
        std::pair<U, U> a = AxArg<U, true>::get(s, 0);
        bool canon = a.first == 0 && a.second == U(s.x[0].size() - 1);
        if (path == 0) {
            return new Fn(F(s.periodic[0], std::make_pair(f.cbegin(), f.cend()), a));
        }
        if (path == 1 && !s.periodic[0]) {
            if (U(double(a.second)) == a.second)
                return new Fn(F(std::make_pair(f.begin(), f.end()), std::make_pair(a.first, double(a.second))));
            return new Fn(F(std::make_pair(f.begin(), f.end()), a));
        }
        if (canon && path != 3)
            return new Fn(static_cast<const F&>(intp::InterpolationFunction1D<O, T, U>(std::make_pair(f.begin(), f.end()), s.periodic[0])));
        return new Fn(static_cast<const F&>(intp::InterpolationFunction1D<O, T, U>(a, std::make_pair(f.begin(), f.end()), s.periodic[0])));
    }
    static IFn* uni(const Spec& s, const Values& v, int path, std::false_type) {
        // other iterator categories for coordinates
        std::vector<T> f = flat(s, v);
        intp::Mesh<T, 1> m = MeshMaker<T, 1>::make(s, v);
        std::array<bool, 1> p{{s.periodic[0]}};
        std::vector<U> c;
        for (ld x : s.x[0]) c.push_back(U(x));
        if (path == 0) {
            std::list<U> l(c.begin(), c.end());
            return new Fn(F(p, m, std::make_pair(l.cbegin(), l.cend())));
        }
        if (path == 1) {
            std::stringstream ss;
            ss.precision(40);
            for (U x : c) ss << x << ' ';
            std::istream_iterator<U> b(ss), e;
            return new Fn(F(p, m, std::make_pair(b, e)));
        }
        if (path == 2) {
            const U* b = c.data();
            return new Fn(F(p, m, std::make_pair(b, b + c.size())));
        }
        return new Fn(F(s.periodic[0], std::make_pair(f.cbegin(), f.cend()), std::make_pair(c.cbegin(), c.cend())));
    }
    static IFn* go(const Spec& s, const Values& v, int path) {
        return uni(s, v, path, std::integral_constant<bool, (M & 1) != 0>());
    }
    static ITpl* tplu(const Spec& s, int path, std::true_type) {
        typedef intp::InterpolationFunctionTemplate<T, 1, O, U> P;
        std::pair<U, U> a = AxArg<U, true>::get(s, 0);
        bool canon = a.first == 0 && a.second == U(s.x[0].size() - 1);
        std::size_t len = MeshMaker<T, 1>::dims(s)[0];
        if (path == 0) return new TplImpl<T, 1, O, U>(P(s.periodic[0], len, a), s);
        if (path == 1 && !s.periodic[0]) return new TplImpl<T, 1, O, U>(P(len, a), s);
        if (canon) return new TplImpl<T, 1, O, U>(static_cast<const P&>(intp::InterpolationFunctionTemplate1D<O, T, U>(len, s.periodic[0])), s);
        return new TplImpl<T, 1, O, U>(static_cast<const P&>(intp::InterpolationFunctionTemplate1D<O, T, U>(a, len, s.periodic[0])), s);
    }
    static ITpl* tplu(const Spec&, int, std::false_type) { return nullptr; }
    static ITpl* tpl(const Spec& s, int path) { return tplu(s, path, std::integral_constant<bool, (M & 1) != 0>()); }
};

template <class T, std::size_t D, std::size_t O, class U, unsigned M>
struct Maker {
    typedef intp::InterpolationFunction<T, D, O, U> F;
    typedef intp::InterpolationFunctionTemplate<T, D, O, U> P;
    typedef FnImpl<T, D, O, U> Fn;
    typedef typename mkseq<D>::type S;
    static std::array<bool, D> per(const Spec& s) {
        std::array<bool, D> a{};
        for (std::size_t d = 0; d < D; ++d) a[d] = s.periodic[d];
        return a;
    }
    template <std::size_t... I> static P mkT(const Spec& s, int path, seq<I...>) {
        std::array<std::size_t, D> dm = MeshMaker<T, D>::dims(s);
        bool any = false;
        for (std::size_t d = 0; d < D; ++d) any = any || s.periodic[d];
        if (path == 1 && !any) return P(intp::MeshDimension<D>(dm), AxArg<U, (M >> I & 1) != 0>::get(s, int(I))...);
        return P(per(s), intp::MeshDimension<D>(dm), AxArg<U, (M >> I & 1) != 0>::get(s, int(I))...);
    }
    template <std::size_t... I> static IFn* mk(const Spec& s, const Values& v, int path, seq<I...> q) {
        if (path >= 8) {
            IFn* r = OneD<T, O, U, M, D == 1>::go(s, v, path - 8);
            if (r) return r;
            path %= 8;
        }
        bool any = false;
        for (std::size_t d = 0; d < D; ++d) any = any || s.periodic[d];
        const intp::Mesh<T, D> m = MeshMaker<T, D>::make(s, v);
        switch (path) {
            case 1: { const P t(mkT(s, 0, q)); return new Fn(t.interpolate(m)); }
            case 2: return new Fn(mkT(s, 0, q).interpolate(m));
            case 3: { const P t(mkT(s, 1, q)); std::unique_ptr<Fn> r(new Fn()); t.interpolate(r->f, m); return r.release(); }
            case 4: if (!any) return new Fn(F(m, AxArg<U, (M >> I & 1) != 0>::get(s, int(I))...)); break;
            case 5: { P a(mkT(s, 0, q)); P b(a); return new Fn(std::move(b).interpolate(m)); }
            case 6: { bool can[] = {AxArg2<U, (M >> I & 1) != 0, 0>::can(s, int(I))...}; bool all = true; for (bool b : can) all = all && b; if (all) return new Fn(F(per(s), m, AxArg2<U, (M >> I & 1) != 0, 0>::get(s, int(I))...)); break; }
            case 7: return new Fn(F(per(s), m, AxArg2<U, (M >> I & 1) != 0, 1>::get(s, int(I))...));
            default: break;
        }
        return new Fn(F(per(s), m, AxArg<U, (M >> I & 1) != 0>::get(s, int(I))...));
    }
    static IFn* make(const Spec& s, const Values& v, int path) { return mk(s, v, path, S()); }
    static ITpl* tpl(const Spec& s, int path) {
        if (path >= 8) {
            ITpl* r = OneD<T, O, U, M, D == 1>::tpl(s, path - 8);
            if (r) return r;
            path %= 8;
        }
        return new TplImpl<T, D, O, U>(mkT(s, path, S()), s);
    }
};
template <class U> ld rc(ld x) { return ld(U(x)); }

template <class T, std::size_t D, std::size_t O, class U, unsigned M>
struct Reg {
    Reg(const char* name, int kind) {
        Inst i;
        i.D = int(D); i.O = int(O); i.umask = M; i.nc = VT<T>::nc; i.tname = name;
        i.epsT = VT<T>::eps(); i.epsU = std::numeric_limits<U>::epsilon();
        i.has_deriv = VT<T>::has_deriv; i.tkind = kind;
        i.make = &Maker<T, D, O, U, M>::make;
        i.tpl = &Maker<T, D, O, U, M>::tpl;
        i.round_coord = &rc<U>;
        i.round_val = &VT<T>::rnd;
        registry().push_back(i);
    }
};
}  // namespace va
#endif
