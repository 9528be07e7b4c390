// Type-erased view of the library under test. C++11, no library include: the
// monitors are compiled once and linked against one set of instantiations per
// build configuration.
#ifndef V_IFACE_HPP
#define V_IFACE_HPP
#include <array>
#include <atomic>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>

typedef long double ld;
enum { MAXD = 5, MAXC = 3 };

// What is to be interpolated. x[d] holds the n[d] data coordinates, plus the
// closing coordinate (first image of the first one) for periodic axes.
struct Spec {
    int D, order;
    bool periodic[MAXD];
    bool uniform[MAXD];
    std::size_t n[MAXD];
    std::vector<ld> x[MAXD];
    std::size_t points() const {
        std::size_t s = 1;
        for (int d = 0; d < D; ++d) s *= n[d];
        return s;
    }
};

// Row-major values on the n[0] x n[1] x ... data points, nc components each.
struct Values {
    int nc;
    std::vector<ld> v;
    // what is stored at the dummy points of periodic axes: 0 copy of the first
    // value, 1 garbage, 2 NaN
    int dummy;
};

struct IFn {
    virtual ~IFn() {}
    virtual void eval(const ld* x, int form, ld* out) const = 0;
    virtual void deriv(const ld* x, const std::size_t* r, int form,
                       ld* out) const = 0;
    virtual bool periodicity(int d) const = 0;
    virtual bool uniform(int d) const = 0;
    virtual void range(int d, ld& lo, ld& hi) const = 0;
    virtual std::size_t get_order() const = 0;
    virtual IFn* clone(int how) const = 0;          // copy / move / assign
    virtual void assign(const IFn& o) = 0;          // same dynamic type
    virtual void assign_move(IFn& o) = 0;
    virtual const void* ctrl_data() const = 0;      // control point storage
};

struct IProxy {
    virtual ~IProxy() {}
    virtual void call(const IFn& f, ld* out) const = 0;
    virtual IProxy* clone() const = 0;
};

struct ITpl {
    virtual ~ITpl() {}
    virtual IFn* make(const Values& v, int how) const = 0;
    virtual IFn* make_consume(const Values& v, int how = 0) = 0;  // rvalue interpolate
    virtual void make_into(IFn& f, const Values& v, int how = 0) const = 0;
    virtual bool assign(const ITpl& o, int how) = 0;  // same dynamic type; false: not assignable
    virtual ITpl* clone(int how) const = 0;
    virtual IProxy* proxy(const ld* x, int form) const = 0;  // null: no cells
};

struct Inst {
    int D, O;
    unsigned umask;   // bit d set: axis d uniform
    int nc;
    const char* tname;
    ld epsT, epsU;
    bool has_deriv;
    int tkind;        // 0 double/double, 1 float/float, 2 complex, 3 vec, 4 ld, 5 float val/double coord, 6 double val/float coord
    IFn* (*make)(const Spec&, const Values&, int path);
    ITpl* (*tpl)(const Spec&, int path);
    ld (*round_coord)(ld);
    ld (*round_val)(ld);
};

struct ConfigInfo {
    const char* name;
    bool dummy, cell, mt, assertion;
    long cplusplus;
};

std::vector<Inst>& registry();
std::atomic<bool>& mesh_modified();  // a mesh passed by lvalue was changed
ConfigInfo config_info();
#endif
