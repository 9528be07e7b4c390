#ifndef V_GEN_HPP
#define V_GEN_HPP
#include "ref.hpp"
#include "report.hpp"
struct Case {
    const Inst* inst;
    Spec s;
    Values v;
    Ref ref;
    int path;
    std::uint64_t sig;
    std::string desc() const;
};
struct GenOpt {
    int perio = -1;      // -1 any, 0 none, 1 at least one, 2 all
    bool small = false;  // small meshes only (slow oracles / sanitizers)
    bool need_deriv = false;
    bool data = true;
    int size_mode = -1;
    bool dyadic = false;
    bool doubles_only = false;
};
const std::vector<const Inst*>& insts();
// round-robin over instantiations and periodicity patterns, random otherwise;
// returns false if no well conditioned case was found
bool gen_case(Rng& r, long idx, const GenOpt& o, Case& c);
void gen_values(Rng& r, const Inst& in, const Spec& s, Values& v, int kind = -1);
// coordinate of axis d inside the range; kind reports the class of point
ld gen_coord(Rng& r, const Case& c, int d, int& kind);
ld coord_ulp(const Inst& in, ld x, int k);  // k ulps up or down
std::string pt(const ld* x, int D);
#endif
