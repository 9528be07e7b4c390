// The build configuration as seen by the programs.
#include "iface.hpp"
std::vector<Inst>& registry() { static std::vector<Inst> r; return r; }
std::atomic<bool>& mesh_modified() { static std::atomic<bool> b(false); return b; }
ConfigInfo config_info() {
    ConfigInfo c;
    c.name = V_CONFIG_NAME;
    c.dummy = true; c.cell = c.mt = c.assertion = false;
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
    c.dummy = false;
#endif
#ifdef INTP_CELL_LAYOUT
    c.cell = true;
#endif
#ifdef INTP_MULTITHREAD
    c.mt = true;
#endif
#if defined(INTP_ENABLE_ASSERTION) || defined(INTP_DEBUG)
    c.assertion = true;
#endif
    c.cplusplus = __cplusplus;
    return c;
}
