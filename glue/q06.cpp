// quantum synchrotron: optical depth and emission rate (GPU-style core functions)
#define PXRMP_CORE_ONLY
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
struct RNG { REAL unf(REAL a, REAL b) { return a; } REAL exp(REAL l) { return l; } };
using ENG = quantum_synchrotron_engine<REAL, RNG>;
extern "C" void VP_ENTRY()
{
    int n = vp::cfg("n"), mode = vp::cfg("mode");
    quantum_synchrotron_engine_ctrl<REAL> ct;
    ct.chi_part_min = vp::cfgr("cmin");
    ct.chi_part_tdndt_min = vp::cfgr("tmin");
    ct.chi_part_tdndt_max = vp::cfgr("tmax");
    if (mode == 0) {
        vp::out("tau", ENG::internal_get_optical_depth(vp::sym<REAL>("u")));
        return;
    }
    picsar_vector<REAL> c((size_t)n), d((size_t)n);
    REAL l0 = std::log(ct.chi_part_tdndt_min), l1 = std::log(ct.chi_part_tdndt_max);
    for (int i = 0; i < n; i++) {
        c[i] = l0 + (l1 - l0) * i / (n - 1);
        d[i] = vp::sym<REAL>("d", i);
    }
    c[n - 1] = l1;
    lookup_1d<REAL> tab(c, d), none;
    REAL lam = vp::sym<REAL>("lam");
    if (mode == 1) {
        REAL e = vp::sym<REAL>("energy"), chi = vp::sym<REAL>("chi");
        vp::out("dndt", ENG::internal_interp_dN_dt(e, chi, tab, ct, lam));
        return;
    }
    REAL v[9];
    vp::symv<REAL>("v", v, 9);
    REAL dt = vp::sym<REAL>("dt"), tau = vp::sym<REAL>("tau"), t0 = tau;
    bool ev = true, evn = true;
    REAL edt = 7, edn = 7;
    vp::out("chi", chi_lepton<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], lam));
    bool ok = ENG::internal_evolve_opt_depth_and_determine_event(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], dt, tau, ev, edt, lam, tab, ct);
    vp::outi("ok", ok);
    vp::outi("ev", ev);
    REAL ed[2] = {edt, dt};
    vp::out("edt", ed, 2);
    vp::out("tau", tau);
    // without a table: nothing happens and the caller is told
    ok = ENG::internal_evolve_opt_depth_and_determine_event(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], dt, t0, evn, edn, lam, none, ct);
    vp::outi("okn", ok);
    vp::outi("evn", evn);
    vp::out("edtn", edn);
    vp::out("taun", t0);
}
