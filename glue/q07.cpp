// quantum synchrotron: photon generation and recoil (GPU-style core function)
#define PXRMP_CORE_ONLY
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
struct RNG { REAL unf(REAL a, REAL b) { return a; } REAL exp(REAL l) { return l; } };
using ENG = quantum_synchrotron_engine<REAL, RNG>;
extern "C" void VP_ENTRY()
{
    int n = vp::cfg("n"), np = vp::cfg("np"), ns = vp::cfg("ns");
    quantum_synchrotron_engine_ctrl<REAL> ct;
    ct.chi_part_tem_min = vp::cfgr("tmin");
    ct.chi_part_tem_max = vp::cfgr("tmax");
    // the rate table of the engine has other limits: they must not matter here
    ct.chi_part_tdndt_min = 1e-9;
    ct.chi_part_tdndt_max = 1e9;
    picsar_array<picsar_vector<REAL>, 2> c{picsar_vector<REAL>((size_t)n), picsar_vector<REAL>((size_t)np)};
    picsar_vector<REAL> d((size_t)(n * np));
    REAL l0 = std::log(ct.chi_part_tem_min), l1 = std::log(ct.chi_part_tem_max);
    for (int i = 0; i < n; i++)
        c[0][i] = l0 + (l1 - l0) * i / (n - 1);
    c[0][n - 1] = l1;
    for (int i = 0; i < np; i++)
        c[1][i] = (REAL)i / (np - 1);
    for (int i = 0; i < n * np; i++)
        d[i] = vp::sym<REAL>("d", i);
    lookup_2d<REAL> tab(c, d);
    REAL lam = vp::sym<REAL>("lam"), v[9], u[8], g[3][8], w[8];
    vp::symv<REAL>("v", v, 9);
    vp::symv<REAL>("u", u, ns);
    for (int i = 0; i < 8; i++)
        g[0][i] = g[1][i] = g[2][i] = w[i] = 7;
    vp::out("chi", chi_lepton<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], lam));
    bool ok = ENG::internal_generate_photons_and_update_momentum(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], vp::sym<REAL>("weight"), ns,
                                                                 g[0], g[1], g[2], w, lam, tab, ct, u);
    vp::outi("ok", ok);
    vp::out("p", v, 3);
    for (int s = 0; s < ns; s++) {
        REAL q[3] = {g[0][s], g[1][s], g[2][s]};
        vp::out("g", q, 3);
    }
    vp::out("w", w, ns);
    REAL ex[4] = {g[0][ns], g[1][ns], g[2][ns], w[ns]};
    vp::out("beyond", ex, 4);
}
