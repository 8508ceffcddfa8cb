// Breit-Wheeler: pair generation (GPU-style core function)
#define PXRMP_CORE_ONLY
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
struct RNG { REAL unf(REAL a, REAL b) { return a; } REAL exp(REAL l) { return l; } };
using ENG = breit_wheeler_engine<REAL, RNG>;
extern "C" void VP_ENTRY()
{
    int n = vp::cfg("n"), np = vp::cfg("np"), ns = vp::cfg("ns");
    breit_wheeler_engine_ctrl<REAL> ct;
    ct.chi_phot_tpair_min = vp::cfgr("tmin");
    ct.chi_phot_tpair_max = vp::cfgr("tmax");
    // the rate table of the engine has other limits: they must not matter here
    ct.chi_phot_tdndt_min = 1e-9;
    ct.chi_phot_tdndt_max = 1e9;
    picsar_array<picsar_vector<REAL>, 2> c{picsar_vector<REAL>((size_t)n), picsar_vector<REAL>((size_t)np)};
    picsar_vector<REAL> d((size_t)(n * np));
    REAL l0 = std::log(ct.chi_phot_tpair_min), l1 = std::log(ct.chi_phot_tpair_max);
    for (int i = 0; i < n; i++)
        c[0][i] = l0 + (l1 - l0) * i / (n - 1);
    c[0][n - 1] = l1;
    for (int i = 0; i < np; i++)
        c[1][i] = (REAL)i / (2 * (np - 1));
    for (int i = 0; i < n * np; i++)
        d[i] = vp::sym<REAL>("d", i);
    lookup_2d<REAL> tab(c, d);
    REAL lam = vp::sym<REAL>("lam"), v[9], u[8], g[6][8], w[2][8];
    vp::symv<REAL>("v", v, 9);
    vp::symv<REAL>("u", u, ns);
    for (int i = 0; i < 8; i++) {
        w[0][i] = w[1][i] = 7;
        for (int j = 0; j < 6; j++)
            g[j][i] = 7;
    }
    vp::out("chi", chi_photon<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], lam));
    bool ok = ENG::internal_generate_breit_wheeler_pairs(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], vp::sym<REAL>("weight"), ns,
                                                         g[0], g[1], g[2], g[3], g[4], g[5], w[0], w[1], lam, tab, ct, u);
    vp::outi("ok", ok);
    for (int s = 0; s < ns; s++) {
        REAL q[6] = {g[0][s], g[1][s], g[2][s], g[3][s], g[4][s], g[5][s]};
        vp::out("g", q, 6);
    }
    vp::out("w", w[0], ns);
    vp::out("w", w[1], ns);
    REAL ex[8] = {g[0][ns], g[1][ns], g[2][ns], g[3][ns], g[4][ns], g[5][ns], w[0][ns], w[1][ns]};
    vp::out("beyond", ex, 8);
}
