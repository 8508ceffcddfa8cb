// Breit-Wheeler engine: the full class
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "vpstd.hpp"
#include "breit_wheeler_engine.hpp"
#define CTRL breit_wheeler_engine_ctrl<REAL>
#define ENG0 breit_wheeler_engine
#define ASSIGN
#include "engine.hpp"
static void control(CTRL &ct)
{
    ct.chi_phot_min = 0.01;
    ct.chi_phot_tdndt_min = vp::cfgr("dmin");
    ct.chi_phot_tdndt_max = vp::cfgr("dmax");
    ct.chi_phot_tdndt_how_many = vp::cfg("dn");
    ct.chi_phot_tpair_min = vp::cfgr("tmin");
    ct.chi_phot_tpair_max = vp::cfgr("tmax");
    ct.chi_phot_tpair_how_many = vp::cfg("tn");
    ct.chi_frac_tpair_how_many = vp::cfg("np");
}
static void fill(breit_wheeler_innards<REAL, RNG> &in)
{
    in.TTfunc_table_coords_how_many = dn;
    in.TTfunc_table_coords_ptr = dc;
    in.TTfunc_table_data_how_many = dn;
    in.TTfunc_table_data_ptr = dd;
    in.cum_distrib_table_coords_1_how_many = tn;
    in.cum_distrib_table_coords_1_ptr = tc;
    in.cum_distrib_table_coords_2_how_many = np;
    in.cum_distrib_table_coords_2_ptr = tp;
    in.cum_distrib_table_data_how_many = tn * np;
    in.cum_distrib_table_data_ptr = td;
}
static void show(breit_wheeler_innards<REAL, RNG> in)
{
    vp::out("lambda", in.lambda);
    vp::outi("sizes", (int)in.TTfunc_table_coords_how_many);
    vp::outi("sizes", (int)in.TTfunc_table_data_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_coords_1_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_coords_2_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_data_how_many);
    many("dc", in.TTfunc_table_coords_ptr, in.TTfunc_table_coords_how_many);
    many("dd", in.TTfunc_table_data_ptr, in.TTfunc_table_data_how_many);
    many("tc", in.cum_distrib_table_coords_1_ptr, in.cum_distrib_table_coords_1_how_many);
    many("tp", in.cum_distrib_table_coords_2_ptr, in.cum_distrib_table_coords_2_how_many);
    many("td", in.cum_distrib_table_data_ptr, in.cum_distrib_table_data_how_many);
    CTRL c = in.bw_ctrl;
    REAL x[5] = {c.chi_phot_min, c.chi_phot_tdndt_min, c.chi_phot_tdndt_max, c.chi_phot_tpair_min, c.chi_phot_tpair_max};
    vp::out("ctrl", x, 5);
    vp::outi("ctrln", (int)c.chi_phot_tdndt_how_many);
    vp::outi("ctrln", (int)c.chi_phot_tpair_how_many);
    vp::outi("ctrln", (int)c.chi_frac_tpair_how_many);
}
using INN = breit_wheeler_innards<REAL, RNG>;
static void setctrl(INN &in, const CTRL &c) { in.bw_ctrl = c; }
static REAL cumul(const ENG &e, REAL a, REAL b) { return e.compute_cumulative_pair(b, a); }
static int vt_done() { return 0; }
static char nostream[1024];
static void cumtable(ENG &e)
{
    vpq::hook() = vt_point_reached;
    e.compute_cumulative_pair_table(vp::cfg("ord") == 2 ? reinterpret_cast<std::ostream *>(nostream) : nullptr);
}
static void writecum(ENG &e, const char *n) { e.write_cumulative_pair_table(n); }
static void readcum(ENG &e, const char *n) { e.read_cumulative_pair_table(n); }
static void generate(ENG &e, REAL *v, REAL w, int ns)
{
    auto r = e.generate_breit_wheeler_pairs(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], w, ns);
    vp::outi("n", (int)r[0].size());
    vp::outi("n", (int)r[1].size());
    for (auto &x : r[0]) { vp::out("el", x.first.data(), 3); vp::out("wel", x.second); }
    for (auto &x : r[1]) { vp::out("po", x.first.data(), 3); vp::out("wpo", x.second); }
}
static void reference(INN &in, REAL *v, REAL w, int ns, const REAL *u, REAL lam)
{
    lookup_2d<REAL> tab(tn, tc, np, tp, td);
    REAL g[6][8], ww[2][8];
    ENG::internal_generate_breit_wheeler_pairs(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], w, ns, g[0], g[1], g[2], g[3], g[4], g[5], ww[0], ww[1], lam, tab, in.bw_ctrl, u);
    for (int s = 0; s < ns; s++) { REAL q[3] = {g[0][s], g[1][s], g[2][s]}; vp::out("rel", q, 3); }
    for (int s = 0; s < ns; s++) { REAL q[3] = {g[3][s], g[4][s], g[5][s]}; vp::out("rpo", q, 3); }
    vp::out("wrel", ww[0], ns);
    vp::out("wrpo", ww[1], ns);
}
static REAL chi(const REAL *v, REAL lam) { return chi_photon<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], lam); }
#include "engine_main.hpp"
