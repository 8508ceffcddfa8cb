// quantum synchrotron engine: the full class
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "vpstd.hpp"
#include "quantum_sync_engine.hpp"
#define CTRL quantum_synchrotron_engine_ctrl<REAL>
#define ENG0 quantum_synchrotron_engine
#include "engine.hpp"
static void control(CTRL &ct)
{
    ct.chi_part_min = 0.01;
    ct.chi_part_tdndt_min = vp::cfgr("dmin");
    ct.chi_part_tdndt_max = vp::cfgr("dmax");
    ct.chi_part_tdndt_how_many = vp::cfg("dn");
    ct.chi_part_tem_min = vp::cfgr("tmin");
    ct.chi_part_tem_max = vp::cfgr("tmax");
    ct.chi_part_tem_how_many = vp::cfg("tn");
    ct.prob_tem_how_many = vp::cfg("np");
}
static void fill(quantum_synchrotron_innards<REAL, RNG> &in)
{
    in.KKfunc_table_coords_how_many = dn;
    in.KKfunc_table_coords_ptr = dc;
    in.KKfunc_table_data_how_many = dn;
    in.KKfunc_table_data_ptr = dd;
    in.cum_distrib_table_coords_1_how_many = tn;
    in.cum_distrib_table_coords_1_ptr = tc;
    in.cum_distrib_table_coords_2_how_many = np;
    in.cum_distrib_table_coords_2_ptr = tp;
    in.cum_distrib_table_data_how_many = tn * np;
    in.cum_distrib_table_data_ptr = td;
}
static void show(quantum_synchrotron_innards<REAL, RNG> in)
{
    vp::out("lambda", in.lambda);
    vp::outi("sizes", (int)in.KKfunc_table_coords_how_many);
    vp::outi("sizes", (int)in.KKfunc_table_data_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_coords_1_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_coords_2_how_many);
    vp::outi("sizes", (int)in.cum_distrib_table_data_how_many);
    many("dc", in.KKfunc_table_coords_ptr, in.KKfunc_table_coords_how_many);
    many("dd", in.KKfunc_table_data_ptr, in.KKfunc_table_data_how_many);
    many("tc", in.cum_distrib_table_coords_1_ptr, in.cum_distrib_table_coords_1_how_many);
    many("tp", in.cum_distrib_table_coords_2_ptr, in.cum_distrib_table_coords_2_how_many);
    many("td", in.cum_distrib_table_data_ptr, in.cum_distrib_table_data_how_many);
    CTRL c = in.qs_ctrl;
    REAL x[5] = {c.chi_part_min, c.chi_part_tdndt_min, c.chi_part_tdndt_max, c.chi_part_tem_min, c.chi_part_tem_max};
    vp::out("ctrl", x, 5);
    vp::outi("ctrln", (int)c.chi_part_tdndt_how_many);
    vp::outi("ctrln", (int)c.chi_part_tem_how_many);
    vp::outi("ctrln", (int)c.prob_tem_how_many);
}
using INN = quantum_synchrotron_innards<REAL, RNG>;
static void setctrl(INN &in, const CTRL &c) { in.qs_ctrl = c; }
static REAL cumul(const ENG &e, REAL a, REAL b) { return e.compute_cumulative_phot_em(a, b); }
static int vt_done() { return boost::math::tools::rootno(); }
static char nostream[1024];
static void cumtable(ENG &e)
{
    vpr_hook() = vt_point_reached;
    e.compute_cumulative_phot_em_table(vp::cfg("ord") == 2 ? reinterpret_cast<std::ostream *>(nostream) : nullptr);
}
static void writecum(ENG &e, const char *n) { e.write_cumulative_phot_em_table(n); }
static void readcum(ENG &e, const char *n) { e.read_cumulative_phot_em_table(n); }
static void generate(ENG &e, REAL *v, REAL w, int ns)
{
    auto r = e.generate_photons_and_update_momentum(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], w, ns);
    vp::outi("n", (int)r.size());
    for (auto &x : r) { vp::out("g", x.first.data(), 3); vp::out("wg", x.second); }
    vp::out("p", v, 3);
}
static void reference(INN &in, REAL *v, REAL w, int ns, const REAL *u, REAL lam)
{
    lookup_2d<REAL> tab(tn, tc, np, tp, td);
    REAL g[3][8], ww[8];
    ENG::internal_generate_photons_and_update_momentum(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], w, ns, g[0], g[1], g[2], ww, lam, tab, in.qs_ctrl, u);
    for (int s = 0; s < ns; s++) { REAL q[3] = {g[0][s], g[1][s], g[2][s]}; vp::out("rg", q, 3); }
    vp::out("wrg", ww, ns);
    vp::out("rp", v, 3);
}
static REAL chi(const REAL *v, REAL lam) { return chi_lepton<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], lam); }
#include "engine_main.hpp"
