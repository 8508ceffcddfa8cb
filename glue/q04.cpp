// 2D lookup tables
#include <utility>
#include <vector>
#include "vp.hpp"
#include "vpstd.hpp"
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
using VEC = picsar_vector<REAL>;
using TAB = lookup_2d<REAL>;
static void look(const TAB &t, REAL x, REAL y, int eq, int what, int n1, int n2)
{
    vp::outi("init", t.is_init());
    if (what == 0)
        vp::out("r", eq ? t.interp_linear_equispaced(x, y) : t.interp_linear(x, y));
    else if (what == 1)
        for (int j = 0; j < n2; j++)
            vp::out("r", t.interp_linear_first(x, j));
    else if (what == 2)
        for (int j = 0; j < n2; j++)
            vp::out("r", t.interp_linear_first_equispaced(x, j));
    else
        for (int i = 0; i < n1; i++)
            for (int j = 0; j < n2; j++)
                vp::out("r", t.data_at_coords(i, j));
    const auto &rc = t.ref_coords();
    vp::out("c1", rc[0].data(), (int)rc[0].size());
    vp::out("c2", rc[1].data(), (int)rc[1].size());
}
extern "C" void VP_ENTRY()
{
    int n1 = vp::cfg("n1"), n2 = vp::cfg("n2"), how = vp::cfg("how"), eq = vp::cfg("eq"), what = vp::cfg("what");
    picsar_array<VEC, 2> c{VEC((size_t)n1), VEC((size_t)n2)};
    VEC d((size_t)(n1 * n2));
    for (int i = 0; i < n1; i++)
        c[0][i] = vp::sym<REAL>("c1", i);
    for (int i = 0; i < n2; i++)
        c[1][i] = vp::sym<REAL>("c2", i);
    for (int i = 0; i < n1 * n2; i++)
        d[i] = vp::sym<REAL>("d", i);
    REAL x = vp::sym<REAL>("x"), y = vp::sym<REAL>("y");
    TAB none;
    vp::outi("none", none.is_init());
    if (how == 0) {
        look(TAB(c, d), x, y, eq, what, n1, n2);
    } else if (how == 1) {
        TAB a(c, d);
        TAB b(a);
        a.ref_data()[0] = 77;
        a.ref_coords()[1][1] = 78;
        a.ref_coords()[0][0] = 79;
        look(b, x, y, eq, what, n1, n2);
        vp::out("src", a.data_at_coords(0, 0));
    } else if (how == 2) {
        TAB a(c, d);
        TAB b(std::move(a));
        look(b, x, y, eq, what, n1, n2);
    } else if (how == 3) {
        TAB a(c, d);
        VEC s((size_t)2), sd((size_t)4);
        s[0] = 0; s[1] = 1;
        for (int i = 0; i < 4; i++) sd[i] = i;
        TAB b(picsar_array<VEC, 2>{s, s}, sd);
        b = a;
        a.ref_data()[n1 * n2 - 1] = 77;
        a.ref_coords()[1][0] = 78;
        look(b, x, y, eq, what, n1, n2);
    } else if (how == 4) {
        TAB b(n1, c[0].data(), n2, c[1].data(), d.data());
        REAL keep = d[n2];
        d[n2] = 5;
        vp::out("raw", b.data_at_coords(1, 0));
        d[n2] = keep;
        look(b, x, y, eq, what, n1, n2);
    } else if (how == 5) {
        TAB a(c, d), b;
        b = a;
        TAB &r = b;
        b = r;
        auto g = b.get_coords();
        g[0][0] = 99;
        g[1][0] = 99;
        look(b, x, y, eq, what, n1, n2);
        vp::out("gd", b.ref_data().data(), (int)b.ref_data().size());
    } else if (how == 7 || how == 8) {
        // deep copies of a table referring to raw arrays
        TAB b(n1, c[0].data(), n2, c[1].data(), d.data());
        vp::outi("vs", (int)b.ref_data().size());
        TAB a;
        if (how == 8)
            a = b;
        TAB e(b), &r = how == 7 ? e : a;
        REAL keep[3] = {d[0], c[0][0], c[1][0]};
        d[0] = 77; c[0][0] = 78; c[1][0] = 79;
        look(r, x, y, eq, what, n1, n2);
        vp::out("gd", r.ref_data().data(), (int)r.ref_data().size());
        d[0] = keep[0]; c[0][0] = keep[1]; c[1][0] = keep[2];
    } else if (how == 9 || how == 10) {
        // through a stream which holds another table as well; 10: over a table which has data
        TAB a(c, d);
        VEC s((size_t)1), s2((size_t)2);
        s[0] = 2; s2[0] = 3; s2[1] = 4;
        picsar_array<VEC, 2> sc{s, s2};
        TAB o(sc, s2), b, z(sc, s2);
        std::ofstream w("vp_t.bin", std::ios::binary);
        if (how == 9) o.write_on_stream_bin(w);
        a.write_on_stream_bin(w);
        if (how == 10) o.write_on_stream_bin(w);
        w.close();
        std::ifstream r("vp_t.bin", std::ios::binary);
        if (how == 9) o.read_from_stream_bin(r);
        (how == 9 ? b : z).read_from_stream_bin(r);
        if (how == 10) o.read_from_stream_bin(r);
        vp::outi("src2", a.is_init());
        vp::outi("src2", o.is_init());
        vp::out("o", o.ref_coords()[0].data(), (int)o.ref_coords()[0].size());
        vp::out("o", o.ref_coords()[1].data(), (int)o.ref_coords()[1].size());
        vp::out("o", o.ref_data().data(), (int)o.ref_data().size());
        TAB &u = how == 9 ? b : z;
        look(u, x, y, eq, what, n1, n2);
        vp::out("gd", u.ref_data().data(), (int)u.ref_data().size());
    } else if (how == 11) {
        // a file which ends inside a table, or does not exist
        TAB a(c, d), b(c, d), e;
        std::ofstream w("vp_t.bin", std::ios::binary);
        size_t k1 = n1, k2 = n2, k = n1 * n2;
        w.write(reinterpret_cast<char *>(&k1), sizeof(k1));
        w.write(reinterpret_cast<char *>(c[0].data()), sizeof(REAL) * n1);
        w.write(reinterpret_cast<char *>(&k2), sizeof(k2));
        w.write(reinterpret_cast<char *>(c[1].data()), sizeof(REAL) * n2);
        w.write(reinterpret_cast<char *>(&k), sizeof(k));
        w.write(reinterpret_cast<char *>(d.data()), sizeof(REAL) * (k - 1));
        w.close();
        std::ifstream r("vp_t.bin", std::ios::binary), q("vp_none.bin", std::ios::binary);
        b.read_from_stream_bin(r);
        a.read_from_stream_bin(q);
        e.read_from_stream_bin(r);
        vp::outi("un", b.is_init());
        vp::outi("un", a.is_init());
        vp::outi("un", e.is_init());
    } else {
        TAB b(none), a(c, d);
        a = none;
        TAB m(std::move(none));
        vp::outi("un", b.is_init());
        vp::outi("un", a.is_init());
        vp::outi("un", m.is_init());
    }
}
