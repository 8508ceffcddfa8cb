// 1D lookup tables
#include <utility>
#include <vector>
#include "vp.hpp"
#include "vpstd.hpp"
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
using VEC = picsar_vector<REAL>;
using TAB = lookup_1d<REAL>;
static void look(const TAB &t, REAL x, bool eq)
{
    vp::outi("init", t.is_init());
    vp::out("lin", t.interp_linear(x));
    if (eq)
        vp::out("eq", t.interp_linear_equispaced(x));
}
extern "C" void VP_ENTRY()
{
    int n = vp::cfg("n"), how = vp::cfg("how"), eq = vp::cfg("eq");
    VEC c((size_t)n), d((size_t)n);
    for (int i = 0; i < n; i++) {
        c[i] = vp::sym<REAL>("c", i);
        d[i] = vp::sym<REAL>("d", i);
    }
    REAL x = vp::sym<REAL>("x");
    TAB none;
    vp::outi("none", none.is_init());
    if (how == 0) {
        look(TAB(c, d), x, eq);
    } else if (how == 1) {          // copy, then the source changes
        TAB a(c, d);
        TAB b(a);
        a.ref_data()[0] = 77;
        a.ref_coords()[1] = 78;
        look(b, x, eq);
        vp::out("src", a.ref_data()[0]);
    } else if (how == 2) {          // move
        TAB a(c, d);
        TAB b(std::move(a));
        look(b, x, eq);
    } else if (how == 3) {          // assignment over a table of another size, then the source changes
        TAB a(c, d);
        VEC s((size_t)2);
        s[0] = 0; s[1] = 1;
        TAB b(s, s);
        b = a;
        a.ref_data()[n - 1] = 77;
        a.ref_coords()[0] = 78;
        look(b, x, eq);
    } else if (how == 4) {          // raw pointers: sees the owner's data
        TAB b(n, c.data(), d.data());
        REAL keep = d[0];
        d[0] = 5;
        vp::out("raw", b.ref_data()[0]);
        d[0] = keep;
        look(b, x, eq);
    } else if (how == 5) {          // self assignment, assignment to an empty table
        TAB a(c, d), b;
        b = a;
        TAB &r = b;
        b = r;
        look(b, x, eq);
        VEC g = b.get_coords();
        g[0] = 99;
        vp::out("g", b.ref_coords().data(), (int)b.ref_coords().size());
        vp::out("gd", b.ref_data().data(), (int)b.ref_data().size());
    } else if (how == 7 || how == 8) {      // through a stream which holds another table as well; 8: over a table which has data
        TAB a(c, d);
        VEC s((size_t)2);
        s[0] = 3; s[1] = 4;
        TAB o(s, s), b, z(s, s);
        std::ofstream w("vp_t.bin", std::ios::binary);
        if (how == 7) o.write_on_stream_bin(w);
        a.write_on_stream_bin(w);
        if (how == 8) o.write_on_stream_bin(w);
        w.close();
        std::ifstream r("vp_t.bin", std::ios::binary);
        if (how == 7) o.read_from_stream_bin(r);
        (how == 7 ? b : z).read_from_stream_bin(r);
        if (how == 8) o.read_from_stream_bin(r);
        vp::outi("src", a.is_init());
        vp::outi("src", o.is_init());
        vp::out("o", o.ref_coords().data(), (int)o.ref_coords().size());
        vp::out("o", o.ref_data().data(), (int)o.ref_data().size());
        TAB &u = how == 7 ? b : z;
        look(u, x, eq);
        vp::out("g", u.ref_coords().data(), (int)u.ref_coords().size());
        vp::out("gd", u.ref_data().data(), (int)u.ref_data().size());
    } else if (how == 9) {          // a file which ends inside a table, or does not exist
        TAB a(c, d), b(c, d), e;
        std::ofstream w("vp_t.bin", std::ios::binary);
        size_t k = n;
        w.write(reinterpret_cast<char *>(&k), sizeof(k));
        w.write(reinterpret_cast<char *>(c.data()), sizeof(REAL) * n);
        w.write(reinterpret_cast<char *>(&k), sizeof(k));
        w.write(reinterpret_cast<char *>(d.data()), sizeof(REAL) * (n - 1));
        w.close();
        std::ifstream r("vp_t.bin", std::ios::binary), q("vp_none.bin", std::ios::binary);
        b.read_from_stream_bin(r);
        a.read_from_stream_bin(q);
        e.read_from_stream_bin(r);
        vp::outi("un", b.is_init());
        vp::outi("un", a.is_init());
        vp::outi("un", e.is_init());
    } else {                        // uninitialised copies
        TAB b(none), a(c, d);
        a = none;
        TAB m(std::move(none));
        vp::outi("un", b.is_init());
        vp::outi("un", a.is_init());
        vp::outi("un", m.is_init());
    }
}
