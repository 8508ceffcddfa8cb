static void tables(const CTRL &ct)
{
    dn = vp::cfg("dn"); tn = vp::cfg("tn"); np = vp::cfg("np");
    REAL l0 = std::log(vp::cfgr("dmin")), l1 = std::log(vp::cfgr("dmax"));
    for (int i = 0; i < dn; i++) { dc[i] = i == dn - 1 ? l1 : l0 + (l1 - l0) * i / (dn - 1); dd[i] = vp::sym<REAL>("dd", i); }
    l0 = std::log(vp::cfgr("tmin")), l1 = std::log(vp::cfgr("tmax"));
    for (int i = 0; i < tn; i++) tc[i] = i == tn - 1 ? l1 : l0 + (l1 - l0) * i / (tn - 1);
    for (int i = 0; i < np; i++) tp[i] = (REAL)i / (np - 1) * vp::cfgr("pmax");
    for (int i = 0; i < tn * np; i++) td[i] = vp::sym<REAL>("td", i);
}
static void run(ENG &e, int mode, REAL lam)
{
    if (mode == 0) {
        vp::out("rate", e.compute_dN_dt(vp::sym<REAL>("en"), vp::sym<REAL>("chi")));
    } else if (mode == 1) {
        vp::out("cum", cumul(e, vp::sym<REAL>("chi"), vp::sym<REAL>("chi2")));
    } else if (mode == 2) {
        e.compute_dN_dt_lookup_table();
        show(e.export_innards());
    } else if (mode == 3) {
        cumtable(e);
        show(e.export_innards());
    } else if (mode == 4) {         // optical depth
        REAL v[9], od = vp::sym<REAL>("od");
        vp::symv<REAL>("v", v, 9);
        vp::out("chi", chi(v, vp::sym<REAL>("lam")));
        auto r = e.evolve_opt_depth_and_determine_event(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], vp::sym<REAL>("dt"), od);
        vp::outi("event", r.first);
        vp::out("evdt", r.second);
        vp::out("od", od);
    } else if (mode == 5) {
        REAL v[9];
        vp::symv<REAL>("v", v, 9);
        generate(e, v, vp::sym<REAL>("weight"), vp::cfg("ns"));
    } else if (mode == 6) {
        vp::out("depth", e.get_optical_depth());
        vp::out("depth", e.get_optical_depth());
    } else if (mode == 7) {
        vp::out("rate", e.interp_dN_dt(vp::sym<REAL>("en"), vp::sym<REAL>("chi")));
    } else if (mode == 8) {
        show(e.export_innards());
    }
}
extern "C" void VP_ENTRY()
{
    int mode = vp::cfg("mode"), how = vp::cfg("how"), tab = vp::cfg("tab");
    CTRL ct;
    control(ct);
    REAL lam = vp::sym<REAL>("lam");
    if (!tab) {
        ENG a(RNG(), how == 2 ? (REAL)5 : lam, ct);
        if (how == 2) a.set_lambda(lam);
        if (how == 3) { ENG b(a); a.set_lambda((REAL)9); vp::out("lam", b.get_lambda()); run(b, mode, lam); return; }
#ifdef ASSIGN
        if (how == 13) { ENG b(RNG(), (REAL)5); b = a; a.set_lambda((REAL)9); vp::out("lam", b.get_lambda()); run(b, mode, lam); return; }
#endif
        if (how == 4) { ENG b(std::move(a)); vp::out("lam", b.get_lambda()); run(b, mode, lam); return; }
        vp::out("lam", a.get_lambda());
        run(a, mode, lam);
        return;
    }
    // an engine with given tables, made from the innards of another one
    tables(ct);
    RNG rng;
    rng.k = 3;
    INN in;
    setctrl(in, ct);
    in.lambda = lam;
    in.rng_ptr = &rng;
    fill(in);
    ENG a(in);
    if (mode == 5) {                // the class and the core function agree
        REAL v[9], u[8];
        vp::symv<REAL>("v", v, 9);
        for (int i = 0; i < 8; i++) u[i] = i < vp::cfg("ns") ? vp::sym<REAL>("u", 3 + i) : 0;
        reference(in, v, vp::sym<REAL>("weight"), vp::cfg("ns"), u, lam);
    }
    if (how == 5) {                 // copies of copies, after which the source's tables change
        ENG b(a);
        ENG c(b);
        dd[0] = dd[1] = td[0] = td[1] = 77; dc[0] = tc[0] = tp[0] = -77;
        run(c, mode, lam);
#ifdef ASSIGN
    } else if (how == 13) {         // assigned: to itself, then over an engine with a table
        ENG b(RNG(), (REAL)5);
        b.compute_dN_dt_lookup_table();
        a = a;
        b = a;
        dd[0] = dd[1] = td[0] = td[1] = 77; dc[0] = tc[0] = tp[0] = -77;
        run(b, mode, lam);
#endif
    } else if (how == 6) {
        ENG b(a);
        ENG c(std::move(b));
        dd[0] = dd[1] = td[0] = td[1] = 77; dc[0] = tc[0] = tp[0] = -77;
        run(c, mode, lam);
    } else if (how == 7) {          // innards of innards
        INN i2 = a.export_innards();
        ENG c(i2);
        run(c, mode, lam);
    } else if (how == 8) {          // through files
        a.write_dN_dt_table("vp_d.bin");
        writecum(a, "vp_t.bin");
        ENG c(std::move(rng), lam, ct);
        c.read_dN_dt_table("vp_d.bin");
        readcum(c, "vp_t.bin");
        dd[0] = dd[1] = td[0] = td[1] = 77;
        run(c, mode, lam);
    } else if (how == 9) {          // over engines which have tables already
        ENG b(a);
        a.write_dN_dt_table("vp_d.bin");
        writecum(a, "vp_t.bin");
        b.compute_dN_dt_lookup_table();
        b.read_dN_dt_table("vp_d.bin");
        readcum(b, "vp_t.bin");
        run(b, mode, lam);
    } else if (how == 11) {         // a file which does not exist: no table
        ENG b(a);
        b.read_dN_dt_table("vp_none.bin");
        readcum(b, "vp_none.bin");
        run(b, mode, lam);
    } else if (how == 12) {         // a truncated file: no table
        { std::ofstream f("vp_cut.bin", std::ios::binary); size_t two = 2; f.write(reinterpret_cast<char *>(&two), sizeof(two)); f.write(reinterpret_cast<char *>(dc), sizeof(REAL)); f.close(); }
        ENG b(std::move(rng), lam, ct);
        b.read_dN_dt_table("vp_cut.bin");
        run(b, mode, lam);
    } else
        run(a, mode, lam);
}
