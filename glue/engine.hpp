// shared by the drivers of the two engine classes
using namespace picsar::multi_physics;
// OpenMP teams run one thread after the other, in either order (ord 0, 1), or the first thread is interrupted once by the whole of the second
// one (ord 2), at a point which is an input: before integral, root search or message number "pre"
static int vt_n = 1, vt_cur = 0, vt_count, vt_point;
static void (*vt_fn)(void *), *vt_data;
static bool vt_left = false;
static int vt_done();         // searches so far
static void vt_second() { vp::outi("done", vt_done()); vt_left = false; vt_cur = 1; vt_fn(vt_data); vt_cur = 0; }
static void vt_point_reached() { if (vt_left && vt_count++ == vt_point) vt_second(); }
extern "C" {
// messages to the stream of a table computation
void *_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *os, const char *, long) { vt_point_reached(); return os; }
int omp_get_num_threads() { return vt_n; }
int omp_get_thread_num() { return vt_cur; }
int omp_get_max_threads() { return vp::cfg("thr"); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned, unsigned)
{
    int ord = vp::cfg("ord");
    vt_n = vp::cfg("thr");
    if (ord == 2) {
        vt_fn = fn; vt_data = data; vt_left = true; vt_count = 0; vt_point = vp::symi("pre");
        vt_cur = 0;
        fn(data);
        if (vt_left) vt_second();
    } else
        for (int t = 0; t < vt_n; t++) { vt_cur = ord ? vt_n - 1 - t : t; fn(data); }
    vt_n = 1; vt_cur = 0;
}
}
// every draw is an input of its own; the requests are recorded
struct RNG {
    int k = 0;
    REAL unf(REAL a, REAL b) { vp::out("range", a); vp::out("range", b); return vp::sym<REAL>("u", k++); }
    REAL exp(REAL l) { vp::out("expl", l); return vp::sym<REAL>("u", k++); }
};
using ENG = ENG0<REAL, RNG>;
static REAL dc[16], dd[16], tc[16], tp[16], td[64];
static int dn, tn, np;
static void many(const char *n, const REAL *p, size_t k) { if (k) vp::out(n, p, (int)k); }
