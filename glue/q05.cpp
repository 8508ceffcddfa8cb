// containers of the QED library: histories of operations on two vectors, non-owning views, arrays
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <vector>
#include "vp.hpp"
#include "picsar_vector.hpp"
#include "picsar_array.hpp"
using namespace picsar::multi_physics;
using VEC = picsar_vector<REAL>;
// every block handed out and taken back
static int live;
void *operator new(size_t n) { live++; return malloc(n); }
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
static void show(const char *n, const char *ns, const char *nb, VEC &v)
{
    const VEC &c = v;
    vp::outi(ns, (int)v.size());
    for (auto &x : v)
        vp::out(n, x);
    if (v.size()) {
        vp::out(nb, v.front());
        vp::out(nb, v.back());
        vp::out(nb, c.front());
        vp::out(nb, c.back());
        vp::out(nb, *c.begin());
        vp::out(nb, *(c.end() - 1));
        vp::out(nb, v.data()[v.size() - 1]);
    }
}
static const volatile int codes[18] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17};
static void history()
{
    int len = vp::cfg("len"), n0 = vp::cfg("n0"), n1 = vp::cfg("n1"), rs = vp::cfg("rs");
    VEC a((size_t)n0), b((size_t)n1);
    for (int i = 0; i < n0; i++) a[i] = vp::sym<REAL>("a", i);
    for (int i = 0; i < n1; i++) b[i] = vp::sym<REAL>("b", i);
    for (int s = 0; s < len; s++) {
        int op = vp::symi("op", s);
        int k = codes[op];      // a load: one path for each operation
        vp::outi("ops", k);
        bool sw = k & 1;
        VEC &d = sw ? b : a, &o = sw ? a : b;
        k >>= 1;
        REAL v = vp::sym<REAL>("v", s);
        if (k == 0) d = o;
        else if (k == 1) d = std::move(o);
        else if (k == 2) { d = *&d; d = std::move(*&d); }
        else if (k == 3) { size_t m = (size_t)(rs + s), w = d.size(); if (w) { d.resize(m); for (size_t i = w; i < m; i++) d[(int)i] = v; } }
        else if (k == 4) { if (d.size()) { d[(int)d.size() / 2] = v; d.back() = v + 1; d.front() = v + 2; } }
        else if (k == 5) { std::vector<REAL> t(4); for (int i = 0; i < 4; i++) t[i] = v + i; d = VEC(t); t[0] = 0; }
        else if (k == 6) { VEC t(o); if (o.size()) o[0] = v; d = std::move(t); }
        else if (k == 8) { VEC t{v, v + 5}; VEC u(std::move(t)); d = u; u[0] = 0; }
        else if (k == 7) { VEC t; t = d; VEC e(t); if (t.size()) t[0] = v; o = e; }
    }
    show("A", "sA", "eA", a);
    show("B", "sB", "eB", b);
}
// a view writes through to its owner's memory, is not freed with it and cannot be resized
static void view()
{
    int n = vp::cfg("n0");
    VEC a((size_t)n);
    for (int i = 0; i < n; i++) a[i] = vp::sym<REAL>("a", i);
    {
        VEC w((size_t)n, a.data());
        w[n - 1] = vp::sym<REAL>("v", 0);
        VEC z(w);                   // a deep copy of the view
        z[0] = 99;
        VEC m(std::move(w));        // still a view
        m[0] = vp::sym<REAL>("v", 1);
        vp::outi("moved", (int)w.size());
        VEC q((size_t)2);
        q = m;                      // a deep copy again
        q[n - 1] = 98;
        VEC r((size_t)3);
        r = std::move(m);           // a view again
        vp::outi("sw", (int)r.size());
        VEC y((size_t)n, a.data());
        y = z;                      // an owner now: its own memory
        y[1] = 97;
        y.resize((size_t)n + 1);
        vp::out("y", y.data(), n);
    }
    show("A", "sA", "eA", a);
}
static void arrays()
{
    REAL x[4];
    vp::symv<REAL>("a", x, 4);
    picsar_array<REAL, 4> a{x[0], x[1], x[2], x[3]};
    const picsar_array<REAL, 4> &c = a;
    picsar_array<REAL, 4> b(a), d;
    d = a;
    b[2] = vp::sym<REAL>("v", 0);
    vp::outi("sA", (int)c.size());
    vp::outi("sA", (int)(c.end() - c.begin()));
    vp::outi("sA", (int)(a.end() - a.begin()));
    for (auto &z : d) z = z + 1;
    for (int i = 0; i < 4; i++) vp::out("A", c[i]);
    for (auto z : c) vp::out("C", z);
    vp::out("B", b.data(), 4);
    vp::out("D", d.data(), 4);
    *a.begin() = 5;
    vp::out("F", c[0]);
}
extern "C" void VP_ENTRY()
{
    int mode = vp::cfg("mode");
    int before = live;
    if (mode == 0) history();
    else if (mode == 1) view();
    else arrays();
    vp::outi("live", live - before);
}
