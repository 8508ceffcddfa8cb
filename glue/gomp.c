/* OpenMP stand-in for the Fortran routines: a team of cfg("thr") threads on stacks of their own. Between two barriers the threads run one
   after the other, in ascending (ord 0), descending (ord 1) or alternating (ord 2) order; a thread leaves the processor at barriers only. */
#include <stdint.h>
#define MAXT 4
extern void vp_cfg_(const char *, int *, long);
static int n = 1, cur = 0, phase;
static char stk[MAXT][32768] __attribute__((aligned(64)));
static void *sp[MAXT], *mainsp;
static int done[MAXT];
static void (*tfn)(void *);
static void *tdata;
void vp_gomp_switch(void **save, void *load);
void vp_gomp_start(void);
__asm__(".text\n.globl vp_gomp_switch\n.type vp_gomp_switch,@function\nvp_gomp_switch:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n.size vp_gomp_switch,.-vp_gomp_switch\n");
void vp_gomp_start(void)
{
    tfn(tdata);
    done[cur] = 1;
    vp_gomp_switch(&sp[cur], mainsp);
}
int omp_get_num_threads(void) { return n; }
int omp_get_thread_num(void) { return cur; }
int omp_get_max_threads(void) { int t; vp_cfg_("thr", &t, 3); return t; }
int omp_get_num_threads_(void) { return n; }
int omp_get_thread_num_(void) { return cur; }
int omp_get_max_threads_(void) { return omp_get_max_threads(); }
void GOMP_barrier(void) { if (n > 1) vp_gomp_switch(&sp[cur], mainsp); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags)
{
    int ord, t, k, left;
    vp_cfg_("ord", &ord, 3);
    vp_cfg_("thr", &n, 3);
    if (n > MAXT) n = MAXT;
    tfn = fn; tdata = data;
    for (t = 0; t < n; t++) {
        void **s = (void **)(stk[t] + sizeof stk[t] - 64);
        *--s = 0;                       /* where vp_gomp_start would return to: aligns the stack as a call does */
        *--s = (void *)vp_gomp_start;
        for (k = 0; k < 6; k++) *--s = 0;
        sp[t] = s; done[t] = 0;
    }
    do {
        left = 0;
        for (k = 0; k < n; k++) {
            t = ord == 1 || (ord == 2 && (phase & 1)) ? n - 1 - k : k;
            if (done[t]) continue;
            cur = t;
            vp_gomp_switch(&mainsp, sp[t]);
            if (!done[t]) left = 1;
        }
        phase++;
    } while (left);
    n = 1; cur = 0;
}
