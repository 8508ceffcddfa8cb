/* native side of the harness interface: values in from a file, results out to a file */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern void ENTRY(void);
static int rank_ = -1;
struct ent { char name[48]; int rank, idx; char val[64]; };
static struct ent *tab; static int nt, cap;
static FILE *fo; static int rndk;
static int getrank(void) {
  if (rank_ < 0) { char *s = getenv("OMPI_COMM_WORLD_RANK"); rank_ = s ? atoi(s) : 0; }
  return rank_;
}
static void load(void) {
  if (tab) return;
  FILE *f = fopen(getenv("VP_VALUES"), "r"); char l[256];
  cap = 1024; tab = malloc(cap * sizeof *tab);
  while (f && fgets(l, sizeof l, f)) {
    if (nt == cap) tab = realloc(tab, (cap *= 2) * sizeof *tab);
    if (sscanf(l, "%d %47s %d %63s", &tab[nt].rank, tab[nt].name, &tab[nt].idx, tab[nt].val) == 4) nt++;
  }
  if (f) fclose(f);
}
static FILE *out(void) {
  if (!fo) { char b[600]; snprintf(b, sizeof b, "%s.%d", getenv("VP_OUT"), getrank()); fo = fopen(b, "w"); }
  return fo;
}
static const char *find(const char *n, long ln, int idx, int rank) {
  load();
  for (int i = 0; i < nt; i++)
    if ((tab[i].rank == rank || tab[i].rank < 0) && tab[i].idx == idx && strlen(tab[i].name) == (size_t)ln && !strncmp(tab[i].name, n, ln)) return tab[i].val;
  fprintf(out(), "missing %.*s %d\n", (int)ln, n, idx); fflush(out());
  exit(77);
}
static double num(const char *s) { return strtod(s, 0); }
void vp_sym_(const char *n, int *i, double *v, long l) { *v = num(find(n, l, *i, getrank())); }
void vp_symf_(const char *n, int *i, float *v, long l) { *v = (float)num(find(n, l, *i, getrank())); }
void vp_symi_(const char *n, int *i, int *v, long l) { *v = (int)num(find(n, l, *i, getrank())); }
void vp_cfg_(const char *n, int *v, long l) { *v = (int)num(find(n, l, 0, -2)); }
void vp_cfgr_(const char *n, double *v, long l) { *v = num(find(n, l, 0, -2)); }
void vp_mark_(const char *n, long l) { fprintf(out(), "mark %.*s\n", (int)l, n); fflush(out()); }
void vp_assume_nonneg_(double *v) {}
void vp_out_(const char *n, int *k, double *a, long l) {
  fprintf(out(), "out %.*s %d", (int)l, n, *k);
  for (int i = 0; i < *k; i++) fprintf(out(), " %.17g", a[i]);
  fprintf(out(), "\n"); fflush(out());
}
void vp_outf_(const char *n, int *k, float *a, long l) {
  fprintf(out(), "out %.*s %d", (int)l, n, *k);
  for (int i = 0; i < *k; i++) fprintf(out(), " %.9g", a[i]);
  fprintf(out(), "\n"); fflush(out());
}
void vp_outi_(const char *n, int *k, int *a, long l) {
  fprintf(out(), "out %.*s %d", (int)l, n, *k);
  for (int i = 0; i < *k; i++) fprintf(out(), " %d", a[i]);
  fprintf(out(), "\n"); fflush(out());
}
#ifdef VP_RANDOM
void _gfortran_random_r8(double *v) { *v = num(find("random", 6, rndk++, getrank())); }
#endif
int main(void) { ENTRY(); fprintf(out(), "done\n"); fclose(out()); return 0; }
