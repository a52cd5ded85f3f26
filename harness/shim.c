/* Native meaning of the symbolic harness API: concrete inputs are read from a
 * table set up by shim_reset/shim_input; a failed assertion ends the process. */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct in { char *name; double v; };
static struct in *tab; static size_t ntab, cap;
static struct { char *name; int n; } *cnt; static size_t ncnt, ccap;
static int quiet_obs = 1;

void shim_reset(int observe) { for (size_t i = 0; i < ntab; i++) free(tab[i].name); ntab = 0;
  for (size_t i = 0; i < ncnt; i++) free(cnt[i].name);
  ncnt = 0; quiet_obs = !observe; }
void shim_input(const char *name, size_t len, double v) {
  if (ntab == cap) { cap = cap ? cap * 2 : 64; tab = realloc(tab, cap * sizeof *tab); }
  tab[ntab].name = malloc(len + 1); memcpy(tab[ntab].name, name, len); tab[ntab].name[len] = 0; tab[ntab].v = v; ntab++; }
static int look(const char *p, size_t len, double *out) {
  char base[300]; if (len > 250) len = 250; memcpy(base, p, len); base[len] = 0;
  size_t i; for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].name, base)) break;
  if (i == ncnt) { if (ncnt == ccap) { ccap = ccap ? ccap * 2 : 64; cnt = realloc(cnt, ccap * sizeof *cnt); }
    cnt[ncnt].name = strdup(base); cnt[ncnt].n = 0; ncnt++; }
  int k = ++cnt[i].n; if (k > 1) snprintf(base + len, 40, "#%d", k);
  for (size_t j = 0; j < ntab; j++) if (!strcmp(tab[j].name, base)) { *out = tab[j].v; return 1; }
  return 0; }
uint64_t vs_choice(const char *p, size_t len, uint64_t n) { double v; if (n < 1) n = 1; if (!look(p, len, &v)) return 0;
  if (v < 0) v = 0; uint64_t k = (uint64_t)v; return k >= n ? n - 1 : k; }
double vs_num(const char *p, size_t len, double lo, double hi, uint64_t k) { double v; (void)k; (void)hi; if (!look(p, len, &v)) return lo; return v; }
void vs_assert(_Bool c, const char *p, size_t len) { if (!c) { fflush(stdout); printf("ASSERT %.*s\n", (int)len, p); fflush(stdout); _Exit(3); } }
void vs_close(double a, double b, double tol, const char *p, size_t len, uint64_t idx) {
  if (!quiet_obs) { uint64_t u; memcpy(&u, &a, 8); printf("O %016llx\n", (unsigned long long)u); }
  if (fabs(a - b) <= tol || a == b) return;
  fflush(stdout); printf("ASSERT %.*s[%llu]: %.17g vs %.17g\n", (int)len, p, (unsigned long long)idx, a, b); fflush(stdout); _Exit(3); }
void vs_assume(_Bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(4); } }
void vs_cover(const char *p, size_t len) { (void)p; (void)len; }
void vs_observe(double v) { if (!quiet_obs) { uint64_t u; memcpy(&u, &v, 8); printf("O %016llx\n", (unsigned long long)u); } }
void vs_root_hint(double v) { (void)v; }
void shim_end(void) { printf("end\n"); fflush(stdout); }
uint64_t vs_symbolic(void) { return 0; }
