/* Native implementation of sym.h: replays a recorded assignment against the real library. */
#define _GNU_SOURCE
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
static struct ent { const void *p; size_t n; int live; } *tab; static size_t ntab, captab; static size_t live;
static int intr = 0; /* inside the runtime */
static void rec(void *p, size_t n) { if (!p || intr) return; if (ntab == captab) { captab = captab ? captab * 2 : 1024; tab = __real_realloc(tab, captab * sizeof *tab); } 
  for (size_t i = 0; i < ntab; i++) if (!tab[i].live && (const char*)p + n > (const char*)tab[i].p && (const char*)p < (const char*)tab[i].p + tab[i].n) tab[i].n = 0;
  tab[ntab++] = (struct ent){p, n, 1}; live++; }
static void unrec(void *p) { if (!p || intr) return; for (size_t i = ntab; i-- > 0;) if (tab[i].p == p && tab[i].live) { tab[i].live = 0; live--; return; } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); rec(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); rec(p, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) { unrec(p); void *q = __real_realloc(p, n); rec(q, n); return q; }
void __wrap_free(void *p) { unrec(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int rt_inside(void) { return intr; }
size_t sym_heap_live(void) { return live; }
int sym_is_freed(const void *p) { for (size_t i = ntab; i-- > 0;) if ((const char*)p >= (const char*)tab[i].p && (const char*)p < (const char*)tab[i].p + (tab[i].n ? tab[i].n : 0)) return !tab[i].live; return 1; }
int sym_mem_ok(const void *p, size_t n) { for (size_t i = ntab; i-- > 0;) if (tab[i].live && (const char*)p >= (const char*)tab[i].p && (const char*)p + n <= (const char*)tab[i].p + tab[i].n) return 1; return 0; }
size_t sym_object_size(const void *p) { for (size_t i = ntab; i-- > 0;) if (tab[i].live && (const char*)p >= (const char*)tab[i].p && (const char*)p <= (const char*)tab[i].p + tab[i].n) return (const char*)tab[i].p + tab[i].n - (const char*)p; return 0; }
static struct in { char name[64]; unsigned w; unsigned long long v; int used; } *ins; static size_t nins; static struct par { char n[64]; long v; } pars[64]; static int npars;
static struct occ { char n[64]; int k; } occs[64]; static int noccs;
static FILE *obs;
static void die(int c, const char *k, const char *m) { intr = 1; fflush(0); dprintf(2, "%s: %s\n", k, m); if (obs) fflush(obs); _exit(c); }
static unsigned long long get(const char *name) {
  int k = -1; for (int i = 0; i < noccs; i++) if (!strcmp(occs[i].n, name)) k = occs[i].k++;
  if (k < 0) { snprintf(occs[noccs].n, 64, "%s", name); occs[noccs++].k = 1; k = 0; }
  char b[80]; snprintf(b, 80, "%s#%d", name, k); for (size_t i = 0; i < nins; i++) if (!strcmp(ins[i].name, b)) return ins[i].v; return 0; }
uint8_t sym_u8(const char *n) { return get(n); } uint16_t sym_u16(const char *n) { return get(n); } uint32_t sym_u32(const char *n) { return get(n); } uint64_t sym_u64(const char *n) { return get(n); }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = get(name); }
void sym_assume(int c) { if (!c) die(77, "SYM-ASSUME-FAILED", ""); }
void sym_assert_(int c, const char *m) { if (!c) die(42, "SYM-ASSERT", m); }
void sym_fail(const char *m) { die(42, "SYM-ASSERT", m); }
void sym_reach(const char *l) { } void sym_known_crash(const char *l, const char *f) { } void sym_known(const char *l) { dprintf(2, "SYM-KNOWN: %s\n", l); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char *n, int64_t v) { if (obs) { intr = 1; fprintf(obs, "%s %llx\n", n, (unsigned long long)v); intr = 0; } }
int sym_is_symbolic(uint64_t v) { return 0; }
int sym_param(const char *n, int d) { for (int i = 0; i < npars; i++) if (!strcmp(pars[i].n, n)) return (int)pars[i].v; return d; }
void sym_stop(void) { intr = 1; if (obs) fflush(obs); dprintf(2, "SYM-END\n"); _exit(0); }
void harness(void);
int main(int argc, char **argv) {
  intr = 1;
  FILE *f = fopen(argv[1], "r"); if (!f) return 3; char line[400];
  size_t cap = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '@') { char k[64], n[64]; long v; if (sscanf(line, "@%63s %63s %ld", k, n, &v) == 3 && !strcmp(k, "param") && npars < 64) { strcpy(pars[npars].n, n); pars[npars++].v = v; } continue; }
    if (line[0] == '#' || line[0] == '\n') continue;
    if (nins == cap) { cap = cap ? cap * 2 : 64; ins = __real_realloc(ins, cap * sizeof *ins); }
    struct in e = {0}; if (sscanf(line, "%63s %u %llx", e.name, &e.w, &e.v) == 3) ins[nins++] = e; }
  fclose(f);
  if (argc > 2) obs = fopen(argv[2], "w");
  live = 0; ntab = 0; intr = 0;
  harness();
  sym_stop(); return 0;
}
