/* C12: a string always is exactly its text, in bounds, and owned once */
#include "h.h"
static struct cee_state *st;
#ifndef MS
#define MS 1400
#define TS 600
#endif
static char M[MS]; static int ML; /* the model */
static char T[TS]; /* text to feed */
static int owned(void *p) { int n = 0; struct cee_sect *s = st->trace_tail, *h = (struct cee_sect *)st - 1; while (s != h) { if (s + 1 == (struct cee_sect *)p) n++; s = s->trace_prev; } return n; }
static void check(struct cee_str *s) { ASSERT(memcmp(s, M, ML) == 0, "the text"); ASSERT(((char *)s)[ML] == 0, "terminated"); ASSERT(cee_str_end(s) == (char *)s + ML, "the end"); ASSERT(owned(s) == 1, "owned by its state once"); }
/* a text of n bytes, the first, the last and one in the middle arbitrary */
static void text(int n) { memset(T, 'a', n); T[n] = 0; int at[3] = { 0, n / 2, n - 1 }; for (int i = 0; i < 3; i++) if (n && (!i || at[i] != at[i - 1])) { uint8_t c = sym_u8("c"); ASSUME(c); T[at[i]] = c; } }
static struct cee_str *mkv(const char *f, ...) { va_list ap; va_start(ap, f); struct cee_str *s = cee_str_mkv(st, f, ap); va_end(ap); return s; }
static const int HUGE[] = { 300, 513, 1000, 1023, 1024, 2100, 4095, 4096, 4097, 32768, 65535, 65536, 70000 };
static int pick(const char *nm, int lo, int hi) { if (P("huge", 0) && (P("huge", 0) == 2 ? nm[0] != 'a' : nm[0] == 'l')) return HUGE[sym_choice(nm, P("hn", 13))]; return lo + sym_choice(nm, hi - lo + 1); }
static struct cee_str *make(int n) {
  int how = sym_choice("make", 6); text(n); memcpy(M, T, n); ML = n; struct cee_str *s;
  switch (how) {
    case 0: s = cee_str_mk(st, "%s", T); break;
    case 1: s = mkv("%s", T); break;
    case 2: { char *x = malloc(n); memcpy(x, T, n); s = cee_str_strn(st, x, n); free(x); break; }
    case 3: { int cap[4] = { 0, n, n + 1, n + 70 }, c = cap[sym_choice("cap", 4)]; s = cee_str_mk_e(st, c, "%s", T); ASSERT(sym_mem_ok(s, c), "room for the given capacity"); break; }
    case 4: s = cee_str_mk_e(st, n, 0); ASSERT(sym_mem_ok(s, n), "room for the given capacity"); ML = 0; break;
    default: { int32_t d = (int32_t)sym_u32("d"); ASSUME(d >= -9 && d <= 99); s = cee_str_mk(st, "%s%d%c", T, d, '!'); if (d < 0) { M[ML++] = '-'; d = -d; } if (d >= 10) { M[ML++] = '1' + 0; int q = d / 10; M[ML - 1] = '0' + q; d -= q * 10; } M[ML++] = '0' + d; M[ML++] = '!'; break; }
  }
  return s;
}
static void ops(void) {
  int k = P("ops", 2), lo = P("lo", 0), hi = P("hi", 70);
  struct cee_str *s = make(P("fixlen", -1) >= 0 ? P("fixlen", 0) : pick("len", lo, hi)); check(s);
  for (int i = 0; i < k; i++) {
    int op = sym_choice("op", 4); if (sym_choice("realloc", 2)) cee_use_realloc(s); else cee_use_malloc(s); struct cee_str *old = s;
    if (op == 0) { uint8_t c = sym_u8("add"); s = cee_str_add(s, c); if (c) M[ML++] = c; sym_reach("add"); }
    else if (op == 1) { int n = pick("cat", P("clo", 0), P("chi", 66)); text(n); s = cee_str_catf(s, "%s", T); memcpy(M + ML, T, n); ML += n; sym_reach("cat"); }
    else if (op == 2) { int n = pick("rep", P("clo", 0), P("chi", 66)); text(n); s = cee_str_replace(s, "%s", T); memcpy(M, T, n); ML = n; sym_reach("replace"); }
    else { int n = pick("adds", 1, P("adds", 9)); for (int j = 0; j < n; j++) { s = cee_str_add(s, 'A' + j % 26); M[ML++] = 'A' + j % 26; } sym_reach("adds"); }
    if (s != old) sym_reach("moved"); check(s);
  }
  sym_observe("len", ML);
}
/* filling a string character by character */
static void fill(void) { struct cee_str *s = make(P("fixlen", 0)); for (int i = 0; i < P("n", 300); i++) { s = cee_str_add(s, 'a' + i % 26); M[ML++] = 'a' + i % 26; check(s); } sym_reach("filled"); }
static int ws(int c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static void trim(void) {
  int n = sym_choice("n", P("n", 5) + 1); char x[16]; for (int i = 0; i < n; i++) { x[i] = sym_u8("c"); ASSUME(x[i]); } x[n] = 0; int w = sym_choice("side", 3);
  struct cee_str *s = cee_str_mk(st, "%s", x); if (w != 1) cee_str_ltrim(s); if (w != 0) cee_str_rtrim(s);
  int a = 0, b = n; if (w != 1) while (a < n && ws(x[a])) a++; if (w != 0) while (b > a && ws(x[b - 1])) b--;
  ML = b - a; memcpy(M, x + a, ML); check(s); sym_observe("n", ML); if (a) sym_reach("left"); if (b < n) sym_reach("right"); if (n && !ML) sym_reach("all");
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  switch (P("what", 0)) { case 0: ops(); break; case 1: fill(); break; default: trim(); }
  cee_del(st); NO_LEAK(base);
}
