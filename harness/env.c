/* C14: lexical lookup and closure calls */
#include "h.h"
static struct cee_state *st; static struct cee_closure *C; static struct cee_env *E0; static uint64_t A[20], R; static int calls; static size_t NA;
static void *fun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  calls++; ASSERT(s == st, "the state"); ASSERT(e == E0, "the captured environment"); ASSERT(n == NA, "the argument count");
  for (int i = 0; i < n; i++) ASSERT(va_arg(ap, uint64_t) == A[i], "the arguments in order"); return (void *)R;
}
static void closures(void) {
  int n = sym_choice("n", 8); struct cee_env *outer = sym_choice("outer", 2) ? cee_env_mk(st, 0, 0) : 0; E0 = sym_choice("env", 2) ? cee_env_mk(st, outer, sym_choice("vars", 2) ? cee_map_mk(st, (void *)strcmp) : 0) : 0;
  C = cee_closure_mk(st, E0, fun); for (int i = 0; i < 8; i++) A[i] = sym_u64("arg"); 
  for (int k = 0; k < 2; k++) { NA = n; R = sym_u64("ret"); void *r = n == 0 ? cee_closure_call(st, C, 0) : n < 5 ? cee_closure_call(st, C, n, A[0], A[1], A[2], A[3]) : cee_closure_call(st, C, n, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]);
    ASSERT((uint64_t)r == R, "the function's result"); ASSERT(calls == k + 1, "called once"); n = (n + 3) & 7; }
  sym_reach("called");
}
/* closures of up to 20 arguments, all given */
static void wide(void) {
  E0 = cee_env_mk(st, 0, 0); C = cee_closure_mk(st, E0, fun); for (int i = 0; i < 20; i++) A[i] = sym_u64("arg"); NA = sym_choice("n", 21); R = sym_u64("ret");
  void *r = cee_closure_call(st, C, NA, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15], A[16], A[17], A[18], A[19]); ASSERT((uint64_t)r == R && calls == 1, "the function's result"); sym_reach("wide");
}
/* many levels and many names per level; one level may bind the name asked for again */
static void deepenv(void) {
  int depth = 1 + sym_choice("depth", 14) * 3, per = 1 + sym_choice("per", 3) * 15, empty = sym_choice("empty", 3); static void *val[40][32]; static int has[40]; struct cee_env *e = 0; 
  for (int d = 0; d < depth; d++) { struct cee_map *m = 0; has[d] = !(empty == 1 && d % 2 == 0) && !(empty == 2 && d + 1 == depth); if (has[d] || d % 4 == 2) m = cee_map_mk(st, (void *)strcmp);
    if (has[d]) for (int i = 0; i < per; i++) { void *v = cee_block_mk(st, 1); val[d][i] = v; cee_map_add(m, cee_str_mk(st, "%c%d", 'A' + i, i == 1 || i == 3 ? 0 : d), v); } e = cee_env_mk(st, e, m); }
  char q[4]; int i = sym_choice("i", per < 4 ? per : 4), d = sym_choice("where", 4); d = d == 0 ? 0 : d == 1 ? depth / 2 : d == 2 ? depth - 1 : depth; struct cee_str *k = cee_str_mk(st, "%c%d", 'A' + i, i == 1 || i == 3 ? 0 : d); void *w = 0;
  if (i == 1 || i == 3) { for (int x = depth - 1; x >= 0 && !w; x--) if (has[x]) w = val[x][i]; } else if (d < depth && has[d]) w = val[d][i];
  ASSERT(cee_env_find(e, (char *)k) == w, "the innermost binding"); sym_reach(w ? "found" : "none"); sym_observe("depth", depth);
}
static void lookup(void) {
  int depth = 1 + sym_choice("depth", P("depth", 3)), bind = P("bind", 2); struct cee_env *e = 0; static char name[5][3]; static void *val[5][3]; int nb[5];
  for (int d = 0; d < depth; d++) {
    struct cee_map *m = 0; int has = sym_choice("bindings", bind + 2); nb[d] = 0;
    if (has) { m = cee_map_mk(st, (void *)strcmp); for (int i = 0; i < has - 1; i++) { char c = sym_u8("name"); ASSUME(c); struct cee_str *k = cee_str_mk(st, "%c", c); void *v = cee_block_mk(st, 1); cee_map_add(m, k, v); int j; for (j = 0; j < nb[d]; j++) if (name[d][j] == c) break; name[d][j] = c; val[d][j] = v; if (j == nb[d]) nb[d]++; } }
    enum cee_del_policy dp[2]; if (sym_choice("policy", 2)) { dp[0] = dp[1] = CEE_DP_NOOP; e = cee_env_mk_e(st, dp, e, m); } else e = cee_env_mk(st, e, m);
  }
  char q[2] = { sym_u8("query"), 0 }; ASSUME(q[0]); void *w = 0; int at = -1;
  for (int d = depth - 1; d >= 0 && !w; d--) for (int i = 0; i < nb[d]; i++) if (name[d][i] == q[0]) { w = val[d][i]; at = d; break; }
  ASSERT(cee_env_find(e, q) == w, "the innermost binding"); if (w) { sym_reach("found"); if (at < depth - 1) sym_reach("outer"); for (int d = 0; d < at; d++) for (int i = 0; i < nb[d]; i++) if (name[d][i] == q[0]) sym_reach("shadowed"); } else sym_reach("none");
  ASSERT(cee_env_find(0, q) == 0, "no environment"); sym_observe("at", at);
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  if (P("clo", 0) == 2) wide(); else if (P("clo", 0)) closures(); else if (P("deep", 0)) deepenv(); else lookup();
  cee_del(st); NO_LEAK(base);
}
