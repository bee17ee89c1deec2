/* C07: a list against a mathematical sequence; elements are arbitrary 64-bit values (no-op policy). */
#include "h.h"
#define MAXN 64
static uint64_t M[MAXN]; static int n;
struct itc { int calls; int stop; int ret; struct cee_list *l; };
static int it(void *cx, void *e, int idx) {
  struct itc *c = cx; ASSERT(idx == c->calls, "iteration index"); ASSERT((uint64_t)e == M[idx], "iteration element"); c->calls++;
  if (idx == c->stop) return c->ret; return 0;
}
static void check(struct cee_list *l) {
  ASSERT(cee_list_size(l) == n, "size"); ASSERT(cee_list_capacity(l) >= n, "capacity covers size");
  for (int i = 0; i < n; i++) ASSERT((uint64_t)l->a[i] == M[i], "element at position");
}
/* fill past several growths from one place, whatever the capacity; then take all out again */
static void grow(void) {
  size_t base = sym_heap_live(); struct cee_state *st = cee_state_mk(4); int cap = sym_choice("cap", P("cap", 10) + 1), tot = P("n", 34), how = sym_choice("how", 4), at = sym_choice("at", 3);
  struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, cap); if (sym_choice("resize", 2)) cee_use_realloc(l);
  for (int s = 0; s < tot; s++) { uint64_t e = sym_u64("e"); int i = how == 0 ? n : how == 1 ? 0 : how == 2 ? n / 2 : at == 0 ? (n & 1 ? n : 0) : at == 1 ? (n % 3 ? n - 1 : n) : n ? 1 : 0;
    if (how == 0 && (at == 0 || (at == 1 && (s & 1)))) cee_list_append(l, (void *)e); else cee_list_insert(l, i, (void *)e); for (int k = n; k > i; k--) M[k] = M[k-1]; M[i] = e; n++; 
    if (n < 18 || n > tot - 2) check(l); }
  sym_reach("filled"); int back = sym_choice("back", 3);
  while (n) { int i = back == 0 ? n - 1 : back == 1 ? 0 : n / 2; ASSERT(cee_list_remove(l, i), "removal of a valid index succeeds"); for (int k = i; k + 1 < n; k++) M[k] = M[k+1]; n--; if (n % 4 == 0) check(l); }
  check(l); cee_list_append(l, l); M[n++] = (uint64_t)l; check(l); sym_observe("cap", cap); cee_del(st); NO_LEAK(base);
}
void harness(void) {
  if (P("grow", 0)) { grow(); return; }
  int steps = P("n", 3), maxcap = P("cap", 3);
  size_t base = sym_heap_live();
  struct cee_state *st = cee_state_mk(4);
  int cap = sym_choice("cap", maxcap + 1);
  struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, cap);
  if (sym_choice("resize", 2)) cee_use_realloc(l);
  check(l);
  for (int s = 0; s < steps; s++) {
    int op = sym_choice("op", 5);
    if (op == 0) { uint64_t e = sym_u64("e"); cee_list_append(l, (void*)e); M[n++] = e; }
    else if (op == 1) { uint64_t e = sym_u64("e"); int i = sym_choice("idx", n + 1); cee_list_insert(l, i, (void*)e); for (int k = n; k > i; k--) M[k] = M[k-1]; M[i] = e; n++; sym_reach("insert"); }
    else if (op == 2) { if (!n) sym_assume(0); int i = sym_choice("idx", n); ASSERT(cee_list_remove(l, i), "removal of a valid index succeeds"); for (int k = i; k + 1 < n; k++) M[k] = M[k+1]; n--; sym_reach("remove"); }
    else if (op == 3) { int i = (int)sym_u32("badidx"); ASSUME(i < 0 || i >= n); ASSERT(!cee_list_remove(l, i), "removal of an invalid index is refused"); }
    else if (n && sym_choice("self", 2)) { int k0 = n; cee_list_merge(l, l); for (int k = 0; k < k0; k++) M[n++] = M[k]; sym_reach("merge into itself"); }
    else { int m = sym_choice("mlen", 3); struct cee_list *src = cee_list_mk_e(st, CEE_DP_NOOP, sym_choice("mcap", 2)); uint64_t v[2]; for (int k = 0; k < m; k++) { v[k] = sym_u64("me"); cee_list_append(src, (void*)v[k]); }
      cee_list_merge(l, src); ASSERT(cee_list_size(src) == m, "merge leaves the source's size"); for (int k = 0; k < m; k++) { ASSERT((uint64_t)src->a[k] == v[k], "merge leaves the source"); M[n++] = v[k]; } sym_reach("merge"); }
    check(l);
  }
  struct itc c = {0}; c.stop = sym_choice("stop", n + 1); c.ret = (int)sym_u32("ret"); c.l = l;
  if (c.stop == n) c.stop = -1;
  int r = cee_list_iterate(l, &c, it);
  if (c.stop >= 0 && c.ret != 0) { ASSERT(r == c.ret, "iterate returns the callback's non-zero result"); ASSERT(c.calls == c.stop + 1, "iteration stops there"); sym_reach("stopped"); }
  else { ASSERT(r == 0, "iterate returns 0"); ASSERT(c.calls == n, "iteration visits all"); }
  check(l);
  ASSERT(cee_list_size(0) == 0, "null list has size 0"); ASSERT(cee_list_capacity(0) == 0, "null list has capacity 0"); ASSERT(!cee_list_remove(0, (int)sym_u32("nidx")), "removal from null refused"); ASSERT(cee_list_iterate(0, &c, it) == 0, "iterate null");
  if (n == 0) sym_reach("empty"); if (n >= 3) sym_reach("grown");
  sym_observe("size", n); sym_observe("calls", c.calls);
  cee_del(st); NO_LEAK(base);
}
