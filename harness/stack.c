/* C08: a stack against a bounded LIFO; elements are arbitrary 64-bit values (no-op policy). */
#include "h.h"
static uint64_t M[64]; static int n;
void harness(void) {
  int steps = P("n", 4), maxcap = P("cap", 3);
  size_t base = sym_heap_live();
  struct cee_state *st = cee_state_mk(4);
  int cap = sym_choice("cap", maxcap + 1);
  struct cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, cap);
  int when = P("full", 0) ? sym_choice("when", 42) : 0, pops = P("full", 0) ? sym_choice("pops", 4) : 0; if (P("full", 0)) ASSUME((when <= cap + 1) & (when < 4 || when > cap - 3 || when == 16 || when == 17));
  for (int k = 0; k < steps; k++) {
    int op = P("full", 0) ? k >= when && k < when + pops : sym_choice("op", 2);
    if (op == 0) { uint64_t e = sym_u64("e"); int r = cee_stack_push(s, (void*)e); if (n < cap) { ASSERT(r != 0, "push on a non-full stack succeeds"); M[n++] = e; } else { ASSERT(r == 0, "push on a full stack is refused"); sym_reach("full"); } }
    else { void *p = cee_stack_pop(s); if (n) { n--; ASSERT((uint64_t)p == M[n], "pop returns the last pushed"); sym_reach("pop"); } else { ASSERT(p == 0, "pop of an empty stack is null"); sym_reach("popempty"); } }
    ASSERT(cee_stack_size(s) == n, "size"); ASSERT(cee_stack_empty(s) == (n == 0), "empty"); ASSERT(cee_stack_full(s) == (n >= cap), "full");
    if (P("full", 0)) { if (k > 40 || k == cap || k == when + pops) for (int i = 0; i < n; i++) ASSERT((uint64_t)cee_stack_top(s, i) == M[n - 1 - i], "nth element from the top"); if (k + 1 < steps) continue; } uint64_t nth = sym_u64("nth"); if (P("full", 0)) ASSUME(nth >= (uint64_t)n); void *t = cee_stack_top(s, nth);
    if (nth < n) { uint64_t w = 0; for (int i = 0; i < n; i++) if (nth == n - 1 - i) w = M[i]; ASSERT((uint64_t)t == w, "nth element from the top"); sym_reach("top"); } else ASSERT(t == 0, "top beyond the elements is null");
  }
  while (n) { n--; ASSERT((uint64_t)cee_stack_pop(s) == M[n], "drain in reverse order"); }
  ASSERT(cee_stack_pop(s) == 0 && cee_stack_empty(s), "drained");
  sym_observe("cap", cap);
  cee_del(st); NO_LEAK(base);
}
