/* C02: an object held very many times */
#include "life.h"
void harness(void) {
  static const int CNT[] = { 1, 255, 256, 257, 65534, 65535, 65536, 65537 }; int n = CNT[sym_choice("n", 8)]; size_t base = sym_heap_live(); st = cee_state_mk(4); uint8_t v = sym_u8("v");
  uint8_t *e = cee_block_mk(st, 8); e[0] = v; struct cee_list *l = cee_list_mk(st, sym_choice("cap", 2) ? n : 1); if (sym_choice("resize", 2)) cee_use_realloc(l); for (int i = 0; i < n; i++) cee_list_append(l, e);
  void *o; switch (sym_choice("other", 4)) { case 0: o = cee_list_mk(st, 1); cee_list_append(o, e); break; case 1: o = cee_stack_mk(st, 2); cee_stack_push(o, e); break; case 2: o = cee_tuple_mk(st, e, e); break; default: o = cee_set_mk(st, cmpid); cee_set_add(o, e); cee_set_add(o, e); }
  ASSERT(cee_list_size(l) == n, "the list holds all"); int first = sym_choice("first", 2);
  if (first == 0) { cee_del(o); ASSERT(!sym_is_freed(e), "an element another container holds stays"); ASSERT(e[0] == v, "its content"); if (sym_choice("rm", 2)) { cee_list_remove(l, n - 1); ASSERT(!sym_is_freed(e), "removing frees nothing"); if (n == 1) { ASSERT(cee_list_size(l) == 0, "removed"); cee_del(l); ASSERT(!sym_is_freed(e), "withdrawn"); goto end; } } cee_del(l); ASSERT(sym_is_freed(e), "the last claim frees"); sym_reach("list last"); }
  else { cee_del(l); ASSERT(!sym_is_freed(e), "an element another container holds stays"); ASSERT(e[0] == v, "its content"); cee_del(o); ASSERT(sym_is_freed(e), "the last claim frees"); sym_reach("other last"); }
end: sym_observe("n", n); cee_del(st); NO_LEAK(base);
}
