/* C02: claims of a container that a collection reclaimed */
#include "h.h"
void harness(void) {
  size_t base = sym_heap_live(); struct cee_state *st = cee_state_mk(4);
  char *e = cee_block_mk(st, 4); struct cee_list *a = cee_list_mk(st, 1), *b = cee_list_mk(st, 1);
  cee_list_append(a, e); cee_list_append(b, e); cee_state_add_gc_root(st, a);
  int gc = sym_choice("gc", 3); for (int i = 0; i < gc; i++) cee_state_gc(st);
  ASSERT(!sym_is_freed(e) && !sym_is_freed(a), "reachable objects survive");
  if (!gc) cee_del(b); 
  else if (gc == 2) ASSERT(sym_is_freed(b), "the unreachable list is collected");
  if (gc && !sym_is_freed(b)) cee_del(b);
  cee_state_remove_gc_root(st, a); cee_del(a);
  if (!sym_is_freed(e)) { if (gc) sym_known("gc-stale-claim"); else sym_fail("the last container's deletion frees the element"); }
  cee_del(st); NO_LEAK(base);
}
