/* C10: products, tagged values and singletons hold what was put in; each slot has its own deletion policy */
#include "h.h"
extern uint16_t get_in_degree(void *);
#define RC CEE_DP_DEL_RC
static struct cee_state *st;
enum { TUP, TRI, QUAD, NTUP, TAG, PLAIN2, PLAIN3, PLAINT, NK };
static int arity(int k, int nt) { return k == TUP || k == PLAIN2 ? 2 : k == TRI || k == PLAIN3 ? 3 : k == QUAD ? 4 : k == NTUP ? nt : 1; }
static void **slots(int k, void *p) { return k == TAG || k == PLAINT ? &((struct cee_tagged *)p)->ptr._ : (void **)p; }
static void *mk(int k, int n, enum cee_del_policy *o, void **v, uint64_t tag) {
  switch (k) {
    case TUP: return cee_tuple_mk_e(st, o, v[0], v[1]);
    case PLAIN2: return cee_tuple_mk(st, v[0], v[1]);
    case TRI: return cee_triple_mk_e(st, o, v[0], v[1], v[2]);
    case PLAIN3: return cee_triple_mk(st, v[0], v[1], v[2]);
    case QUAD: return cee_quadruple_mk_e(st, o, v[0], v[1], v[2], v[3]);
    case TAG: return cee_tagged_mk_e(st, o[0], tag, v[0]);
    case PLAINT: return cee_tagged_mk(st, tag, v[0]);
    default: return cee_n_tuple_mk(st, n, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
  }
}
static void check(int k, void *p, int n, void **v, uint64_t tag) { void **s = slots(k, p); for (int i = 0; i < n; i++) ASSERT(s[i] == v[i], "the slot holds the value put in"); if (k == TAG || k == PLAINT) ASSERT(((struct cee_tagged *)p)->tag == tag, "the tag"); }
static void products(void) {
  int k = sym_choice("kind", NK), n = arity(k, k == NTUP ? 1 + sym_choice("arity", 16) : 0); void *v[16] = {0}; enum cee_del_policy o[16]; int claims[16] = {0}; uint64_t tag = sym_u64("tag"); int raw[16] = {0}, del[16];
  for (int i = 0; i < n; i++) {
    o[i] = k == NTUP || k >= PLAIN2 ? RC : sym_choice("pol", 3); int c = (k == TAG || k == PLAINT) ? sym_choice("null", 2) : 0;
    if (c) { v[i] = 0; raw[i] = 1; continue; }
    if (o[i] == CEE_DP_NOOP && sym_choice("raw", 2)) { v[i] = (void *)sym_u64("raw value"); raw[i] = 1; continue; }
    v[i] = cee_block_mk(st, 4); *(uint32_t *)v[i] = 0x1000 + i;
    if (o[i] == RC && k < NTUP && sym_choice("claimed", 2)) { cee_list_append(cee_list_mk(st, 1), v[i]); claims[i] = 1; }
  }
  if (k < NTUP && n >= 2 && o[0] == RC && o[1] == RC && sym_choice("same", 2)) { v[1] = v[0]; claims[0] = claims[1] = 2 * (claims[0] | 0); sym_reach("same"); }
  int shared = k < NTUP && n >= 2 && v[0] == v[1] && !raw[0];
  void *p = mk(k, n, o, v, tag); check(k, p, n, v, tag);
  if (k == NTUP) sym_observe("arity", n);
  /* other operations on the state */
  void *q = cee_block_mk(st, 8), *r = cee_tuple_mk(st, cee_block_mk(st, 1), q); check(k, p, n, v, tag); cee_del(r); cee_str_catf(cee_str_mk(st, "%s", "abc"), "%s", "0123456789012345678901234567890123456789012345678901234567890123456789"); check(k, p, n, v, tag);
  for (int i = 0; i < n; i++) if (!raw[i]) ASSERT(*(uint32_t *)v[i] == 0x1000 + (shared && i == 1 ? 0 : i), "the values are untouched");
  for (int i = 0; i < n; i++) del[i] = o[i];
  if (k == TUP && sym_choice("change", 2)) { int i = sym_choice("which", 2), np = sym_choice("newpol", 3); ASSUME(!raw[i] && !shared && (o[i] != CEE_DP_DEL || np != RC)); cee_tuple_update_del_policy(p, i, np); del[i] = np; check(k, p, n, v, tag); sym_reach("changed"); }
  cee_del(p); ASSERT(sym_is_freed(p), "the product is gone");
  for (int i = 0; i < n; i++) if (!raw[i]) { int dead = del[i] == CEE_DP_DEL || (del[i] == RC && !claims[i]); ASSERT(sym_is_freed(v[i]) == dead, "each slot is treated by its own policy"); if (dead) sym_reach("died"); else sym_reach("lived"); }
}
static void singles(void) {
  static uint64_t mem[2][(CEE_SINGLETON_SIZE + 7) / 8 + 1]; uint64_t tag[2], val[2]; struct cee_singleton *s[2]; memset(mem, 0xaa, sizeof mem);
  for (int i = 0; i < 2; i++) { tag[i] = sym_u64("tag"); val[i] = sym_u64("val"); s[i] = cee_singleton_init(mem[i], tag[i], val[i]); ASSERT((char *)s[i] >= (char *)mem[i] && (char *)(s[i] + 1) <= (char *)mem[i] + CEE_SINGLETON_SIZE, "inside the given memory"); }
  ASSERT(mem[0][(CEE_SINGLETON_SIZE + 7) / 8] == 0xaaaaaaaaaaaaaaaaull, "nothing beyond it is written");
  for (int k = 0; k < 3; k++) { struct cee_list *l = cee_list_mk_e(st, sym_choice("pol", 3), 1); cee_list_append(l, s[k & 1]); if (k == 2) cee_list_append(l, s[0]); cee_del(l); }
  cee_state_add_gc_root(st, s[0]); cee_state_gc(st); cee_state_remove_gc_root(st, s[0]); cee_del(s[0]); cee_del(s[1]);
  for (int i = 0; i < 2; i++) ASSERT(s[i]->tag == tag[i] && s[i]->val == val[i], "tag and value"); sym_reach("single");
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  if (P("single", 0)) singles(); else products();
  cee_del(st); NO_LEAK(base);
}
