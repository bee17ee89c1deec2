/* C02, C03: long chains of containers of every kind, many anchors, many collections.
   what 0: collections with the chain reachable, cut at some level, released; what 1: deletion of the head under each policy, with or without a second holder of some level */
#include "h.h"
#define MD 64
static struct cee_state *st; static int P0;
enum { LIST, STACK, SET, MAPV, MAPK, DICT, TUP, TRI, QUAD, NTUP, TAG, ENVO, CLO, NK };
static int cmpp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void *fun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) { return s; }
static void *leafs[2][MD][4]; static int nleaf[2][MD]; static void *L(int c, int l) { return leafs[c][l][nleaf[c][l]++] = cee_block_mk(st, 4); }
static void *link_(int kind, void *x, int c, int l) {
  enum cee_del_policy o[4] = { P0, P0, P0, P0 };
  switch (kind) {
    case LIST: { struct cee_list *p = cee_list_mk_e(st, P0, 1); cee_list_append(p, L(c, l)); cee_list_append(p, x); return p; }
    case STACK: { struct cee_stack *p = cee_stack_mk_e(st, P0, 2); cee_stack_push(p, L(c, l)); cee_stack_push(p, x); return p; }
    case SET: { struct cee_set *p = cee_set_mk_e(st, P0, cmpp); cee_set_add(p, x); cee_set_add(p, L(c, l)); return p; }
    case MAPV: { struct cee_map *p = cee_map_mk_e(st, o, cmpp); cee_map_add(p, L(c, l), x); cee_map_add(p, L(c, l), L(c, l)); return p; }
    case MAPK: { struct cee_map *p = cee_map_mk_e(st, o, cmpp); cee_map_add(p, x, L(c, l)); return p; }
    case DICT: { struct cee_dict *p = cee_dict_mk_e(st, P0, 2); void *k = cee_str_mk(st, "key"); leafs[c][l][nleaf[c][l]++] = k; cee_dict_add(p, k, x); return p; }
    case TUP: return cee_tuple_mk_e(st, o, L(c, l), x);
    case TRI: return cee_triple_mk_e(st, o, x, L(c, l), L(c, l));
    case QUAD: return cee_quadruple_mk_e(st, o, L(c, l), L(c, l), L(c, l), x);
    case NTUP: if (P0 != CEE_DP_DEL_RC) return cee_tuple_mk_e(st, o, x, L(c, l)); return cee_n_tuple_mk(st, 3, L(c, l), x, L(c, l)); /* always counting */
    case TAG: { return cee_tagged_mk_e(st, P0, 5, x); }
    default: return 0;
  }
}
static int kindof(int mode, int l) { return mode < NK - 2 ? mode : (l * 3 + mode) % (NK - 2); }
static void *ch[2][MD + 1]; static int D, mode, envs;
static void *chain(int c) { void *x = ch[c][D] = cee_block_mk(st, 4); for (int l = D - 1; l >= 0; l--) x = ch[c][l] = link_(kindof(mode, l), x, c, l); return x; }
/* environments nest only in environments: a chain of them with a closure on top */
static void *envchain(int c) { enum cee_del_policy o[2] = { P0, P0 }; void *x = 0; for (int l = D; l > 0; l--) { struct cee_map *m = 0; if (l % 3 == 0) { m = cee_map_mk_e(st, o, (void *)strcmp); void *k = cee_str_mk(st, "x"); leafs[c][l][0] = k; leafs[c][l][1] = m; nleaf[c][l] = 2; cee_map_add(m, k, k); } x = ch[c][l] = cee_env_mk_e(st, o, x, m); } return ch[c][0] = P0 == CEE_DP_NOOP || c == 0 ? (void *)cee_closure_mk(st, x, fun) : cee_env_mk_e(st, o, x, 0); }
static void expect(int c, int from, int to, int freed) { for (int l = from; l <= to; l++) { ASSERT(sym_is_freed(ch[c][l]) == freed, freed ? "an unreachable object is freed" : "a reachable object stays"); if (l < MD) for (int i = 0; i < nleaf[c][l]; i++) ASSERT(sym_is_freed(leafs[c][l][i]) == freed, freed ? "an unreachable element is freed" : "a reachable element stays"); } }
static int cut(int l) { void *p = ch[0][l]; switch (kindof(mode, l)) { case LIST: cee_list_remove(p, 1); return 1; case STACK: cee_stack_pop(p); return 1; case SET: cee_set_remove(p, ch[0][l + 1]); return 1; case MAPV: cee_map_remove(p, leafs[0][l][0]); return 1; case MAPK: cee_map_remove(p, ch[0][l + 1]); return 1; default: return 0; } }
static void gc(void) {
  envs = P("envs", 0); void *a = envs ? envchain(0) : chain(0), *g = envs ? envchain(1) : chain(1), *ex[30]; int nex = sym_choice("anchors", 2) * 27, how = sym_choice("how", 3); struct cee_str *ck[30];
  for (int i = 0; i <= nex; i++) { ex[i] = i ? (void *)cee_block_mk(st, 8) : a; int h = (i + how) % 3; if (h == 2 && i > 12) h = 0; if (h == 0) cee_state_add_gc_root(st, ex[i]); else if (h == 1) { ck[i] = cee_str_mk(st, "c%d", i); cee_state_add_context(st, (char *)ck[i], ex[i]); } else ASSERT(cee_stack_push(st->stack, ex[i]), "room on the stack"); }
  int n = 1 + sym_choice("n", 5); for (int i = 0; i < n; i++) { cee_state_gc(st); if (i < 2) for (int k = 0; k < 3; k++) cee_block_mk(st, 16); }
  expect(0, 0, D, 0); for (int i = 0; i <= nex; i++) ASSERT(!sym_is_freed(ex[i]), "an anchored object stays"); if (n > 1) expect(1, 0, D, 1); sym_reach("kept");
  int w = sym_choice("cut", 4); if (w < 3 && !envs) { int l = w == 0 ? 0 : w == 1 ? D / 2 : D - 1; if (!cut(l)) sym_stop(); cee_state_gc(st); cee_state_gc(st); expect(0, 0, l - 1, 0); ASSERT(!sym_is_freed(ch[0][l]), "the cut object stays"); expect(0, l + 1, D, 1); sym_reach("cut"); }
  else { if (how == 0) cee_state_remove_gc_root(st, a); else if (how == 1) cee_state_remove_context(st, (char *)ck[0]); else { if (nex) sym_stop(); ASSERT(cee_stack_pop(st->stack) == a, "popped"); } cee_state_gc(st); cee_state_gc(st); expect(0, 0, D, 1); for (int i = 1; i <= nex; i++) ASSERT(!sym_is_freed(ex[i]), "an anchored object stays"); sym_reach("released"); }
  cee_state_gc(st); for (int i = 1; i <= nex; i++) ASSERT(!sym_is_freed(ex[i]), "an anchored object stays");
}
static void del(void) {
  void *a = chain(0); int w = P0 == CEE_DP_DEL_RC ? sym_choice("hold", 4) : 3, l = w == 0 ? 1 : w == 1 ? D / 2 + (D == 1) : D; struct cee_list *h = 0; if (w < 3) { h = cee_list_mk(st, 1); cee_list_append(h, ch[0][l]); }
  cee_del(a); if (P0 == CEE_DP_NOOP) { ASSERT(sym_is_freed(a), "deleted"); for (int i = 0; i < nleaf[0][0]; i++) ASSERT(!sym_is_freed(leafs[0][0][i]), "an element held under the no-op policy stays"); expect(0, 1, D, 0); sym_reach("noop"); }
  else { expect(0, 0, h ? l - 1 : D, 1); if (h) { expect(0, l, D, 0); sym_reach("held"); cee_del(h); expect(0, l, D, 1); } sym_reach("gone"); }
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(20); int gcj = P("what", 0) == 0, p = sym_choice("policy", gcj ? 2 : 3); P0 = p == 0 ? CEE_DP_DEL_RC : p == 1 ? CEE_DP_NOOP : CEE_DP_DEL;
  static const int DD[] = { 1, 2, 7, 33, 60 }; D = DD[sym_choice("depth", P("nd", 5))]; mode = P("envs", 0) ? 0 : sym_choice("mode", NK + 1);
  if (gcj) gc(); else del();
  cee_del(st); NO_LEAK(base);
}
