/* C02, C03: containers of many elements, each of which counts.
   what 0: reachable only through one container, then released; 1: deletion under each policy, one element held besides; 2: an environment with outer environment and variables under different policies */
#include "h.h"
static struct cee_state *st; enum { LIST, STACK, SET, MAPK, DICT, NTUP, TRI, QUAD, TUP, NK };
static int cmpp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void *E[2][70]; static int n, ne; static void *el(void) { return cee_block_mk(st, 8); }
static void *make(int kind, int p, int pk) { enum cee_del_policy o[16]; for (int i = 0; i < 16; i++) o[i] = p; for (int i = 0; i < n; i++) { E[0][i] = el(); } void **e = E[0]; ne = n;
  switch (kind) {
    case LIST: { struct cee_list *l = cee_list_mk_e(st, p, 1); for (int i = 0; i < n; i++) cee_list_append(l, e[i]); return l; }
    case STACK: { struct cee_stack *s = cee_stack_mk_e(st, p, n); for (int i = 0; i < n; i++) cee_stack_push(s, e[i]); return s; }
    case SET: { struct cee_set *s = cee_set_mk_e(st, p, cmpp); for (int i = 0; i < n; i++) cee_set_add(s, e[i]); return s; }
    case MAPK: { o[0] = pk; o[1] = p; struct cee_map *m = cee_map_mk_e(st, o, cmpp); for (int i = 0; i < n; i++) cee_map_add(m, E[1][i] = el(), e[i]); return m; }
    case DICT: { struct cee_dict *d = cee_dict_mk_e(st, p, 2); for (int i = 0; i < n; i++) cee_dict_add(d, E[1][i] = cee_str_mk(st, "%c%d", 'a' + i % 26, i), e[i]); return d; }
    case NTUP: if (p == CEE_DP_DEL_RC) return cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); return 0;
    case TRI: ne = 3; return cee_triple_mk_e(st, o, e[0], e[1], e[2]); case QUAD: ne = 4; return cee_quadruple_mk_e(st, o, e[0], e[1], e[2], e[3]); default: ne = 2; return cee_tuple_mk_e(st, o, e[0], e[1]); } }
static void all(int freed, int but, int keys) { for (int i = 0; i < ne; i++) if (i != but) ASSERT(sym_is_freed(E[0][i]) == freed, freed ? "an element nothing holds is freed" : "an element that is still held stays"); if (keys >= 0) for (int i = 0; i < n; i++) ASSERT(sym_is_freed(E[1][i]) == keys, keys ? "a key nothing holds is freed" : "a key that is still held stays"); }
static void env2(void) { int p0 = sym_choice("p0", 3), p1 = sym_choice("p1", 3), h0 = sym_choice("h0", 2), h1 = sym_choice("h1", 2), both = sym_choice("both", 3); static const enum cee_del_policy PO[] = { CEE_DP_DEL_RC, CEE_DP_DEL, CEE_DP_NOOP }; enum cee_del_policy o[2] = { PO[p0], PO[p1] };
  struct cee_map *m = both == 1 ? 0 : cee_map_mk(st, cmpp); struct cee_env *out = both == 2 ? 0 : cee_env_mk(st, 0, 0), *e; struct cee_list *l0 = cee_list_mk(st, 1), *l1 = cee_list_mk(st, 1); if ((h0 && p0 == 1) || (h1 && p1 == 1)) sym_stop(); /* owned: held by nothing else */
  e = cee_env_mk_e(st, o, out, m); if (h0 && out) cee_list_append(l0, out); if (h1 && m) cee_list_append(l1, m); int gone0 = p0 != 2 && !h0, gone1 = p1 != 2 && !h1; cee_del(e); ASSERT(sym_is_freed(e), "deleted"); if (out) ASSERT(sym_is_freed(out) == gone0, "the outer environment follows its policy"); if (m) ASSERT(sym_is_freed(m) == gone1, "the variables follow their policy");
  cee_del(l0); cee_del(l1); if (out && p0 == 0) ASSERT(sym_is_freed(out), "the last claim frees the outer environment"); if (m && p1 == 0) ASSERT(sym_is_freed(m), "the last claim frees the variables"); sym_reach("environment"); }
void harness(void) { size_t base = sym_heap_live(); st = cee_state_mk(20); int what = P("what", 0); if (what == 2) { env2(); cee_del(st); NO_LEAK(base); return; }
  static const enum cee_del_policy PO[] = { CEE_DP_DEL_RC, CEE_DP_DEL, CEE_DP_NOOP }; int kind = sym_choice("kind", NK), pi = sym_choice("policy", kind == NTUP ? 1 : 3), ki = kind == MAPK && what ? sym_choice("keypolicy", 3) : pi; if (what == 0 && pi == 1) sym_stop(); /* collected objects are not owned */
  if (kind == NTUP) n = 1 + sym_choice("n", 16); else if (kind >= TRI) n = 4; else { static const int CNT[] = { 1, 2, 3, 5, 8, 13, 21, 34, 50, 64 }; n = CNT[sym_choice("n", 10)]; }
  void *c = make(kind, PO[pi], PO[ki]); int hasK = kind == MAPK || kind == DICT; for (int i = ne; i < n; i++) cee_del(E[0][i]);
  if (what == 0) { int other = sym_choice("other", 2); void *pad = other ? el() : 0; if (pad) cee_state_add_gc_root(st, pad); cee_state_add_gc_root(st, c); int k = 1 + sym_choice("times", 3); for (int i = 0; i < k; i++) cee_state_gc(st); ASSERT(!sym_is_freed(c), "an anchored object stays"); all(0, -1, hasK ? 0 : -1); sym_reach("kept"); cee_state_remove_gc_root(st, c); cee_state_gc(st); cee_state_gc(st); ASSERT(sym_is_freed(c), "an unreachable object is freed"); all(1, -1, hasK ? 1 : -1); if (pad) ASSERT(!sym_is_freed(pad), "an anchored object stays"); sym_reach("released"); }
  else { int but = -1; struct cee_list *l = 0; if (pi == 0 && sym_choice("hold", 2)) { int w = sym_choice("at", 3); but = w == 0 ? 0 : w == 1 ? ne / 2 : ne - 1; l = cee_list_mk(st, 1); cee_list_append(l, E[0][but]); } cee_del(c); ASSERT(sym_is_freed(c), "deleted"); all(pi != 2, but, hasK ? ki != 2 : -1); if (l) { ASSERT(!sym_is_freed(E[0][but]), "an element that is still held stays"); cee_del(l); ASSERT(sym_is_freed(E[0][but]), "the last claim frees"); sym_reach("held"); } sym_reach(pi == 2 ? "noop" : "gone"); }
  cee_del(st); NO_LEAK(base); }
