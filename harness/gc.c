/* C03: mark and sweep against reachability in the model */
#include "life.h"
static const int coll[5] = { LIST, STACK, SET, MAP, DICT }, prod[5] = { TUP, TRI, QUAD, NTUP, TAG };
static int how[40], gone[40], mark[40]; static struct cee_str *ck[40];
static void domark(int i) { if (mark[i]) return; mark[i] = 1; for (int k = 0; k < N[i].ns; k++) domark(N[i].sl[k]); }
static void compute(void) { memset(mark, 0, sizeof mark); for (int i = 0; i < nn; i++) if (N[i].alive && how[i]) domark(i); }
/* the contents of a reachable object are as the model has them, through the public interface */
static void usable(int c) {
  struct node *n = &N[c];
  switch (n->kind) {
    case BLK: ASSERT(*(uint8_t *)n->p == Key[c], "a block keeps its content"); break;
    case STR: ASSERT(((char *)n->p)[1] == 0, "a string keeps its content"); break;
    case LIST: { struct cee_list *l = n->p; ASSERT(cee_list_size(l) == n->ns, "list size"); for (int k = 0; k < n->ns; k++) ASSERT(l->a[k] == N[n->sl[k]].p, "list element"); break; }
    case STACK: ASSERT(cee_stack_size(n->p) == n->ns, "stack size"); for (int k = 0; k < n->ns; k++) ASSERT(cee_stack_top(n->p, k) == N[n->sl[n->ns - 1 - k]].p, "stack element"); break;
    case SET: ASSERT(cee_set_size(n->p) == n->ns, "set size"); for (int k = 0; k < n->ns; k++) ASSERT(cee_set_find(n->p, N[n->sl[k]].p) == N[n->sl[k]].p, "set element"); break;
    case MAP: { ASSERT(cee_map_size(n->p) * 2 == n->ns, "map size"); for (int k = 0; k < n->ns; k += 2) ASSERT(cee_map_find(n->p, N[n->sl[k]].p) == N[n->sl[k + 1]].p, "map value");
      struct cee_list *l = cee_map_insertion_ordered_keys(n->p); ASSERT(cee_list_size(l) * 2 == n->ns, "ordered keys"); for (int k = 0; k < n->ns; k += 2) ASSERT(l->a[k / 2] == N[n->sl[k]].p, "ordered key"); break; }
    case DICT: for (int k = 0; k < n->ns; k += 2) ASSERT(cee_dict_find(n->p, N[n->sl[k]].p) == N[n->sl[k + 1]].p, "dict value"); break;
    case TUP: case TRI: case QUAD: case NTUP: for (int k = 0; k < n->ns; k++) ASSERT(((void **)n->p)[k] == N[n->sl[k]].p, "product slot"); break;
    case TAG: ASSERT(((struct cee_tagged *)n->p)->tag == 7 && ((struct cee_tagged *)n->p)->ptr._ == N[n->sl[0]].p, "tagged value"); break;
    case ENV: ASSERT((((struct cee_env *)n->p)->outer ? (void *)((struct cee_env *)n->p)->outer : (void *)((struct cee_env *)n->p)->vars) == N[n->sl[0]].p, "environment"); break;
    case CLO: ASSERT(((struct cee_closure *)n->p)->env == N[n->sl[0]].p, "closure"); break;
  }
}
static void collect(void) {
  compute(); cee_state_gc(st);
  for (int i = 0; i < nn; i++) if (N[i].alive) {
    if (mark[i]) { gone[i] = 0; ASSERT(!sym_is_freed(N[i].p), "a reachable object survives the collection"); }
    else { gone[i]++; if (sym_is_freed(N[i].p)) { N[i].alive = 0; N[i].ns = 0; } else ASSERT(gone[i] < 2, "an unreachable object is freed after two collections"); }
  }
  for (int i = 0; i < nn; i++) if (mark[i]) usable(i);
}
static int any(void) { int k = sym_choice("obj", nn); ASSUME(N[k].alive); return k; }
static void object(int pol, int kinds) {
  int k = sym_choice("kind", kinds);
  if (k == 0) { int id = mk(LIST, pol, RC); (void)id; } else if (k < 5) mk(coll[k], pol, pol);
  else if (k < 10) { int e[4], p[4] = { pol, pol, pol, pol }; e[0] = any(); for (int i = 1; i < 4; i++) e[i] = i == 1 && prod[k - 5] != TAG ? any() : e[0]; mkprod(prod[k - 5], e, p); }
  else if (k == 10) { int e = any(); ASSUME(N[e].kind == MAP || N[e].kind == ENV); enum cee_del_policy o[2] = { pol, pol }; int r = node(N[e].kind == MAP ? cee_env_mk_e(st, o, 0, N[e].p) : cee_env_mk_e(st, o, N[e].p, 0), ENV); claim(r, e, pol); sym_reach("env"); }
  else { int e = any(); ASSUME(N[e].kind == ENV); int r = node(cee_closure_mk(st, N[e].p, (void *)noopfun), CLO); claim(r, e, NOP); sym_reach("closure"); }
}
static void anchor(int i, int h) {
  ASSUME(N[i].alive && !how[i]);
  if (h == 1) cee_state_add_gc_root(st, N[i].p);
  else if (h == 2) { ck[i] = cee_str_mk(st, "k%c", 'a' + i); cee_state_add_context(st, (char *)ck[i], N[i].p); ASSERT(cee_state_get_context(st, (char *)ck[i]) == N[i].p, "context readable"); }
  else { ASSUME(cee_stack_push(st->stack, N[i].p)); }
  how[i] = h;
}
static void release(int i) {
  ASSUME(how[i]);
  if (how[i] == 1) cee_state_remove_gc_root(st, N[i].p);
  else if (how[i] == 2) { cee_state_remove_context(st, (char *)ck[i]); }
  else { ASSUME(cee_stack_top(st->stack, 0) == N[i].p); cee_stack_pop(st->stack); }
  how[i] = 0;
}
static int seen_[40]; static int loops_(int a, int b) { if (a == b) return 1; if (seen_[a]) return 0; seen_[a] = 1; for (int i = 0; i < N[a].ns; i++) if (loops_(N[a].sl[i], b)) return 1; return 0; }
static int loops(int a, int b) { memset(seen_, 0, sizeof seen_); return loops_(a, b); }
static void edge(int allowself) {
  int c = any(), e = any(); ASSUME(N[c].kind >= LIST && N[c].kind <= DICT && N[c].ns < MAXS - 1 && (N[c].kind != STACK || N[c].ns < 3)); if (N[c].kind == SET) ASSUME(N[e].kind == BLK);
  /* loops are the developer's responsibility under reference counting, allowed otherwise */
  if (loops(e, c)) { ASSUME(N[c].pol == NOP); sym_reach("loop"); }
  put(c, e);
}
void harness(void) {
  int nobj = P("nobj", 2), nedge = P("nedge", 2), ops = P("ops", 2), kinds = P("kinds", 12);
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  int pol = P("pol", -1); if (pol < 0) pol = sym_choice("pol", 2) ? NOP : RC;
  leaf(BLK); if (P("startmap", 0)) { mk(MAP, pol, pol); if (P("startmap", 0) > 1) { enum cee_del_policy o[2] = { pol, pol }; int r = node(cee_env_mk_e(st, o, 0, N[1].p), ENV); claim(r, 1, pol); } }
  for (int i = 0; i < nobj; i++) object(pol, kinds);
  for (int i = 0; i < nedge; i++) if (sym_choice("more", 2)) edge(1);
  int last = nn - 1, nroot = P("nroot", 2);
  for (int r = 0; r < nroot; r++) { int w = sym_choice("anchor", 4); if (w) anchor(r ? any() : last, w); }
  collect(); check_chain();
  for (int o = 0; o < ops; o++) {
    int op = sym_choice("op", 5);
    if (op == 0) { int i = any(); release(i); sym_reach("released"); }
    else if (op == 1) { int c = any(); compute(); ASSUME(mark[c] && N[c].kind >= LIST && N[c].kind <= MAP && N[c].ns); ASSUME(take(c, 0)); sym_reach("cut"); }
    else if (op == 2) { int i = any(); compute(); ASSUME(mark[i]); anchor(i, 1 + sym_choice("anchor", 3)); }
    else if (op == 3) { int f = leaf(BLK), c = any(); compute(); ASSUME(mark[c] && N[c].kind >= LIST && N[c].kind <= DICT && N[c].ns < MAXS - 1 && (N[c].kind != STACK || N[c].ns < 3)); put(c, f); sym_reach("grown"); }
    /* op 4: nothing changes */
    collect(); check_chain();
  }
  sym_observe("nodes", nn); int al = 0; for (int i = 0; i < nn; i++) al += N[i].alive; sym_observe("alive", al);
  cee_del(st); NO_LEAK(base);
}
