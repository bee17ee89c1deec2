/* C01: whatever was created, filled, grown, emptied and deleted, the state lists every live object once and frees all */
#include "life.h"
extern struct cee_set *cee_set_clone(struct cee_set *);
static const int coll[5] = { LIST, STACK, SET, MAP, DICT }, prod[5] = { TUP, TRI, QUAD, NTUP, TAG };
static int anyobj(void) { int k = sym_choice("obj", nn); ASSUME(N[k].alive); return k; }
static int allalive(int c) { for (int k = 0; k < N[c].ns; k++) if (!N[N[c].sl[k]].alive) return 0; return 1; }
static int sizes[6] = { 200, 1, 700, 64, 7, 0 };
void harness(void) {
  int ops = P("ops", 2), maxop = P("maxop", 8), minop = P("minop", 0); uint8_t big[720]; memset(big, 'x', sizeof big);
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  { /* one object to start from */ int k = sym_choice("first", 8); if (k < 3) leaf(k); else { int c = mk(coll[k - 3], sym_choice("pol", 3), RC); (void)c; } }
  check_chain();
  for (int o = 0; o < ops; o++) {
    int op = minop + sym_choice("op", maxop - minop);
    if (op == 0) leaf(sym_choice("leaf", 3));
    else if (op == 1) { /* grow a string: it may move, in both resize modes */
      int i = anyobj(); ASSUME(N[i].kind == STR && N[i].rc == 0 && !N[i].ret); int re = sym_choice("realloc", 2), how = sym_choice("how", 3); if (re) cee_use_realloc(N[i].p); else cee_use_malloc(N[i].p);
      struct cee_str *old = N[i].p, *nw; int len = how == 2 ? 0 : sizes[sym_choice("len", P("nlen", 6))]; big[len] = 0;
      if (how == 0) nw = cee_str_catf(old, "%s", (char *)big); else if (how == 1) nw = cee_str_replace(old, "%s", (char *)big); else nw = cee_str_add(old, 'q'); big[len] = 'x';
      if (nw != old) { if (re) { ASSERT(sym_is_freed(old), "the outgrown block is gone"); N[i].alive = 0; node(nw, STR); for (int k = 0; k < nn; k++) ASSERT(k == i || N[k].p != (void *)old || !N[k].alive, "unique"); }
        else { ASSERT(!sym_is_freed(old), "the outgrown block stays until deleted"); node(nw, STR); } sym_reach(re ? "realloced" : "malloced"); }
    } else if (op == 2) { int k = coll[sym_choice("coll", 5)], p = sym_choice("pol", 3), kp = k == MAP && !P("fewpol", 0) ? sym_choice("kpol", 3) : RC, e = anyobj(); ASSUME(claimable(e, p)); int c = mk(k, p, kp); if (k == SET) ASSUME(N[e].kind == BLK); put(c, e); }
    else if (op == 3) { int k = prod[sym_choice("prod", 5)], p = sym_choice("pol", k == NTUP || P("fewpol", 0) ? 1 : 3), a = prod_arity(k), e[4], pol[4]; e[0] = anyobj(); ASSUME(claimable(e[0], p)); pol[0] = p; for (int i = 1; i < a; i++) { e[i] = p == DELP ? leaf(BOX) : e[0]; pol[i] = p; } mkprod(k, e, pol); sym_reach("product"); }
    else if (op == 4) { int i = anyobj(); ASSUME(deletable(i)); cee_del(N[i].p); mdel(i); sym_reach("del"); }
    else if (op == 5) { int c = anyobj(), e = anyobj(); ASSUME(N[c].kind >= LIST && N[c].kind <= DICT && N[c].ns < MAXS - 1 && allalive(c) && claimable(e, N[c].pol) && !reaches(e, c)); if (N[c].kind == SET) ASSUME(N[e].kind == BLK); put(c, e); sym_reach("put"); }
    else if (op == 6) { int c = anyobj(); ASSUME(N[c].kind >= LIST && N[c].kind <= MAP && N[c].ns > 0); ASSUME(take(c, 0)); sym_reach("take"); }
    else { /* enumerations and copies */
      int c = anyobj(); ASSUME((N[c].kind == SET || N[c].kind == MAP) && N[c].pol != DELP && (N[c].kind == SET || N[c].kpol != DELP) && allalive(c)); void *r; int w = sym_choice("enum", N[c].kind == SET ? 2 : 4), id;
      for (int k = 0; k < N[c].ns; k++) ASSUME(!N[N[c].sl[k]].ret);
      if (N[c].kind == SET) { if (w) { id = node(cee_set_clone(N[c].p), SET); N[id].pol = N[c].pol; for (int k = 0; k < N[c].ns; k++) claim(id, N[c].sl[k], N[c].pol); }
        else { id = node(cee_set_values(N[c].p), LIST); N[id].pol = RC; ASSERT(cee_list_size(N[id].p) == N[c].ns, "all values"); for (int k = 0; k < N[c].ns; k++) for (int j = 0; j < N[c].ns; j++) if (((struct cee_list *)N[id].p)->a[k] == N[N[c].sl[j]].p) claim(id, N[c].sl[j], RC); } }
      else if (w == 3) { id = node(cee_map_clone(N[c].p), MAP); N[id].pol = N[c].pol; N[id].kpol = N[c].kpol; for (int k = 0; k < N[c].ns; k++) claim(id, N[c].sl[k], k & 1 ? N[c].pol : N[c].kpol); }
      else { id = node(w == 0 ? cee_map_keys(N[c].p) : w == 1 ? cee_map_values(N[c].p) : cee_map_insertion_ordered_keys(N[c].p), LIST); N[id].pol = RC; struct cee_list *l = N[id].p; ASSERT(cee_list_size(l) * 2 == N[c].ns, "all of them");
        for (int k = 0; k < cee_list_size(l); k++) { int hit = -1; for (int j = w == 1; j < N[c].ns; j += 2) if (l->a[k] == N[N[c].sl[j]].p) hit = N[c].sl[j]; ASSERT(hit >= 0, "an element of the map"); claim(id, hit, RC); } }
      sym_reach("enumerated");
    }
    check_alive(); if (o + 1 == ops || !P("last", 0)) check_chain();
  }
  sym_observe("nodes", nn); int al = 0; for (int i = 0; i < nn; i++) al += N[i].alive; sym_observe("alive", al);
  cee_del(st); for (int i = 0; i < nn; i++) ASSERT(sym_is_freed(N[i].p), "deleting the state frees every object"); NO_LEAK(base);
}
