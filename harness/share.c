/* C02: who dies when a container is deleted */
#include "life.h"
static const int coll[5] = { LIST, STACK, SET, MAP, DICT }, prod[5] = { TUP, TRI, QUAD, NTUP, TAG };
static int container(const char *nm, int nel, int fill, int mixed) {
  int k = sym_choice(nm, 10); ASSUME(P("kinds", 0x3FF) >> k & 1);
  if (k < 5) {
    int p = sym_choice("pol", 3), kp = coll[k] == MAP ? sym_choice("kpol", 3) : p, c = mk(coll[k], p, kp), m = sym_choice("fill", fill + 1);
    for (int i = 0; i < m; i++) { int e = sym_choice("el", nel); ASSUME(claimable(e, p)); put(c, e); }
    return c;
  } else {
    int a = prod_arity(prod[k - 5]), e[4], pol[4], p0 = sym_choice("pol", prod[k - 5] == NTUP ? 1 : 3);
    int used[8] = {0};
    for (int i = 0; i < a; i++) {
      pol[i] = (mixed && i) ? (p0 + i) % 3 : p0; if (prod[k - 5] == NTUP) pol[i] = RC;
      e[i] = i < 2 ? sym_choice("el", nel) : nel > 1 ? nel - 1 - (i & 1) : 0; ASSUME(claimable(e[i], pol[i]));
      if (pol[i] == DELP) { ASSUME(!used[e[i]]); used[e[i]] = 3; } else if (pol[i] == RC) { ASSUME(used[e[i]] < 2); used[e[i]] = 1; }
    }
    return mkprod(prod[k - 5], e, pol);
  }
}
extern struct cee_set *cee_set_clone(struct cee_set *); extern struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *);
static int C[12], nc;
static int alive_in(int c) { for (int k = 0; k < N[c].ns; k++) if (!N[N[c].sl[k]].alive) return 0; return 1; }
static int owned_in(int c) { for (int k = 0; k < N[c].ns; k++) if (N[N[c].sl[k]].ret) return 1; return 0; }
/* which of from's slots holds this pointer */
static int slot_of(int from, void *p) { for (int k = 0; k < N[from].ns; k++) if (N[N[from].sl[k]].p == p) return N[from].sl[k]; sym_fail("an element of the original"); return 0; }
/* copies of whole containers: what they hold they claim under their own policy */
static void copy(int c) {
  ASSUME(alive_in(c) && N[c].kind <= MAP && N[c].kind != STACK); int r, w;
  if (N[c].kind == SET) { w = sym_choice("form", 3);
    if (w == 0) { ASSUME(N[c].pol != DELP || !N[c].ns); ASSUME(N[c].pol == NOP || !owned_in(c)); r = node(cee_set_clone(N[c].p), SET); N[r].pol = N[c].pol; }
    else { ASSUME(!owned_in(c)); int d = w == 1 ? c : C[nc - 1]; ASSUME(N[d].alive && N[d].kind == SET && alive_in(d) && !owned_in(d)); if (w == 2) ASSUME(d != c); 
      r = node(cee_set_union_set(st, N[c].p, N[d].p), SET); N[r].pol = RC; if (d != c) { for (int k = 0; k < N[c].ns; k++) claim(r, N[c].sl[k], RC); for (int k = 0; k < N[d].ns; k++) if (!has(r, N[d].sl[k])) claim(r, N[d].sl[k], RC); sym_reach("union"); goto done; } }
    for (int k = 0; k < N[c].ns; k++) claim(r, N[c].sl[k], N[r].pol); }
  else if (N[c].kind == MAP) { w = sym_choice("form", 2);
    if (w == 0) { r = node(cee_map_clone(N[c].p), MAP); N[r].pol = N[c].pol; N[r].kpol = N[c].kpol; ASSUME(!N[c].ns || (N[c].pol != DELP && N[c].kpol != DELP)); }
    else { enum cee_del_policy o[2] = { sym_choice("kpol2", 3), sym_choice("pol2", 3) }; for (int k = 0; k < N[c].ns; k++) ASSUME(claimable(N[c].sl[k], k & 1 ? o[1] : o[0])); int seen[40] = {0}; for (int k = 0; k < N[c].ns; k++) if ((k & 1 ? o[1] : o[0]) == DELP) { ASSUME(!seen[N[c].sl[k]]); seen[N[c].sl[k]] = 1; } 
      for (int k = 0; k < N[c].ns; k++) ASSUME(!(seen[N[c].sl[k]] && (k & 1 ? o[1] : o[0]) == RC));
      r = node(cee_map_mk_e(st, o, cmpid), MAP); N[r].kpol = o[0]; N[r].pol = o[1]; cee_map_merge(N[r].p, N[c].p, 0, 0); sym_reach("merge"); }
    for (int k = 0; k < N[c].ns; k++) ASSUME((k & 1 ? N[r].pol : N[r].kpol) == NOP || !N[N[c].sl[k]].ret);
    for (int k = 0; k < N[c].ns; k++) claim(r, N[c].sl[k], k & 1 ? N[r].pol : N[r].kpol); }
  else { int p = sym_choice("pol2", 3), pre = sym_choice("pre", 2), d = C[nc - 1]; 
    if (d == c && pre && N[c].kind == LIST) { int n0 = N[c].ns; p = N[c].pol; ASSUME(2 * n0 < MAXS && (p != DELP || !n0) && !owned_in(c)); cee_list_merge(N[c].p, N[c].p); for (int k = 0; k < n0; k++) claim(c, N[c].sl[k], p); sym_reach("merge into itself"); return; }
    if (d != c && pre && N[d].kind == LIST && N[d].alive) { ASSUME(alive_in(d)); r = d; p = N[d].pol; ASSUME(N[d].ns + N[c].ns < MAXS); } else { r = mk(LIST, p, p); ASSUME(pre == 0); }
    int seen[40] = {0}; for (int k = 0; k < N[c].ns; k++) { ASSUME(claimable(N[c].sl[k], p)); if (p == DELP) { ASSUME(!seen[N[c].sl[k]]); seen[N[c].sl[k]] = 1; } }
    cee_list_merge(N[r].p, N[c].p); for (int k = 0; k < N[c].ns; k++) claim(r, N[c].sl[k], p); sym_reach("list merge"); if (r == d) { return; } }
done: C[nc++] = r; sym_reach("copy");
}
void harness(void) {
  int fill = P("fill", 2), ops = P("ops", 2), ncont = P("ncont", 1), nleaf = P("nleaf", 2), mixed = P("mixed", 0);
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  for (int i = 0; i < nleaf; i++) leaf(BLK);
  for (int c = 0; c < ncont; c++) { int lim = nn; /* keys of earlier maps are not candidates */
    if (c == 0) C[nc++] = container("kind", nleaf, fill, mixed);
    else { /* leaves and earlier containers are candidates: renumber by placing candidates first */
      int k = P("flat", 0) ? 0 : sym_choice("nest", 2);
      if (k) { /* nested: hold the previous container, once */
        int kk = sym_choice("kind", 7), p = sym_choice("pol", 3), prev = C[c - 1], r;
        if (kk < 5) { ASSUME(claimable(prev, p)); ASSUME(!(coll[kk] == SET)); r = mk(coll[kk], p, p); put(r, prev); if (p == RC && sym_choice("twice", 2)) put(r, prev); }
        else if (kk == 6) { ASSUME(claimable(prev, p)); ASSUME(N[prev].kind == MAP || N[prev].kind == ENV); enum cee_del_policy o[2] = { p, p };
          r = node(N[prev].kind == MAP ? cee_env_mk_e(st, o, 0, N[prev].p) : cee_env_mk_e(st, o, N[prev].p, 0), ENV); claim(r, prev, p); sym_reach("env"); }
        else { int e[1] = { prev }, pol[1] = { p }; ASSUME(claimable(prev, p)); r = mkprod(TAG, e, pol); }
        C[nc++] = r; sym_reach("nested");
      } else C[nc++] = container("kind", nleaf, fill, mixed);
    }
  }
  check_alive();
  for (int o = 0; o < ops; o++) {
    int c = C[sym_choice("which", nc)], op = o == 0 && P("first", 0) ? 5 : sym_choice("op", 5); ASSUME(N[c].alive);
    if (op == 0) { ASSUME(deletable(c)); cee_del(N[c].p); mdel(c); sym_reach("del"); }
    else if (op == 1) { ASSUME(N[c].kind <= MAP && N[c].ns > 0); int i = sym_choice("slot", N[c].kind == STACK ? 1 : N[c].ns); ASSUME(N[c].kind != MAP || !(i & 1)); ASSUME(take(c, i)); sym_reach("take"); }
    else if (op == 5) copy(c);
    else if (op == 3) { ASSUME(N[c].kind == SET && N[c].ns); for (int k = 0; k < N[c].ns; k++) ASSUME(N[N[c].sl[k]].alive); cee_set_clear(N[c].p);
      int sl[MAXS], ns = N[c].ns; memcpy(sl, N[c].sl, sizeof sl); N[c].ns = 0; for (int k = 0; k < ns; k++) { int e = sl[k]; if (N[c].pol == RC) { if (--N[e].rc == 0 && !N[e].ret) mdel(e); } else if (N[c].pol == DELP) mdel(e); } sym_reach("clear"); }
    else if (op == 4) { ASSUME(N[c].kind == MAP && N[c].ns); for (int k = 0; k < N[c].ns; k++) ASSUME(N[N[c].sl[k]].alive); int i = 2 * sym_choice("pair", N[c].ns / 2), e = sym_choice("el", nleaf), old = N[c].sl[i + 1];
      if (e != old) ASSUME(claimable(e, N[c].pol)); ASSERT(cee_map_add(N[c].p, N[N[c].sl[i]].p, N[e].p) == N[old].p, "replacing returns the old value");
      if (e != old) { unclaim(c, i + 1); claim(c, e, N[c].pol); int t = N[c].ns - 1; for (int k = t; k > i + 1; k--) N[c].sl[k] = N[c].sl[k - 1]; N[c].sl[i + 1] = e; for (int k = 0; k < N[c].ns; k++) N[c].sp[k] = k & 1 ? N[c].pol : N[c].kpol; } sym_reach("replace"); }
    else { ASSUME(N[c].kind <= DICT && N[c].ns < MAXS - 1); int e = sym_choice("el", nleaf); ASSUME(claimable(e, N[c].pol)); for (int k = 0; k < N[c].ns; k++) ASSUME(N[N[c].sl[k]].alive); put(c, e); sym_reach("put"); }
    check_alive();
  }
  sym_observe("nodes", nn); int al = 0; for (int i = 0; i < nn; i++) al += N[i].alive; sym_observe("alive", al);
  cee_del(st); NO_LEAK(base);
}
