/* A model of library objects: who holds whom under which policy, and who must be alive. */
#ifndef LIFE_H
#define LIFE_H
#include "h.h"
extern uint32_t get_in_degree(void *);
enum { BLK, STR, BOX, LIST, STACK, SET, MAP, DICT, TUP, TRI, QUAD, NTUP, TAG, ENV, CLO, NKIND };
#define RC CEE_DP_DEL_RC
#define DELP CEE_DP_DEL
#define NOP CEE_DP_NOOP
#define MAXS 8
struct node { void *p; int kind, alive, ns, rc, ret; int pol, kpol; int sl[MAXS]; int sp[MAXS]; };
static struct node N[40]; static int nn; static struct cee_state *st;
static int cmpid(const void *a, const void *b) { uint8_t x = *(const uint8_t *)a, y = *(const uint8_t *)b; if (x < y) return -1; if (y < x) return 1; return 0; }
static int node(void *p, int kind) { struct node *n = &N[nn]; memset(n, 0, sizeof *n); n->p = p; n->kind = kind; n->alive = 1; return nn++; }
static void *noopfun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) { return s; }
static int leafno; static uint8_t Key[40];
static int leaf(int kind) {
  int id = leafno++;
  if (kind == STR) { return node(cee_str_mk(st, "%c", 'A' + id), STR); }
  if (kind == BOX) { return node(cee_boxed_from_u8(st, (uint8_t)(id + 1)), BOX); }
  /* blocks are compared by their first byte: any distinct ones, so that sets and maps take every shape */
  uint8_t *b = cee_block_mk(st, 8), v = sym_u8("key"); for (int i = 0; i < nn; i++) if (N[i].kind == BLK) ASSUME(v != Key[i]); b[0] = v; b[1] = 0; Key[nn] = v; return node(b, BLK);
}
/* may e be claimed under policy pol? */
static int claimable(int e, int pol) { return N[e].alive && (pol == NOP || (!N[e].ret && (pol == RC || N[e].rc == 0))); }
static int reaches(int a, int b) { if (a == b) return 1; for (int i = 0; i < N[a].ns; i++) if (reaches(N[a].sl[i], b)) return 1; return 0; }
static void claim(int c, int e, int pol) { struct node *n = &N[c]; n->sl[n->ns] = e; n->sp[n->ns] = pol; n->ns++; if (pol == RC) N[e].rc++; else if (pol == DELP) N[e].ret = 1; }
static void unclaim(int c, int i) { struct node *n = &N[c]; int e = n->sl[i], pol = n->sp[i]; for (int k = i; k + 1 < n->ns; k++) { n->sl[k] = n->sl[k+1]; n->sp[k] = n->sp[k+1]; } n->ns--; if (pol == RC) N[e].rc--; else if (pol == DELP) N[e].ret = 0; }
static void mdel(int n) { N[n].alive = 0; for (int i = 0; i < N[n].ns; i++) { int e = N[n].sl[i]; if (N[n].sp[i] == RC) { N[e].rc--; if (N[e].rc == 0 && !N[e].ret) mdel(e); } else if (N[n].sp[i] == DELP) mdel(e); } N[n].ns = 0; }
/* an empty container; kp is the key policy of a map */
static int mk(int kind, int pol, int kp) {
  enum cee_del_policy o[2] = { kp, pol }; int r;
  switch (kind) {
    case LIST: r = node(cee_list_mk_e(st, pol, 1), LIST); break;
    case STACK: r = node(cee_stack_mk_e(st, pol, 3), STACK); break;
    case SET: r = node(cee_set_mk_e(st, pol, cmpid), SET); break;
    case MAP: r = node(cee_map_mk_e(st, o, cmpid), MAP); break;
    default: r = node(cee_dict_mk_e(st, pol, 2), DICT); kp = pol; break;
  }
  N[r].pol = pol; N[r].kpol = kp; return r;
}
static int has(int c, int e) { for (int i = 0; i < N[c].ns; i++) if (N[c].sl[i] == e) return 1; return 0; }
static int put(int c, int e) {
  struct node *n = &N[c];
  switch (n->kind) {
    case LIST: cee_list_append(n->p, N[e].p); claim(c, e, n->pol); break;
    case STACK: if (!cee_stack_push(n->p, N[e].p)) { ASSERT(n->ns == 3, "only a full stack refuses"); return 0; } claim(c, e, n->pol); break;
    case SET: cee_set_add(n->p, N[e].p); if (!has(c, e)) claim(c, e, n->pol); break;
    case MAP: { int k = leaf(BLK); cee_map_add(n->p, N[k].p, N[e].p); claim(c, k, n->kpol); claim(c, e, n->pol); break; }
    case DICT: { int k = leaf(STR); cee_dict_add(n->p, N[k].p, N[e].p); claim(c, k, n->pol); claim(c, e, n->pol); break; }
  }
  return 1;
}
/* take slot i out */
static int take(int c, int i) {
  struct node *n = &N[c];
  switch (n->kind) {
    case LIST: ASSERT(cee_list_remove(n->p, i), "removed"); unclaim(c, i); return 1;
    case STACK: { int e = n->sl[n->ns - 1]; ASSERT(cee_stack_pop(n->p) == N[e].p, "popped the last"); unclaim(c, n->ns - 1); return 1; }
    case SET: for (int k = 0; k < n->ns; k++) if (!N[n->sl[k]].alive) return 0; ASSERT(cee_set_remove(n->p, N[n->sl[i]].p) == N[n->sl[i]].p, "removed element"); unclaim(c, i); return 1;
    case MAP: for (int k = 0; k < n->ns; k += 2) if (!N[n->sl[k]].alive) return 0; i &= ~1; ASSERT(cee_map_remove(n->p, N[n->sl[i]].p) == N[n->sl[i+1]].p, "removed value"); unclaim(c, i + 1); unclaim(c, i); return 1;
  }
  return 0;
}
static int prod_arity(int kind) { return kind == TUP ? 2 : kind == TRI ? 3 : kind == QUAD ? 4 : kind == NTUP ? 3 : 1; }
/* a product with the given elements */
static int mkprod(int kind, int *e, int *pol) {
  enum cee_del_policy o[4]; for (int i = 0; i < prod_arity(kind); i++) o[i] = pol[i]; int r;
  switch (kind) {
    case TUP: r = node(cee_tuple_mk_e(st, o, N[e[0]].p, N[e[1]].p), TUP); break;
    case TRI: r = node(cee_triple_mk_e(st, o, N[e[0]].p, N[e[1]].p, N[e[2]].p), TRI); break;
    case QUAD: r = node(cee_quadruple_mk_e(st, o, N[e[0]].p, N[e[1]].p, N[e[2]].p, N[e[3]].p), QUAD); break;
    case NTUP: r = node(cee_n_tuple_mk(st, 3, N[e[0]].p, N[e[1]].p, N[e[2]].p), NTUP); pol[0] = pol[1] = pol[2] = RC; break;
    default: r = node(cee_tagged_mk_e(st, o[0], 7, N[e[0]].p), TAG); break;
  }
  for (int i = 0; i < prod_arity(kind); i++) claim(r, e[i], pol[i]);
  return r;
}
static void check_alive(void) {
  for (int i = 0; i < nn; i++) { if (N[i].alive) ASSERT(!sym_is_freed(N[i].p), "an object that must be alive was freed"); else ASSERT(sym_is_freed(N[i].p), "an object that must die with its container was not freed"); }
}
/* every live object is chained exactly once, and the links agree */
static void check_chain(void) {
  int seen[40] = {0}, count = 0; struct cee_sect *head = (struct cee_sect *)st - 1, *s = st->trace_tail;
  ASSERT(s->trace_next == 0, "the last object has no successor");
  while (s != head) {
    ASSERT(!sym_is_freed(s), "the state lists a freed object"); ASSERT(s->state == st, "listed object belongs to the state");
    for (int i = 0; i < nn; i++) if (N[i].alive && s + 1 == (struct cee_sect *)N[i].p) seen[i]++;
    struct cee_sect *pr = s->trace_prev; ASSERT(pr && pr->trace_next == s, "links agree in both directions");
    s = pr; count++; ASSERT(count < 200, "the list of objects is finite");
  }
  for (int i = 0; i < nn; i++) if (N[i].alive) ASSERT(seen[i] == 1, "a live object is listed exactly once");
}
static int deletable(int i) { return N[i].alive && N[i].rc == 0 && !N[i].ret; }
#endif
