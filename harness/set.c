/* C05: a set of arbitrary byte keys against a mathematical set. */
#include "h.h"
extern struct cee_set *cee_set_clone(struct cee_set *); extern struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *);
struct el { uint8_t k; uint8_t pad[7]; };
static int cmp(const void *a, const void *b) { uint8_t x = ((struct el*)a)->k, y = ((struct el*)b)->k; if (x < y) return -1; if (y < x) return 1; return 0; }
static int nlo = -1; static uint8_t key(const char *nm) { uint8_t k = sym_u8(nm); if (nlo >= 0) ASSUME((uint8_t)(k - nlo) < P("narrow", 16)); return k; }
static struct cee_state *st; static struct el *mk(const char *nm) { struct el *e = cee_block_mk(st, sizeof(struct el)); e->k = key(nm); return e; }
static struct el *E[80]; static int nE; static struct el *In[80]; static int n;  /* members of the model */
static struct el q; /* one arbitrary key looked up after every step */
static int midx(uint8_t k) { for (int i = 0; i < n; i++) if (In[i]->k == k) return i; return -1; }
struct ic { int calls; struct el *seen[80]; };
static void it(void *cx, void *v) { struct ic *c = cx; ASSERT(c->calls < 80, "too many"); c->seen[c->calls++] = v; }
static void same(struct el **a, int na, struct el **b, int nb, const char *m) { ASSERT(na == nb, m); for (int i = 0; i < na; i++) { int f = 0; for (int j = 0; j < nb; j++) f |= a[i] == b[j]; ASSERT(f, m); } }
static void check(struct cee_set *s, struct el **mm, int k) {
  ASSERT(cee_set_size(s) == k, "size"); ASSERT(cee_set_empty(s) == (k == 0), "empty");
  struct ic c = {0}; cee_set_iterate(s, &c, it); same(c.seen, c.calls, mm, k, "iterated elements");
  struct cee_list *v = cee_set_values(s); same((struct el**)v->a, cee_list_size(v), mm, k, "enumerated values"); /* the list holds claims on the elements: left to the state */
  struct el *f = cee_set_find(s, &q); struct el *w = 0; for (int i = 0; i < k; i++) if (mm[i]->k == q.k) w = mm[i]; ASSERT(f == w, "lookup of an arbitrary key");
}
void harness(void) {
  int steps = P("n", 4), other = P("other", 1);
  size_t base = sym_heap_live();
  st = cee_state_mk(4); 
  struct cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, cmp);
  if (P("pre", 0)) { static const int SZ[] = { 16, 17, 33, 40 }; int p = SZ[sym_choice("pre", 4)], w = sym_choice("where", 3); nlo = w == 0 ? 0 : w == 1 ? p / 2 * 6 : p * 6 - 11; int ord = sym_choice("order", 3); for (int i = 0; i < p; i++) { struct el *e = cee_block_mk(st, sizeof *e); int at = ord == 0 ? i : ord == 1 ? p - 1 - i : i & 1 ? p - 1 - i / 2 : i / 2; e->k = 6 * at + 3; cee_set_add(s, e); In[n++] = e; }
    int cut = sym_choice("cut", 3); for (int i = 0; i < cut * p / 3; i++) { int j = ord ? 0 : n / 2; void *r = cee_set_remove(s, In[j]); ASSERT(r == In[j], "remove returns the element"); for (int k = j; k + 1 < n; k++) In[k] = In[k + 1]; n--; } check(s, In, n); sym_reach("pre"); }
  q.k = key("q");
  for (int i = 0; i < steps; i++) {
    int op = sym_choice("op", P("ops", 4));
    if (op == 0) { struct el *e = E[nE++] = mk("k"); cee_set_add(s, e); if (midx(e->k) < 0) In[n++] = e; else sym_reach("dup"); }
    else if (op == 1) { struct el d; d.k = key("k"); int j = midx(d.k); void *r = cee_set_remove(s, &d); if (j >= 0) { ASSERT(r == In[j], "remove returns the element"); In[j] = In[--n]; sym_reach("remove"); } else ASSERT(r == 0, "removing an absent element returns null"); }
    else if (op == 2) { if (!nE) sym_assume(0); struct el *e = E[sym_choice("again", nE)]; cee_set_add(s, e); if (midx(e->k) < 0) In[n++] = e; sym_reach("again"); }
    else { cee_set_clear(s); n = 0; sym_reach("clear"); }
    if (P("each", 0)) check(s, In, n);
  }
  check(s, In, n);
  if (other) {
    struct cee_set *c = cee_set_clone(s); check(c, In, n); 
    struct el *x = mk("x"); cee_set_add(c, x); ASSERT(cee_set_size(s) == n, "the clone is independent"); 
    struct cee_set *t = cee_set_mk_e(st, CEE_DP_NOOP, cmp); int nt = 0; struct el *U[17]; struct el *T2[2]; int m = sym_choice("tn", 2); for (int i = 0; i < m; i++) { T2[i] = mk("tk"); cee_set_add(t, T2[i]); }
    struct cee_set *ab = cee_set_union_set(st, s, t); int ne = n; for (int i = 0; i < m; i++) if (midx(T2[i]->k) < 0) { int dup = 0; for (int k = 0; k < i; k++) dup |= T2[k]->k == T2[i]->k; if (!dup) ne++; }
    ASSERT(cee_set_size(ab) == ne, "union size"); struct el *f = cee_set_find(ab, &q); int in = midx(q.k) >= 0; for (int i = 0; i < m; i++) in |= T2[i]->k == q.k; ASSERT((f != 0) == in, "union membership"); if (f) ASSERT(f->k == q.k, "union element");
    ASSERT(cee_set_size(t) == m, "union leaves its inputs"); check(s, In, n); sym_reach("union");
  }
  ASSERT(cee_set_size(0) == 0, "null set size"); ASSERT(cee_set_empty(0), "null set empty"); ASSERT(cee_set_find(0, &q) == 0, "null set find"); ASSERT(cee_set_remove(0, &q) == 0, "null set remove");
  struct ic c = {0}; cee_set_iterate(0, &c, it); ASSERT(c.calls == 0, "null set iterate");
  sym_observe("n", n);
  cee_del(st); NO_LEAK(base);
}
