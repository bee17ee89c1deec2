/* C04: a map with arbitrary byte keys and arbitrary non-null values against a mathematical map (no-op policy). */
#include "h.h"
extern void *cee_map_add_e(struct cee_map *, void *, void *, void *, void *(*)(void *, void *, void *));
struct el { uint8_t k; uint8_t pad[7]; };
static int cmp(const void *a, const void *b) { uint8_t x = ((struct el*)a)->k, y = ((struct el*)b)->k; if (x < y) return -1; if (y < x) return 1; return 0; }
static int nlo = -1; static uint8_t key(const char *nm) { uint8_t k = sym_u8(nm); if (nlo >= 0) ASSUME((uint8_t)(k - nlo) < P("narrow", 16)); return k; }
static struct cee_state *st; static struct el *mk(const char *nm) { struct el *e = cee_block_mk(st, sizeof(struct el)); e->k = key(nm); return e; }
static int other;
static struct { struct el *k; uint64_t v; } M[80]; static int n;  /* in first-insertion order */
static struct el q; /* one arbitrary key looked up after every step */
static int midx(uint8_t k) { for (int i = 0; i < n; i++) if (M[i].k->k == k) return i; return -1; }
static void mdel(int j) { for (; j + 1 < n; j++) M[j] = M[j+1]; n--; }
static struct el *fresh(const char *nm) { return mk(nm); }
struct ic { int calls, stop, ret; struct { struct el *k; uint64_t v; } s[80]; };
static int it(void *cx, void *k, void *v) { struct ic *c = cx; ASSERT(c->calls < 80, "too many"); c->s[c->calls].k = k; c->s[c->calls].v = (uint64_t)v; return c->calls++ == c->stop ? c->ret : 0; }
static void check(struct cee_map *m, int strict) { /* the first strict keys have their place, for the others the order is free */
  ASSERT(cee_map_size(m) == n, "size");
  struct ic c = {0}; c.stop = -1; ASSERT(cee_map_iterate(m, &c, it) == 0, "iterate returns 0"); ASSERT(c.calls == n, "iterate visits every pair once");
  for (int i = 0; i < n; i++) { int f = 0; for (int j = 0; j < n; j++) if (c.s[j].k == M[i].k) { f++; ASSERT(c.s[j].v == M[i].v, "iterated value"); } ASSERT(f == 1, "iterated key"); }
  struct cee_list *o = cee_map_insertion_ordered_keys(m); ASSERT(cee_list_size(o) == n, "number of ordered keys"); for (int i = 0; i < n; i++) if (i < strict) ASSERT(o->a[i] == M[i].k, "insertion order"); else { int f = 0; for (int j = strict; j < n; j++) f += o->a[j] == M[i].k; ASSERT(f == 1, "ordered keys"); } /* the list holds claims: left to the state */
  uint64_t f = (uint64_t)cee_map_find(m, &q); int j = midx(q.k); ASSERT(f == (j >= 0 ? M[j].v : 0), "lookup of an arbitrary key");
}
struct mc { uint64_t o, nw, r; int calls; };
static void *mergef(void *cx, void *o, void *nw) { struct mc *c = cx; c->o = (uint64_t)o; c->nw = (uint64_t)nw; c->calls++; return c->r ? (void*)c->r : o; }
static uint64_t val(const char *nm) { if (other) return (uint64_t)cee_block_mk(st, 8);  uint64_t v = sym_u64(nm); ASSUME(v != 0); return v; }
void harness(void) {
  int steps = P("n", 3), ops = P("ops", 4); other = P("other", 1);
  st = cee_state_mk(4); enum cee_del_policy d[2] = { CEE_DP_NOOP, CEE_DP_NOOP };
  struct cee_map *m = cee_map_mk_e(st, d, cmp);
  if (P("pre", 0)) { static const int SZ[] = { 15, 16, 17, 33 }; int p = SZ[sym_choice("pre", 4)], w = sym_choice("where", 3); nlo = w == 0 ? 0 : w == 1 ? p / 2 * 7 : p * 7 - 11; int ord = sym_choice("order", 3); for (int i = 0; i < p; i++) { struct el *e = cee_block_mk(st, sizeof *e); int at = ord == 0 ? i : ord == 1 ? p - 1 - i : i & 1 ? p - 1 - i / 2 : i / 2; e->k = 7 * at + 3; uint64_t v = (uint64_t)e + 1; ASSERT(cee_map_add(m, e, (void *)v) == 0, "a new key"); M[n].k = e; M[n++].v = v; }
    int cut = sym_choice("cut", 3); for (int i = 0; i < cut * p / 3; i++) { int j = ord ? 0 : n / 2; uint64_t r = (uint64_t)cee_map_remove(m, M[j].k); ASSERT(r == M[j].v, "remove returns the value"); mdel(j); } check(m, n); sym_reach("pre"); }
  q.k = key("q");
  for (int i = 0; i < steps; i++) {
    int op = sym_choice("op", ops);
    if (op == 0) { struct el *e = fresh("k"); uint64_t v = val("v"); int j = midx(e->k); uint64_t r = (uint64_t)cee_map_add(m, e, (void*)v); if (j >= 0) { ASSERT(r == M[j].v, "add returns the replaced value"); M[j].v = v; sym_reach("replace"); } else { ASSERT(r == 0, "add of a new key returns null"); M[n].k = e; M[n++].v = v; } }
    else if (op == 1) { struct el d; d.k = key("k"); int j = midx(d.k); uint64_t r = (uint64_t)cee_map_remove(m, &d); if (j >= 0) { ASSERT(r == M[j].v, "remove returns the value"); mdel(j); sym_reach("remove"); } else ASSERT(r == 0, "removing an absent key returns null"); }
    else if (op == 2) { struct el *a = fresh("ok"), *b = fresh("nk"); int j = midx(a->k); bool r = cee_map_rename(m, a, b); ASSERT(r == (j >= 0), "rename succeeds iff the old key is present");
      if (r) { uint64_t v = M[j].v; mdel(j); int l = midx(b->k); if (l >= 0) M[l].v = v; else { M[n].k = b; M[n++].v = v; } sym_reach("rename"); } }
    else { struct el *e = fresh("k"); uint64_t v = val("v"); struct mc c = {0}; c.r = sym_choice("mr", 2) ? val("mr") : 0; int j = midx(e->k); uint64_t r = (uint64_t)cee_map_add_e(m, e, (void*)v, &c, mergef);
      if (j >= 0) { ASSERT(c.calls == 1 && c.o == M[j].v && c.nw == v, "the merge function sees both values"); ASSERT(r == M[j].v, "returns the old value"); if (c.r) M[j].v = c.r; sym_reach("merge1"); } else { ASSERT(c.calls == 0 && r == 0, "no merge for a new key"); M[n].k = e; M[n++].v = v; } }
    if (P("each", 0)) check(m, n);
  }
  check(m, n);
  if (other) {
    struct cee_list *ks = cee_map_keys(m), *vs = cee_map_values(m); ASSERT(cee_list_size(ks) == n && cee_list_size(vs) == n, "number of keys and values");
    for (int i = 0; i < n; i++) { int f = 0; for (int j = 0; j < n; j++) if (ks->a[j] == M[i].k) { f++; ASSERT((uint64_t)vs->a[j] == M[i].v, "values come in key order"); } ASSERT(f == 1, "keys"); }
    struct ic c = {0}; c.stop = sym_choice("stop", n + 1); c.ret = (int)sym_u32("ret"); int r = cee_map_iterate(m, &c, it);
    if (c.stop < n && c.ret) { ASSERT(r == c.ret && c.calls == c.stop + 1, "iteration stops at, and returns, the first non-zero result"); sym_reach("stopped"); } else ASSERT(r == 0 && c.calls == n, "iteration completes");
    struct cee_map *cl = cee_map_clone(m); check(cl, n < 2 ? n : 0);
    struct el *x = mk("x"); cee_map_add(cl, x, x); check(m, n);
    struct cee_map *src = cee_map_mk_e(st, d, cmp); int k = sym_choice("mn", 2); struct el *S[2]; uint64_t sv[2]; for (int i = 0; i < k; i++) { S[i] = mk("mk"); sv[i] = val("mv"); cee_map_add(src, S[i], (void*)sv[i]); }
    struct mc mg = {0}; int fn = k && !P("pre", 0) ? sym_choice("mfn", 3) : 0; if (fn == 2) mg.r = val("mgr"); cee_map_merge(m, src, fn ? &mg : 0, fn ? mergef : 0); if (fn) { int both = 0; for (int i = 0; i < k; i++) both += midx(S[i]->k) >= 0; ASSERT(mg.calls == both, "the merge function is asked once for each key of both, with the given context"); }
    for (int i = 0; i < k; i++) { int j = midx(S[i]->k); if (j >= 0 && fn) { ASSERT(mg.o == M[j].v && mg.nw == sv[i], "the merge function sees both values"); if (fn == 2) M[j].v = mg.r; sym_reach("merged by function"); } else if (j >= 0) M[j].v = sv[i]; else { M[n].k = S[i]; M[n++].v = sv[i]; } ASSERT(cee_map_find(src, S[i]) == (void*)sv[i], "merge leaves the source"); }
    ASSERT(cee_map_size(src) == k, "merge leaves the source's size"); check(m, n); sym_reach("other");
  }
  ASSERT(cee_map_size(0) == 0, "null map size"); ASSERT(cee_map_find(0, &q) == 0, "null map find"); ASSERT(cee_map_remove(0, &q) == 0, "null map remove"); struct ic c = {0}; ASSERT(cee_map_iterate(0, &c, it) == 0 && c.calls == 0, "null map iterate");
  sym_observe("n", n);
}
