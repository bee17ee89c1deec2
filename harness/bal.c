/* C06: number of comparator calls of set/map operations against the AVL height bound. */
#include "h.h"
static int calls; static uint8_t K[256];
static int cmp(const void *a, const void *b) { calls++; uint8_t x = *(uint8_t*)a, y = *(uint8_t*)b; if (x < y) return -1; if (y < x) return 1; return 0; }
/* maximum height (levels) of an AVL tree with n nodes */
static int H(int n) { int h = 0, a = 0, b = 1; /* min nodes of height h, h+1 */ while (b <= n) { int c = a + b + 1; a = b; b = c; h++; } return h; }
void harness(void) {
  int n = P("n", 6), rem = P("rem", 2), map = P("map", 0), asc = P("asc", 0);
  size_t base = sym_heap_live();
  struct cee_state *st = cee_state_mk(4); enum cee_del_policy d[2] = { CEE_DP_NOOP, CEE_DP_NOOP };
  struct cee_set *s = map ? 0 : cee_set_mk_e(st, CEE_DP_NOOP, cmp); struct cee_map *m = map ? cee_map_mk_e(st, d, cmp) : 0;
  /* keys: when asc, n keys in rising order (a worst case for an unbalanced tree), else an arbitrary order */
  for (int i = 0; i < n; i++) { if (asc) K[i] = asc == 1 ? i + 1 : asc == 2 ? n - i : (i & 1) ? n - i / 2 : 1 + i / 2; else K[i] = sym_u8("k");
    calls = 0; if (map) cee_map_add(m, &K[i], &K[i]); else cee_set_add(s, &K[i]);
    if ((map ? cee_map_size(m) : cee_set_size(s)) != i + 1) sym_assume(0); /* equal to an earlier key: not an order of distinct keys */
    ASSERT(calls <= 2 * H(i) + 2, "comparisons of an insertion exceed the AVL height"); }
  int left = n; uint8_t gone[256] = {0};
  if (P("drain", 0)) { int ord = sym_choice("order", 6), stop = sym_choice("stop", 4); for (int r = 0; r < n - stop; r++) { int i = ord == 0 ? r : ord == 1 ? n - 1 - r : ord == 2 ? (r & 1 ? n - 1 - r / 2 : r / 2) : ord == 3 ? (r * 7 + 3) % n : ord == 4 ? (r < n / 2 ? 2 * r : 2 * (r - n / 2) + 1) : (n / 2 + (r & 1 ? -(r + 1) / 2 : r / 2) + n) % n; if (gone[i]) continue; gone[i] = 1; calls = 0; void *x = map ? cee_map_remove(m, &K[i]) : cee_set_remove(s, &K[i]);
      ASSERT(x == &K[i], "removed the element"); if (!map) ASSERT(calls <= 2 * (H(left) + 1), "comparisons of a removal exceed the AVL height"); left--; if (left < 12 || left % 16 == 0) for (int j = 0; j < n; j++) { calls = 0; x = map ? cee_map_find(m, &K[j]) : cee_set_find(s, &K[j]); ASSERT(x == (gone[j] ? 0 : &K[j]), "finds exactly the present elements"); ASSERT(calls <= H(left), "comparisons of a lookup exceed the AVL height"); } } sym_reach("drained"); }
  for (int r = 0; r < rem && left; r++) { int i = sym_choice("rm", n); if (gone[i]) sym_assume(0); gone[i] = 1; calls = 0; void *x = map ? cee_map_remove(m, &K[i]) : cee_set_remove(s, &K[i]);
    ASSERT(x == &K[i], "removed the element"); if (!map) ASSERT(calls <= 2 * (H(left) + 1), "comparisons of a removal exceed the AVL height"); left--; sym_reach("removed"); }
  for (int i = 0; i < n; i++) { calls = 0; void *x = map ? cee_map_find(m, &K[i]) : cee_set_find(s, &K[i]); ASSERT(x == (gone[i] ? 0 : &K[i]), "finds exactly the present elements"); ASSERT(calls <= H(left) , "comparisons of a lookup exceed the AVL height"); }
  sym_reach("end"); sym_observe("left", left); 
  cee_del(st); NO_LEAK(base);
}
