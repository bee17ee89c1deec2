/* C09: a dictionary against "first value wins" */
#include "h.h"
static int same(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static void keyof(char *k, int len) { sym_bytes(k, len, "key"); if (P("narrow", 0)) for (int i = 0; i < len; i++) { if (i != 1) ASSUME(k[i] >= 'a' && k[i] < 'a' + P("narrow", 0)); else if (P("mid", 0)) ASSUME(k[i] >= '0' && k[i] < '0' + P("mid", 0)); } k[len] = 0; }
void harness(void) {
  int pre = P("pre", 0) + P("prestep", 0) * sym_choice("prelen", P("pres", 1)), nsym = P("nsym", 3), len = P("len", 1), size = P("size", -1), cls = P("cls", 0);
  size_t base = sym_heap_live(); struct cee_state *st = cee_state_mk(4);
  size_t cap = size >= 0 ? size : sym_choice("size", 12);
  struct cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, cap);
  static char K[700][4]; static uint64_t V[700]; int n = 0;
  /* keys known in advance drive the table through its growths; cls makes them collide */
  for (int i = 0; i < pre; i++) { if (cls) { K[n][0] = 'a' + i % 4; K[n][1] = (char)(0x30 + (8 * cls * (i / 4)) % 64); K[n][2] = (char)('a' + i / 4); K[n][3] = 0; } else { K[n][0] = 'A' + i % 48; K[n][1] = i < 48 ? 0 : '0' + i / 48; K[n][2] = 0; } V[n] = i + 1; cee_dict_add(d, K[n], (void *)V[n]); n++; }
  for (int i = 0; i < nsym; i++) { keyof(K[n], len); V[n] = sym_u64("val"); cee_dict_add(d, K[n], (void *)V[n]); n++; }
  char q[4]; keyof(q, len);
  void *r = cee_dict_find(d, q); int hit = -1;
  for (int i = n - 1; i >= 0; i--) if (same(K[i], q)) hit = i;
  if (hit < 0) { ASSERT(r == 0, "a key never added is not found"); sym_reach("absent"); } else { ASSERT((uint64_t)r == V[hit], "an added key yields the value first added"); sym_reach("found"); }
  for (int i = 0; i < n; i++) { uint64_t want = V[i]; for (int k = i - 1; k >= 0; k--) if (same(K[k], K[i])) { want = V[k]; sym_reach("dup"); } ASSERT((uint64_t)cee_dict_find(d, K[i]) == want, "every added key is found"); }
  sym_observe("hit", hit); cee_del(st); NO_LEAK(base);
}
