/* C29: the hash table itself: find and enter return the entry, missing entries are reported */
#include "h.h"
#include "musl-search.h"
#ifdef OOM /* any one growth of the table may fail */
static int budget = 1, failed; static void *scarce(size_t n, size_t z) { if (budget && sym_choice("scarce", 2)) { budget--; failed++; return 0; } return calloc(n, z); }
#define calloc(n, z) scarce(n, z)
#include "musl-hsearch.c"
#undef calloc
#else
static int failed;
#endif
static int same(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
void harness(void) {
  int pre = P("pre", 0) + P("prestep", 0) * sym_choice("prelen", P("pres", 1)), nsym = P("nsym", 2), nel = P("nel", 0), glob = P("glob", 0), len = P("len", 1); size_t base = sym_heap_live();
  struct musl_hsearch_data h; memset(&h, 0, sizeof h); int made = glob ? musl_hcreate(nel) : musl_hcreate_r(nel, &h); ASSERT(made == !failed, "created, or failure told"); if (!made) { if (!glob) musl_hdestroy_r(&h); NO_LEAK(base); sym_reach("not created"); return; }
  static char K[700][4]; static char *kp[700]; static uint64_t V[700]; int n = 0;
  for (int i = 0; i < pre + nsym; i++) {
    if (i < pre) { K[i][0] = 'A' + (i & 15); K[i][1] = 'a' + (i >> 4); K[i][2] = 0; V[i] = 1000 + i; } else { sym_bytes(K[i], len, "key"); K[i][len] = 0; if (P("narrow", 0)) ASSUME(K[i][0] >= 'A' && K[i][0] < 'A' + P("narrow", 0)); V[i] = sym_u64("val"); }
    MUSL_ENTRY e = { K[i], (void *)V[i] }, *r = 0; int ok = 1; int hit = -1; for (int k = n - 1; k >= 0; k--) if (same(kp[k], K[i])) hit = k;
    if (i >= pre && sym_choice("findfirst", 2)) { if (glob) { r = musl_hsearch(e, FIND); } else { int rc = musl_hsearch_r(e, FIND, &r, &h); ASSERT(rc == (hit >= 0), "find reports presence"); } ASSERT((r != 0) == (hit >= 0), "find returns the entry iff present"); sym_reach(hit >= 0 ? "hit" : "miss"); }
    int was = failed; if (glob) r = musl_hsearch(e, ENTER); else ok = musl_hsearch_r(e, ENTER, &r, &h);
    if (failed > was) { ASSERT(hit < 0 && !r && (glob || !ok), "a table that cannot grow tells so"); sym_reach("not grown"); continue; }
    ASSERT(ok && r, "enter succeeds");
    if (hit >= 0) { ASSERT(r->key == kp[hit] && (uint64_t)r->data == V[hit], "entering a present key returns its entry unchanged"); sym_reach("dup"); }
    else { ASSERT(r->key == K[i] && (uint64_t)r->data == V[i], "entering a new key stores it"); kp[n] = K[i]; V[n] = V[i]; n++; }
  }
  for (int i = 0; i < n; i++) { MUSL_ENTRY e = { kp[i], 0 }, *r = 0; if (glob) r = musl_hsearch(e, FIND); else ASSERT(musl_hsearch_r(e, FIND, &r, &h) == 1, "found"); ASSERT(r && r->key == kp[i] && (uint64_t)r->data == V[i], "every entered key is found with its data"); }
  sym_observe("n", n); if (glob) musl_hdestroy(); else musl_hdestroy_r(&h); NO_LEAK(base);
}
