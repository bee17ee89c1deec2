/* C29: linear search over a table of records, and the doubly linked queue */
#include "h.h"
#include "musl-search.h"
static int calls; static int cmp(const void *a, const void *b) { calls++; uint8_t x = *(const uint8_t *)a, y = *(const uint8_t *)b; if (x == y) return 0; return 1; }
struct q { struct q *next, *prev; int id; };
static const int widths[8] = { 1, 2, 4, 8, 16, 17, 24, 40 };
static void lsearch_(void) {
  int n0 = P("n", 4), w = P("width", 0) ? P("width", 0) : widths[sym_choice("width", 8)]; uint8_t rec[12][40], ref[12][40]; char *tab[12]; for (int i = 0; i < 12; i++) tab[i] = (char *)rec[i]; memset(rec, 0x5a, sizeof rec); memset(ref, 0x5a, sizeof ref); size_t nel = 0; uint8_t M[12]; int m = 0;
  for (int i = 0; i < n0; i++) {
    uint8_t *key = malloc(w); sym_bytes(key, w, "key"); int hit = -1; for (int k = m - 1; k >= 0; k--) if (M[k] == key[0]) hit = k;
    size_t before = nel; void *f = musl_lfind(key, tab, &nel, w, cmp); ASSERT(nel == before, "lfind never appends"); ASSERT(hit < 0 ? f == 0 : f == rec[hit], "lfind returns the record iff present");
    void *r = musl_lsearch(key, tab, &nel, w, cmp);
    if (hit >= 0) { ASSERT(r == rec[hit] && nel == before, "a present record is returned, nothing appended"); sym_reach("hit"); }
    else { ASSERT(nel == before + 1 && r == rec[before], "a missing record is appended once"); for (int k = 0; k < w; k++) ref[before][k] = key[k]; M[m++] = key[0]; sym_reach("append"); }
    int bad = 0; for (int k = 0; k < 12; k++) for (int j = 0; j < 40; j++) bad |= rec[k][j] != ref[k][j]; ASSERT(!bad, "the record's bytes stored, nothing else touched"); free(key);
  }
  sym_observe("m", m);
}
static void queue(void) {
  int ops = P("n", 4); struct q e[6]; memset(e, 0xff, sizeof e); int ord[6], n = 0, in[6] = {0};
  musl_insque(&e[0], 0); ASSERT(e[0].next == 0 && e[0].prev == 0, "a first element has no neighbours"); ord[n++] = 0; in[0] = 1;
  for (int o = 0; o < ops; o++) {
    if (sym_choice("op", 2) == 0) { int i = sym_choice("el", 6), p = n ? sym_choice("pred", n) : -1; ASSUME(!in[i]); if (p < 0) { musl_insque(&e[i], 0); ord[0] = i; n = 1; } else { musl_insque(&e[i], &e[ord[p]]); for (int k = n; k > p + 1; k--) ord[k] = ord[k - 1]; ord[p + 1] = i; n++; } in[i] = 1; sym_reach("insert"); }
    else { ASSUME(n); int p = sym_choice("pos", n); int i = ord[p]; musl_remque(&e[i]); in[i] = 0; for (int k = p; k + 1 < n; k++) ord[k] = ord[k + 1]; n--; sym_reach("remove"); }
    for (int k = 0; k < n; k++) { ASSERT(e[ord[k]].next == (k + 1 < n ? &e[ord[k + 1]] : 0), "forward links follow the order"); ASSERT(e[ord[k]].prev == (k ? &e[ord[k - 1]] : 0), "backward links follow the order"); }
  }
  sym_observe("n", n);
}
void harness(void) { if (P("queue", 0)) queue(); else lsearch_(); }
