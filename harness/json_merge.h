/* The reference merge of two reference trees, and comparisons that leave the order of the keys aside. */
#ifndef JSON_MERGE_H
#define JSON_MERGE_H
#include "json.h"
static int copy(int e) { int x = r_new(0); R[x] = R[e]; R[x].first = R[x].next = R[x].last = -1; for (int c = R[e].first; c >= 0; c = R[c].next) r_link(x, copy(c)); return x; }
static void over(int x, int b) { /* the value of x becomes that of b, its key and place stay */ int c = copy(b), nx = R[x].next, kl = R[x].kl; char k[RS]; for (int i = 0; i < kl; i++) k[i] = R[x].key[i]; R[x] = R[c]; R[x].next = nx; R[x].kl = kl; for (int i = 0; i < kl; i++) R[x].key[i] = k[i]; }
static bool rmerge(int a, int b) { if (R[a].k != R[b].k || (R[a].k != R_OBJ && R[a].k != R_ARR)) return 0;
  if (R[a].k == R_ARR) { for (int c = R[b].first; c >= 0; c = R[c].next) r_link(a, copy(c)); sym_reach("concatenated"); return 1; }
  for (int c = R[b].first; c >= 0; c = R[c].next) { int o = R[a].first; while (o >= 0 && !r_same(o, c)) o = R[o].next; if (o < 0) { r_link(a, copy(c)); sym_reach("added"); } else if (rmerge(o, c)) sym_reach("recursed"); else { over(o, c); sym_reach("replaced"); } } return 1; }
static void same_set(struct cee_json *j, int e) { struct rnode *r = &R[e]; if (r->k == R_ARR) { ASSERT(j && j->t == CEE_JSON_ARRAY, "an array"); size_t n = 0; for (int c = r->first; c >= 0; c = R[c].next) { ASSERT(n < cee_json_array_length(j), "elements"); same_set(cee_json_array_get(j, n++), c); } ASSERT(n == cee_json_array_length(j), "elements"); return; }
  if (r->k != R_OBJ) { cmp_tree(j, e); return; } ASSERT(j && j->t == CEE_JSON_OBJECT, "an object"); size_t n = 0; for (int c = r->first; c >= 0; c = R[c].next) { char k[RS]; for (int i = 0; i < R[c].kl; i++) k[i] = R[c].key[i]; k[R[c].kl] = 0; same_set(cee_json_object_get(j, k), c); n++; } ASSERT(cee_map_size(cee_json_to_object(j)) == n, "number of keys"); struct cee_list *ks = cee_map_insertion_ordered_keys(cee_json_to_object(j)); ASSERT(cee_list_size(ks) == n, "ordered keys"); cee_del(ks); }
static int r_count(int e) { int n = 0; for (int c = R[e].first; c >= 0; c = R[c].next) n++; return n; }
/* two reference trees, the order of the keys aside */
static void same_rr(int a, int e) { ASSERT(R[a].k == R[e].k, "kind of a value"); switch (R[e].k) { case R_I64: case R_U64: ASSERT(R[a].u == R[e].u, "an integer"); break; case R_STR: { ASSERT(R[a].sl == R[e].sl, "length of a string"); int bad = 0; for (int i = 0; i < R[a].sl; i++) bad |= R[a].s[i] != R[e].s[i]; ASSERT(!bad, "a string"); break; }
    case R_ARR: { int c = R[a].first, d = R[e].first; for (; c >= 0 && d >= 0; c = R[c].next, d = R[d].next) same_rr(c, d); ASSERT(c < 0 && d < 0, "number of elements"); break; }
    case R_OBJ: { ASSERT(r_count(a) == r_count(e), "number of keys"); for (int d = R[e].first; d >= 0; d = R[d].next) { int c = R[a].first; while (c >= 0 && !r_same(c, d)) c = R[c].next; ASSERT(c >= 0, "a key of the document"); same_rr(c, d); } break; } } }
#endif
