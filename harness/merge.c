/* C25: merging documents built of arbitrary keys (1 byte) and values against a reference merge. */
#include "json_merge.h"
static struct cee_state *st; static int left, mask, pick[8], np, maxdepth;
/* kinds: 0 null, 1 true, 2 i64, 3 u64, 4 string, 5 array, 6 object */
static struct cee_json *gen(int depth, int *e, int kind) { left--; int k = kind >= 0 ? kind : pick[sym_choice("kind", np)]; if (depth > maxdepth && k >= 5) sym_stop(); int x = *e = r_new(R_NULL); struct cee_json *j;
  switch (k) { case 0: return cee_json_null(); case 1: R[x].k = R_TRUE; return cee_json_true(); case 2: R[x].k = R_I64; R[x].u = sym_u64("i"); return cee_json_i64_mk(st, R[x].u); case 3: R[x].k = R_U64; R[x].u = sym_u64("u"); return cee_json_u64_mk(st, R[x].u);
    case 4: R[x].k = R_STR; R[x].sl = 1; R[x].s[0] = sym_u8("s"); sym_assume(R[x].s[0] != 0); R[x].s[1] = 0; return cee_json_str_mkf(st, "%s", R[x].s);
    case 5: { R[x].k = R_ARR; j = cee_json_array_mk(st, 1); int n = sym_choice("n", left + 1 < 3 ? left + 1 : 3); for (int i = 0; i < n && left > 0; i++) { int c; struct cee_json *v = gen(depth + 1, &c, -1); cee_json_array_append(j, v); r_link(x, c); } return j; }
    default: { R[x].k = R_OBJ; j = cee_json_object_mk(st); int mx = P("maxn", 9), n = left ? sym_choice("n", (left < mx ? left : mx) + 1) : 0; for (int i = 0; i < n && left > 0; i++) { char key[2] = { (char)sym_u8("key"), 0 }; sym_assume(key[0] != 0); int c; struct cee_json *v = gen(depth + 1, &c, -1); R[c].kl = 1; R[c].key[0] = key[0]; for (int o = R[x].first; o >= 0; o = R[o].next) if (r_same(o, c)) sym_stop(); cee_json_object_set(j, key, v); r_link(x, c); } return j; } } }
/* larger documents: keys from 'from' on, values of all kinds in turn, one key and one number arbitrary; depth: the objects lie below that many others */
static int where; static uint8_t xk; static uint64_t xi;
static struct cee_json *big(int *e, int from, int n, int shift, int depth) {
  int x = *e = r_new(R_OBJ); struct cee_json *o = cee_json_object_mk(st); if (depth) { int c; struct cee_json *v = big(&c, from, n, shift, depth - 1); R[c].kl = 1; R[c].key[0] = 'n'; cee_json_object_set(o, "n", v); r_link(x, c); if (n > 3) return o; n = 1; }
  for (int i = 0; i < n; i++) { int k = from + i, c, f = (k + shift) % 5; char key[4] = { 'A' + k % 20, 'a' + k / 20, 0 }; struct cee_json *v; if (i == where && !depth) { key[1] = xk; } 
    if (f == 0) { c = r_new(R_I64); R[c].u = i == where ? xi : k + shift; v = cee_json_i64_mk(st, R[c].u); } else if (f == 1) { c = r_new(R_STR); R[c].sl = 1; R[c].s[0] = 'a' + k % 26; R[c].s[1] = 0; v = cee_json_str_mkf(st, "%s", R[c].s); }
    else if (f == 2) { c = r_new(R_ARR); v = cee_json_array_mk(st, 1); for (int q = 0; q < k % 12; q++) { int y = r_new(R_I64); R[y].u = q + shift; cee_json_array_append(v, cee_json_i64_mk(st, q + shift)); r_link(c, y); } } else if (f == 3) { c = r_new(R_TRUE); v = cee_json_true(); }
    else { c = r_new(R_OBJ); v = cee_json_object_mk(st); for (int q = 0; q < 3; q++) { int y = r_new(R_I64); char kk[2] = { 'p' + (q + shift) % 5, 0 }; R[y].u = k; R[y].kl = 1; R[y].key[0] = kk[0]; cee_json_object_set(v, kk, cee_json_i64_mk(st, k)); r_link(c, y); } }
    R[c].kl = 2; R[c].key[0] = key[0]; R[c].key[1] = key[1]; for (int o2 = R[x].first; o2 >= 0; o2 = R[o2].next) if (r_same(o2, c)) sym_stop(); cee_json_object_set(o, key, v); r_link(x, c); }
  return o; }
static void bigs(void) { static const int M[] = { 1, 8, 17, 40 }; int m = M[sym_choice("m", 4)], m2 = M[sym_choice("m2", 4)], from = sym_choice("from", 3) * m / 2, shift = sym_choice("shift", 3), depth = P("chain", 0) ? 1 + sym_choice("depth", 4) * 13 : 0, ra, rb;
  where = -1; struct cee_json *a = big(&ra, 0, m, 0, depth); where = sym_choice("where", 2) ? m2 / 2 : 0; xk = sym_u8("k"); xi = sym_u64("i"); sym_assume(xk >= 'a' && xk < 'e'); struct cee_json *b = big(&rb, from, m2, shift, depth);
  bool want = rmerge(ra, rb), got = cee_json_merge(a, b); ASSERT(got == want, "merging succeeds"); same_set(a, ra); same_set(b, rb); }
void harness(void) {
  if (P("big", 0)) { size_t base = sym_heap_live(); st = cee_state_mk(4); bigs(); cee_del(st); NO_LEAK(base); return; }
  mask = P("kinds", 0x74); maxdepth = P("depth", 2); for (int i = 0; i < 7; i++) if (mask >> i & 1) pick[np++] = i;
  size_t base = sym_heap_live(); st = cee_state_mk(4); int ra, rb, root = P("root", 6), srcs = P("srcs", 1); left = P("na", 3); struct cee_json *a = gen(0, &ra, root), *b[3]; int rbs[3];
  for (int i = 0; i < srcs; i++) { left = P("nb", 3); b[i] = gen(0, &rbs[i], root); }
  if (P("self", 0)) { rb = copy(ra); bool want = rmerge(ra, rb), got = cee_json_merge(a, a); ASSERT(got == want, "merging a document with itself"); same_set(a, ra); sym_reach("itself"); }
  for (int i = 0; i < srcs; i++) { rb = rbs[i]; bool want = rmerge(ra, rb); bool got; if (sym_choice("how", 2)) { struct cee_json *d = a; got = cee_json_merge_or_return(&d, b[i]); ASSERT(d == a, "merged into the given document"); } else got = cee_json_merge(a, b[i]); ASSERT(got == want, "merging succeeds on two objects or two arrays"); same_set(a, ra); }
  if (P("clean", 1)) for (int i = 0; i < srcs; i++) same_set(b[i], rbs[i]);
  struct cee_json *d = 0; ASSERT(cee_json_merge_or_return(&d, a) && d == a, "nothing to merge into gives the source"); ASSERT(!cee_json_merge(0, a) && !cee_json_merge(a, 0) && !cee_json_merge_or_return(&d, 0) && !cee_json_merge_or_return(0, a), "nothing to merge"); same_set(a, ra);
  cee_del(st); NO_LEAK(base);
}
