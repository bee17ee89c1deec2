/* C21, C22: printing a document (built through the interface) and reading it back.
   kinds: bit mask of node kinds; n: nodes; sl: longest string; what 0: sizes, bounds and text (C21); 1: round trip through the parser (C22) */
#define RS 40
#include "json.h"
enum { K_NULL, K_TRUE, K_FALSE, K_I64, K_U64, K_DBL, K_STR, K_ARR, K_OBJ, K_STRN, K_BLOB, K_UNDEF, NKINDS };
static const double FAM[] = { 0.5, 0.1, 1.0, -3.0, 0.0, -0.0, 1.0 / 3, 1e22, 1e300, -2.5e-7, 5e-324, 1.7976931348623157e308, 123456789012.0, 9007199254740993.0, 1e15, 1e17, 2.2250738585072014e-308, 0.3, 100.0, 1e6, 16777217.0, 1.0000000000000002 };
static struct cee_state *st; static int nodes, mask, sl, wide, utf, pick[NKINDS], npick, strs, nums, depthmax;
static int text(char *t, const char *name) { int n = sym_choice(name, sl + 1); for (int i = 0; i < n; i++) { uint8_t c = sym_u8("ch"); sym_assume(c != 0); t[i] = c; } t[n] = 0; if (utf && !r_utf8ok((uint8_t *)t, n)) sym_stop(); return n; }
/* wide 0: 8 bits; 1: 64 bits; 2: 16 bits; 3: 250 values from a place where the number of digits, the sign or the type changes */
static const int64_t IB[] = { 900, -1100, 99900, INT32_MAX - 100, INT32_MIN - 100, 9999999999900, 999999999999999900, -1000000000000000100, INT64_MAX - 249, INT64_MIN };
static const uint64_t UB[] = { INT64_MAX - 100ull, 9999999999999999900ull, UINT64_MAX - 249, UINT32_MAX - 100ull };
static int64_t ival(void) { if (wide == 1) return (int64_t)sym_u64("i64"); if (wide == 2) return (int16_t)sym_u16("i16"); int64_t b = wide == 3 ? IB[sym_choice("base", sizeof IB / sizeof *IB)] : 0; if (!b) return (int8_t)sym_u8("i8"); uint8_t o = sym_u8("off"); sym_assume(o < 250); return b + o; }
static uint64_t uval(void) { if (wide == 1) return sym_u64("u64"); if (wide == 2) return sym_u16("u16"); uint64_t b = wide == 3 ? UB[sym_choice("base", sizeof UB / sizeof *UB)] : 0; uint8_t o = sym_u8("off"); sym_assume(!b || o < 250); return b + o; }
static struct cee_json *gen(int depth, int *e) {
  nodes--; int k = pick[sym_choice("kind", npick)]; if (depth >= depthmax && (k == K_ARR || k == K_OBJ)) sym_stop(); int x = *e = r_new(R_NULL); struct cee_json *j;
  switch (k) {
    case K_NULL: return cee_json_null(); case K_TRUE: R[x].k = R_TRUE; return cee_json_true(); case K_FALSE: R[x].k = R_FALSE; return cee_json_false(); case K_UNDEF: R[x].k = -1; return cee_json_undefined();
    case K_I64: { int64_t v = ival(); R[x].k = R_I64; R[x].u = v; return cee_json_i64_mk(st, v); }
    case K_U64: { uint64_t v = uval(); R[x].k = v > INT64_MAX ? R_U64 : R_I64; R[x].u = v; return cee_json_u64_mk(st, v); }
    case K_DBL: { double v = FAM[sym_choice("dbl", sizeof FAM / sizeof *FAM)]; R[x].k = R_DBL; R[x].d = v; return cee_json_double_mk(st, v); }
    case K_STR: { R[x].k = R_STR; R[x].sl = text(R[x].s, "len"); j = cee_json_str_mk(st, cee_str_mk(st, "%s", R[x].s)); return j; }
    case K_STRN: { R[x].k = R_STR; int n = R[x].sl = text(R[x].s, "len"); static char store[4][40]; char *p = store[strs++ & 3]; for (int i = 0; i < n; i++) p[i] = R[x].s[i]; p[n] = '!'; return cee_json_strn_mk(st, p, n); }
    case K_BLOB: R[x].k = -1; return cee_json_blob_mk(st, "abc", sym_choice("blob", 3));
    case K_ARR: { R[x].k = R_ARR; j = cee_json_array_mk(st, 1); int n = sym_choice("n", nodes + 1); for (int i = 0; i < n && nodes > 0; i++) { int c; cee_json_array_append(j, gen(depth + 1, &c)); r_link(x, c); } return j; }
    default: { R[x].k = R_OBJ; j = cee_json_object_mk(st); int n = sym_choice("n", nodes + 1); for (int i = 0; i < n && nodes > 0; i++) { char key[RS]; int kl = text(key, "klen"); int c; struct cee_json *v = gen(depth + 1, &c); R[c].kl = kl; for (int q = 0; q < kl; q++) R[c].key[q] = key[q];
        for (int o = R[x].first; o >= 0; o = R[o].next) if (r_same(o, c)) sym_stop(); cee_json_object_set(j, key, v); r_link(x, c); } return j; } } }
/* the length of text t of n bytes without the white space outside strings, written to o */
static int squeeze(const char *t, int n, char *o) { int m = 0, in = 0; for (int i = 0; i < n; i++) { char c = t[i]; if (in) { o[m++] = c; if (c == '\\') { i++; o[m++] = t[i]; } else if (c == '"') in = 0; } else if (c == '"') { in = 1; o[m++] = c; } else if (c == ' ' || c == '\t' || c == '\n' || c == '\r') continue; else o[m++] = c; } return m; }
static int plain; /* no blobs or undefined values in the document */
static void chk(int e) { if (R[e].k < 0) plain = 0; for (int c = R[e].first; c >= 0; c = R[c].next) chk(c); }
/* the reference tree of the text equals tree e */
static void same(int a, int e) { ASSERT(R[a].k == R[e].k, "printed kind"); switch (R[a].k) { case R_I64: case R_U64: ASSERT(R[a].u == R[e].u, "printed integer"); break; case R_DBL: { uint64_t x, y; memcpy(&x, &R[a].d, 8); memcpy(&y, &R[e].d, 8); ASSERT(x == y, "printed double"); break; }
    case R_STR: ASSERT(R[a].sl == R[e].sl, "length of the printed string"); { int bad = 0; for (int i = 0; i < R[a].sl; i++) bad |= R[a].s[i] != R[e].s[i]; ASSERT(!bad, "printed string"); } break; }
  int c = R[a].first, d = R[e].first; for (; c >= 0 && d >= 0; c = R[c].next, d = R[d].next) { if (R[a].k == R_OBJ) { ASSERT(R[c].kl == R[d].kl, "length of a printed key"); int bad = 0; for (int i = 0; i < R[c].kl; i++) bad |= R[c].key[i] != R[d].key[i]; ASSERT(!bad, "printed key"); } same(c, d); } ASSERT(c < 0 && d < 0, "number of printed elements"); }
void harness(void) {
  nodes = P("n", 3); mask = P("kinds", 0x1C8); sl = P("sl", 1); wide = P("wide", 0); depthmax = P("depth", 3); int what = P("what", 0); utf = what == 1 || P("utf", 0);
  for (int k = 0; k < NKINDS; k++) if (mask >> k & 1) pick[npick++] = k;
  size_t base = sym_heap_live(); st = cee_state_mk(4); int e; struct cee_json *j = gen(0, &e); int first = rn;
  if (what == 0) {
    size_t n = cee_json_snprint(st, 0, 0, j, CEE_JSON_FMT_COMPACT); char *t = malloc(n + 1); t[n] = 'X'; size_t m = cee_json_snprint(st, t, n + 1, j, CEE_JSON_FMT_COMPACT); ASSERT(m == n, "size told is size printed"); ASSERT(t[n] == 0, "terminated"); for (size_t i = 0; i < n; i++) ASSERT(t[i] != 0, "no byte missing");
    char *o = malloc(n + 1), *o2; ASSERT(squeeze(t, n, o) == n, "no white space outside strings in the compact format");
    size_t np = cee_json_snprint(st, 0, 0, j, CEE_JSON_FMT_PRETTY); char *p = malloc(np + 1); m = cee_json_snprint(st, p, np + 1, j, CEE_JSON_FMT_PRETTY); ASSERT(m == np, "size told is size printed, pretty"); ASSERT(p[np] == 0, "terminated, pretty");
    o2 = malloc(np + 1); ASSERT(squeeze(p, np, o2) == n, "pretty adds only white space"); int bad = 0; for (size_t i = 0; i < n; i++) bad |= o2[i] != t[i]; ASSERT(!bad, "pretty is the same document");
    for (int f = 0; f < 2; f++) { char *b = 0; size_t bs = 77; m = cee_json_asprint(st, &b, &bs, j, f); ASSERT(m == (f ? np : n) && bs >= m, "size of the allocated text"); ASSERT(b && sym_mem_ok(b, m + 1), "the block holds text and terminator"); ASSERT(b[m] == 0, "terminated block"); bad = 0; for (size_t i = 0; i < m; i++) bad |= b[i] != (f ? p : t)[i]; ASSERT(!bad, "allocated text"); cee_json_asprint(st, &b, 0, j, f); }
    int f = sym_choice("f", 2); size_t full = f ? np : n, s = sym_choice("room", full + 2); char *q = malloc(s); m = cee_json_snprint(st, q, s, j, f); ASSERT(m == full, "the size needed does not depend on the room"); if (s) ASSERT(q[s - 1 < full ? s - 1 : full] == 0, "terminated within the room"); bad = 0; for (size_t i = 0; i + 1 < s && i < full; i++) bad |= q[i] != (f ? p : t)[i]; ASSERT(!bad, "as much of the text as fits"); if (s && s <= full) sym_reach("short");
    plain = 1; chk(e); if (plain) { utf = 1; r_start((uint8_t *)t, n); rn = first; int a = r_value(); if (a < 0) { /* raw bytes that are not UTF-8 next to an escape are outside */ int b8 = 0; for (size_t i = 0; i < n; i++) b8 |= t[i] & 0x80; ASSERT(b8, "the text is well formed"); } else { ASSERT(rpos == n, "one value"); same(a, e); sym_reach("text"); } }
    free(t); free(o); free(o2); free(p); free(q);
  } else {
    int f = sym_choice("f", 2); char *b = 0; size_t m = cee_json_asprint(st, &b, 0, j, f); struct cee_json *k = 0; int line, eof = 1; int rc = cee_json_parsex(st, b, m, &k, eof, &line); ASSERT(rc == 0 && k, "printed text parses"); cmp_tree(k, e); sym_reach("back"); }
  cee_del(st); NO_LEAK(base);
}
