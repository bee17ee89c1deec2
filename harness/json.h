/* A reference reader of JSON texts (RFC 8259, a trailing comma before a closing bracket tolerated), and a comparison of
   its result with the library's tree. */
#ifndef JSON_REF_H
#define JSON_REF_H
#include "h.h"
#include "cee-json.h"
enum { R_NULL, R_TRUE, R_FALSE, R_I64, R_U64, R_DBL, R_STR, R_ARR, R_OBJ };
#ifndef RN
#define RN 40
#endif
#ifndef RS
#define RS 24
#endif
struct rnode { int k; uint64_t u; double d; char s[RS]; int sl; char key[RS]; int kl; int first, next, last; };
static struct rnode R[RN]; static int rn;
static const uint8_t *rt; static int rlen, rpos, rerr, rdepth, rlimit = 1000; /* text, position, where the offending token starts */
static int r_new(int k) { if (rn >= RN) { sym_fail("harness: reference tree too small"); } R[rn].k = k; R[rn].first = R[rn].next = R[rn].last = -1; R[rn].sl = R[rn].kl = 0; return rn++; }
static void r_ws(void) { while (rpos < rlen && (rt[rpos] == ' ' || rt[rpos] == '\t' || rt[rpos] == '\n' || rt[rpos] == '\r')) rpos++; rerr = rpos; }
/* nothing but white space is left; the parser takes a // comment that a NUL byte ends, on one line, for the end of the input */
static int r_end(void) { r_ws(); if (rpos >= rlen) return 1; if (rlen - rpos < 3 || rt[rpos] != '/' || rt[rpos+1] != '/') return 0; for (int i = rpos + 2; i < rlen; i++) { if (rt[i] == 0) return 1; if (rt[i] == '\n') return 0; } return 0; }
static int r_hex(uint8_t c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static int r_u4(int p, unsigned *v) { /* branches once, so that symbolic digits stay symbolic */
  unsigned x = 0; if (p + 4 > rlen) return 0; for (int i = 0; i < 4; i++) { uint8_t c = rt[p + i]; int dg = (uint8_t)(c - '0') <= 9, lo = (uint8_t)((c | 32) - 'a') <= 5; if (!(dg | lo)) return 0; x = x << 4 | ((c & 15) + 9 * (c >> 6)); } *v = x; return 1; }
static int r_utf8ok(const uint8_t *s, int n) { for (int i = 0; i < n;) { uint8_t c = s[i]; int t; if (c < 0x80) { i++; continue; } if (c < 0xC2) return 0; t = c < 0xE0 ? 1 : c < 0xF0 ? 2 : c < 0xF5 ? 3 : -1; if (t < 0 || i + t >= n) return 0;
  for (int k = 1; k <= t; k++) if (s[i + k] < 0x80 || s[i + k] > 0xBF) return 0; uint8_t d = s[i + 1];
  if (c == 0xE0 && d < 0xA0) return 0; if (c == 0xED && d > 0x9F) return 0; if (c == 0xF0 && d < 0x90) return 0; if (c == 0xF4 && d > 0x8F) return 0; i += t + 1; } return 1; }
/* a string literal at rpos (which is at the quote); decoded into d */
static int r_str(char *d, int *dl) { int p = rpos + 1, n = 0, esc = 0;
  for (;;) { if (p >= rlen) return 0; uint8_t c = rt[p]; if (c == '"') { p++; break; } if (c <= 0x1F) return 0; if (n + 4 > RS) { sym_fail("harness: reference string too small"); }
    if (c != '\\') { d[n++] = c; p++; continue; }
    esc = 1; if (p + 1 >= rlen) return 0; c = rt[p + 1]; p += 2;
    if (c == '"' || c == '\\' || c == '/') d[n++] = c; else if (c == 'b') d[n++] = 8; else if (c == 'f') d[n++] = 12; else if (c == 'n') d[n++] = 10; else if (c == 'r') d[n++] = 13; else if (c == 't') d[n++] = 9;
    else if (c == 'u') { unsigned v, w; if (!r_u4(p, &v)) return 0; p += 4; if (v == 0) { sym_stop(); } /* \u0000 is outside the property */
      if (v >= 0xDC00 && v <= 0xDFFF) return 0;
      if (v >= 0xD800 && v <= 0xDBFF) { if (p + 1 >= rlen || rt[p] != '\\' || rt[p + 1] != 'u' || !r_u4(p + 2, &w) || w < 0xDC00 || w > 0xDFFF) return 0; p += 6; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); 
        d[n++] = 0xF0 | v >> 18; d[n++] = 0x80 | (v >> 12 & 63); d[n++] = 0x80 | (v >> 6 & 63); d[n++] = 0x80 | (v & 63); }
      else if (v < 0x80) d[n++] = v; else if (v < 0x800) { d[n++] = 0xC0 | v >> 6; d[n++] = 0x80 | (v & 63); } else { d[n++] = 0xE0 | v >> 12; d[n++] = 0x80 | (v >> 6 & 63); d[n++] = 0x80 | (v & 63); } }
    else return 0; }
  if (esc && !r_utf8ok((uint8_t *)d, n)) return 0; /* a literal with escapes must be UTF-8 */
  *dl = n; rpos = p; return 1; }
static int r_dig(int p) { return p < rlen && rt[p] >= '0' && rt[p] <= '9'; }
static int r_num(int e) { int p = rpos, q; int neg = 0, dbl = 0; if (rt[p] == '-') { neg = 1; p++; } if (!r_dig(p)) return 0; q = p; while (r_dig(p)) p++; if (p - q > 1 && rt[q] == '0') return 0; int qe = p;
  if (p < rlen && rt[p] == '.') { dbl = 1; p++; if (!r_dig(p)) return 0; while (r_dig(p)) p++; }
  if (p < rlen && (rt[p] == 'e' || rt[p] == 'E')) { dbl = 1; p++; if (p < rlen && (rt[p] == '+' || rt[p] == '-')) p++; if (!r_dig(p)) return 0; while (r_dig(p)) p++; }
  char t[128]; int n = p - rpos; if (n > 120) { sym_fail("harness: number too long"); } for (int i = 0; i < n; i++) t[i] = rt[rpos + i]; t[n] = 0;
  if (!dbl) { uint64_t v = 0; int big = 0; uint64_t lim = neg ? 1ull << 63 : ~0ull; for (int i = q; i < qe; i++) { uint8_t d = rt[i] - '0'; if (i - q >= 15) if (v > (lim - d) / 10) big = 1; v = v * 10 + d; }
    if (big) dbl = 1; else { R[e].u = neg ? 0 - v : v; R[e].k = neg || qe - q < 19 || v <= INT64_MAX ? R_I64 : R_U64; } }
  if (dbl) { R[e].k = R_DBL; R[e].d = strtod(t, 0); }
  rpos = p; return 1; }
static int r_word(const char *w) { int p = rpos; for (; *w; w++, p++) if (p >= rlen || rt[p] != (uint8_t)*w) return 0; rpos = p; return 1; }
static int r_value(void);
static int r_same(int a, int b) { if (R[a].kl != R[b].kl) return 0; for (int i = 0; i < R[a].kl; i++) if (R[a].key[i] != R[b].key[i]) return 0; return 1; }
static void r_link(int o, int c) { if (R[o].last < 0) R[o].first = c; else R[R[o].last].next = c; R[o].last = c; }
/* a value at rpos; returns its node or -1 with rerr at the offending token */
static int r_value(void) { r_ws(); if (rpos >= rlen) return -1; uint8_t c = rt[rpos]; int e = r_new(R_NULL);
  if (c == '"') { R[e].k = R_STR; return r_str(R[e].s, &R[e].sl) ? e : -1; }
  if (c == '-' || (c >= '0' && c <= '9')) return r_num(e) ? e : -1;
  if (c == 't') { R[e].k = R_TRUE; return r_word("true") ? e : -1; } if (c == 'f') { R[e].k = R_FALSE; return r_word("false") ? e : -1; } if (c == 'n') { R[e].k = R_NULL; return r_word("null") ? e : -1; }
  if (c == '[') { R[e].k = R_ARR; rpos++; if (++rdepth > rlimit) return -1;
    for (;;) { r_ws(); if (rpos < rlen && rt[rpos] == ']') { rpos++; break; } int v = r_value(); if (v < 0) return -1; r_link(e, v); r_ws(); if (rpos >= rlen) return -1; if (rt[rpos] == ']') { rpos++; break; } if (rt[rpos] != ',') return -1; rpos++; }
    rdepth--; return e; }
  if (c == '{') { R[e].k = R_OBJ; rpos++; if (++rdepth > rlimit) return -1;
    for (;;) { r_ws(); if (rpos >= rlen) return -1; if (rt[rpos] == '}') { rpos++; break; } if (rt[rpos] != '"') return -1; char key[RS]; int kl; if (!r_str(key, &kl)) return -1; r_ws(); if (rpos >= rlen || rt[rpos] != ':') return -1; rpos++;
      int v = r_value(); if (v < 0) return -1; R[v].kl = kl; for (int i = 0; i < kl; i++) R[v].key[i] = key[i];
      int prev = -1, o = R[e].first; while (o >= 0 && !r_same(o, v)) { prev = o; o = R[o].next; }
      if (o >= 0) { R[v].next = R[o].next; if (prev < 0) R[e].first = v; else R[prev].next = v; if (R[e].last == o) R[e].last = v; } else r_link(e, v); /* the last value, at the first place */
      r_ws(); if (rpos >= rlen) return -1; if (rt[rpos] == '}') { rpos++; break; } if (rt[rpos] != ',') return -1; rpos++; }
    rdepth--; return e; }
  return -1; }
/* the line of the text's position p: how many line ends (LF, CR or CR LF) precede it */
static int r_line(int p) { int l = 0; for (int i = 0; i < p; i++) if (rt[i] == '\n') l++; else if (rt[i] == '\r' && !(i + 1 < rlen && rt[i + 1] == '\n')) l++; return l; }
static void cmp_text(const char *got, const char *want, int n) { int bad = 0; for (int i = 0; i < n; i++) bad |= got[i] != want[i]; ASSERT(!bad, "the text is the one denoted"); ASSERT(got[n] == 0, "the text ends where denoted"); }
static void cmp_tree(struct cee_json *j, int e) { ASSERT(j != 0, "value present"); struct rnode *r = &R[e];
  switch (r->k) {
    case R_NULL: ASSERT(j == cee_json_null(), "null"); break; 
    case R_TRUE: case R_FALSE: { bool b = 0; ASSERT(cee_json_to_boolx(j, &b) == 0 && b == (r->k == R_TRUE), "boolean"); break; }
    case R_I64: { int64_t v = 0; ASSERT(j->t == CEE_JSON_I64 && cee_json_to_i64x(j, &v) == 0, "a signed integer"); ASSERT((uint64_t)v == r->u, "value of the integer"); sym_reach("i64"); break; }
    case R_U64: { uint64_t v = 0; ASSERT(j->t == CEE_JSON_U64 && cee_json_to_u64x(j, &v) == 0, "an unsigned integer"); ASSERT(v == r->u, "value of the integer"); sym_reach("u64"); break; }
    case R_DBL: { double v = 0; ASSERT(j->t == CEE_JSON_DOUBLE && cee_json_to_doublex(j, &v) == 0, "a double"); uint64_t a, b; memcpy(&a, &v, 8); memcpy(&b, &r->d, 8); ASSERT(a == b, "value of the double"); sym_reach("double"); break; }
    case R_STR: { ASSERT(j->t == CEE_JSON_STRING, "a string"); char *s = (char *)cee_json_to_str(j); cmp_text(s, r->s, r->sl); sym_reach("string"); break; }
    case R_ARR: { ASSERT(j->t == CEE_JSON_ARRAY, "an array"); size_t n = 0; for (int c = r->first; c >= 0; c = R[c].next, n++) { ASSERT(n < cee_json_array_length(j), "number of elements"); cmp_tree(cee_json_array_get(j, n), c); } ASSERT(n == cee_json_array_length(j), "number of elements"); sym_reach("array"); break; }
    case R_OBJ: { ASSERT(j->t == CEE_JSON_OBJECT, "an object"); struct cee_map *m = cee_json_to_object(j); struct cee_list *ks = cee_map_insertion_ordered_keys(m); size_t n = 0;
      for (int c = r->first; c >= 0; c = R[c].next, n++) { ASSERT(n < cee_list_size(ks), "number of keys"); cmp_text(ks->a[n], R[c].key, R[c].kl); char k[RS]; for (int i = 0; i < R[c].kl; i++) k[i] = R[c].key[i]; k[R[c].kl] = 0; cmp_tree(cee_json_object_get(j, k), c); }
      ASSERT(n == cee_list_size(ks) && n == cee_map_size(m), "number of keys"); cee_del(ks); sym_reach("object"); break; }
  } }
static void r_start(const uint8_t *t, int n) { rt = t; rlen = n; rpos = 0; rn = 0; rdepth = 0; rerr = 0; }
#endif
