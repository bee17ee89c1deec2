/* C16, C18, C19, C22: longer texts of five shapes, mostly fixed, with arbitrary bytes at some place.
   shape 0: array of m elements; 1: object of m members; 2: literal of m characters; 3: number of m digits; 4: m line ends */
#include "json.h"
static uint8_t T[1024]; static int len; static int pos_of(int m) { int w = sym_choice("at", 3); return w == 0 ? 0 : w == 1 ? m / 2 : m - 1; }
static void put(const char *s) { while (*s) T[len++] = *s++; }
static uint8_t anyb(void) { return sym_u8("c"); }
static int squeeze(const char *t, int n, char *o) { int m = 0, in = 0; for (int i = 0; i < n; i++) { char c = t[i]; if (in) { o[m++] = c; if (c == '\\') { i++; o[m++] = t[i]; } else if (c == '"') in = 0; } else if (c == '"') { in = 1; o[m++] = c; } else if (c == ' ' || c == '\t' || c == '\n' || c == '\r') continue; else o[m++] = c; } return m; }
static void sizes(struct cee_state *st, struct cee_json *j) {
  size_t n = cee_json_snprint(st, 0, 0, j, 0), np = cee_json_snprint(st, 0, 0, j, 1); char *c = malloc(n + 1), *p = malloc(np + 1), *o = malloc(n + np + 1); ASSERT(cee_json_snprint(st, c, n + 1, j, 0) == n && c[n] == 0, "compact size"); ASSERT(cee_json_snprint(st, p, np + 1, j, 1) == np && p[np] == 0, "pretty size");
  ASSERT(squeeze(c, n, o) == n, "compact has no white space"); ASSERT(squeeze(p, np, o) == n, "pretty adds only white space"); int bad = 0; for (size_t i = 0; i < n; i++) bad |= o[i] != c[i]; ASSERT(!bad, "pretty is the same document");
  int f = sym_choice("f", 2); size_t full = f ? np : n, room[7] = { 0, 1, 2, full / 2, full - 1, full, full + 1 }, s = room[sym_choice("room", 7)]; char *q = malloc(s), *e = f ? p : c; ASSERT(cee_json_snprint(st, q, s, j, f) == full, "the size needed does not depend on the room"); if (s) { size_t k = s - 1 < full ? s - 1 : full; ASSERT(q[k] == 0, "terminated within the room"); bad = 0; for (size_t i = 0; i < k; i++) bad |= q[i] != e[i]; ASSERT(!bad, "as much of the text as fits"); }
  char *b = 0; size_t bs = 5; ASSERT(cee_json_asprint(st, &b, &bs, j, f) == full && bs >= full && sym_mem_ok(b, full + 1) && b[full] == 0, "the allocated text"); bad = 0; for (size_t i = 0; i < full; i++) bad |= b[i] != e[i]; ASSERT(!bad, "the allocated text is the text"); free(c); free(p); free(o); free(q); sym_reach("sizes"); }
void harness(void) {
  int shape = P("shape", 0), lo = P("lo", 1), hi = P("hi", 40), step = P("step", 1), eof = 1; size_t base = sym_heap_live(); struct cee_state *st = cee_state_mk(4); int m = lo + step * sym_choice("m", (hi - lo) / step + 1), wrap = P("wrap", 1) ? sym_choice("wrap", 3) : 0;
  if (wrap == 1) put("["); else if (wrap == 2) put("{\"w\":");
  if (shape == 0) { int p = pos_of(m); put("["); for (int i = 0; i < m; i++) { if (i) put(","); if (i == p) { T[len++] = anyb(); if (sym_choice("two", 2)) T[len++] = anyb(); } else if (i % 5 == 4) put("\"s\""); else if (i % 7 == 6) put("[]"); else T[len++] = '0' + i % 10; } put("]"); }
  else if (shape == 1) { int p = pos_of(m), form = sym_choice("form", 2); put("{"); for (int i = 0; i < m; i++) { if (i) put(","); put("\""); if (i == p && form == 0) T[len++] = anyb(); else { T[len++] = 'a' + i % 26; if (i >= 26) T[len++] = 'a' + i / 26; } put("\":"); if (i == p && form == 1) T[len++] = anyb(); else if (i % 6 == 5) put("{}"); else T[len++] = '0' + i % 10; } put("}"); }
  else if (shape == 2) { int p = pos_of(m), form = sym_choice("form", 4); if (P("key", 0)) put("{"); put("\""); for (int i = 0; i < m; i++) { if (i == p) { if (form == 0) { T[len++] = anyb(); T[len++] = anyb(); } else if (form == 1) { put("\\"); T[len++] = anyb(); } else if (form == 2) { put("\\u12"); T[len++] = anyb(); put("4"); } else { put("\\ud83d\\ude0"); T[len++] = anyb(); } } else T[len++] = 'A' + i % 26; } put("\""); if (P("key", 0)) put(":1}"); }
  else if (shape == 3) { int form = sym_choice("form", 6); if (sym_choice("neg", 2)) put("-"); if (form == 1) put("0."); for (int i = 0; i < m; i++) { T[len++] = i ? '0' + i * 7 % 10 : '1' + m % 9; if (form == 2 && i == 0 && m > 1) put("."); if (form == 3 && i == m / 2 && m > 1 && i + 1 < m) put("."); } if (form == 4) put("e1"); if (form == 5) put("E-5"); }
  else { for (int i = 0; i < m; i++) put(i % 3 ? "\n" : "\r\n"); T[len++] = anyb(); eof = sym_choice("eof", 2); put("\n]"); }
  if (wrap == 1) put("]"); else if (wrap == 2) put("}");
  uint8_t *t = malloc(len); memcpy(t, T, len); int line = -1; struct cee_json *j = (void *)t; int rc = cee_json_parsex(st, (char *)t, len, &j, eof, &line);
  ASSERT(rc ? j == 0 : j != 0, "a document exactly when accepted"); r_start(t, len); int e = r_value(); if (e >= 0 && eof) { if (!r_end()) e = -1; }
  if (e < 0) { ASSERT(rc != 0, "an ill-formed text is rejected"); ASSERT(line == r_line(rerr), "the line of the error"); sym_reach("rejected"); }
  else { ASSERT(rc == 0, "a well-formed text is accepted"); cmp_tree(j, e); sym_reach("accepted");
    if (P("size", 0)) sizes(st, j);
    if (P("back", 0)) { int how = sym_choice("fmt", 2); size_t n = cee_json_snprint(st, 0, 0, j, how); char *u = malloc(n + 1); ASSERT(cee_json_snprint(st, u, n + 1, j, how) == n && u[n] == 0, "size printed"); struct cee_json *k = 0; ASSERT(cee_json_parsex(st, u, n, &k, true, &line) == 0, "printed text parses"); cmp_tree(k, e); free(u); sym_reach("back"); } }
  sym_observe("rc", rc); free(t); cee_del(st); NO_LEAK(base);
}
