/* C20: nesting around the limits.
   what 0: a text of n levels (arrays, objects, alternating, or arbitrary kinds at some levels), parsed, printed, parsed again; 1: a document built deeper through the interface, printed; 2: an opened but never closed text;
   3: many containers side by side; sib: other elements beside the inner container at every level */
#include "h.h"
#include "cee-json.h"
static char *T; static int tn; static void put(const char *s) { while (*s) T[tn++] = *s++; }
static int isobj(int pat, int level, const uint8_t *k, int d) { if (pat < 2) return pat; if (pat == 2) return level & 1; if (level >= d - 3) return k[d - 1 - level] & 1; if (level == d / 2) return k[3] & 1; return pat == 4; }
static int sib; /* 1: something before the inner container, 2: behind it, 3: both */
static int walk(struct cee_json *j, int d, int pat, const uint8_t *k, int leaf) { /* the chain of containers */
  for (int l = 0; l < d; l++) { int last = l == d - 1; if (isobj(pat, l, k, d)) { ASSERT(j && j->t == CEE_JSON_OBJECT, "an object at its level"); struct cee_map *m = cee_json_to_object(j); ASSERT(cee_map_size(m) == (last && !leaf ? 0 : 1 + (sib & 1) + (sib >> 1)), "its keys"); j = last && !leaf ? 0 : cee_json_object_get(j, "k"); } else { ASSERT(j && j->t == CEE_JSON_ARRAY, "an array at its level"); ASSERT(cee_json_array_length(j) == (last && !leaf ? 0 : 1 + (sib & 1) + (sib >> 1)), "its elements"); j = cee_json_array_get(j, sib & 1); } }
  if (leaf) { int64_t v = 0; ASSERT(j && cee_json_to_i64x(j, &v) == 0 && v == leaf, "the innermost value"); } else ASSERT(j == 0, "nothing inside"); return 1; }
static void wide(void) { int m = 450 + sym_choice("m", 8) * 90, kind = sym_choice("kind", 4), outer = sym_choice("outer", 2); static char t[20000]; T = t; put(outer ? "{" : "["); for (int i = 0; i < m; i++) { if (i) put(","); if (outer) { char k[6] = { '"', 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676, '"', 0 }; put(k); put(":"); } put(kind == 0 ? "[]" : kind == 1 ? "{}" : kind == 2 ? "[[1],{}]" : "{\"k\":[]}"); } put(outer ? "}" : "]");
  struct cee_state *st = cee_state_mk(4); struct cee_json *j = 0, *r = 0; int line; ASSERT(cee_json_parsex(st, T, tn, &j, true, &line) == 0 && j, "many containers side by side are accepted"); ASSERT(outer ? cee_map_size(cee_json_to_object(j)) == m : cee_json_array_length(j) == m, "all of them");
  for (int i = 0; i < m; i++) { char k[4] = { 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676, 0 }; struct cee_json *c = outer ? cee_json_object_get(j, k) : cee_json_array_get(j, i); ASSERT(c && c->t == (kind & 1 ? CEE_JSON_OBJECT : CEE_JSON_ARRAY), "each of them"); }
  size_t n = cee_json_snprint(st, 0, 0, j, 0); ASSERT(n == tn, "printed size"); char *b = malloc(n + 1); ASSERT(cee_json_snprint(st, b, n + 1, j, 0) == n && b[n] == 0, "printed completely"); if (!outer) ASSERT(memcmp(b, T, n) == 0, "printed text"); ASSERT(cee_json_parsex(st, b, n, &r, true, &line) == 0, "printed text parses"); free(b); cee_del(st); sym_reach("wide"); }
void harness(void) {
  int what = P("what", 0); size_t base = sym_heap_live(); if (what == 3) { wide(); NO_LEAK(base); return; } struct cee_state *st = cee_state_mk(4); int pat = sym_choice("pattern", 5); uint8_t k[4] = { 0 }; if (pat >= 3) for (int i = 0; i < 4; i++) k[i] = sym_choice("kind", 2);
  int lo = P("lo", 495), d = lo + sym_choice("d", P("span", 22)) * P("step", 1), leaf = sym_choice("leaf", 2) * 7; 
  if (P("sib", 0)) sib = 1 + sym_choice("sib", 3);
  if (what != 1) { T = malloc(d * 24 + 8); for (int l = 0; l < d; l++) { int inner = l < d - 1 || leaf; int ob = isobj(pat, l, k, d), b = inner && sib & 1; put(ob ? b ? "{\"a\":[]," : "{" : b ? "[1," : "["); if (ob && inner) put("\"k\":"); } if (leaf) put("7"); if (what == 0) for (int l = d - 1; l >= 0; l--) { int inner = l < d - 1 || leaf; if (inner && sib & 2) put(isobj(pat, l, k, d) ? ",\"z\":{}" : ",[]"); put(isobj(pat, l, k, d) ? "}" : "]"); } }
  struct cee_json *j = 0; int line = 0;
  if (what == 2) { int cut = sym_choice("cut", 3); int rc = cee_json_parsex(st, T, tn - cut, &j, sym_choice("eof", 2), &line); ASSERT(rc != 0 && j == 0, "an unfinished text is rejected"); sym_reach("unfinished"); }
  else { if (what == 0) { int rc = cee_json_parsex(st, T, tn, &j, true, &line); if (d <= MAX_JSON_DEPTH) { ASSERT(MAX_JSON_DEPTH == 500, "the limit"); ASSERT(rc == 0, "accepted up to the limit"); sym_reach("limit"); } if (d > 512) { ASSERT(rc != 0, "rejected beyond the limit"); sym_reach("beyond"); } ASSERT(rc ? !j : !!j, "a document exactly when accepted"); }
    else { j = leaf ? cee_json_i64_mk(st, 7) : 0; for (int l = d - 1; l >= 0; l--) { struct cee_json *c = isobj(pat, l, k, d) ? cee_json_object_mk(st) : cee_json_array_mk(st, 1); if (j) { if (isobj(pat, l, k, d)) cee_json_object_set(c, "k", j); else cee_json_array_append(c, j); } j = c; } }
    if (j) { walk(j, d, pat, k, leaf); int f = P("pretty", 1) ? sym_choice("f", 2) : 0; size_t n = cee_json_snprint(st, 0, 0, j, f); char *b = malloc(n + 1); ASSERT(cee_json_snprint(st, b, n + 1, j, f) == n && b[n] == 0, "printed completely");
      if (!f && what == 0) { ASSERT(n == tn, "printed size"); if (!sib || pat == 0) { int bad = 0; for (size_t i = 0; i < n; i++) bad |= b[i] != T[i]; ASSERT(!bad, "printed text"); } }
      if (what == 1) { int op = 0, cl = 0; for (size_t i = 0; i < n; i++) { op += b[i] == '[' || b[i] == '{'; cl += b[i] == ']' || b[i] == '}'; } ASSERT(op == d && cl == d, "every level printed"); sym_reach("built"); }
      else { struct cee_json *r = 0; ASSERT(cee_json_parsex(st, b, n, &r, true, &line) == 0, "printed text parses"); walk(r, d, pat, k, leaf); sym_reach(f ? "pretty" : "compact"); } free(b); } }
  if (what != 1) free(T); if (j && sym_choice("del", 2)) cee_del(j); cee_del(st); NO_LEAK(base);
}
