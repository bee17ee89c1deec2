/* C23 (and the conversions of C19): the JSON object and array interface against the reference tree of json.h.
   what 0: operations on an object; 1: operations on an array; 2: accessors and conversions of one value; 3: recursive key search; 4: conversion of text to an integer */
#include "json.h"
#include <stdarg.h>
static struct cee_state *st; static int kl_max;
enum { V_NULL, V_TRUE, V_FALSE, V_I64, V_U64, V_DBL, V_STR, V_ARR, V_OBJ, V_STRN, V_BLOB, V_UNDEF, V_KINDS };
static int few; static int s_text(char *t, int max, const char *nm) { if (few && nm[0] == 'k') { t[0] = 'A' + (few - 2) * sym_choice("few", 3) / 2 + sym_choice("off", 2); t[1] = 0; return 1; } int n = max ? sym_choice(nm, max + 1) : 0; for (int i = 0; i < n; i++) { uint8_t c = sym_u8("ch"); sym_assume(c != 0); t[i] = c; } t[n] = 0; return n; }
static double s_dbl(void) { union { uint64_t u; double d; } x; x.u = sym_u64("dbl"); return x.d; }
/* a scalar value and its node */
static struct cee_json *scalar(int k, int *e) { int x = *e = r_new(R_NULL); switch (k) {
  case V_NULL: return cee_json_null(); case V_TRUE: R[x].k = R_TRUE; return sym_choice("how", 2) ? cee_json_true() : cee_json_bool(1); case V_FALSE: R[x].k = R_FALSE; return sym_choice("how", 2) ? cee_json_false() : cee_json_bool(0);
  case V_I64: R[x].k = R_I64; R[x].u = sym_u64("i64"); return cee_json_i64_mk(st, R[x].u); case V_U64: R[x].k = R_U64; R[x].u = sym_u64("u64"); return cee_json_u64_mk(st, R[x].u);
  case V_DBL: R[x].k = R_DBL; R[x].d = s_dbl(); return cee_json_double_mk(st, R[x].d);
  default: R[x].k = R_STR; R[x].sl = s_text(R[x].s, 1, "sl"); return sym_choice("how", 2) ? cee_json_str_mk(st, cee_str_mk(st, "%s", R[x].s)) : cee_json_str_mkf(st, "%s", R[x].s); } }
static void r_setkey(int e, const char *k, int n) { R[e].kl = n; for (int i = 0; i < n; i++) R[e].key[i] = k[i]; }
static int r_find(int o, const char *k, int n) { for (int c = R[o].first; c >= 0; c = R[c].next) if (R[c].kl == n) { int i = 0; while (i < n && R[c].key[i] == k[i]) i++; if (i == n) return c; } return -1; }
/* put node v in place of node o (or unlink o when v is -1) */
static void r_replace(int p, int o, int v) { int prev = -1, c = R[p].first; while (c != o) { prev = c; c = R[c].next; } int nx = v < 0 ? R[o].next : v; if (v >= 0) R[v].next = R[o].next; if (prev < 0) R[p].first = nx; else R[prev].next = nx; if (R[p].last == o) R[p].last = v < 0 ? prev : v; R[o].next = -1; }
static void r_put(int p, const char *k, int n, int v) { r_setkey(v, k, n); int o = r_find(p, k, n); if (o < 0) r_link(p, v); else r_replace(p, o, v); }
static int r_copy(int e) { int x = r_new(0), nf = -1; R[x] = R[e]; R[x].first = R[x].next = R[x].last = -1; for (int c = R[e].first; c >= 0; c = R[c].next) r_link(x, r_copy(c)); (void)nf; return x; }
static int r_count(int e) { int n = 0; for (int c = R[e].first; c >= 0; c = R[c].next) n++; return n; }
static int kinds[V_KINDS], nk;
/* any value: a scalar, an array of up to 2 or an object of up to 1 scalars */
static struct cee_json *value(int *e) { int k = kinds[sym_choice("kind", nk)]; if (k < V_ARR) return scalar(k, e); int x = *e = r_new(k == V_ARR ? R_ARR : R_OBJ); struct cee_json *j;
  if (k == V_ARR) { j = cee_json_array_mk(st, P("an", 2) > 1 ? sym_choice("cap", 2) : 0); int n = sym_choice("n", P("an", 2) + 1); for (int i = 0; i < n; i++) { int c; struct cee_json *v = scalar(i ? V_I64 : V_STR, &c); cee_json_array_append(j, v); r_link(x, c); } }
  else { j = cee_json_object_mk(st); if (sym_choice("n", 2)) { int c; struct cee_json *v = scalar(V_I64, &c); cee_json_object_set(j, "in", v); r_setkey(c, "in", 2); r_link(x, c); } } return j; }
static struct cee_json *scal_of(int *e) { int k = sym_choice("kind", V_STR + 1); return scalar(k, e); }
struct oc { int root, calls, stop, ret; uint8_t seen[RN]; };
static int oit(void *cx, struct cee_str *key, struct cee_json *v) { struct oc *c = cx; int n = strlen((char *)key); int e = r_find(c->root, (char *)key, n); ASSERT(e >= 0 && !c->seen[e], "iteration visits each key once"); c->seen[e] = 1; cmp_tree(v, e); return c->calls++ == c->stop ? c->ret : 0; }
struct ac { int e, calls, stop, ret; };
static int ait(void *cx, struct cee_json *v, int idx) { struct ac *c = cx; ASSERT(idx == c->calls && c->e >= 0, "iteration in order"); cmp_tree(v, c->e); c->e = R[c->e].next; return c->calls++ == c->stop ? c->ret : 0; }
static void object(int steps, int nops) {
  struct cee_json *o; int root = r_new(R_OBJ); char k[RS]; int kn;
  if (P("kv", 0) && sym_choice("kv", 2)) { int e; struct cee_json *v = value(&e); kn = s_text(k, kl_max, "kl"); o = cee_json_object_kv(st, k, v); r_put(root, k, kn, e); } else o = cee_json_object_mk(st);
  if (P("pre", 0)) { int m = 14 + sym_choice("pre", 4) * 5; few = m + 1; int dir = sym_choice("dir", 3), c; for (int i = 0; i < m; i++) { int q = dir == 0 ? i : dir == 1 ? m - 1 - i : i * 7 % m; if (dir == 2 && m % 7 == 0) q = i; char kk[2] = { 'A' + q, 0 }; struct cee_json *v = i % 3 == 2 ? cee_json_array_mk(st, 1) : cee_json_i64_mk(st, i); c = r_new(i % 3 == 2 ? R_ARR : R_I64); R[c].u = i; cee_json_object_set(o, kk, v); r_put(root, kk, 1, c); } }
  static const int OPS[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; int mask = P("opmask", 0x3FF), ops[10], no = 0; for (int i = 0; i < 10; i++) if (mask >> i & 1) ops[no++] = OPS[i];
  for (int i = 0; i < steps; i++) { int op = ops[sym_choice("op", no)]; kn = s_text(k, kl_max, "kl"); int e = -1;
    switch (op) {
      case 0: { struct cee_json *v = value(&e); cee_json_object_set(o, k, v); r_put(root, k, kn, e); break; }
      case 1: { struct cee_json *v = value(&e); int old = r_find(root, k, kn); cee_json_object_append(o, k, v);
        if (old < 0) { r_put(root, k, kn, e); sym_reach("append new"); } else { int a = old; if (R[old].k != R_ARR) { a = r_new(R_ARR); r_setkey(a, k, kn); r_replace(root, old, a); r_link(a, old); sym_reach("append to one"); } if (R[e].k == R_ARR) { for (int c = R[e].first; c >= 0;) { int nx = R[c].next; R[c].next = -1; r_link(a, c); c = nx; } sym_reach("append list"); } else r_link(a, e); } break; }
      case 2: { int old = r_find(root, k, kn); cee_json_object_remove(o, k); if (old >= 0) { r_replace(root, old, -1); sym_reach("removed"); } break; }
      case 3: { char k2[RS]; int n2 = s_text(k2, kl_max, "kl2"); int old = r_find(root, k, kn); bool r = cee_json_object_rename(o, k, k2); ASSERT(r == (old >= 0), "rename succeeds when the key is there"); if (r) { r_replace(root, old, -1); r_put(root, k2, n2, old); sym_reach("renamed"); } break; }
      case 4: { e = r_new(R_NULL); cee_json_object_set_null(o, k); r_put(root, k, kn, e); break; }
      case 5: { bool b = sym_choice("b", 2); e = r_new(b ? R_TRUE : R_FALSE); cee_json_object_set_bool(o, k, b); r_put(root, k, kn, e); break; }
      case 6: { e = r_new(R_STR); R[e].sl = s_text(R[e].s, 2, "sl"); if (sym_choice("f", 2)) cee_json_object_set_strf(o, k, "%s", R[e].s); else cee_json_object_set_str(o, k, R[e].s); r_put(root, k, kn, e); break; }
      case 7: { e = r_new(R_DBL); R[e].d = s_dbl(); cee_json_object_set_double(o, k, R[e].d); r_put(root, k, kn, e); break; }
      case 8: { e = r_new(R_I64); R[e].u = sym_u64("i64"); cee_json_object_set_i64(o, k, R[e].u); r_put(root, k, kn, e); break; }
      case 9: { e = r_new(R_U64); R[e].u = sym_u64("u64"); cee_json_object_set_u64(o, k, R[e].u); r_put(root, k, kn, e); break; } }
    if (P("each", 0)) cmp_tree(o, root); }
  cmp_tree(o, root); kn = s_text(k, kl_max, "kl"); int e = r_find(root, k, kn); struct cee_json *g = cee_json_object_get(o, k); if (e < 0) ASSERT(g == 0, "an absent key gives null"); else cmp_tree(g, e);
  struct oc c = { root, 0, -1, 0 }; ASSERT(cee_json_object_iterate(o, &c, oit) == 0 && c.calls == r_count(root), "iteration visits all"); 
  struct oc c2 = { root, 0, 0, 7 }; if (r_count(root)) ASSERT(cee_json_object_iterate(o, &c2, oit) == 7 && c2.calls == 1, "iteration stops");
  ASSERT(cee_json_empty(o) == (r_count(root) == 0), "emptiness");
  struct cee_json *l = cee_json_listify(o); ASSERT(l && l->t == CEE_JSON_ARRAY && cee_json_array_length(l) == 1 && cee_json_array_get(l, 0) == o, "listify holds the object");
  if (P("err", 0)) { kn = 5; e = r_find(root, "error", 5); struct cee_json *x = o; cee_json_set_error(&x, "bad %s", "thing"); if (e < 0) { e = r_new(R_STR); R[e].sl = 9; for (int i = 0; i < 9; i++) R[e].s[i] = "bad thing"[i]; r_put(root, "error", 5, e); } cmp_tree(o, root); cee_json_set_error(&x, "again"); cmp_tree(o, root); } }
static void array(int steps) {
  int root = r_new(R_ARR); struct cee_json *a = cee_json_array_mk(st, sym_choice("cap", 3)); if (P("pre", 0)) { int m = 9 + sym_choice("pre", 3) * 12; for (int i = 0; i < m; i++) { int c = r_new(R_I64); R[c].u = i; cee_json_array_append(a, cee_json_i64_mk(st, i)); r_link(root, c); } } int mask = P("opmask", 0x1FF), ops[9], no = 0; for (int i = 0; i < 9; i++) if (mask >> i & 1) ops[no++] = i;
  for (int i = 0; i < steps; i++) { int e; switch (ops[sym_choice("op", no)]) {
      case 0: { struct cee_json *v = value(&e); cee_json_array_append(a, v); r_link(root, e); break; }
      case 1: { struct cee_json *v = scalar(V_I64, &e); int n = r_count(root), at = sym_choice("at", n + 1); cee_json_array_insert(a, at, v); if (at == n) r_link(root, e); else { int prev = -1, c = R[root].first; for (int q = 0; q < at; q++) { prev = c; c = R[c].next; } R[e].next = c; if (prev < 0) R[root].first = e; else R[prev].next = e; sym_reach("inserted"); } break; }
      case 2: { int n = r_count(root), at = (int)sym_u32("at"); cee_json_array_remove(a, at); if (at >= 0 && at < n) { at = sym_concretize(at); int c = R[root].first; for (int q = 0; q < at; q++) c = R[c].next; r_replace(root, c, -1); sym_reach("removed"); } break; }
      case 3: { bool b = sym_choice("b", 2); r_link(root, r_new(b ? R_TRUE : R_FALSE)); cee_json_array_append_bool(a, b); break; }
      case 4: { e = r_new(R_STR); R[e].sl = s_text(R[e].s, 2, "sl"); if (sym_choice("f", 2)) cee_json_array_append_strf(a, "%s", R[e].s); else cee_json_array_append_str(a, R[e].s); r_link(root, e); break; }
      case 5: { if (sym_choice("self", 2)) { int y = r_copy(root); cee_json_array_concat(a, a); for (int c = R[y].first; c >= 0;) { int nx = R[c].next; R[c].next = -1; r_link(root, c); c = nx; } sym_reach("concat itself"); break; }
        struct cee_json *s = cee_json_array_mk(st, 1); int n = sym_choice("n", 3), x = r_new(R_ARR); for (int q = 0; q < n; q++) { struct cee_json *v = scalar(V_I64, &e); cee_json_array_append(s, v); r_link(x, e); } int y = r_copy(x); cee_json_array_concat(a, s); cmp_tree(s, x); for (int c = R[y].first; c >= 0;) { int nx = R[c].next; R[c].next = -1; r_link(root, c); c = nx; } sym_reach("concat"); break; }
      default: sym_stop(); }
    if (P("each", 0)) cmp_tree(a, root); }
  cmp_tree(a, root); int i = (int)sym_u32("i"), n = r_count(root); struct cee_json *g = cee_json_array_get(a, i); if (i < 0 || i >= n) ASSERT(g == 0, "an index outside gives null"); else { i = sym_concretize(i); int c = R[root].first; for (int q = 0; q < i; q++) c = R[c].next; cmp_tree(g, c); }
  struct ac c = { R[root].first, 0, -1, 0 }; ASSERT(cee_json_array_iterate(a, &c, ait) == 0 && c.calls == n, "iteration visits all"); struct ac c2 = { R[root].first, 0, 0, 3 }; if (n) ASSERT(cee_json_array_iterate(a, &c2, ait) == 3 && c2.calls == 1, "iteration stops");
  ASSERT(cee_json_empty(a) == (n == 0), "emptiness"); ASSERT(cee_json_listify(a) == a, "listify of an array"); }
static void accessors(void) {
  int k = sym_choice("kind", V_KINDS), e; struct cee_json *v; static char buf[4]; size_t bn = 0;
  if (k <= V_STR) v = scalar(k, &e); else if (k == V_ARR) v = cee_json_array_mk(st, 0); else if (k == V_OBJ) v = cee_json_object_mk(st); else if (k == V_STRN) { bn = sym_choice("bn", 4); v = cee_json_strn_mk(st, buf, bn); } else if (k == V_BLOB) { bn = sym_choice("bn", 4); for (int i = 0; i < 3; i++) buf[i] = sym_u8("b"); v = cee_json_blob_mk(st, buf, bn); } else v = cee_json_undefined();
  static const int T[] = { CEE_JSON_NULL, CEE_JSON_BOOLEAN, CEE_JSON_BOOLEAN, CEE_JSON_I64, CEE_JSON_U64, CEE_JSON_DOUBLE, CEE_JSON_STRING, CEE_JSON_ARRAY, CEE_JSON_OBJECT, CEE_JSON_STRN, CEE_JSON_BLOB, CEE_JSON_UNDEFINED }; ASSERT(v->t == T[k], "kind");
  ASSERT(!cee_json_to_array(v) == (k != V_ARR), "to_array"); ASSERT(!cee_json_to_object(v) == (k != V_OBJ), "to_object"); ASSERT(!cee_json_to_str(v) == (k != V_STR), "to_str"); ASSERT(!cee_json_to_blob(v) == (k != V_BLOB), "to_blob"); ASSERT(!cee_json_to_boxed(v) == (k < V_I64 || k > V_DBL), "to_boxed");
  char *p = 0; size_t pn = 99; bool r = cee_json_to_strn(v, &p, &pn); ASSERT(r == (k == V_STRN), "to_strn"); if (r) ASSERT(p == buf && pn == bn, "counted string"); else ASSERT(p == 0 && pn == 99, "no counted string");
  double d = 0; int64_t i = 77; uint64_t u = 77; int n = 77; bool b = 0; uint64_t x, y;
  int rc = cee_json_to_doublex(v, &d); if (k == V_DBL) { memcpy(&x, &d, 8); memcpy(&y, &R[e].d, 8); ASSERT(rc == 0 && x == y, "to double"); } else ASSERT(rc != 0 || k == V_I64 || k == V_U64, "to double refused");
  if (rc == 0 && k == V_I64) ASSERT(d == (double)(int64_t)R[e].u, "integer to double"); if (rc == 0 && k == V_U64) ASSERT(d == (double)R[e].u, "unsigned to double");
  rc = cee_json_to_i64x(v, &i); if (k == V_I64) ASSERT(rc == 0 && i == (int64_t)R[e].u, "to i64"); else if (rc == 0) { ASSERT(k == V_U64 && i >= 0 && (uint64_t)i == R[e].u, "only a value that fits"); } else ASSERT(rc != 0, "refused");
  rc = cee_json_to_u64x(v, &u); if (k == V_U64) ASSERT(rc == 0 && u == R[e].u, "to u64"); else if (rc == 0) { ASSERT(k == V_I64 && (int64_t)R[e].u >= 0 && u == R[e].u, "only a value that fits"); }
  rc = cee_json_to_intx(v, &n); if (rc == 0) { ASSERT(k == V_I64 || k == V_U64, "an integer"); if (k == V_I64) ASSERT((int64_t)n == (int64_t)R[e].u, "the int is the value"); else ASSERT(n >= 0 && (uint64_t)n == R[e].u, "the int is the value"); sym_reach("int"); } else { if (k == V_I64) { ASSERT((int64_t)R[e].u < INT32_MIN || (int64_t)R[e].u > INT32_MAX, "an int that fits is given"); sym_reach("int refused"); } }
  int n2 = 77, rc2; rc2 = cee_json_select_as_int(v, &n2, ""); ASSERT((rc2 == 0) == (rc == 0) && n == n2, "select as int"); n2 = 5; ASSERT(cee_json_select_as_int(v, &n2, ".no") != 0 && n2 == 5, "nothing to convert");
  rc = cee_json_to_boolx(v, &b); ASSERT((rc == 0) == (k == V_TRUE || k == V_FALSE) && b == (k == V_TRUE), "to bool");
  if (k == V_STR) { cmp_text((char *)cee_json_to_str(v), R[e].s, R[e].sl); struct cee_json *l = cee_json_listify(v); ASSERT(cee_json_array_length(l) == 1 && cee_json_array_get(l, 0) == v, "listify of a string"); } 
  if (k == V_BLOB) { struct cee_block *q = cee_json_to_blob(v); ASSERT(cee_block_size(q) == bn, "blob size"); int bad = 0; for (size_t m = 0; m < bn; m++) bad |= q->_[m] != buf[m]; ASSERT(!bad, "blob content"); }
  ASSERT(cee_json_empty(v) == (k == V_ARR || k == V_OBJ), "emptiness"); ASSERT(cee_json_has(v, "x") == 0, "nothing in it");
  sym_reach(k <= V_STR ? "scalar" : "other"); }
/* recursive search: a tree of objects and arrays, keys of one byte */
static struct cee_json *S[16]; static uint8_t SK[16]; static int sn, left, depth;
static struct cee_json *tree(void) { left--; int k = depth >= 3 ? 0 : sym_choice("node", 3); if (k == 0) return sym_choice("leaf", 2) ? cee_json_i64_mk(st, 5) : cee_json_null(); depth++;
  struct cee_json *j = k == 1 ? cee_json_array_mk(st, 1) : cee_json_object_mk(st); int n = left > 0 ? sym_choice("n", left + 1) : 0; uint8_t ks[8]; int nks = 0;
  for (int i = 0; i < n && left > 0; i++) { struct cee_json *c = tree(); if (k == 1) cee_json_array_append(j, c); else { char key[2] = { (char)sym_u8("k"), 0 }; sym_assume(key[0] != 0); for (int q = 0; q < nks; q++) if (ks[q] == (uint8_t)key[0]) sym_stop(); ks[nks++] = key[0]; S[sn] = c; SK[sn++] = key[0]; cee_json_object_set(j, key, c); } }
  depth--; return j; }
static void has(int n) { left = n; struct cee_json *j = tree(); char key[2] = { (char)sym_u8("q"), 0 }; sym_assume(key[0] != 0); struct cee_json *f = cee_json_has(j, key); int any = 0, ok = 0; for (int i = 0; i < sn; i++) if (SK[i] == (uint8_t)key[0]) { any = 1; ok |= S[i] == f; } if (any) { ASSERT(ok, "finds a value under the key"); sym_reach("found"); } else { ASSERT(f == 0, "absent"); sym_reach("absent"); } }
static void convert(int n) { struct cee_json *o = cee_json_object_mk(st); char t[RS]; int len = sym_choice("len", n + 1), alpha = P("alpha", 0); for (int i = 0; i < len; i++) { uint8_t c = sym_u8("c"); sym_assume(c != 0); if (alpha) sym_assume((uint8_t)(c - '0') <= 9); t[i] = c; } t[len] = 0;
  char u[40]; int m = 0; if (alpha == 1) { for (const char *p = "92233720368547758"; *p; p++) u[m++] = *p; } if (alpha == 2) { for (const char *p = "-92233720368547758"; *p; p++) u[m++] = *p; } for (int i = 0; i < len; i++) u[m++] = t[i]; u[m] = 0;
  cee_json_object_set_str(o, "k", u);
  int p = 0; while (u[p] == ' ' || (u[p] >= 9 && u[p] <= 13)) p++; int neg = 0; if (u[p] == '-') { neg = 1; p++; } else if (u[p] == '+') p++; int q = p; uint64_t h = 0; int big = 0; uint64_t lim = neg ? 1ull << 63 : (1ull << 63) - 1; for (; (uint8_t)(u[p] - '0') <= 9; p++) { uint8_t d = u[p] - '0'; if (p - q >= 16 && h > (lim - d) / 10) big = 1; h = h * 10 + d; }
  int ok = p > q && u[p] == 0 && !big; bool r = cee_json_object_convert_to_i64(o, "k"); ASSERT(r == ok, "conversion succeeds on an integer's text only"); struct cee_json *v = cee_json_object_get(o, "k"); int64_t x = 0;
  if (ok) { ASSERT(cee_json_to_i64x(v, &x) == 0 && (uint64_t)x == (neg ? 0 - h : h), "the integer"); sym_reach("converted"); ASSERT(cee_json_object_convert_to_i64(o, "k"), "an integer stays"); } else { ASSERT(v->t == CEE_JSON_STRING, "the text stays"); sym_reach("refused"); }
  ASSERT(!cee_json_object_convert_to_i64(o, "x"), "no such key"); cee_json_object_set_u64(o, "k", 5); r = cee_json_object_convert_to_i64(o, "k"); v = cee_json_object_get(o, "k"); if (r) ASSERT(cee_json_to_i64x(v, &x) == 0 && x == 5, "converted unsigned"); else ASSERT(v->t == CEE_JSON_U64, "unsigned stays"); }
void harness(void) {
  kl_max = P("kl", 1); int mask = P("kinds", 0x1FF); for (int i = 0; i < V_KINDS; i++) if (mask >> i & 1) kinds[nk++] = i;
  size_t base = sym_heap_live(); st = cee_state_mk(4); int n = P("n", 2);
  switch (P("what", 0)) { case 0: object(n, 10); break; case 1: array(n); break; case 2: accessors(); break; case 3: has(n); break; default: convert(n); }
  cee_del(st); NO_LEAK(base);
}
