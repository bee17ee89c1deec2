/* C24: selectors over a fixed document of every kind of value.
   what 0: any selector text up to n bytes (after one of several beginnings); 1: n well-formed steps with * arguments; 2: tokens around the length limit */
#include "json.h"
static struct cee_state *st;
static struct { struct cee_json *j; int k, up; const char *key; int idx; } D[48]; static int dn;
static int node(struct cee_json *j, int k, int up, const char *key, int idx) { D[dn].j = j; D[dn].k = k; D[dn].up = up; D[dn].key = key; D[dn].idx = idx; if (up >= 0) { if (key) cee_json_object_set(D[up].j, (char *)key, j); else cee_json_array_append(D[up].j, j); } return dn++; }
static int child(int e, const char *key, int kl) { if (D[e].k != 'o') return -1; for (int i = 0; i < dn; i++) if (D[i].up == e && strlen(D[i].key) == (size_t)kl) { int same = 1; for (int q = 0; q < kl && same; q++) if (D[i].key[q] != key[q]) same = 0; if (same) return i; } return -1; }
static int elem(int e, const char *t, int n) { /* digits, perhaps negative */ if (D[e].k != 'a') return -1; int p = 0; if (t[0] == '-') return -1; long v = 0; for (; p < n; p++) { v = v * 10 + (t[p] - '0'); if (v > 1000000) return -1; } for (int i = 0; i < dn; i++) if (D[i].up == e && D[i].idx == v) return i; return -1; }
static int isidx(const char *t, int n) { int p = n > 1 && t[0] == '-' && t[1] != '0'; if (p == n) return 0; for (; p < n; p++) if ((uint8_t)(t[p] - '0') > 9) return 0; return 1; }
static int special(uint8_t c) { return (c == '.') | (c == '[') | (c == ']') | (c == ':') | (c == '*'); }
static char longk[3][260];
static void doc(void) { st = cee_state_mk(4); int r = node(cee_json_object_mk(st), 'o', -1, 0, -1), a = node(cee_json_object_mk(st), 'o', r, "a", -1), l = node(cee_json_array_mk(st, 1), 'a', a, "b", -1);
  node(cee_json_i64_mk(st, 10), 'n', l, 0, 0); int m = node(cee_json_object_mk(st), 'o', l, 0, 1); node(cee_json_null(), '!', l, 0, 2); node(cee_json_str_mkf(st, "t"), 's', m, "c", -1); node(cee_json_u64_mk(st, 10), 'n', m, "1", -1);
  int n = node(cee_json_array_mk(st, 1), 'a', r, "b", -1); int n2 = node(cee_json_array_mk(st, 1), 'a', n, 0, 0); node(cee_json_double_mk(st, 0.5), 'n', n2, 0, 0); node(cee_json_bool(1), 'b', n, 0, 1); for (int i = 2; i < 12; i++) node(cee_json_i64_mk(st, i), 'n', n, 0, i);
  node(cee_json_str_mkf(st, "x"), 's', r, "ab", -1); node(cee_json_i64_mk(st, 3), 'n', r, "x.y", -1); node(cee_json_false(), 'b', r, "", -1); node(cee_json_undefined(), 'u', r, "0", -1);
  if (P("what", 0) == 2) for (int i = 0; i < 3; i++) { memset(longk[i], 'k', 255 + i); node(cee_json_i64_mk(st, i), 'n', r, longk[i], -1); } }
static struct cee_json *call(const char *s, int n, uint64_t *a) { char *t = malloc(n + 1); for (int i = 0; i < n; i++) t[i] = s[i]; t[n] = 0; struct cee_json *j = cee_json_select(D[0].j, t, a[0], a[1], a[2], a[3]); free(t); return j; }
static void any(int n) {
  static const char *PRE[] = { "", ".a", ".a.b[", ".b[1", ".b[1]", ".", ":", ".ab:" }; const char *pre = PRE[P("frame", 0)]; int m = strlen(pre), k = sym_choice("len", n + 1), alpha = P("alpha", 0); char t[40]; for (int i = 0; i < m; i++) t[i] = pre[i];
  for (int i = 0; i < k; i++) { uint8_t c = sym_u8("c"); sym_assume(c != 0 && c != '*'); if (alpha) { int ok = 0; for (const char *p = ".[]:a0s1b"; *p; p++) ok |= c == (uint8_t)*p; sym_assume(ok); } t[m + i] = c; } t[m + k] = 0; n = m + k;
  uint64_t none[4] = { 0 }; struct cee_json *j = call(t, n, none); int here = j == 0; for (int i = 0; i < dn; i++) here |= D[i].j == j; ASSERT(here, "the result is a value of the document or null");
  int e = 0, p = 0; while (p < n) { uint8_t c = t[p]; int q = p + 1; if (c == '.') { while (q < n && !special(t[q])) q++; if (q == p + 1) return; if (e >= 0) e = child(e, t + p + 1, q - p - 1); p = q; }
    else if (c == '[') { while (q < n && !special(t[q])) q++; if (q >= n || t[q] != ']' || !isidx(t + p + 1, q - p - 1)) return; if (e >= 0) e = elem(e, t + p + 1, q - p - 1); p = q + 1; }
    else if (c == ':') { if (q >= n) return; uint8_t k = t[q]; if (!((k == 's') | (k == 'n') | (k == 'a') | (k == 'o') | (k == 'b') | (k == '!'))) return; if (e >= 0 && D[e].k != k) e = -1; p = q + 1; if (p < n && !special(t[p])) return; }
    else return; }
  ASSERT(j == (e < 0 ? 0 : D[e].j), "the value the path reaches"); sym_reach(e < 0 ? "null" : "reached"); }
static void steps(int n) {
  static const int IDX[] = { 0, 1, 2, 11, 12, -1, 2147483647, -2147483647 - 1 }; static const char *KEYS[] = { "a", "b", "ab", "x.y", "", "c", "zz" };
  char t[80]; int m = 0, e = 0, na = 0; uint64_t a[4] = { 0 }; n = 1 + sym_choice("n", n);
  for (int i = 0; i < n; i++) switch (sym_choice("step", 7)) {
      case 0: { t[m++] = '.'; char k[2]; int kn = 1 + sym_choice("kn", 2); for (int q = 0; q < kn; q++) { uint8_t c = sym_u8("k"); sym_assume(c != 0 && !special(c)); t[m++] = k[q] = c; } if (e >= 0) e = child(e, k, kn); break; }
      case 1: { const char *k = KEYS[sym_choice("key", 7)]; t[m++] = '.'; t[m++] = '*'; a[na++] = (uint64_t)(uintptr_t)k; if (e >= 0) e = child(e, k, strlen(k)); sym_reach("star key"); break; }
      case 2: { const char *k = KEYS[1]; t[m++] = '.'; t[m++] = 'a'; t[m++] = '*'; a[na++] = (uint64_t)(uintptr_t)k; if (e >= 0) e = child(e, "ab", 2); break; }
      case 3: { t[m++] = '['; char k[3]; int kn = 1 + sym_choice("kn", 2); for (int q = 0; q < kn; q++) { uint8_t c = sym_u8("d"); sym_assume((uint8_t)(c - '0') <= 9); t[m++] = k[q] = c; } t[m++] = ']'; if (e >= 0) e = elem(e, k, kn); break; }
      case 4: { int x = IDX[sym_choice("idx", 8)]; t[m++] = '['; t[m++] = '*'; t[m++] = ']'; a[na++] = (uint32_t)x; char b[16]; int bn = snprintf(b, 16, "%d", x); if (e >= 0) e = elem(e, b, bn); sym_reach("star index"); break; }
      case 5: { t[m++] = '['; t[m++] = '1'; t[m++] = '*'; t[m++] = ']'; a[na++] = 1; if (e >= 0) e = elem(e, "11", 2); break; }
      default: { char k = "snaob!"[sym_choice("type", 6)]; t[m++] = ':'; t[m++] = k; if (e >= 0 && D[e].k != k) e = -1; break; } }
  ASSERT(call(t, m, a) == (e < 0 ? 0 : D[e].j), "the value the path reaches"); sym_reach(e < 0 ? "null" : "reached"); }
static void longs(void) { int n = 250 + sym_choice("n", 12), star = sym_choice("star", 4), m = 0, na = 0; char t[300], arg[300]; uint64_t a[4] = { 0 }; uint8_t c = sym_u8("last"); sym_assume(c != 0 && !special(c)); t[m++] = '.';
  int an = star == 1 ? n : star == 2 ? 3 : star == 3 ? n - 2 : 0; if (star == 3) { t[m++] = 'k'; t[m++] = 'k'; } int tn = star == 1 ? 0 : star == 2 ? n - 3 : star == 3 ? 0 : n; for (int i = 0; i < tn; i++) t[m++] = 'k'; for (int i = 0; i < an; i++) arg[i] = 'k'; arg[an] = 0; if (star) { t[m++] = '*'; a[0] = (uint64_t)(uintptr_t)arg; arg[an - 1] = c; } else t[m - 1] = c;
  char *heap = 0; if (star) { heap = malloc(an + 1); memcpy(heap, arg, an + 1); a[0] = (uint64_t)(uintptr_t)heap; } int tail = sym_choice("tail", 2); if (tail) { t[m++] = ':'; t[m++] = 'n'; } struct cee_json *j = call(t, m, a); if (heap) free(heap); int e = c == 'k' ? child(0, longk[2], n) : -1; for (int i = 0; i < 3 && e < 0; i++) if (c == 'k' && n == 255 + i) e = child(0, longk[i], n);
  if (n <= 256) ASSERT(j == (e < 0 ? 0 : D[e].j), "the value under a long key"); else ASSERT(j == 0 || (e >= 0 && j == D[e].j), "a key beyond the limit"); if (e >= 0) sym_reach("long"); }
void harness(void) { size_t base = sym_heap_live(); doc(); int n = P("n", 3); switch (P("what", 0)) { case 0: any(n); break; case 1: steps(n); break; default: longs(); }
  ASSERT(cee_json_select(0, ".a") == 0, "nothing to select from"); cee_del(st); NO_LEAK(base); }
