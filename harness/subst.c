/* C13: substring replacement */
#include "h.h"
static char *exact(const char *p, int n) { char *q = malloc(n); memcpy(q, p, n); return q; } /* so that reading beyond is caught */
static char *sym_str(const char *nm, int n, int zeros) { char *p = malloc(n + 1); for (int i = 0; i < n; i++) { p[i] = sym_u8(nm); if (!zeros) ASSUME(p[i]); } p[n] = 0; return p; }
static int hit(const char *s, int left, const char *o, int ol) { if (!ol || ol > left) return 0; for (int i = 0; i < ol; i++) if (s[i] != o[i]) return 0; return 1; }
void harness(void) {
  int tn = P("t", 4), on = P("o", 2), rn = P("r", 2), what = P("what", 0);
  size_t base = sym_heap_live(); static char E[4000]; int el = 0, n = sym_choice("tlen", tn + 1);
  if (what == 0) {
    int ol = sym_choice("olen", on + 1), nl = sym_choice("nlen", rn + 1); char *t = sym_str("t", n, 0), *o = sym_str("o", ol, 0), *r = sym_str("r", nl, 0), *t0 = exact(t, n + 1);
    for (int i = 0; i < n;) if (hit(t + i, n - i, o, ol)) { memcpy(E + el, r, nl); el += nl; i += ol; sym_reach("hit"); } else E[el++] = t[i++];
    char *res = str_replace_all(t, o, r); ASSERT(sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "every occurrence replaced, nothing else"); ASSERT(memcmp(t, t0, n + 1) == 0, "input unchanged"); sym_observe("len", el);
    if (!ol) sym_reach("empty pattern"); free(res); free(t); free(o); free(r); free(t0);
  } else if (what == 1) {
    int np = 1 + sym_choice("pairs", P("pairs", 2)); char *o[3], *r[3]; int ol[3], nl[3]; char *tz = sym_str("t", n, 1), *t = exact(tz, n), *t0 = exact(tz, n); free(tz);
    for (int i = 0; i < np; i++) { ol[i] = sym_choice("olen", on + 1); nl[i] = sym_choice("nlen", rn + 1); o[i] = sym_str("o", ol[i], 0); r[i] = sym_str("r", nl[i], 0); }
    for (int i = 0; i < n;) { int k; for (k = 0; k < np; k++) if (hit(t + i, n - i, o[k], ol[k])) break; if (k < np) { memcpy(E + el, r[k], nl[k]); el += nl[k]; i += ol[k]; sym_reach(k ? "hit2" : "hit"); } else E[el++] = t[i++]; }
    size_t out = 777, *po = sym_choice("out", 2) ? &out : 0; char *res = np == 1 ? str_replace_all_ext(t, n, po, 1, o[0], r[0]) : str_replace_all_ext(t, n, po, 2, o[0], r[0], o[1], r[1]);
    ASSERT(sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "every occurrence replaced, nothing else"); if (po) ASSERT(out == el, "reported size"); ASSERT(memcmp(t, t0, n) == 0, "input unchanged"); sym_observe("len", el);
    for (int i = 0; i < np; i++) { free(o[i]); free(r[i]); } free(res); free(t); free(t0);
  } else if (what == 2) {
    int nl = sym_choice("nlen", rn + 1), off = sym_choice("off", n + 1), len = sym_choice("len", n - off + 1); char *t = sym_str("t", n, 0), *r = sym_str("r", nl, 0), *t0 = exact(t, n + 1);
    memcpy(E, t, off); memcpy(E + off, r, nl); memcpy(E + off + nl, t + off + len, n - off - len); el = n - len + nl;
    char *res = str_replace_at_offset(t, off, len, r); ASSERT(sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "the bytes at the offset replaced, nothing else"); ASSERT(memcmp(t, t0, n + 1) == 0, "input unchanged"); sym_reach("at"); sym_observe("len", el); free(res); free(t); free(r); free(t0);
  } else if (what == 4) { /* longer texts: m occurrences, text between them, an arbitrary byte somewhere */
    static const char *PAT[] = { "a", "ab", "aa", "aab", "abcabd" }, *REP[] = { "", "x", "a", "abab", "0123456789012345678901234567890123456789" }; static char tb[2000]; n = 0;
    const char *o = PAT[sym_choice("pat", 5)], *r = REP[sym_choice("rep", 5)]; int ol = strlen(o), nl = strlen(r), m = 1 + sym_choice("m", 10) * P("step", 9), gap = sym_choice("gap", 3) * 3; for (int i = 0; i < m; i++) { memcpy(tb + n, o, ol); n += ol; for (int k = 0; k < gap; k++) tb[n++] = 'p' + k; }
    int at[3] = { 0, n / 2, n - 1 }; uint8_t c = sym_u8("c"); ASSUME(c); tb[at[sym_choice("at", 3)]] = c; char *t = exact(tb, n + 1), *t0 = exact(t, n + 1), *res; size_t out = 777; int how = sym_choice("how", 3);
    for (int i = 0; i < n;) if (hit(t + i, n - i, o, ol)) { memcpy(E + el, r, nl); el += nl; i += ol; } else if (how == 2 && hit(t + i, n - i, "abx", 3)) { E[el++] = 'q'; i += 3; } else E[el++] = t[i++];
    if (how == 0) res = str_replace_all(t, o, r); else if (how == 1) res = str_replace_all_ext(t, n, &out, 1, o, r); else res = str_replace_all_ext(t, n, &out, 3, "zzz", "y", o, r, "abx", "q");
    if (how) ASSERT(out == el, "reported size"); ASSERT(sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "every occurrence replaced, nothing else"); ASSERT(memcmp(t, t0, n + 1) == 0, "input unchanged"); free(res);
    int off = sym_choice("off", 3), len; off = off == 0 ? 0 : off == 1 ? n / 3 : n; len = sym_choice("len", 2) ? (n - off) / 2 : n - off; el = 0; memcpy(E, t, off); memcpy(E + off, r, nl); memcpy(E + off + nl, t + off + len, n - off - len); el = n - len + nl;
    res = str_replace_at_offset(t, off, len, r); ASSERT(sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "the bytes at the offset replaced"); free(res); free(t); free(t0); sym_reach("long");
  } else { /* many pairs, only one of them at work */
    int np = 13 + sym_choice("np", 8), k = sym_choice("k", np); char pat[20][2]; for (int i = 0; i < 20; i++) { pat[i][0] = 'a' + i; pat[i][1] = 0; } char t[4] = "???"; t[1] = 'a' + k; t[2] = sym_u8("c"); uint8_t z = t[2] - 'a'; size_t out;
#define Q(i) pat[i], i == np - 1 ? "xyz" : i == 15 ? "" : i % 5 == 4 ? "uv" : "q"
    char *res = str_replace_all_ext(t, 3, &out, np, Q(0), Q(1), Q(2), Q(3), Q(4), Q(5), Q(6), Q(7), Q(8), Q(9), Q(10), Q(11), Q(12), Q(13), Q(14), Q(15), Q(16), Q(17), Q(18), Q(19));
    E[el++] = '?'; for (int j = 1; j < 3; j++) { int i = 0; uint8_t x = j == 1 ? k : z; while (i < np && x != i) i++; if (i == np) E[el++] = t[j]; else { const char *r = i == np - 1 ? "xyz" : i == 15 ? "" : i % 5 == 4 ? "uv" : "q"; while (*r) E[el++] = *r++; } }
    ASSERT(out == el && sym_mem_ok(res, el + 1) && memcmp(res, E, el) == 0 && res[el] == 0, "many pairs"); free(res); sym_reach("many");
  }
  NO_LEAK(base);
}
