/* C15: string views */
#define SV_IMPLEMENTATION
#include "strview.c"
#include <string.h>
#include "sym.h"
#define P(name, d) sym_param(name, d)
static char *D; static int N;
static char *blk(const char *nm, int n) { char *p = malloc(n); for (int i = 0; i < n; i++) p[i] = sym_u8(nm); return p; }
static int odd(int c) { return c & 1; } static bool pred(char x) { return odd(x); }
static int sp(int c) { c &= 255; return c == ' ' || (c >= 9 && c <= 13); } static int dg(char c) { return c >= '0' && c <= '9'; }
static int lower(int c) { c &= 255; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define IS(v, from, len) ASSERT((v).count == (size_t)(len) && ((v).data == D + (from)), "the right slice")
#define V() sv_from_parts(D, N)
static int find(const char *t, int m) { for (int i = 0; i + m <= N; i++) { int j = 0; while (j < m && D[i + j] == t[j]) j++; if (j == m) return i; } return -1; }
/* longer texts, fixed but for an arbitrary byte at either end or in the middle */
static int LONG; static void fixed(char *p, int n, int kind) { for (int i = 0; i < n; i++) p[i] = kind == 0 ? 'a' + i % 23 : kind == 1 ? '0' + i % 7 + 1 : kind == 2 ? " \t\n\v\f\r"[i % 6] : "abAB"[i * 7 % 4]; }
static char *part(int *m) { int at, w = sym_choice("part", 5); *m = w == 0 ? 1 : w == 1 ? N / 2 : w == 2 ? N : w == 3 ? N + 1 : N - 1; if (*m < 0) *m = 0; char *t = malloc(*m + 1); int off = sym_choice("from", 3); off = off == 0 ? 0 : off == 1 ? (N - *m) / 2 : N - *m; if (off < 0) off = 0; for (int i = 0; i < *m; i++) t[i] = off + i < N ? D[off + i] : '!'; if (*m) t[sym_choice("odd", 2) ? *m - 1 : 0] = sym_u8("t"); char *x = malloc(*m); memcpy(x, t, *m); free(t); return x; }
void harness(void) {
  int max = P("max", 4), op = P("lo", 0) + sym_choice("op", P("nop", 18)); LONG = P("long", 0); if (LONG) { N = 5 + sym_choice("n", 13) * 5; D = malloc(N); fixed(D, N, sym_choice("kind", 4)); int at = sym_choice("at", 3); D[at == 0 ? 0 : at == 1 ? N / 2 : N - 1] = sym_u8("d"); } else { N = sym_choice("n", max + 1); D = blk("d", N); } String_View v = V(), r; size_t idx = 77; int i, a, b;
  switch (op) {
    case 0: { uint64_t n = sym_u64("k"); r = sv_chop_left(&v, n); int k = n < N ? (int)sym_concretize(n) : N; IS(r, 0, k); IS(v, k, N - k); break; }
    case 1: { uint64_t n = sym_u64("k"); r = sv_chop_right(&v, n); int k = n < N ? (int)sym_concretize(n) : N; IS(r, N - k, k); IS(v, 0, N - k); break; }
    case 2: { char c = sym_u8("c"); i = find(&c, 1); r = sv_chop_by_delim(&v, c); if (i < 0) { IS(r, 0, N); IS(v, N, 0); } else { IS(r, 0, i); IS(v, i + 1, N - i - 1); sym_reach("delim"); } break; }
    case 3: { char c = sym_u8("c"); i = find(&c, 1); int no = sym_choice("nochunk", 2); r = sv_from_parts(D, 99); int ok = sv_try_chop_by_delim(&v, c, no ? 0 : &r); if (i < 0) { ASSERT(!ok, "not found"); IS(v, 0, N); if (!no) IS(r, 0, 99); } else { ASSERT(ok, "found"); if (!no) IS(r, 0, i); IS(v, i + 1, N - i - 1); } break; }
    case 4: { int m; char *t; if (LONG) t = part(&m); else { m = sym_choice("m", 4); t = blk("t", m); } i = find(t, m); r = sv_chop_by_sv(&v, sv_from_parts(t, m)); if (i < 0) { IS(r, 0, N); IS(v, N, 0); if (m > N) sym_reach("longer"); } else { IS(r, 0, i); IS(v, i + m, N - i - m); if (m && i + m == N) sym_reach("at the end"); } free(t); break; }
    case 5: r = sv_trim_left(v); for (a = 0; a < N && sp(D[a]); a++); IS(r, a, N - a); break;
    case 6: r = sv_trim_right(v); for (b = N; b > 0 && sp(D[b - 1]); b--); IS(r, 0, b); break;
    case 7: r = sv_trim(v); for (a = 0; a < N && sp(D[a]); a++); for (b = N; b > a && sp(D[b - 1]); b--); IS(r, a, b - a); if (a && b < N) sym_reach("trim"); break;
    case 8: { char c = sym_u8("c"); i = find(&c, 1); int no = sym_choice("noindex", 2), ok = sv_index_of(v, c, no ? 0 : &idx); ASSERT(ok == (i >= 0), "found"); ASSERT(idx == (ok && !no ? i : 77), "the index"); break; }
    case 9: case 10: case 11: case 12: { int m; char *t; if (LONG) t = part(&m); else { m = sym_choice("m", max + 2); t = blk("t", m); } String_View w = sv_from_parts(t, m); int e = 1;
      if (op == 9) { ASSERT(sv_eq(v, w) == (N == m && find(t, m) == 0), "equal"); }
      else if (op == 10) { e = N == m; for (i = 0; e && i < m; i++) if (lower(D[i]) != lower(t[i])) e = 0; ASSERT(sv_eq_ignorecase(v, w) == e, "equal up to case"); if (e && m && D[0] != t[0]) sym_reach("case"); }
      else if (op == 11) { e = m <= N; for (i = 0; e && i < m; i++) if (D[i] != t[i]) e = 0; ASSERT(sv_starts_with(v, w) == e, "prefix"); }
      else { e = m <= N; for (i = 0; e && i < m; i++) if (D[N - m + i] != t[i]) e = 0; ASSERT(sv_ends_with(v, w) == e, "suffix"); } free(t); break; }
    case 13: case 14: { uint64_t x = 0; for (i = 0; i < N && dg(D[i]); i++) { uint8_t d = D[i] - '0'; x = x * 10 + d; } if (op == 13) ASSERT(sv_to_u64(v) == x, "the number"); else { ASSERT(sv_chop_u64(&v) == x, "the number"); IS(v, i, N - i); } if (i == N && N) sym_reach("number"); break; }
    case 15: r = sv_chop_left_while(&v, pred); for (i = 0; i < N && odd(D[i]); i++); IS(r, 0, i); IS(v, i, N - i); break;
    case 16: r = sv_take_left_while(v, pred); for (i = 0; i < N && odd(D[i]); i++); IS(r, 0, i); break;
    default: { char z[80]; for (i = 0; i < N && D[i]; i++) z[i] = D[i]; z[i] = 0; r = sv_from_cstr(z); ASSERT(r.data == z && r.count == i, "the whole text"); sym_reach("cstr"); }
  }
  ASSERT(v.data >= D && v.data + v.count <= D + N, "inside the text"); sym_observe("op", op); free(D);
}
