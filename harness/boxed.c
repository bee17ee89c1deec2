/* C11: boxes of every numeric type and every value */
#include "h.h"
#define CMPOF(b) (((struct cee_sect *)(b) - 1)->cmp)
static struct cee_state *st;
#define ORD(T, name, mk, get, BITS) static void name(void) { T x, y; uint64_t u = sym_u64("x"), v = sym_u64("y"); memcpy(&x, &u, sizeof x); memcpy(&y, &v, sizeof y); \
  struct cee_boxed *a = mk(st, x), *b = mk(st, y); T x2 = get(a), y2 = get(b); ASSERT(memcmp(&x, &x2, sizeof x) == 0, "unboxing returns the boxed value"); ASSERT(memcmp(&y, &y2, sizeof y) == 0, "unboxing returns the boxed value (2)"); \
  int (*f)(T, T) = CMPOF(a); ASSERT(f && f == CMPOF(b), "boxes of a type share their comparison"); if (x == x && y == y) { int r = f(x2, y2); if (x < y) ASSERT(r < 0, "smaller"); else if (x > y) ASSERT(r > 0, "larger"); else ASSERT(r == 0, "equal"); sym_observe("cmp", r); sym_reach(#name); } }
ORD(uint64_t, o_u64, cee_boxed_from_u64, cee_boxed_to_u64, 64) ORD(uint32_t, o_u32, cee_boxed_from_u32, cee_boxed_to_u32, 32) ORD(uint16_t, o_u16, cee_boxed_from_u16, cee_boxed_to_u16, 16) ORD(uint8_t, o_u8, cee_boxed_from_u8, cee_boxed_to_u8, 8)
ORD(int64_t, o_i64, cee_boxed_from_i64, cee_boxed_to_i64, 64) ORD(int32_t, o_i32, cee_boxed_from_i32, cee_boxed_to_i32, 32) ORD(int16_t, o_i16, cee_boxed_from_i16, cee_boxed_to_i16, 16) ORD(int8_t, o_i8, cee_boxed_from_i8, cee_boxed_to_i8, 8)
ORD(double, o_f64, cee_boxed_from_double, cee_boxed_to_double, 64) ORD(float, o_f32, cee_boxed_from_float, cee_boxed_to_float, 32)
/* printing: the text of the number, its length, and nothing beyond size */
static void checktext(const char *t, int n, int neg, uint64_t mag) {
  int i = 0; if (neg) { ASSERT(t[0] == '-', "sign"); i = 1; } ASSERT(n > i, "digits"); if (n > i + 1) ASSERT(t[i] != '0', "no leading zero");
  uint64_t h = 0; for (; i < n; i++) { ASSERT(t[i] >= '0' && t[i] <= '9', "decimal digits"); uint8_t d = t[i] - '0'; h = h * 10 + d; } ASSERT(h == mag, "the text denotes the value");
}
static void print_int(int ty) {
  uint64_t u = sym_u64("x"); struct cee_boxed *b; int64_t s = 0; uint64_t m; int neg = 0;
  switch (ty) { case 0: b = cee_boxed_from_u64(st, u); m = u; break; case 1: b = cee_boxed_from_u32(st, u); m = (uint32_t)u; break; case 2: b = cee_boxed_from_u16(st, u); m = (uint16_t)u; break; case 3: b = cee_boxed_from_u8(st, u); m = (uint8_t)u; break;
    case 4: b = cee_boxed_from_i64(st, u); s = (int64_t)u; break; case 5: b = cee_boxed_from_i32(st, u); s = (int32_t)u; break; case 6: b = cee_boxed_from_i16(st, u); s = (int16_t)u; break; default: b = cee_boxed_from_i8(st, u); s = (int8_t)u; break; }
  if (ty >= 4) { neg = s < 0; m = neg ? 0 - (uint64_t)s : (uint64_t)s; }
  char buf[32]; memset(buf, 0x55, sizeof buf); size_t need = cee_boxed_snprint(0, 0, b); ASSERT(need >= 1 && need <= 20, "length of the text");
  static const int caps[4] = { 32, 1, 2, 0 }; int k = sym_choice("size", 4); size_t size = k == 3 ? need : (size_t)caps[k], r = cee_boxed_snprint(buf, size, b); ASSERT(r == need, "the reported length does not depend on the buffer");
  size_t w = need + 1 <= size ? need + 1 : size; for (size_t i = w; i < 32; i++) ASSERT(buf[i] == 0x55, "nothing written beyond the given size");
  if (size > need) { ASSERT(buf[need] == 0, "terminated"); checktext(buf, need, neg, m); sym_reach("text"); } else if (size) ASSERT(buf[size - 1] == 0, "terminated within the size");
  sym_observe("need", need);
}
/* a family of doubles: the C library's formatting is taken as given */
static void print_fp(void) {
  static const double V[] = { 0.0, -0.0, 1, -1, 0.1, 1e300, -1e-300, 123456789.0, 1234567.0, 100000.0, 1e5 + .5, 3.14159265358979, 1.0 / 0.0, -1.0 / 0.0, 5e-324, 1.7976931348623157e308, 2.5, 1e6, 999999.5 };
  double d = V[sym_choice("v", 19)]; int f32 = sym_choice("f32", 2); struct cee_boxed *b = f32 ? cee_boxed_from_float(st, (float)d) : cee_boxed_from_double(st, d);
  char exp[64], buf[64]; memset(buf, 0x55, sizeof buf); int n = snprintf(exp, 64, "%g", f32 ? (double)(float)d : d); size_t need = cee_boxed_snprint(0, 0, b); ASSERT(need == n, "length of the text");
  size_t size = sym_choice("size", 16); ASSERT(cee_boxed_snprint(buf, size, b) == need, "same length"); for (size_t i = need + 1 <= size ? need + 1 : size; i < 64; i++) ASSERT(buf[i] == 0x55, "nothing written beyond the given size");
  for (size_t i = 0; i + 1 < size && i < need; i++) ASSERT(buf[i] == exp[i], "the text"); sym_reach("fp");
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(4); int ty = sym_choice("type", 10);
  if (P("print", 0)) { if (ty < 8) print_int(ty); else print_fp(); }
  else { void (*f[10])(void) = { o_u64, o_u32, o_u16, o_u8, o_i64, o_i32, o_i16, o_i8, o_f64, o_f32 }; f[ty](); }
  cee_del(st); NO_LEAK(base);
}
