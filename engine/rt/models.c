/* C models of the libc functions the code under test calls, compiled to IR and executed symbolically with it.
   malloc/calloc/realloc/free/mem* /strcmp/strncmp/memcmp are engine builtins. */
#include "sym.h"
#include <stdarg.h>
typedef long ssize_t;
uint8_t sym_fresh8(void); uint8_t sym_hint8(uint64_t); uint64_t sym_fresh64(void);
double sym_host_strtod(const char *s, size_t *len); int sym_host_fmt_double(char *b, size_t n, const char *fmt, double d);
void sym_engine_error(const char *m);
void *malloc(size_t); void free(void*); void *memcpy(void*, const void*, size_t); void *memmove(void*, const void*, size_t); void *memset(void*, int, size_t);
int memcmp(const void*, const void*, size_t); int strncmp(const char*, const char*, size_t);
void *stdin = 0, *stdout = (void*)0, *stderr = (void*)0;
static int errno_v; int *__errno_location(void) { return &errno_v; }
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strchr(const char *s, int c) { char ch = (char)c; for (;; s++) { if (*s == ch) return (char*)s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { char ch = (char)c; for (;; s++) { if (*s == ch || !*s) return (char*)s; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { char ch = (char)c; const char *r = 0; for (;; s++) { if (*s == ch) r = s; if (!*s) return (char*)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; unsigned char ch = (unsigned char)c; for (size_t i = 0; i < n; i++) if (s[i] == ch) return (void*)(s + i); return 0; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; unsigned char ch = (unsigned char)c; while (n--) if (s[n] == ch) return (void*)(s + n); return 0; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; while (*s != (unsigned char)c) s++; return (void*)s; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char*)h; for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return 0; } }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { if (!nl) return (void*)h; for (size_t i = 0; i + nl <= hl; i++) if (!memcmp((const char*)h + i, n, nl)) return (char*)h + i; return 0; }
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
static char *stok; char *strtok(char *s, const char *d) { return strtok_r(s, d, &stok); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
/* ctype, C locale, branch free */
#define IN(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)((b) - (a)))
int isdigit(int c) { return IN(c, '0', '9'); }
int isxdigit(int c) { return IN(c, '0', '9') | IN(c, 'a', 'f') | IN(c, 'A', 'F'); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isalpha(int c) { return IN(c, 'A', 'Z') | IN(c, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isascii(int c) { return IN(c, 0, 127); }
int tolower(int c) { return c + 32 * IN(c, 'A', 'Z'); }
int toupper(int c) { return c - 32 * IN(c, 'a', 'z'); }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (!strncasecmp(h, n, l)) return (char*)h; return 0; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; } long long llabs(long long x) { return x < 0 ? -x : x; }
/* integers from text */
static int dig(int c) { if (IN(c, '0', '9')) return c - '0'; if (IN(c, 'a', 'z')) return c - 'a' + 10; if (IN(c, 'A', 'Z')) return c - 'A' + 10; return 99; }
static uint64_t strtoU(const char *s, char **end, int base, int sgn) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t acc = 0; int any = 0, ovf = 0; unsigned nd = 0; const char *st = p;
  uint64_t lim = sgn ? (neg ? (1ull << 63) : (1ull << 63) - 1) : ~0ull;
  for (;; p++) { unsigned char c = *p; unsigned d;
    if (base <= 10) { if (!(IN(c, '0', '0' + base - 1))) break; d = (uint8_t)(c - '0'); }
    else { int isd = IN(c, '0', '9'); int al = IN(c, 'a', 'a' + base - 11) | IN(c, 'A', 'A' + base - 11); if (!(isd | al)) break; d = (c & 15) + 9 * (c >> 6); if (base > 16) d = dig(c); }
    any = 1; nd++;
    if (nd >= 16 && !ovf) { if (acc > (lim - d) / base) ovf = 1; }
    acc = acc * base + d; }
  (void)st; if (end) *end = (char*)(any ? p : s);
  if (ovf) { errno_v = 34; return lim == ~0ull ? ~0ull : (neg ? (1ull << 63) : lim); }
  return neg ? 0 - acc : acc;
}
long long strtoll(const char *s, char **e, int b) { return (long long)strtoU(s, e, b, 1); }
long strtol(const char *s, char **e, int b) { return (long)strtoU(s, e, b, 1); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoU(s, e, b, 0); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoU(s, e, b, 0); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); } unsigned long long strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); } long atol(const char *s) { return strtoll(s, 0, 10); } long long atoll(const char *s) { return strtoll(s, 0, 10); }
static struct { double v; size_t n; char t[40]; } sdMemo[8]; static int sdN;
int sym_same(uint64_t, uint64_t);
double strtod(const char *s, char **end) {
  /* span by grammar (forks per character class), then the characters are made concrete */
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  const char *q = p; if (*q == '-' || *q == '+') q++;
  const char *d0 = q; int nd = 0; int special = 0;
  if (isdigit((unsigned char)*q) || *q == '.') {
    if (q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) special = 1;
    else {
      while (isdigit((unsigned char)*q)) { q++; nd++; }
      if (*q == '.') { q++; while (isdigit((unsigned char)*q)) { q++; nd++; } }
      if (!nd) { if (end) *end = (char*)s; return 0; }
      if (*q == 'e' || *q == 'E') { const char *r = q + 1; if (*r == '-' || *r == '+') r++; if (isdigit((unsigned char)*r)) { while (isdigit((unsigned char)*r)) r++; q = r; } }
    }
  } else if (*q == 'i' || *q == 'I' || *q == 'n' || *q == 'N') special = 1;
  else { if (end) *end = (char*)s; return 0; }
  (void)d0;
  if (special) { q = d0; while (isalnum((unsigned char)*q) || *q == '.' || *q == '(' || *q == ')' || *q == '_' || ((*q == '-' || *q == '+') && (q[-1] | 32) == 'p')) q++; }
  size_t n = q - p;
  if (sym_param("strtod_uf", 0) && !special && n < 40) { /* symbolic texts: an unknown but fixed function of the text (its bits) */
    int symb = 0; for (size_t i = 0; i < n; i++) symb |= sym_is_symbolic((unsigned char)p[i]);
    if (symb) {
      for (int m = 0; m < sdN; m++) if (sdMemo[m].n == n) { int eq = 1; for (size_t i = 0; i < n && eq; i++) eq = sym_same((unsigned char)sdMemo[m].t[i], (unsigned char)p[i]); if (eq) { if (end) *end = (char*)q; return sdMemo[m].v; } }
      union { uint64_t u; double d; } r; r.u = sym_fresh64();
      for (int m = 0; m < sdN; m++) if (sdMemo[m].n == n) { union { uint64_t u; double d; } o; o.d = sdMemo[m].v; int diff = 0; for (size_t i = 0; i < n; i++) diff |= sdMemo[m].t[i] != p[i]; sym_assume(diff | (o.u == r.u)); }
      if (sdN < 8) { sdMemo[sdN].n = n; sdMemo[sdN].v = r.d; for (size_t i = 0; i < n; i++) sdMemo[sdN].t[i] = p[i]; sdN++; }
      if (end) *end = (char*)q; return r.d; } }
  char *tmp = malloc(n + 1); for (size_t i = 0; i < n; i++) tmp[i] = (char)sym_concretize((unsigned char)p[i]); tmp[n] = 0;
  size_t used = 0; double r = sym_host_strtod(tmp, &used); free(tmp); if (end) *end = (char*)(used ? p + used : s); return r;
}
double atof(const char *s) { return strtod(s, 0); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
/* formatted output */
struct out { char *b; size_t n; size_t pos; };
static void oc(struct out *o, char c) { if (o->b && o->pos + 1 < o->n) o->b[o->pos] = c; o->pos++; }
static void opad(struct out *o, char c, long n) { while (n-- > 0) oc(o, c); }
int sym_same(uint64_t, uint64_t);
static struct { uint64_t v; int n; char t[20]; } fmtMemo[4]; static int fmtNext; /* the same number printed again has the same digits */
static int fmtU(char *t, uint64_t v, unsigned base, int up) { /* digits, most significant first; returns count */
  if (sym_is_symbolic(v)) {
    if (base == 10) {
      for (int i = 0; i < 4; i++) if (fmtMemo[i].n && sym_same(fmtMemo[i].v, v)) { for (int j = 0; j < fmtMemo[i].n; j++) t[j] = fmtMemo[i].t[j]; return fmtMemo[i].n; }
      if (sym_param("fmt_low", 0)) { /* few leading parts: make them concrete, keep the last three digits symbolic */
        uint64_t hi = sym_concretize(v / 1000); if (hi) { int m = fmtU(t, hi, 10, 0); unsigned x = (unsigned)(v - hi * 1000); for (int i = 0, w = 100; i < 3; i++, w /= 10) t[m + i] = (char)('0' + (uint8_t)(x / w % 10));
          int k = fmtNext++ & 3; fmtMemo[k].v = v; fmtMemo[k].n = m + 3; for (int j = 0; j < m + 3; j++) fmtMemo[k].t[j] = t[j]; return m + 3; } }
      int n = 1; uint64_t p = 10; while (n < 20 && v >= p) { n++; if (n < 20) p *= 10; }
      if (n > 1 && n < 20 && v < p / 10) n = n; 
      uint64_t h = 0, w = 1; for (int i = 1; i < n; i++) w *= 10; for (int i = 0; i < n; i++, w /= 10) { uint8_t d = sym_hint8(v / w % 10); sym_assume(d <= 9); if (i == 0 && n > 1) sym_assume(d >= 1); if (i == 0 && n == 20) sym_assume(d == 1); t[i] = (char)('0' + d); h = h * 10 + d; }
      sym_assume(h == v); int k = fmtNext++ & 3; fmtMemo[k].v = v; fmtMemo[k].n = n; for (int j = 0; j < n; j++) fmtMemo[k].t[j] = t[j]; return n; }
    if (base == 16 || base == 8) { int sh = base == 16 ? 4 : 3; int n = 1; while (n * sh < 64 && (v >> (n * sh)) != 0) n++;
      for (int i = 0; i < n; i++) { unsigned d = (v >> ((n - 1 - i) * sh)) & (base - 1); t[i] = (char)('0' + d + (d > 9) * ((up ? 'A' : 'a') - '0' - 10)); } return n; }
  }
  char r[70]; int n = 0; do { unsigned d = v % base; r[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
  for (int i = 0; i < n; i++) t[i] = r[n - 1 - i]; return n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  struct out o = {b, n, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, space = 0, alt = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    long width = 0, prec = -1;
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); if (prec < 0) prec = -1; f++; } else { prec = 0; while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); } }
    int len = 4; if (*f == 'l') { f++; len = 8; if (*f == 'l') f++; } else if (*f == 'h') { f++; len = 2; if (*f == 'h') { f++; len = 1; } } else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q') { f++; len = 8; }
    char c = *f; 
    if (!c) return -1;
    switch (c) {
      case '%': oc(&o, '%'); break;
      case 'c': { char ch = (char)va_arg(ap, int); if (!left) opad(&o, ' ', width - 1); oc(&o, ch); if (left) opad(&o, ' ', width - 1); break; }
      case 's': { const char *s = va_arg(ap, const char*); if (!s) s = prec >= 0 && prec < 6 ? "" : "(null)"; long l = 0; while ((prec < 0 || l < prec) && s[l]) l++;
        if (!left) opad(&o, ' ', width - l); for (long i = 0; i < l; i++) oc(&o, s[i]); if (left) opad(&o, ' ', width - l); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        uint64_t v; int neg = 0; unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10; if (c == 'p') { len = 8; alt = 1; }
        if (len == 8) v = va_arg(ap, uint64_t); else { unsigned x = va_arg(ap, unsigned); if (c == 'd' || c == 'i') v = (uint64_t)(int64_t)(len == 4 ? (int)x : len == 2 ? (short)x : (signed char)x); else v = len == 4 ? x : len == 2 ? (unsigned short)x : (unsigned char)x; }
        if (c == 'd' || c == 'i') { if ((int64_t)v < 0) { neg = 1; v = 0 - v; } }
        if (c == 'p' && v == 0) { const char *s = "(nil)"; opad(&o, ' ', left ? 0 : width - 5); while (*s) oc(&o, *s++); opad(&o, ' ', left ? width - 5 : 0); break; }
        char t[70]; int nd = fmtU(t, v, base, c == 'X'); if (prec == 0 && nd == 1 && t[0] == '0') nd = 0;
        char sg[3]; int ns = 0; if (c == 'd' || c == 'i') { if (neg) sg[ns++] = '-'; else if (plus) sg[ns++] = '+'; else if (space) sg[ns++] = ' '; } else if (alt && base == 16 && v) { sg[ns++] = '0'; sg[ns++] = c == 'X' ? 'X' : 'x'; }
        long zp = prec > nd ? prec - nd : 0; if (zero && !left && prec < 0 && width > nd + ns) zp = width - nd - ns;
        long tot = nd + ns + zp; if (!left) opad(&o, ' ', width - tot); for (int i = 0; i < ns; i++) oc(&o, sg[i]); opad(&o, '0', zp); for (int i = 0; i < nd; i++) oc(&o, t[i]); if (left) opad(&o, ' ', width - tot); break; }
      case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': {
        double d = va_arg(ap, double); char fm[40]; int k = 0; fm[k++] = '%'; if (left) fm[k++] = '-'; if (zero) fm[k++] = '0'; if (plus) fm[k++] = '+'; if (space) fm[k++] = ' '; if (alt) fm[k++] = '#';
        char t[70]; if (width) { int m = fmtU(t, width, 10, 0); for (int i = 0; i < m; i++) fm[k++] = t[i]; } if (prec >= 0) { fm[k++] = '.'; int m = fmtU(t, prec, 10, 0); for (int i = 0; i < m; i++) fm[k++] = t[i]; } fm[k++] = c; fm[k] = 0;
        char *buf = malloc(1200); int m = sym_host_fmt_double(buf, 1200, fm, d); for (int i = 0; i < m; i++) oc(&o, buf[i]); free(buf); break; }
      case 'n': { if (len == 8) *va_arg(ap, long*) = o.pos; else *va_arg(ap, int*) = (int)o.pos; break; }
      default: sym_engine_error("vsnprintf: unmodelled conversion");
    }
  }
  if (b && n) b[o.pos < n ? o.pos : n - 1] = 0;
  return (int)o.pos;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int vasprintf(char **o, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(0, 0, f, a2); va_end(a2); *o = malloc(n + 1); return vsnprintf(*o, n + 1, f, ap); }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
/* sscanf: the conversions d i u x ld lx s c n [ */
int vsscanf(const char *s, const char *f, va_list ap) {
  int n = 0; const char *s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || n ? n : -1; s++; continue; }
    f++; int sup = 0; if (*f == '*') { sup = 1; f++; } long w = 0; while (isdigit((unsigned char)*f)) w = w * 10 + (*f++ - '0');
    int len = 4; if (*f == 'l' || *f == 'j' || *f == 'z') { f++; len = 8; if (*f == 'l') f++; } else if (*f == 'h') { f++; len = 2; if (*f == 'h') { f++; len = 1; } }
    char c = *f;
    if (c == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (c != 'c' && c != '[') while (isspace((unsigned char)*s)) s++;
    if (!*s && c != '%') return n ? n : -1;
    if (c == 'c') { if (!w) w = 1; char *d = sup ? 0 : va_arg(ap, char*); for (long i = 0; i < w; i++) { if (!*s) return n ? n : -1; if (d) d[i] = *s; s++; } if (!sup) n++; continue; }
    if (c == 's') { char *d = sup ? 0 : va_arg(ap, char*); long i = 0; while (*s && !isspace((unsigned char)*s) && (!w || i < w)) { if (d) d[i] = *s; i++; s++; } if (d) { d[i] = 0; n++; } continue; }
    if (c == '%') { if (*s != '%') return n; s++; continue; }
    int base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : c == 'i' ? 0 : 10;
    if (c == 'd' || c == 'u' || base != 10) {
      char tmp[70]; long m = w && w < 68 ? w : 68; long i = 0; for (; i < m && s[i]; i++) tmp[i] = s[i]; tmp[i] = 0; char *e; 
      uint64_t v = strtoU(tmp, &e, base, c == 'd' || c == 'i'); if (e == tmp) return n; s += e - tmp;
      if (!sup) { void *d = va_arg(ap, void*); if (len == 8) *(uint64_t*)d = v; else if (len == 4) *(uint32_t*)d = (uint32_t)v; else if (len == 2) *(uint16_t*)d = (uint16_t)v; else *(uint8_t*)d = (uint8_t)v; n++; } continue; }
    if (c == 'f' || c == 'g' || c == 'e') { char *e; double v = strtod(s, &e); if (e == s) return n; s = e; if (!sup) { if (len == 8) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; n++; } continue; }
    sym_engine_error("sscanf: unmodelled conversion");
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
/* terminal output: discarded (streams: vfs.c) */
int printf(const char *f, ...) { return 0; } int vprintf(const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; } int putchar(int c) { return c; } void perror(const char *s) { }
char *strerror(int e) { return "error"; }
void exit(int c) { sym_fail("exit() called"); } void _exit(int c) { sym_fail("_exit() called"); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sym_fail("assert() failed in the code under test"); }
void __stack_chk_fail(void) { sym_fail("stack smashed"); }
char *getenv(const char *n) { return 0; }
/* sorting and searching */
void qsort(void *b, size_t n, size_t w, int (*c)(const void*, const void*)) { char *a = b; char *t = malloc(w); for (size_t i = 1; i < n; i++) { memcpy(t, a + i * w, w); size_t j = i; while (j > 0 && c(a + (j - 1) * w, t) > 0) { memcpy(a + j * w, a + (j - 1) * w, w); j--; } memcpy(a + j * w, t, w); } free(t); }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void*, const void*)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char*)b + m * w; int r = c(k, p); if (!r) return (void*)p; if (r < 0) hi = m; else lo = m + 1; } return 0; }
