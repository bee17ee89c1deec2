// Hash-consed bit-vector expressions, constant folding, evaluation, translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC
};
static const char *opname[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor",
  "shl","lshr","ashr","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite",
  "fadd","fsub","fmul","fdiv","frem","fcmp","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc"};

struct Bits { uint64_t b[4]; };
struct Expr {
  uint8_t op, w; bool uninit, hard; uint32_t id;
  Expr *a, *b, *c; uint64_t k;
  Bits vs;
  uint32_t ep; uint64_t ev;
  Z3_ast z;
};
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct Key { uint8_t op, w; Expr *a, *b, *c; uint64_t k; };
struct KeyHash { size_t operator()(const Key &x) const {
  uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w; 
  auto mix = [&](uint64_t v){ h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.c ? x.c->id + 1 : 0); mix(x.k); return h; } };
struct KeyEq { bool operator()(const Key &x, const Key &y) const { return x.op==y.op&&x.w==y.w&&x.a==y.a&&x.b==y.b&&x.c==y.c&&x.k==y.k; } };
static std::unordered_map<Key, Expr*, KeyHash, KeyEq> consTab;
static uint32_t nextExprId = 0;

struct VarInfo { std::string name; uint8_t w; bool uninit; bool derived; };
static std::vector<VarInfo> varInfo;
static std::unordered_map<std::string, Expr*> varTab;

static char *arenaP = nullptr, *arenaE = nullptr;
static Expr *allocExpr() {
  if (arenaP + sizeof(Expr) > arenaE) { arenaP = (char*)malloc(1 << 20); arenaE = arenaP + (1 << 20); }
  Expr *e = (Expr*)arenaP; arenaP += (sizeof(Expr) + 15) & ~15ull; return e;
}
static Expr *mkRaw(uint8_t op, uint8_t w, Expr *a, Expr *b, Expr *c, uint64_t k) {
  Key key{op, w, a, b, c, k};
  auto it = consTab.find(key);
  if (it != consTab.end()) return it->second;
  Expr *e = allocExpr();
  e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k; e->id = nextExprId++; e->ep = 0; e->z = nullptr;
  for (int i = 0; i < 4; i++) e->vs.b[i] = (a ? a->vs.b[i] : 0) | (b ? b->vs.b[i] : 0) | (c ? c->vs.b[i] : 0);
  e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
  e->hard = (a && a->hard) || (b && b->hard) || (c && c->hard) || (op >= O_FADD && op != O_FCMP) || (w >= 32 && (op == O_MUL || op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM));
  if (op == O_VAR) { unsigned i = k < 255 ? k : 255; e->vs.b[i / 64] |= 1ull << (i % 64); e->uninit = varInfo[k].uninit; }
  consTab.emplace(key, e);
  return e;
}
// Val: a concrete value (e == null) or an expression
struct Val { uint64_t c; Expr *e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
static inline Expr *mkConst(uint64_t v, unsigned w) { return mkRaw(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
static inline Val EV(Expr *e) { if (e->op == O_CONST) return CV(e->k); return Val{0, e}; }
static inline Expr *X(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Expr *mkVar(const std::string &name, unsigned w, bool uninit, bool derived) {
  std::string key = name + ":" + std::to_string(w);
  auto it = varTab.find(key);
  if (it != varTab.end()) return it->second;
  varInfo.push_back(VarInfo{name, (uint8_t)w, uninit, derived});
  Expr *e = mkRaw(O_VAR, w, nullptr, nullptr, nullptr, varInfo.size() - 1);
  varTab[key] = e; return e;
}

static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline double fpv(uint64_t v, unsigned w) { if (w == 32) { uint32_t t = v; float f; memcpy(&f, &t, 4); return f; } return asD(v); }
static inline uint64_t fpb(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t t; memcpy(&t, &f, 4); return t; } return dBits(d); }

static bool fcmpEval(unsigned pred, double x, double y) { // LLVM predicate numbering
  bool un = std::isnan(x) || std::isnan(y);
  switch (pred) {
    case 0: return false; case 1: return !un && x == y; case 2: return !un && x > y; case 3: return !un && x >= y;
    case 4: return !un && x < y; case 5: return !un && x <= y; case 6: return !un && x != y; case 7: return !un;
    case 8: return un; case 9: return un || x == y; case 10: return un || x > y; case 11: return un || x >= y;
    case 12: return un || x < y; case 13: return un || x <= y; case 14: return un || x != y; default: return true;
  }
}
static uint64_t evalOp(uint8_t op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t k, unsigned wb) {
  switch (op) {
    case O_ADD: return (a + b) & maskw(w); case O_SUB: return (a - b) & maskw(w); case O_MUL: return (a * b) & maskw(w);
    case O_UDIV: return b ? a / b : maskw(w);
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : maskw(w); if (y == -1) return (0 - a) & maskw(w); return (uint64_t)(x / y) & maskw(w); }
    case O_UREM: return b ? a % b : a;
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & maskw(w); }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & maskw(w);
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? (w == 64 ? 63 : w - 1) : b)) & maskw(w);
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, wa) < sx(b, wa); case O_SLE: return sx(a, wa) <= sx(b, wa);
    case O_ZEXT: return a; case O_SEXT: return (uint64_t)sx(a, wa) & maskw(w);
    case O_EXTRACT: return (a >> k) & maskw(w);
    case O_CONCAT: return (a << wb) | b;
    case O_FADD: return fpb(fpv(a, w) + fpv(b, w), w); case O_FSUB: return fpb(fpv(a, w) - fpv(b, w), w);
    case O_FMUL: return fpb(fpv(a, w) * fpv(b, w), w); case O_FDIV: return fpb(fpv(a, w) / fpv(b, w), w);
    case O_FREM: return fpb(fmod(fpv(a, w), fpv(b, w)), w);
    case O_FCMP: return fcmpEval(k, fpv(a, wa), fpv(b, wa));
    case O_SITOFP: return w == 32 ? fpb((float)sx(a, wa), 32) : fpb((double)sx(a, wa), 64);
    case O_UITOFP: return w == 32 ? fpb((float)a, 32) : fpb((double)a, 64);
    case O_FPTOSI: { double d = trunc(fpv(a, wa)); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return (w == 64 ? 0x8000000000000000ull : 0x80000000ull) & maskw(w); return (uint64_t)(int64_t)d & maskw(w); }
    case O_FPTOUI: { double d = trunc(fpv(a, wa)); if (!(d >= 0 && d < 18446744073709551616.0)) return 0; return (uint64_t)d & maskw(w); }
    case O_FPEXT: case O_FPTRUNC: return fpb(fpv(a, wa), w);
  }
  abort();
}

static Val mkBin(uint8_t op, unsigned w, Val a, Val b);
static Val mkCmp(uint8_t op, unsigned w, Val a, Val b);
static Val mkIte(Val c, Val a, Val b, unsigned w);
static Val mkNot1(Val a) {
  if (!a.e) return CV(!a.c);
  return mkBin(O_XOR, 1, a, CV(1));
}
static Val mkZext(Val a, unsigned wa, unsigned w) {
  if (wa == w) return a;
  if (!a.e) return CV(a.c & maskw(wa));
  if (a.e->op == O_ZEXT) return EV(mkRaw(O_ZEXT, w, a.e->a, nullptr, nullptr, 0));
  return EV(mkRaw(O_ZEXT, w, a.e, nullptr, nullptr, 0));
}
static Val mkSext(Val a, unsigned wa, unsigned w) {
  if (wa == w) return a;
  if (!a.e) return CV((uint64_t)sx(a.c, wa) & maskw(w));
  if (a.e->op == O_SEXT) return EV(mkRaw(O_SEXT, w, a.e->a, nullptr, nullptr, 0));
  if (a.e->op == O_ZEXT) return EV(mkRaw(O_ZEXT, w, a.e->a, nullptr, nullptr, 0));
  return EV(mkRaw(O_SEXT, w, a.e, nullptr, nullptr, 0));
}
static Val mkExtract(Val a, unsigned wa, unsigned lo, unsigned w) {
  if (lo == 0 && w == wa) return a;
  if (!a.e) return CV((a.c >> lo) & maskw(w));
  Expr *e = a.e;
  switch (e->op) {
    case O_EXTRACT: return mkExtract(Val{0, e->a}, e->a->w, lo + e->k, w);
    case O_CONCAT: {
      unsigned wb = e->b->w;
      if (lo >= wb) return mkExtract(EV(e->a), e->a->w, lo - wb, w);
      if (lo + w <= wb) return mkExtract(EV(e->b), wb, lo, w);
      break; }
    case O_ZEXT: {
      unsigned w0 = e->a->w;
      if (lo >= w0) return CV(0);
      if (lo + w <= w0) return mkExtract(EV(e->a), w0, lo, w);
      return mkZext(mkExtract(EV(e->a), w0, lo, w0 - lo), w0 - lo, w); }
    case O_SEXT: { unsigned w0 = e->a->w;
      if (lo + w <= w0) return mkExtract(EV(e->a), w0, lo, w);
      if (lo == 0) return mkSext(EV(e->a), w0, w);
      break; }
    case O_AND: case O_OR: case O_XOR: {
      auto simple = [](Expr *x) { return x->op == O_CONST || x->op == O_ZEXT || x->op == O_CONCAT || x->op == O_VAR; };
      if (e->b->op == O_CONST || (simple(e->a) && simple(e->b)))
        return mkBin(e->op, w, mkExtract(EV(e->a), wa, lo, w), mkExtract(EV(e->b), wa, lo, w));
      break; }
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkBin(e->op, w, mkExtract(EV(e->a), wa, 0, w), mkExtract(EV(e->b), wa, 0, w));
      break;
    case O_ITE:
      if (e->b->op == O_CONST || e->c->op == O_CONST)
        return mkIte(EV(e->a), mkExtract(EV(e->b), wa, lo, w), mkExtract(EV(e->c), wa, lo, w), w);
      break;
    case O_SHL: if (e->b->op == O_CONST) {
      unsigned s = e->b->k;
      if (lo >= s) return mkExtract(EV(e->a), wa, lo - s, w);
      if (lo + w <= s) return CV(0); }
      break;
    case O_LSHR: if (e->b->op == O_CONST) {
      unsigned s = e->b->k;
      if (lo + s + w <= wa) return mkExtract(EV(e->a), wa, lo + s, w);
      if (lo + s >= wa) return CV(0); }
      break;
  }
  return EV(mkRaw(O_EXTRACT, w, e, nullptr, nullptr, lo));
}
static Val mkConcat(Val hi, unsigned wh, Val lo, unsigned wl) {
  if (!hi.e && !lo.e) return CV((hi.c << wl) | lo.c);
  if (!hi.e && hi.c == 0) return mkZext(lo, wl, wh + wl);
  Expr *h = X(hi, wh), *l = X(lo, wl);
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->a == l->a && h->k == l->k + wl)
    return mkExtract(EV(h->a), h->a->w, l->k, wh + wl);
  if (h->op == O_EXTRACT && h->a == l && h->k == wl) return EV(h->a->w == wh + wl ? h->a : mkRaw(O_EXTRACT, wh + wl, h->a, 0, 0, 0));
  return EV(mkRaw(O_CONCAT, wh + wl, h, l, nullptr, 0));
}
static Val mkIte(Val c, Val a, Val b, unsigned w) {
  if (!c.e) return c.c ? a : b;
  if (!a.e && !b.e && a.c == b.c) return a;
  if (a.e && a.e == b.e) return a;
  if (w == 1) {
    if (!a.e && !b.e) return a.c ? c : mkNot1(c);
    if (!a.e) return a.c ? mkBin(O_OR, 1, c, b) : mkBin(O_AND, 1, mkNot1(c), b);
    if (!b.e) return b.c ? mkBin(O_OR, 1, mkNot1(c), a) : mkBin(O_AND, 1, c, a);
  }
  if (c.e->op == O_XOR && c.e->b->op == O_CONST) return mkIte(EV(c.e->a), b, a, w);
  return EV(mkRaw(O_ITE, w, c.e, X(a, w), X(b, w), 0));
}
static bool commut(uint8_t op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
static Val mkBin(uint8_t op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return CV(evalOp(op, w, w, a.c, b.c, 0, w));
  if (commut(op)) {
    if (!a.e || (b.e && a.e->id < b.e->id && b.e->op != O_CONST && false)) std::swap(a, b);   // constants to the right
  }
  uint64_t m = maskw(w);
  if (!b.e) {
    uint64_t k = b.c & m;
    switch (op) {
      case O_ADD: if (k == 0) return a;
        if (a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, w, EV(a.e->a), CV((a.e->b->k + k) & m));
        break;
      case O_SUB: if (k == 0) return a; return mkBin(O_ADD, w, a, CV((0 - k) & m));
      case O_MUL: if (k == 0) return CV(0); if (k == 1) return a; break;
      case O_UDIV: if (k == 1) return a;
        if (k && !(k & (k - 1))) return mkBin(O_LSHR, w, a, CV(__builtin_ctzll(k)));
        break;
      case O_UREM: if (k == 1) return CV(0);
        if (k && !(k & (k - 1))) return mkBin(O_AND, w, a, CV(k - 1));
        break;
      case O_AND: if (k == 0) return CV(0); if (k == m) return a;
        if (a.e->op == O_AND && a.e->b->op == O_CONST) return mkBin(O_AND, w, EV(a.e->a), CV(a.e->b->k & k));
        if ((k & (k + 1)) == 0) { unsigned n = __builtin_popcountll(k); return mkZext(mkExtract(a, w, 0, n), n, w); }
        break;
      case O_OR: if (k == 0) return a; if (k == m) return CV(m); break;
      case O_XOR: if (k == 0) return a;
        if (a.e->op == O_XOR && a.e->b->op == O_CONST) return mkBin(O_XOR, w, EV(a.e->a), CV(a.e->b->k ^ k));
        break;
      case O_SHL: if (k == 0) return a; if (k >= w) return CV(0);
        return mkConcat(mkExtract(a, w, 0, w - k), w - k, CV(0), k);
      case O_LSHR: if (k == 0) return a; if (k >= w) return CV(0);
        return mkZext(mkExtract(a, w, k, w - k), w - k, w);
      case O_ASHR: if (k == 0) return a; if (k >= w) k = w - 1;
        return mkSext(mkExtract(a, w, k, w - k), w - k, w);
    }
    // push ops over ITE of constants
    if (a.e->op == O_ITE && a.e->b->op == O_CONST && a.e->c->op == O_CONST)
      return mkIte(EV(a.e->a), mkBin(op, w, CV(a.e->b->k), b), mkBin(op, w, CV(a.e->c->k), b), w);
  } else if (!a.e) {
    if (op == O_SHL || op == O_LSHR || op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) if (a.c == 0 && op != O_UDIV && op != O_SDIV) return CV(0);
  } else {
    if (a.e == b.e) { if (op == O_SUB || op == O_XOR) return CV(0); if (op == O_AND || op == O_OR) return a; }
    if (op == O_ADD && b.e->op == O_ADD && b.e->b->op == O_CONST) return mkBin(O_ADD, w, mkBin(O_ADD, w, a, EV(b.e->a)), CV(b.e->b->k));
    if (op == O_ADD && a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, w, mkBin(O_ADD, w, EV(a.e->a), b), CV(a.e->b->k));
    if (op == O_SUB && a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, w, mkBin(O_SUB, w, EV(a.e->a), b), CV(a.e->b->k));
    if (op == O_SUB && b.e->op == O_ADD && b.e->b->op == O_CONST) return mkBin(O_ADD, w, mkBin(O_SUB, w, a, EV(b.e->a)), CV((0 - b.e->b->k) & m));
    if (op == O_OR) { // disjoint byte assembly: zext(x) | (y << k)  -> concat
      Expr *p = a.e, *q = b.e;
      for (int t = 0; t < 2; t++, std::swap(p, q)) {
        if (p->op == O_ZEXT && q->op == O_CONCAT && q->b->op == O_CONST && q->b->k == 0 && p->a->w <= q->b->w)
          return mkConcat(EV(q->a), q->a->w, mkZext(EV(p->a), p->a->w, q->b->w), q->b->w);
      }
    }
    if (commut(op) && a.e->id > b.e->id) std::swap(a, b);
  }
  return EV(mkRaw(op, w, X(a, w), X(b, w), nullptr, 0));
}
// comparisons; w = operand width
static Val mkCmp(uint8_t op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return CV(evalOp(op, 1, w, a.c & maskw(w), b.c & maskw(w), 0, w));
  if (a.e && a.e == b.e) return CV(op == O_EQ || op == O_ULE || op == O_SLE);
  if (op == O_EQ) {
    if (!a.e) std::swap(a, b);
    if (w == 1) { if (!b.e) return b.c ? a : mkNot1(a); }
    if (!b.e) {
      uint64_t k = b.c & maskw(w); Expr *e = a.e;
      switch (e->op) {
        case O_ZEXT: if (k > maskw(e->a->w)) return CV(0); return mkCmp(O_EQ, e->a->w, EV(e->a), CV(k));
        case O_SEXT: { unsigned w0 = e->a->w; if ((uint64_t)sx(k & maskw(w0), w0) != (uint64_t)sx(k, w)) return CV(0); return mkCmp(O_EQ, w0, EV(e->a), CV(k & maskw(w0))); }
        case O_ADD: if (e->b->op == O_CONST) return mkCmp(O_EQ, w, EV(e->a), CV((k - e->b->k) & maskw(w))); break;
        case O_XOR: if (e->b->op == O_CONST) return mkCmp(O_EQ, w, EV(e->a), CV(k ^ e->b->k)); break;
        case O_ITE: if (e->b->op == O_CONST && e->c->op == O_CONST) {
            bool t = e->b->k == k, f = e->c->k == k;
            if (t && f) return CV(1); if (!t && !f) return CV(0); return t ? EV(e->a) : mkNot1(EV(e->a)); }
          if (e->b->op == O_CONST) return mkIte(EV(e->a), CV(e->b->k == k), mkCmp(O_EQ, w, EV(e->c), b), 1);
          if (e->c->op == O_CONST) return mkIte(EV(e->a), mkCmp(O_EQ, w, EV(e->b), b), CV(e->c->k == k), 1);
          break;
        case O_CONCAT: { unsigned wl = e->b->w;
          Val h = mkCmp(O_EQ, e->a->w, EV(e->a), CV(k >> wl)); if (!h.e && !h.c) return CV(0);
          Val l = mkCmp(O_EQ, wl, EV(e->b), CV(k & maskw(wl))); if (!l.e && !l.c) return CV(0);
          return mkBin(O_AND, 1, h, l); }
      }
    } else {
      if (a.e->op == b.e->op && (a.e->op == O_ZEXT || a.e->op == O_SEXT) && a.e->a->w == b.e->a->w) return mkCmp(O_EQ, a.e->a->w, EV(a.e->a), EV(b.e->a));
      if (a.e->id > b.e->id) std::swap(a, b);
    }
    return EV(mkRaw(O_EQ, 1, X(a, w), X(b, w), nullptr, 0));
  }
  uint64_t m = maskw(w);
  bool sgn = op == O_SLT || op == O_SLE;
  if (op == O_ULT && !b.e && b.c == 0) return CV(0);
  if (op == O_ULE && !a.e && a.c == 0) return CV(1);
  if (op == O_ULE && !b.e && b.c == m) return CV(1);
  if (op == O_ULT && !b.e && b.c == 1) return mkCmp(O_EQ, w, a, CV(0));
  // constants against ite(const,const)
  if (!b.e && a.e->op == O_ITE && a.e->b->op == O_CONST && a.e->c->op == O_CONST)
    return mkIte(EV(a.e->a), mkCmp(op, w, CV(a.e->b->k), b), mkCmp(op, w, CV(a.e->c->k), b), 1);
  if (!a.e && b.e->op == O_ITE && b.e->b->op == O_CONST && b.e->c->op == O_CONST)
    return mkIte(EV(b.e->a), mkCmp(op, w, a, CV(b.e->b->k)), mkCmp(op, w, a, CV(b.e->c->k)), 1);
  // narrow zext comparisons
  auto zw = [&](Val v) -> unsigned { if (v.e) return v.e->op == O_ZEXT ? v.e->a->w : w; return 64 - (v.c & m ? __builtin_clzll(v.c & m) : 63); };
  unsigned za = zw(a), zb = zw(b);
  if (za < w && zb < w) {
    unsigned nw = std::max(za, zb); if (a.e && b.e) { }
    auto nar = [&](Val v) { return v.e ? mkZext(EV(v.e->a), v.e->a->w, nw) : v; };
    uint8_t nop = sgn ? (op == O_SLT ? O_ULT : O_ULE) : op;
    return mkCmp(nop, nw, nar(a), nar(b));
  }
  if (a.e && a.e->op == O_ZEXT && !b.e) { // zext(x) vs big constant
    uint64_t k = b.c & m;
    if (sgn) { if (sx(k, w) < 0) return CV(0); return CV(1); }
    return CV(1);
  }
  if (b.e && b.e->op == O_ZEXT && !a.e) {
    uint64_t k = a.c & m;
    if (sgn) { if (sx(k, w) < 0) return CV(1); return CV(0); }
    return CV(0);
  }
  if (sgn && a.e && a.e->op == O_SEXT && !b.e) {
    unsigned w0 = a.e->a->w; int64_t k = sx(b.c, w);
    if (k > sx(maskw(w0 - 1), w)) return CV(1); if (k < -(int64_t)(1ull << (w0 - 1))) return CV(0);
    return mkCmp(op, w0, EV(a.e->a), CV((uint64_t)k & maskw(w0)));
  }
  if (sgn && b.e && b.e->op == O_SEXT && !a.e) {
    unsigned w0 = b.e->a->w; int64_t k = sx(a.c, w);
    if (k > sx(maskw(w0 - 1), w)) return CV(0); if (k < -(int64_t)(1ull << (w0 - 1))) return CV(1);
    return mkCmp(op, w0, CV((uint64_t)k & maskw(w0)), EV(b.e->a));
  }
  if (sgn && a.e && b.e && a.e->op == O_SEXT && b.e->op == O_SEXT && a.e->a->w == b.e->a->w) return mkCmp(op, a.e->a->w, EV(a.e->a), EV(b.e->a));
  return EV(mkRaw(op, 1, X(a, w), X(b, w), nullptr, 0));
}
static Val mkFbin(uint8_t op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return CV(evalOp(op, w, w, a.c, b.c, 0, w));
  return EV(mkRaw(op, w, X(a, w), X(b, w), nullptr, 0));
}
static Val mkFcmp(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) return CV(evalOp(O_FCMP, 1, w, a.c, b.c, pred, w));
  return EV(mkRaw(O_FCMP, 1, X(a, w), X(b, w), nullptr, pred));
}
static Val mkFconv(uint8_t op, unsigned wa, unsigned w, Val a) {
  if (!a.e) return CV(evalOp(op, w, wa, a.c, 0, 0, 0));
  return EV(mkRaw(op, w, a.e, nullptr, nullptr, 0));
}

// ---- evaluation under an assignment
static uint32_t evalEpoch = 0;
static uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m) {
  if (e->op == O_CONST) return e->k;
  if (e->op == O_VAR) return e->k < m.size() ? m[e->k] : 0;
  if (e->ep == evalEpoch) return e->ev;
  uint64_t r;
  if (e->op == O_ITE) r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
  else {
    uint64_t a = evalRec(e->a, m), b = e->b ? evalRec(e->b, m) : 0;
    r = evalOp(e->op, e->w, e->a->w, a, b, e->k, e->b ? e->b->w : 0);
  }
  e->ep = evalEpoch; e->ev = r; return r;
}
static uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &m) { evalEpoch++; return evalRec(e, m); }

// ---- z3
static Z3_context Z; static Z3_solver ZS;
static Z3_sort bvSort(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s[w])); } return s[w]; }
static Z3_sort fpSort(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = w == 32 ? Z3_mk_fpa_sort_single(Z) : Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s[w])); } return s[w]; }
static inline Z3_ast K(Z3_ast a) { Z3_inc_ref(Z, a); return a; } // the context counts references: intermediate terms must be held
#define Z3_mk_and(...) K((Z3_mk_and)(__VA_ARGS__))
#define Z3_mk_bvadd(...) K((Z3_mk_bvadd)(__VA_ARGS__))
#define Z3_mk_bvand(...) K((Z3_mk_bvand)(__VA_ARGS__))
#define Z3_mk_bvashr(...) K((Z3_mk_bvashr)(__VA_ARGS__))
#define Z3_mk_bvlshr(...) K((Z3_mk_bvlshr)(__VA_ARGS__))
#define Z3_mk_bvmul(...) K((Z3_mk_bvmul)(__VA_ARGS__))
#define Z3_mk_bvor(...) K((Z3_mk_bvor)(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) K((Z3_mk_bvsdiv)(__VA_ARGS__))
#define Z3_mk_bvshl(...) K((Z3_mk_bvshl)(__VA_ARGS__))
#define Z3_mk_bvsle(...) K((Z3_mk_bvsle)(__VA_ARGS__))
#define Z3_mk_bvslt(...) K((Z3_mk_bvslt)(__VA_ARGS__))
#define Z3_mk_bvsrem(...) K((Z3_mk_bvsrem)(__VA_ARGS__))
#define Z3_mk_bvsub(...) K((Z3_mk_bvsub)(__VA_ARGS__))
#define Z3_mk_bvudiv(...) K((Z3_mk_bvudiv)(__VA_ARGS__))
#define Z3_mk_bvule(...) K((Z3_mk_bvule)(__VA_ARGS__))
#define Z3_mk_bvult(...) K((Z3_mk_bvult)(__VA_ARGS__))
#define Z3_mk_bvurem(...) K((Z3_mk_bvurem)(__VA_ARGS__))
#define Z3_mk_bvxor(...) K((Z3_mk_bvxor)(__VA_ARGS__))
#define Z3_mk_concat(...) K((Z3_mk_concat)(__VA_ARGS__))
#define Z3_mk_const(...) K((Z3_mk_const)(__VA_ARGS__))
#define Z3_mk_eq(...) K((Z3_mk_eq)(__VA_ARGS__))
#define Z3_mk_extract(...) K((Z3_mk_extract)(__VA_ARGS__))
#define Z3_mk_false(...) K((Z3_mk_false)(__VA_ARGS__))
#define Z3_mk_fpa_add(...) K((Z3_mk_fpa_add)(__VA_ARGS__))
#define Z3_mk_fpa_div(...) K((Z3_mk_fpa_div)(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) K((Z3_mk_fpa_eq)(__VA_ARGS__))
#define Z3_mk_fpa_geq(...) K((Z3_mk_fpa_geq)(__VA_ARGS__))
#define Z3_mk_fpa_gt(...) K((Z3_mk_fpa_gt)(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) K((Z3_mk_fpa_is_nan)(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) K((Z3_mk_fpa_leq)(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) K((Z3_mk_fpa_lt)(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) K((Z3_mk_fpa_mul)(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) K((Z3_mk_fpa_rne)(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) K((Z3_mk_fpa_rtz)(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) K((Z3_mk_fpa_sub)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) K((Z3_mk_fpa_to_fp_bv)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) K((Z3_mk_fpa_to_fp_float)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) K((Z3_mk_fpa_to_fp_signed)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) K((Z3_mk_fpa_to_fp_unsigned)(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) K((Z3_mk_fpa_to_ieee_bv)(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) K((Z3_mk_fpa_to_sbv)(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) K((Z3_mk_fpa_to_ubv)(__VA_ARGS__))
#define Z3_mk_iff(...) K((Z3_mk_iff)(__VA_ARGS__))
#define Z3_mk_ite(...) K((Z3_mk_ite)(__VA_ARGS__))
#define Z3_mk_not(...) K((Z3_mk_not)(__VA_ARGS__))
#define Z3_mk_or(...) K((Z3_mk_or)(__VA_ARGS__))
#define Z3_mk_sign_ext(...) K((Z3_mk_sign_ext)(__VA_ARGS__))
#define Z3_mk_true(...) K((Z3_mk_true)(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) K((Z3_mk_unsigned_int64)(__VA_ARGS__))
#define Z3_mk_xor(...) K((Z3_mk_xor)(__VA_ARGS__))
#define Z3_mk_zero_ext(...) K((Z3_mk_zero_ext)(__VA_ARGS__))
#define Z3_mk_bvnot(...) K((Z3_mk_bvnot)(__VA_ARGS__))
#define Z3_mk_bvugt(...) K((Z3_mk_bvugt)(__VA_ARGS__))
static Z3_ast toZ(Expr *e);
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bvSort(1)), Z3_mk_unsigned_int64(Z, 0, bvSort(1))); }
static Z3_ast F(Expr *e) { return Z3_mk_fpa_to_fp_bv(Z, toZ(e), fpSort(e->w)); }
static std::unordered_map<Expr*, Z3_ast> zboolTab;
static Z3_ast toZbool(Expr *e) { // width-1 expression as a z3 Bool
  auto it = zboolTab.find(e); if (it != zboolTab.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, toZbool(e->a), toZbool(e->b)) : Z3_mk_eq(Z, toZ(e->a), toZ(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(Z, toZ(e->a), toZ(e->b)); break;
    case O_ULE: r = Z3_mk_bvule(Z, toZ(e->a), toZ(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(Z, toZ(e->a), toZ(e->b)); break;
    case O_SLE: r = Z3_mk_bvsle(Z, toZ(e->a), toZ(e->b)); break;
    case O_AND: { Z3_ast x[2] = {toZbool(e->a), toZbool(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {toZbool(e->a), toZbool(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
    case O_XOR: if (e->b->op == O_CONST) r = e->b->k ? Z3_mk_not(Z, toZbool(e->a)) : toZbool(e->a); else r = Z3_mk_xor(Z, toZbool(e->a), toZbool(e->b)); break;
    case O_ITE: r = Z3_mk_ite(Z, toZbool(e->a), toZbool(e->b), toZbool(e->c)); break;
    case O_FCMP: {
      // by bit patterns: NaN test, both-zero test, and a sign-magnitude to unsigned-order key
      unsigned w = e->a->w, p = e->k; Z3_ast x = toZ(e->a), y = toZ(e->b); uint64_t sgn = 1ull << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
      auto num = [&](uint64_t v) { return Z3_mk_unsigned_int64(Z, v, bvSort(w)); };
      auto mag = [&](Z3_ast v) { return Z3_mk_bvand(Z, v, num(sgn - 1)); };
      auto neg = [&](Z3_ast v) { return Z3_mk_bvslt(Z, v, num(0)); };
      auto key = [&](Z3_ast v) { return Z3_mk_ite(Z, neg(v), Z3_mk_bvnot(Z, v), Z3_mk_bvor(Z, v, num(sgn))); };
      Z3_ast un[2] = {Z3_mk_bvugt(Z, mag(x), num(inf)), Z3_mk_bvugt(Z, mag(y), num(inf))}; Z3_ast isun = Z3_mk_or(Z, 2, un), ord = Z3_mk_not(Z, isun);
      Z3_ast bz = Z3_mk_eq(Z, Z3_mk_bvor(Z, mag(x), mag(y)), num(0)); Z3_ast ea[2] = {bz, Z3_mk_eq(Z, x, y)}; Z3_ast eq = Z3_mk_or(Z, 2, ea);
      Z3_ast la[2] = {Z3_mk_not(Z, bz), Z3_mk_bvult(Z, key(x), key(y))}, ga[2] = {Z3_mk_not(Z, bz), Z3_mk_bvult(Z, key(y), key(x))}; Z3_ast lt = Z3_mk_and(Z, 2, la), gt = Z3_mk_and(Z, 2, ga);
      std::vector<Z3_ast> o; if (p & 1) o.push_back(eq); if (p & 2) o.push_back(gt); if (p & 4) o.push_back(lt);
      Z3_ast c = o.empty() ? Z3_mk_false(Z) : Z3_mk_or(Z, o.size(), o.data());
      Z3_ast oc[2] = {ord, c}; c = Z3_mk_and(Z, 2, oc); if (p & 8) { Z3_ast z[2] = {isun, c}; c = Z3_mk_or(Z, 2, z); }
      r = c; break; }
    default: r = Z3_mk_eq(Z, toZ(e), Z3_mk_unsigned_int64(Z, 1, bvSort(1)));
  }
  Z3_inc_ref(Z, r); zboolTab[e] = r; return r;
}
static Z3_ast toZ(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(Z, e->k, bvSort(e->w)); break;
    case O_VAR: { std::string n = "v" + std::to_string(e->k); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), bvSort(e->w)); break; }
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FCMP: r = b2v(toZbool(e)); break;
    case O_ADD: r = Z3_mk_bvadd(Z, toZ(e->a), toZ(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(Z, toZ(e->a), toZ(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(Z, toZ(e->a), toZ(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(Z, toZ(e->a), toZ(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(Z, toZ(e->a), toZ(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(Z, toZ(e->a), toZ(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(Z, toZ(e->a), toZ(e->b)); break;
    case O_AND: r = e->w == 1 ? b2v(toZbool(e)) : Z3_mk_bvand(Z, toZ(e->a), toZ(e->b)); break;
    case O_OR: r = e->w == 1 ? b2v(toZbool(e)) : Z3_mk_bvor(Z, toZ(e->a), toZ(e->b)); break;
    case O_XOR: r = e->w == 1 ? b2v(toZbool(e)) : Z3_mk_bvxor(Z, toZ(e->a), toZ(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(Z, toZ(e->a), toZ(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(Z, toZ(e->a), toZ(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(Z, toZ(e->a), toZ(e->b)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, toZ(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, toZ(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(Z, e->k + e->w - 1, e->k, toZ(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(Z, toZ(e->a), toZ(e->b)); break;
    case O_ITE: r = Z3_mk_ite(Z, toZbool(e->a), toZ(e->b), toZ(e->c)); break;
    default: {
      Z3_ast rm = Z3_mk_fpa_rne(Z), rz = Z3_mk_fpa_rtz(Z), f = nullptr;
      switch (e->op) {
        case O_FADD: f = Z3_mk_fpa_add(Z, rm, F(e->a), F(e->b)); break;
        case O_FSUB: f = Z3_mk_fpa_sub(Z, rm, F(e->a), F(e->b)); break;
        case O_FMUL: f = Z3_mk_fpa_mul(Z, rm, F(e->a), F(e->b)); break;
        case O_FDIV: f = Z3_mk_fpa_div(Z, rm, F(e->a), F(e->b)); break;
        case O_SITOFP: f = Z3_mk_fpa_to_fp_signed(Z, rm, toZ(e->a), fpSort(e->w)); break;
        case O_UITOFP: f = Z3_mk_fpa_to_fp_unsigned(Z, rm, toZ(e->a), fpSort(e->w)); break;
        case O_FPEXT: case O_FPTRUNC: f = Z3_mk_fpa_to_fp_float(Z, rm, F(e->a), fpSort(e->w)); break;
        case O_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, rz, F(e->a), e->w); break;
        case O_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, rz, F(e->a), e->w); break;
        default: fprintf(stderr, "toZ: op %d\n", e->op); abort();
      }
      if (f) r = Z3_mk_fpa_to_ieee_bv(Z, f);
    }
  }
  Z3_inc_ref(Z, r); e->z = r; return r;
}
