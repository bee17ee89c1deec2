// symx: a path-forking symbolic executor for LLVM-18 bitcode, deciding every branch, memory access and
// assertion with z3.  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <map>
#include <set>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
using namespace llvm;

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static double T0, deadline = 1e18;
static uint64_t maxSteps = 20000000; static unsigned maxDepth = 60000; static unsigned maxWorkers = 8; static std::string outDir = "/tmp/symx"; static unsigned nSamples = 20; static unsigned maxViol = 4; static unsigned solverTimeoutMs = 20000; static bool dumpQ = false; static uint64_t seed = 1; static std::string entryName = "harness"; static double memLimitMB = 2500;

// ------------------------------------------------------------------ memory
static const uint64_t STRIDE = 1ull << 24, GLOB0 = 0x100000000000ull, HEAP0 = 0x200000000000ull, STK0 = 0x600000000000ull, FN0 = 0x700000000000ull;
enum { K_GLOBAL, K_HEAP, K_STACK };
struct Obj {
  int rc; uint8_t kind; bool freed, ro; uint32_t size; uint64_t base;
  uint8_t *d; uint8_t *un; /* per byte: 1 = uninitialised; null if none */ Expr **s; /* per byte; null if none */
  uint32_t allocFn, allocLine;
};
static Obj *newObj(uint8_t kind, uint64_t base, uint32_t size, bool uninit) {
  Obj *o = new Obj(); o->rc = 1; o->kind = kind; o->freed = false; o->ro = false; o->size = size; o->base = base;
  o->d = (uint8_t*)calloc(1, size ? size : 1); o->un = nullptr; o->s = nullptr; o->allocFn = 0; o->allocLine = 0;
  if (uninit && size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  return o;
}
static Obj *cloneObj(Obj *p) {
  Obj *o = new Obj(*p); o->rc = 1; unsigned n = p->size ? p->size : 1;
  o->d = (uint8_t*)malloc(n); memcpy(o->d, p->d, n);
  if (p->un) { o->un = (uint8_t*)malloc(n); memcpy(o->un, p->un, n); }
  if (p->s) { o->s = (Expr**)malloc(n * sizeof(Expr*)); memcpy(o->s, p->s, n * sizeof(Expr*)); }
  return o;
}
static void unrefObj(Obj *o) { if (o && --o->rc == 0) { free(o->d); free(o->un); free(o->s); delete o; } }
struct Chunk { int rc; Obj *o[64]; };
struct ObjTab { // COW table of objects
  std::vector<Chunk*> ch; uint32_t n = 0;
  ObjTab() {}
  ObjTab(const ObjTab &t) : ch(t.ch), n(t.n) { for (auto c : ch) if (c) c->rc++; }
  ~ObjTab() { for (auto c : ch) drop(c); }
  ObjTab &operator=(const ObjTab &) = delete;
  static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) unrefObj(o); delete c; } }
  Obj *get(uint32_t i) const { return i < n && ch[i >> 6] ? ch[i >> 6]->o[i & 63] : nullptr; }
  Chunk *wch(uint32_t i) {
    Chunk *&c = ch[i >> 6];
    if (!c) { c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof c->o); }
    else if (c->rc > 1) { Chunk *d = new Chunk(*c); d->rc = 1; for (auto o : d->o) if (o) o->rc++; c->rc--; c = d; }
    return c;
  }
  void set(uint32_t i, Obj *o) { while (ch.size() <= (i >> 6)) ch.push_back(nullptr); if (i >= n) n = i + 1; Chunk *c = wch(i); unrefObj(c->o[i & 63]); c->o[i & 63] = o; }
  Obj *wr(uint32_t i) { Chunk *c = wch(i); Obj *&o = c->o[i & 63]; if (o->rc > 1) { o->rc--; Obj *x = o; o = cloneObj(x); } return o; }
};

// ------------------------------------------------------------------ decoded program
struct Opnd { int32_t reg; uint64_t c; }; // reg<0: constant c
enum ICode : uint16_t { I_BIN, I_CMP, I_FBIN, I_FCMP, I_CAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_JMP, I_SWITCH, I_RET, I_CALL, I_SELECT, I_PHI, I_UNREACH, I_EXTRACTV, I_INSERTV, I_FNEG, I_PLOAD, I_PSTORE, I_FREEZE, I_NOP, I_AGGLOAD, I_AGGSTORE };
struct Fn;
struct Inst {
  uint16_t code; uint8_t op, w, w2; bool isPtr; int32_t dst; uint32_t line; 
  std::vector<Opnd> o; std::vector<uint64_t> k; // extra constants
  std::vector<uint8_t> ws;
  Fn *callee = nullptr; int intr = -1; uint32_t t1 = 0, t2 = 0; // targets: block indices
  const Instruction *I = nullptr; uint32_t ndst = 1;
};
struct PhiMove { int dst; Opnd src; unsigned nslots; };
struct Block { uint32_t start; std::map<int, std::vector<PhiMove>> phis; };
struct Fn {
  std::string name; uint32_t idx; Function *F; bool decoded = false; std::vector<Inst> code; std::vector<Block> blocks; uint32_t nregs = 0;
  std::vector<unsigned> argReg; std::vector<unsigned> argSlots; bool vararg = false; int builtin = -1; uint64_t covered = 0; std::vector<uint8_t> cov; unsigned nInst = 0; std::vector<int> byvalSize; bool isRepo = false; bool undefinedExt = false;
};
static std::vector<Fn*> fns; static std::unordered_map<const Function*, Fn*> fnOf; static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalVariable*, uint32_t> globIdx; static ObjTab *initGlobals;

struct Frame {
  int rc; Fn *f; uint32_t pc; int32_t blk; std::vector<Val> r; std::vector<uint32_t> stk; /* stack object idxs */ uint64_t vaObj; int32_t retDst; uint32_t callLine; Frame *up;
};
static Frame *cloneFrame(Frame *f) { Frame *g = new Frame(*f); g->rc = 1; if (g->up) g->up->rc++; return g; }
static void unrefFrame(Frame *f) { while (f && --f->rc == 0) { Frame *u = f->up; delete f; f = u; } }

struct Input { Expr *v; std::string name; };
struct State {
  Frame *top = nullptr; ObjTab globals, heap, stack; uint32_t depth = 0; uint32_t stkTop = 0, stkGen = 0; uint32_t liveHeap = 0; uint64_t liveBytes = 0;
  std::vector<Expr*> pc; std::vector<uint64_t> model; std::vector<Input> inputs; std::unordered_map<std::string, int> occ; uint64_t steps = 0; uint32_t forks = 0; uint32_t uninitCnt = 0;
  std::vector<std::pair<const char*, Val>> obs; std::vector<std::string> known; std::string crashId, crashFn;
  State(const ObjTab &g) : globals(g) {}
  State(const State &s) : top(s.top), globals(s.globals), heap(s.heap), stack(s.stack), depth(s.depth), stkTop(s.stkTop), stkGen(s.stkGen), liveHeap(s.liveHeap), liveBytes(s.liveBytes), pc(s.pc), model(s.model), inputs(s.inputs), occ(s.occ), steps(s.steps), forks(s.forks), uninitCnt(s.uninitCnt), obs(s.obs), known(s.known), crashId(s.crashId), crashFn(s.crashFn) { if (top) top->rc++; }
  ~State() { unrefFrame(top); }
};
static std::deque<State*> pending;

// ------------------------------------------------------------------ statistics and results
struct Stats { uint64_t paths = 0, assumeKilled = 0, forks = 0, instrs = 0, queries = 0, solverQ = 0, cacheHits = 0, modelHits = 0, asserts = 0, assertsSolver = 0, memchecks = 0, unknown = 0, incomplete = 0, engineErr = 0, viol = 0, steplim = 0; double solverT = 0; } S;
static std::map<std::string, uint64_t> reach; static std::map<std::string, uint64_t> knownHits; static std::set<std::string> engineErrs; 
struct ViolRec { std::string kind, msg, where, file; };
static std::vector<ViolRec> viols; static std::set<std::string> violKeys;
struct Shared { volatile int active; volatile int nviol; volatile int stop; volatile int seq; }; static Shared *SH;
static uint64_t rng = 88172645463325252ull; static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::vector<std::pair<std::string, std::string>> samples; static uint64_t sampleSeen = 0;
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// ------------------------------------------------------------------ solver front end
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, VecHash> qcache;
static inline bool isect(const Bits &a, const Bits &b) { return (a.b[0] & b.b[0]) | (a.b[1] & b.b[1]) | (a.b[2] & b.b[2]) | (a.b[3] & b.b[3]); }
static void collectVars(Expr *e, std::set<Expr*> &seen, std::vector<Expr*> &vars) { if (!e || e->op == O_CONST || !seen.insert(e).second) return; if (e->op == O_VAR) { vars.push_back(e); return; } collectVars(e->a, seen, vars); collectVars(e->b, seen, vars); collectVars(e->c, seen, vars); }
static unsigned dumpCount = 0;
// is pc /\ cond satisfiable?  1 sat (model updated into *out), 0 unsat, -1 unknown
static int solve(State &s, Expr *cond, std::vector<uint64_t> *out) {
  S.queries++;
  std::vector<Expr*> sl; Bits b = cond->vs;
  std::vector<uint8_t> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && isect(s.pc[i]->vs, b)) { used[i] = 1; for (int j = 0; j < 4; j++) b.b[j] |= s.pc[i]->vs.b[j]; ch = true; sl.push_back(s.pc[i]); } }
  std::vector<uint32_t> key; for (auto e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(cond->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) { S.cacheHits++; if (it->second.r == 1 && out) { *out = s.model; for (auto &p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; } } return it->second.r; }
  double t = now(); S.solverQ++;
  if (!cond->hard) { // refuted already by the constraints without multiplications?
    bool any = false; for (auto e : sl) any |= e->hard;
    if (any) {
      Z3_solver_push(Z, ZS); for (auto e : sl) if (!e->hard) Z3_solver_assert(Z, ZS, toZbool(e)); Z3_solver_assert(Z, ZS, toZbool(cond));
      Z3_lbool r = Z3_solver_check(Z, ZS); Z3_solver_pop(Z, ZS, 1);
      if (r == Z3_L_FALSE) { S.solverT += now() - t; qcache.emplace(std::move(key), QRes{0, {}}); return 0; } } }
  Z3_solver_push(Z, ZS);
  for (auto e : sl) Z3_solver_assert(Z, ZS, toZbool(e));
  Z3_solver_assert(Z, ZS, toZbool(cond));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (dumpQ && dumpCount < 400 && rnd() % 8 == 0) { char fn[300]; snprintf(fn, 300, "%s/q%d_%u.%s.smt2", outDir.c_str(), getpid(), dumpCount++, q.r == 1 ? "sat" : q.r == 0 ? "unsat" : "unknown"); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(Z, ZS)); fclose(f); } }
  if (q.r == 1) {
    Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
    std::set<Expr*> seen; std::vector<Expr*> vars; for (auto e : sl) collectVars(e, seen, vars); collectVars(cond, seen, vars);
    for (auto v : vars) { Z3_ast z = nullptr; uint64_t val = 0; if (Z3_model_eval(Z, m, toZ(v), true, &z) && z) { Z3_inc_ref(Z, z); if (!Z3_get_numeral_uint64(Z, z, &val)) { /* leave 0 */ } Z3_dec_ref(Z, z); } q.m.push_back({(uint32_t)v->k, val}); }
    Z3_model_dec_ref(Z, m);
    std::vector<uint64_t> mm = s.model; for (auto &p : q.m) { if (mm.size() <= p.first) mm.resize(p.first + 1, 0); mm[p.first] = p.second; }
    bool ok = evalExpr(cond, mm); for (auto e : sl) ok = ok && evalExpr(e, mm);
    if (!ok) { q.r = -1; }
    else if (out) *out = mm;
  }
  Z3_solver_pop(Z, ZS, 1);
  S.solverT += now() - t; if (q.r < 0) S.unknown++;
  if (qcache.size() > 100000) qcache.clear();
  qcache.emplace(std::move(key), q);
  return q.r;
}
static bool addC(State &s, Val c) { if (c.e) { if (c.e->op == O_AND && c.e->w == 1) { addC(s, EV(c.e->a)); return addC(s, EV(c.e->b)); } for (auto e : s.pc) if (e == c.e) return true; s.pc.push_back(c.e); return true; } return c.c; }

// ------------------------------------------------------------------ errors
struct PathEnd { };
static std::string whereOf(State &s, bool stack = true) {
  std::string r; int n = 0; uint32_t line = 0;
  for (Frame *f = s.top; f && n < 8; f = f->up, n++) { const Inst *in = f->pc > 0 && f->pc <= f->f->code.size() ? &f->f->code[f->pc - 1] : nullptr; line = in ? in->line : 0; if (n) r += " < "; r += f->f->name + ":" + std::to_string(line); if (!stack) break; }
  return r;
}
static std::string innermostRepoFn(State &s) { for (Frame *f = s.top; f; f = f->up) if (f->f->isRepo) return f->f->name; return s.top ? s.top->f->name : ""; }
static std::string modelText(State &s, const std::vector<uint64_t> &m) {
  std::string r; char b[64];
  for (auto &in : s.inputs) { snprintf(b, 64, " %u %llx\n", in.v->w, (unsigned long long)(in.v->k < m.size() ? m[in.v->k] & maskw(in.v->w) : 0)); r += in.name + b; }
  return r;
}
static void violation(State &s, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &m) {
  S.viol++;
  std::string key = kind + "|" + msg + "|" + innermostRepoFn(s);
  if (!violKeys.insert(key).second || viols.size() >= maxViol) return;
  char fn[400]; snprintf(fn, 400, "%s/viol_%d_%zu.replay", outDir.c_str(), getpid(), viols.size());
  FILE *f = fopen(fn, "w"); if (f) { std::string t = modelText(s, m); fputs(t.c_str(), f); fclose(f); }
  viols.push_back({kind, msg, whereOf(s), fn});
  int nv = __sync_add_and_fetch(&SH->nviol, 1); if (nv >= (int)maxViol) SH->stop = 1;
}
static void engineError(State &s, const std::string &msg) { S.engineErr++; if (engineErrs.size() < 20) engineErrs.insert(msg + " @ " + whereOf(s)); throw PathEnd(); }
[[noreturn]] static void memError(State &s, const std::string &kind, const std::string &msg) {
  if (!s.crashId.empty() && kind == "null-deref" && msg == "null pointer write") for (Frame *f = s.top; f; f = f->up) if (f->f->name == s.crashFn) { knownHits[s.crashId]++; S.paths++; throw PathEnd(); } // a crash the harness announced as a known finding
  violation(s, kind, msg, s.model); throw PathEnd(); }

// evaluate a width-1 value to a decision with forking. The other side goes to `pending` with pc unchanged (retry) if retry, else handled by caller.
// returns +1 only true, 0 only false, 2 both (other model in om)
static int decide(State &s, Val c, std::vector<uint64_t> &om, bool &cur) {
  if (!c.e) { cur = c.c; return c.c ? 1 : 0; }
  cur = evalExpr(c.e, s.model); S.modelHits++;
  Val o = cur ? mkNot1(c) : c;
  int r = o.e ? solve(s, o.e, &om) : (int)o.c;
  if (r == 0) return cur ? 1 : 0;
  if (r < 0) { S.incomplete++; return cur ? 1 : 0; }  // unknown side not explored: counted as incomplete
  return 2;
}
// does the value of e really depend on uninitialised bytes, the inputs being given?  (two choices of those bytes, one outcome each)
static Expr *primed(Expr *e, std::unordered_map<Expr*, Expr*> &m) {
  if (!e || !e->uninit) return e; auto it = m.find(e); if (it != m.end()) return it->second;
  Expr *r; if (e->op == O_VAR) { r = mkVar(varInfo[e->k].name + "'", e->w, true, true); } else r = mkRaw(e->op, e->w, primed(e->a, m), primed(e->b, m), primed(e->c, m), e->k);
  m[e] = r; return r; }
static bool dependsUninit(State &s, Expr *e) {
  if (!e->uninit) return false; std::unordered_map<Expr*, Expr*> m; Expr *p = primed(e, m); Val q = mkNot1(mkCmp(O_EQ, e->w, EV(e), EV(p)));
  for (Expr *c : s.pc) if (c->uninit) q = mkBin(O_AND, 1, q, EV(primed(c, m)));
  if (!q.e) return q.c; for (auto &x : m) if (x.second->op == O_VAR && s.model.size() <= x.second->k) s.model.resize(x.second->k + 1, 0);
  std::vector<uint64_t> om; return solve(s, q.e, &om) != 0; }
static void forkOff(State *n) { S.forks++; n->forks++; pending.push_back(n); }
// concretise by enumeration: current state takes the model's value; the rest re-executes this instruction
static uint64_t concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  uint64_t c = evalExpr(v.e, s.model); Val eq = mkCmp(O_EQ, w, v, CV(c)); std::vector<uint64_t> om;
  Val ne = mkNot1(eq); int r = ne.e ? solve(s, ne.e, &om) : (int)ne.c;
  if (r == 1) { if (v.e->uninit && dependsUninit(s, v.e)) memError(s, "uninit", "behaviour depends on uninitialised memory"); State *n = new State(s); addC(*n, ne); n->model = om; if (n->top->rc > 1) { n->top->rc--; n->top = cloneFrame(n->top); } n->top->pc--; forkOff(n); }
  else if (r < 0) S.incomplete++;
  addC(s, eq); return c;
}
static bool mustTrue(State &s, Val c) { if (!c.e) return c.c; if (!evalExpr(c.e, s.model)) return false; std::vector<uint64_t> om; Val n = mkNot1(c); int r = n.e ? solve(s, n.e, &om) : (int)n.c; return r == 0; }

// ------------------------------------------------------------------ memory access
struct Loc { ObjTab *t; uint32_t i; Obj *o; };
static bool lookup(State &s, uint64_t a, Loc &l) {
  if (a >= GLOB0 && a < HEAP0) { l.t = &s.globals; l.i = (a - GLOB0) / STRIDE; }
  else if (a >= HEAP0 && a < STK0) { l.t = &s.heap; l.i = (a - HEAP0) / STRIDE; }
  else if (a >= STK0 && a < FN0) { l.t = &s.stack; l.i = (a - STK0) / STRIDE; }
  else return false;
  l.o = l.t->get(l.i); return l.o != nullptr;
}
static Loc access(State &s, uint64_t a, uint64_t n, bool write, const char *what) {
  S.memchecks++;
  Loc l; char b[200];
  if (a < 4096) { snprintf(b, 200, "null pointer %s", what); memError(s, "null-deref", b); }
  if (!lookup(s, a, l)) { snprintf(b, 200, "%s through a wild pointer", what); memError(s, "wild-pointer", b); }
  Obj *o = l.o;
  if (o->freed) { snprintf(b, 200, "%s of freed memory", what); memError(s, "use-after-free", b); }
  if (a < o->base || a - o->base > o->size || n > o->size - (a - o->base)) {
    const char *k = o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global";
    snprintf(b, 200, "%s out of bounds of a %s object", what, k); memError(s, "out-of-bounds", b); }
  if (write) { if (o->ro) memError(s, "write-to-constant", "write to constant data"); l.o = l.t->wr(l.i); }
  return l;
}
static Val uninitVar(State &s, unsigned w) { std::string n = "?uninit" + std::to_string(s.uninitCnt++); return EV(mkVar(n, w, true, true)); }
static Val readObj(State &s, Loc &l, uint32_t off, unsigned nb) { // nb bytes <= 8
  Obj *o = l.o;
  bool sym = false;
  if (o->un) for (unsigned i = 0; i < nb; i++) if (o->un[off + i]) {
    o = l.o = l.t->wr(l.i);
    if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*));
    for (unsigned j = 0; j < nb; j++) if (o->un[off + j]) { o->un[off + j] = 0; o->s[off + j] = uninitVar(s, 8).e; }
    break; }
  if (o->s) for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, o->d + off, nb); return CV(v); }
  Val r = o->s[off + nb - 1] ? EV(o->s[off + nb - 1]) : CV(o->d[off + nb - 1]); unsigned w = 8;
  for (int i = (int)nb - 2; i >= 0; i--) { Val b = o->s[off + i] ? EV(o->s[off + i]) : CV(o->d[off + i]); r = mkConcat(r, w, b, 8); w += 8; }
  return r;
}
static void writeObj(Obj *o, uint32_t off, unsigned nb, Val v) {
  if (o->un) memset(o->un + off, 0, nb);
  if (!v.e) { memcpy(o->d + off, &v.c, nb); if (o->s) memset(o->s + off, 0, nb * sizeof(Expr*)); return; }
  if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*));
  for (unsigned i = 0; i < nb; i++) { Val b = mkExtract(v, nb * 8, i * 8, 8); o->s[off + i] = b.e; if (!b.e) o->d[off + i] = b.c; }
}
// split a state on "address within the object the model points at"
static Loc symAccess(State &s, Val a, uint64_t n, bool write, const char *what) {
  uint64_t ca = evalExpr(a.e, s.model); Loc l;
  if (a.e->uninit) { if (dependsUninit(s, a.e)) memError(s, "uninit", "address depends on uninitialised memory"); }
  l = access(s, ca, n, false, what);
  Val in = mkCmp(O_ULE, 64, mkBin(O_SUB, 64, a, CV(l.o->base)), CV(l.o->size - n)); std::vector<uint64_t> om; bool cur;
  int d = decide(s, in, om, cur);
  if (d == 2) { State *m = new State(s); addC(*m, mkNot1(in)); m->model = om; if (m->top->rc > 1) { m->top->rc--; m->top = cloneFrame(m->top); } m->top->pc--; forkOff(m); addC(s, in); }
  (void)write; return l;
}
static Val loadMem(State &s, Val a, unsigned w, bool ptr) {
  unsigned nb = (w + 7) / 8;
  if (!a.e) { Loc l = access(s, a.c, nb, false, "read"); Val v = readObj(s, l, a.c - l.o->base, nb); return w & 7 ? mkExtract(v, nb * 8, 0, w) : v; }
  Loc l = symAccess(s, a, nb, false, "read");
  Obj *o = l.o;
  if (!ptr && o->size <= 4096 && (o->ro || nb <= 2 || o->size <= 256)) {
    Val off = mkBin(O_SUB, 64, a, CV(o->base));
    unsigned step = 1; if (nb > 1 && mustTrue(s, mkCmp(O_EQ, 64, mkBin(O_UREM, 64, off, CV(nb)), CV(0)))) step = nb;
    if (o->size / step <= 512) {
      // run-length encoded decision tree over offsets
      std::vector<std::pair<uint32_t, Val>> runs;
      for (uint32_t p = 0; p + nb <= o->size; p += step) { Val v = readObj(s, l, p, nb); if (runs.empty() || runs.back().second.e != v.e || runs.back().second.c != v.c) runs.push_back({p, v}); }
      struct B { static Val go(std::vector<std::pair<uint32_t, Val>> &r, int lo, int hi, Val off, unsigned w) { if (lo == hi) return r[lo].second; int mid = (lo + hi + 1) / 2; Val c = mkCmp(O_ULT, 64, off, CV(r[mid].first)); return mkIte(c, go(r, lo, mid - 1, off, w), go(r, mid, hi, off, w), w); } };
      Val v = B::go(runs, 0, runs.size() - 1, off, nb * 8);
      return w & 7 ? mkExtract(v, nb * 8, 0, w) : v;
    }
  }
  uint64_t ca = concretize(s, a, 64); Loc l2 = access(s, ca, nb, false, "read"); Val v = readObj(s, l2, ca - l2.o->base, nb);
  return w & 7 ? mkExtract(v, nb * 8, 0, w) : v;
}
static void storeMem(State &s, Val a, Val v, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (a.e) { symAccess(s, a, nb, true, "write"); a = CV(concretize(s, a, 64)); }
  Loc l = access(s, a.c, nb, true, "write");
  if (w & 7) v = mkZext(v, w, nb * 8);
  if (!v.e) v.c &= maskw(nb * 8);
  writeObj(l.o, a.c - l.o->base, nb, v);
}
static uint64_t heapAlloc(State &s, uint64_t n, bool zero) {
  if (n > STRIDE - 65536) engineError(s, "allocation too large: " + std::to_string(n));
  uint32_t i = s.heap.n; uint64_t base = HEAP0 + i * STRIDE + 4096;
  Obj *o = newObj(K_HEAP, base, n, !zero); s.heap.set(i, o); s.liveHeap++; s.liveBytes += n; return base;
}
static uint64_t stackAlloc(State &s, uint64_t n) {
  if (n > STRIDE - 65536) engineError(s, "stack allocation too large");
  uint32_t i = s.stkTop++; uint64_t base = STK0 + i * STRIDE + 4096 + (uint64_t)(s.stkGen++ & 0x3ff) * 64;
  Obj *o = newObj(K_STACK, base, n, true); s.stack.set(i, o); s.top->stk.push_back(i); return base;
}
static void heapFree(State &s, uint64_t a) {
  if (!a) return;
  Loc l; if (!lookup(s, a, l) || l.o->kind != K_HEAP) memError(s, "bad-free", "free of a pointer that is not a heap object");
  if (l.o->freed) memError(s, "double-free", "double free");
  if (a != l.o->base) memError(s, "bad-free", "free of an interior pointer");
  Obj *o = l.t->wr(l.i); o->freed = true; s.liveHeap--; s.liveBytes -= o->size;
  // keep contents out of memory
}
static void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  Loc ls = access(s, src, n, false, "read"); uint32_t so = src - ls.o->base;
  std::vector<uint8_t> td(ls.o->d + so, ls.o->d + so + n), tu; std::vector<Expr*> ts;
  if (ls.o->un) tu.assign(ls.o->un + so, ls.o->un + so + n); if (ls.o->s) ts.assign(ls.o->s + so, ls.o->s + so + n);
  Loc ld = access(s, d, n, true, "write"); uint32_t off = d - ld.o->base; Obj *o = ld.o;
  memcpy(o->d + off, td.data(), n);
  if (!tu.empty()) { if (!o->un) o->un = (uint8_t*)calloc(1, o->size); memcpy(o->un + off, tu.data(), n); } else if (o->un) memset(o->un + off, 0, n);
  if (!ts.empty()) { if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*)); memcpy(o->s + off, ts.data(), n * sizeof(Expr*)); } else if (o->s) memset(o->s + off, 0, n * sizeof(Expr*));
}
static std::string readCStr(State &s, uint64_t a) { std::string r; for (;;) { Loc l = access(s, a, 1, false, "read"); Val v = readObj(s, l, a - l.o->base, 1); uint8_t c = v.e ? evalExpr(v.e, s.model) : v.c; if (!c) break; r += (char)c; a++; if (r.size() > 4000) break; } return r; }
#include "interp.inc"
