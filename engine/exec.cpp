// Symbolic executor over the compact code: forks on every feasible branch, solver decides feasibility and assertions.
#include "module.h"
#include "solver.h"
#include <llvm/IR/InstrTypes.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <map>
#include <memory>
#include <chrono>
#include <random>
#include <algorithm>
#include <unordered_set>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>

// ---------- options / results
static double optTime = 60; static uint64_t optMaxInstr = 30000000; static unsigned optMaxErrors = 12; static unsigned optSeed = 1; static std::string optSearch = "dfs"; static std::vector<int> optFix; static unsigned optSamples = 12; static uint64_t optMaxStates = 2000000; static unsigned optMaxDepth = 3000; static size_t optPending = 60000;
static const char *optOut = nullptr; static bool optVerbose = false;

struct ErrorRec { std::string kind, msg, where; std::vector<uint8_t> in; };
static std::vector<ErrorRec> errors; static std::map<std::string, int> errorSeen;
static volatile bool late = false;
static uint64_t nPaths = 0, nAssumed = 0, nErrPaths = 0, nTrunc = 0, nInstr = 0, nForks = 0, nDropped = 0, nSkipped = 0; static std::map<std::string, uint64_t> truncWhy; static std::map<std::string, uint64_t> reach; static uint64_t nAsserts = 0, nAssertQ = 0, maxPc = 0, maxVars = 0;
struct Sample { std::vector<uint8_t> in; uint64_t obs; }; static std::vector<Sample> samples; static uint64_t sampleSeen = 0; static std::mt19937 rng;

// ---------- memory
struct OD { uint32_t rc, size; uint8_t *b; Expr **s; };
struct Obj { OD *d; uint32_t size; uint8_t kind, st; }; // kind: 1 global 2 const 3 heap 4 stack ; st: 0 none 1 live 2 freed
static OD *odNew(uint32_t sz) { OD *d = (OD *)malloc(sizeof(OD)); d->rc = 1; d->size = sz; d->b = (uint8_t *)malloc(sz ? sz : 1); d->s = nullptr; return d; }
static void odDel(OD *d) { if (--d->rc == 0) { free(d->b); free(d->s); free(d); } }
static OD *odCopy(OD *o) { OD *d = odNew(o->size); memcpy(d->b, o->b, o->size); if (o->s) { d->s = (Expr **)malloc(sizeof(Expr *) * o->size); memcpy(d->s, o->s, sizeof(Expr *) * o->size); } return d; }
static const unsigned CH = 64;
struct Chunk { uint32_t rc; Obj o[CH]; };
struct ObjVec {
  std::vector<Chunk *> ch; uint32_t n = 0;
  ObjVec() {}
  ObjVec(const ObjVec &x) : ch(x.ch), n(x.n) { for (auto c : ch) c->rc++; }
  ObjVec &operator=(const ObjVec &) = delete;
  ~ObjVec() { for (auto c : ch) rel(c); }
  static void rel(Chunk *c) { if (--c->rc == 0) { for (auto &o : c->o) if (o.d) odDel(o.d); delete c; } }
  const Obj &get(uint32_t i) const { return ch[i / CH]->o[i % CH]; }
  Obj &wr(uint32_t i) { Chunk *&c = ch[i / CH]; if (c->rc > 1) { Chunk *k = new Chunk(*c); k->rc = 1; for (auto &o : k->o) if (o.d) o.d->rc++; c->rc--; c = k; } return c->o[i % CH]; }
  OD *wrData(uint32_t i) { Obj &o = wr(i); if (o.d->rc > 1) { OD *d = odCopy(o.d); odDel(o.d); o.d = d; } return o.d; }
  uint32_t push(const Obj &o) { if (n / CH >= ch.size()) { Chunk *c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); } wr(n) = o; return n++; }
  void popTo(uint32_t m) { while (n > m) { n--; Obj &o = wr(n); if (o.d) odDel(o.d); o.d = nullptr; o.st = 2; } }
};
static const uint32_t STK = 1u << 24;

struct Frame { Func *f; uint32_t pc, base, stk; int32_t ret; uint64_t va; uint64_t serial; int nret; };
struct JB { uint32_t depth, pc; uint64_t serial; };
struct State {
  std::vector<Val> regs; std::vector<Frame> fr; ObjVec heap, stack; std::vector<Expr *> pc; std::unordered_set<Expr *> pcset; Model model; uint32_t nvars = 0; uint64_t icount = 0; uint64_t serial = 0; int64_t live = 0; std::vector<JB> jbs; std::vector<Val> obs; unsigned fixIdx = 0; unsigned forkDepth = 0;
  State() {}
  State(const State &) = default;
};
static std::vector<State *> work;
static State *S; // current
static uint32_t nGlobals;

struct PathEnd { int why; };
enum { PE_DONE, PE_ASSUME, PE_ERROR, PE_TRUNC, PE_SKIP };

static std::string where() { std::string s; int n = 0; for (size_t i = S->fr.size(); i-- > 0 && n < 8; n++) { auto &f = S->fr[i]; if (!s.empty()) s += " < "; s += f.f->name + ":" + std::to_string(f.f->code[f.pc].line); } return s; }
[[noreturn]] static void err(const std::string &kind, const std::string &msg, const Model &m) {
  std::string w = where(); std::string top = S->fr.size() ? S->fr.back().f->name + ":" + std::to_string(S->fr.back().f->code[S->fr.back().pc].line) : ""; std::string k = kind + "|" + msg + "|" + (kind == "assert" ? "" : top);
  nErrPaths++;
  if (errorSeen[k]++ < 3) { ErrorRec r{kind, msg, w, {}}; r.in.assign(m->begin(), m->begin() + std::min<size_t>(S->nvars, m->size())); r.in.resize(S->nvars, 0); errors.push_back(r); }
  throw PathEnd{PE_ERROR};
}
[[noreturn]] static void err(const std::string &kind, const std::string &msg) { err(kind, msg, S->model); }
[[noreturn]] static void trunc_(const std::string &why) { truncWhy[why]++; throw PathEnd{PE_TRUNC}; }

static inline uint64_t ev(Expr *e) { evNewEpoch(); return evalExpr(e, *S->model); }
static void addC(State *s, Expr *c) { if (c->op == O_CONST) return; if (c->w == 1 && c->op == O_AND) { addC(s, c->a); addC(s, c->b); return; } if (s->pcset.insert(c).second) s->pc.push_back(c); }

static bool optProfile = false; static std::map<std::string, uint64_t> forkSites;
static bool decide(Expr *c) {
  if (c->op == O_CONST) return c->cv;
  Expr *nc = mkNot(c);
  if (S->pcset.count(c)) return true;
  if (S->pcset.count(nc)) return false;
  bool v = ev(c); Expr *other = v ? nc : c; Model m;
  SRes r = solve(S->pc, other, S->model, m);
  if (r == S_SAT) {
    nForks++; if (optProfile) forkSites[where() + "   " + (getenv("VP_EXPR") ? exprStr(c).substr(0, 200) : "")]++;
    if (work.size() < optMaxStates) { State *k = new State(*S); addC(k, other); k->model = m; k->forkDepth++; work.push_back(k); } else nDropped++;
    S->forkDepth++;
  } else if (r == S_UNKNOWN) { truncWhy["solver-unknown"]++; nTrunc++; if (optProfile) forkSites["UNKNOWN " + where() + "   " + exprStr(c).substr(0, 400)]++; }
  addC(S, v ? c : nc);
  return v;
}
static uint64_t conc(const Val &v) { if (!v.e) return v.v; uint64_t x = ev(v.e); decide(mkBin(O_EQ, v.e, mkConst(x, v.e->w))); return x; }
static inline Val mkv(Expr *e) { if (e->op == O_CONST) return {e->cv, nullptr}; return {0, e}; }
static inline Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }

static inline ObjVec &space(uint32_t &id) { if (id >= STK) { id -= STK; return S->stack; } return S->heap; }
static inline const Obj *findObj(uint64_t a, uint32_t &id, ObjVec *&sp) { id = (uint32_t)(a >> OSH); sp = &space(id); if (id >= sp->n || (sp == &S->heap && id == 0)) return nullptr; return &sp->get(id); }

static const Obj *chk(uint64_t a, uint32_t n, bool write, uint32_t &id, ObjVec *&sp) {
  const Obj *o = findObj(a, id, sp);
  if (!o || o->st == 0) { if (a < 0x100000000ull) err("null-deref", write ? "write through null/invalid pointer" : "read through null/invalid pointer"); err("bad-pointer", write ? "write to invalid address" : "read from invalid address"); }
  if (o->st == 2) err(o->kind == 4 ? "use-after-return" : "use-after-free", write ? "write" : "read");
  uint64_t off = a & 0xffffffffu; if (off + n > o->size) err("out-of-bounds", std::string(write ? "write" : "read") + (o->kind == 3 ? " heap" : o->kind == 4 ? " stack" : " global"));
  if (write && o->kind == 2) err("bad-write", "write to constant memory");
  return o;
}
static Val rdRaw(const OD *d, uint32_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (d->s) { bool any = false; for (unsigned i = 0; i < n; i++) if (d->s[off + i]) { any = true; break; }
    if (any) { Expr *r = nullptr; for (unsigned i = n; i-- > 0;) { Expr *b = d->s[off + i] ? d->s[off + i] : mkConst(d->b[off + i], 8); r = r ? mkConcat(r, b) : b; } if (r->w != w) r = mkExtract(r, 0, w); return mkv(r); } }
  uint64_t v = 0; switch (n) { case 1: v = d->b[off]; break; case 2: { uint16_t t; memcpy(&t, d->b + off, 2); v = t; break; } case 4: { uint32_t t; memcpy(&t, d->b + off, 4); v = t; break; } case 8: memcpy(&v, d->b + off, 8); break; default: memcpy(&v, d->b + off, n); }
  if (w & 7) v &= maskw(w);
  return {v, nullptr};
}
static void wrRaw(OD *d, uint32_t off, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { memcpy(d->b + off, &v.v, n); if (d->s) for (unsigned i = 0; i < n; i++) d->s[off + i] = nullptr; return; }
  if (!d->s) { d->s = (Expr **)calloc(d->size ? d->size : 1, sizeof(Expr *)); }
  Expr *e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Expr *b = mkExtract(e, 8 * i, 8); if (b->op == O_CONST) { d->b[off + i] = b->cv; d->s[off + i] = nullptr; } else d->s[off + i] = b; }
}
static unsigned tz(Expr *e) { // known trailing zero bits
  switch (e->op) { case O_CONST: return e->cv ? __builtin_ctzll(e->cv) : e->w; case O_CONCAT: { unsigned t = tz(e->b); return t == e->b->w ? t + tz(e->a) : t; } case O_ZEXT: case O_SEXT: return std::min<unsigned>(tz(e->a), e->a->w); case O_ADD: case O_SUB: return std::min(tz(e->a), tz(e->b)); case O_MUL: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b)); case O_ITE: return std::min(tz(e->b), tz(e->c)); default: return 0; }
}
static Val load(const Val &ad, uint32_t disp, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t id; ObjVec *sp;
  if (!ad.e) { uint64_t a = ad.v + disp; const Obj *o = chk(a, n, false, id, sp); return rdRaw(o->d, (uint32_t)a, w); }
  Expr *A = mkBin(O_ADD, ad.e, mkConst(disp, 64)); uint64_t v = ev(A); const Obj *o = chk(v, n, false, id, sp);
  uint64_t base = v & ~0xffffffffull; uint32_t sz = o->size;
  decide(mkBin(O_ULE, mkBin(O_SUB, A, mkConst(base, 64)), mkConst(sz - n, 64)));
  o = findObj(v, id, sp);
  unsigned t = 0; { Expr *x = A; if (x->op == O_ADD && x->b->op == O_CONST) x = x->a; t = std::min(tz(x), 12u); }
  uint64_t stride = 1ull << t; uint64_t first = (v - base) % stride; uint64_t cnt = sz >= n + first ? (sz - n - first) / stride + 1 : 0;
  uint64_t lim = (o->kind == 2 && !o->d->s) ? 520 : 48;
  if (cnt <= lim && cnt > 0) {
    // group equal concrete values
    std::map<uint64_t, std::vector<uint64_t>> grp; std::vector<std::pair<uint64_t, Val>> symv;
    for (uint64_t p = first; p + n <= sz; p += stride) { Val x = rdRaw(o->d, p, w); if (x.e) symv.push_back({p, x}); else grp[x.v].push_back(p); }
    Expr *r = nullptr; uint64_t big = 0; size_t bs = 0; for (auto &g : grp) if (g.second.size() > bs) { bs = g.second.size(); big = g.first; }
    if (bs) r = mkConst(big, w);
    for (auto &g : grp) { if (g.first == big) continue; // contiguous ranges as comparisons
      Expr *c = mkConst(0, 1); size_t i = 0; while (i < g.second.size()) { size_t j = i; while (j + 1 < g.second.size() && g.second[j + 1] == g.second[j] + stride) j++; uint64_t lo = base + g.second[i], hi = base + g.second[j]; Expr *q = lo == hi ? mkBin(O_EQ, A, mkConst(lo, 64)) : mkBin(O_AND, mkBin(O_ULE, mkConst(lo, 64), A), mkBin(O_ULE, A, mkConst(hi, 64))); c = mkBin(O_OR, c, q); i = j + 1; }
      r = mkIte(c, mkConst(g.first, w), r); }
    for (auto &p : symv) r = r ? mkIte(mkBin(O_EQ, A, mkConst(base + p.first, 64)), p.second.e, r) : p.second.e;
    return mkv(r);
  }
  uint64_t a = conc({0, A}); o = chk(a, n, false, id, sp); return rdRaw(o->d, (uint32_t)a, w);
}
static void store(const Val &ad, uint32_t disp, unsigned w, const Val &v) {
  uint32_t id; ObjVec *sp; unsigned n = (w + 7) / 8; uint64_t a = ad.e ? conc(ad) + disp : ad.v + disp;
  chk(a, n, true, id, sp); OD *d = sp->wrData(id); wrRaw(d, (uint32_t)a, w, v);
}
static uint64_t newObj(ObjVec &sp, uint32_t sz, uint8_t kind, int fill) { OD *d = odNew(sz); memset(d->b, fill, sz); uint32_t i = sp.push({d, sz, kind, 1}); return ((uint64_t)(&sp == &S->stack ? i + STK : i)) << OSH; }
static void memcpy_(uint64_t dst, uint64_t src, uint64_t n) {
  if (n == 0) return; if (n > 0x10000000) err("out-of-bounds", "memcpy huge size");
  uint32_t i1, i2; ObjVec *s1, *s2; chk(src, n, false, i1, s1); chk(dst, n, true, i2, s2);
  OD *d = s2->wrData(i2); const OD *s = s1->get(i1).d; uint32_t so = (uint32_t)src, dof = (uint32_t)dst;
  if (s->s) { if (!d->s) d->s = (Expr **)calloc(d->size ? d->size : 1, sizeof(Expr *)); memmove(d->s + dof, s->s + so, n * sizeof(Expr *)); } else if (d->s) memset(d->s + dof, 0, n * sizeof(Expr *));
  memmove(d->b + dof, s->b + so, n);
}
static std::string cstr(uint64_t a) { std::string r; uint32_t id; ObjVec *sp; for (;;) { const Obj *o = chk(a, 1, false, id, sp); Val v = rdRaw(o->d, (uint32_t)a, 8); uint8_t c = (uint8_t)conc(v); if (!c) return r; r.push_back(c); a++; if (r.size() > 100000) trunc_("cstr too long"); } }

static void popFrame() { Frame &f = S->fr.back(); S->stack.popTo(f.stk); S->regs.resize(f.base); S->fr.pop_back(); }
static void pushFrame(Func *f, int32_t ret, int nret) {
  if (S->fr.size() > optMaxDepth) err("stack-overflow", "native call depth");
  Frame k; k.f = f; k.pc = 0; k.base = S->regs.size(); k.stk = S->stack.n; k.ret = ret; k.va = 0; k.serial = ++S->serial; k.nret = nret; S->fr.push_back(k); S->regs.resize(k.base + f->nregs, Val{0, nullptr}); f->executed = true;
}
static void takeEdge(Func *f, uint32_t e) {
  Edge &E = f->edges[e]; Frame &fr = S->fr.back(); Val *R = &S->regs[fr.base];
  if (!E.copies.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto &c : E.copies) tmp.push_back(c.second >= 0 ? R[c.second] : P.K[~c.second]); for (size_t i = 0; i < E.copies.size(); i++) R[E.copies[i].first] = tmp[i]; }
  fr.pc = E.target;
}
static Val icmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  using namespace llvm;
  if (!a.e && !b.e) { uint64_t x = a.v & maskw(w), y = b.v & maskw(w); int64_t sx = sext64(x, w), sy = sext64(y, w); bool r;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } return {r, nullptr}; }
  Expr *x = ex(a, w), *y = ex(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return mkv(mkBin(O_EQ, x, y)); case CmpInst::ICMP_NE: return mkv(mkNot(mkBin(O_EQ, x, y))); case CmpInst::ICMP_UGT: return mkv(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return mkv(mkBin(O_ULE, y, x)); case CmpInst::ICMP_ULT: return mkv(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return mkv(mkBin(O_ULE, x, y)); case CmpInst::ICMP_SGT: return mkv(mkBin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return mkv(mkBin(O_SLE, y, x)); case CmpInst::ICMP_SLT: return mkv(mkBin(O_SLT, x, y)); default: return mkv(mkBin(O_SLE, x, y)); }
}
static Val fcmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  using namespace llvm; Expr *x = ex(a, w), *y = ex(b, w);
  auto OEQ = [&] { return mkBin(O_FOEQ, x, y); }; auto UNO = [&] { return mkBin(O_FUNO, x, y); };
  Expr *r;
  switch (pred) { case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; case CmpInst::FCMP_OEQ: r = OEQ(); break; case CmpInst::FCMP_OGT: r = mkBin(O_FOLT, y, x); break; case CmpInst::FCMP_OGE: r = mkBin(O_FOLE, y, x); break; case CmpInst::FCMP_OLT: r = mkBin(O_FOLT, x, y); break; case CmpInst::FCMP_OLE: r = mkBin(O_FOLE, x, y); break; case CmpInst::FCMP_ONE: r = mkBin(O_AND, mkNot(UNO()), mkNot(OEQ())); break; case CmpInst::FCMP_ORD: r = mkNot(UNO()); break; case CmpInst::FCMP_UNO: r = UNO(); break; case CmpInst::FCMP_UEQ: r = mkBin(O_OR, UNO(), OEQ()); break; case CmpInst::FCMP_UGT: r = mkNot(mkBin(O_FOLE, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkBin(O_FOLT, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(mkBin(O_FOLE, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkBin(O_FOLT, y, x)); break; default: r = mkNot(OEQ()); }
  return mkv(r);
}
static Val bin(unsigned op, unsigned w, const Val &a, const Val &b) {
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
    if (b.e) { if (decide(mkBin(O_EQ, b.e, mkConst(0, w)))) err("sigfpe", "integer division by zero"); }
    else if ((b.v & maskw(w)) == 0) err("sigfpe", "integer division by zero");
    if (op == O_SDIV || op == O_SREM) { Expr *c = mkBin(O_AND, mkBin(O_EQ, ex(a, w), mkConst(1ull << (w - 1), w)), mkBin(O_EQ, ex(b, w), mkConst(~0ull, w))); if (decide(c)) err("sigfpe", "signed division overflow"); }
  }
  if (!a.e && !b.e) { uint64_t y = b.v; if (op >= O_SHL && op <= O_ASHR) y &= (w >= 32 ? w - 1 : 63); return {foldBin((Op)op, a.v, y, w), nullptr}; }
  Expr *x = ex(a, w), *y = ex(b, w); if (op >= O_SHL && op <= O_ASHR && w >= 32) y = mkBin(O_AND, y, mkConst(w - 1, w));
  return mkv(mkBin((Op)op, x, y));
}
static void symBytes(uint64_t a, uint64_t n, int fix = -1) {
  uint32_t id; ObjVec *sp; chk(a, n, true, id, sp); OD *d = sp->wrData(id);
  auto m = std::make_shared<std::vector<uint8_t>>(*S->model);
  for (uint64_t i = 0; i < n; i++) { uint32_t v = S->nvars++; if (m->size() <= v) m->resize(v + 1, 0); if (fix >= 0) { (*m)[v] = fix; wrRaw(d, (uint32_t)a + i, 8, {(uint64_t)fix, nullptr}); } else { (*m)[v] = 0; wrRaw(d, (uint32_t)a + i, 8, {0, mkVar(v)}); } }
  S->model = m; if (S->nvars > maxVars) maxVars = S->nvars;
}
static void release(uint64_t p, const char *what) {
  uint32_t id; ObjVec *sp; const Obj *o = findObj(p, id, sp);
  if (!o || o->st == 0 || o->kind != 3 || (p & 0xffffffffu)) err("bad-free", what);
  if (o->st == 2) err("double-free", what);
  Obj &w = sp->wr(id); odDel(w.d); w.d = nullptr; w.st = 2; S->live--;
}
// returns false if the frame stack was changed (longjmp)
static bool builtin(const Inst &I, const CallInfo &ci, int b, std::vector<Val> &A) {
  auto ret = [&](const Val &v) { if (I.d >= 0) S->regs[S->fr.back().base + I.d] = v; };
  auto retc = [&](uint64_t v) { ret(Val{v, nullptr}); };
  auto un = [&](Op op, unsigned aux) { Expr *a = ex(A[0], 64); ret(mkv(mkUn(op, a, 64, aux))); };
  auto uf = [&](unsigned k, bool two) { ret(mkv(mkUF(k, ex(A[0], 64), two ? ex(A[1], 64) : nullptr))); };
  switch (b) {
  case B_malloc: case B_calloc: { uint64_t n = conc(A[0]); if (b == B_calloc) { uint64_t k = conc(A[1]); if (__builtin_mul_overflow(n, k, &n)) n = ~0ull; } if (n > (1u << 27)) { retc(0); return true; } S->live++; retc(newObj(S->heap, (uint32_t)n, 3, b == B_calloc ? 0 : 0xbe)); return true; }
  case B_realloc: { uint64_t p = conc(A[0]), n = conc(A[1]); if (n > (1u << 27)) { retc(0); return true; }
    if (!p) { S->live++; retc(newObj(S->heap, n, 3, 0xbe)); return true; }
    uint32_t id; ObjVec *sp; const Obj *o = findObj(p, id, sp); if (!o || o->kind != 3 || (p & 0xffffffffu)) err("bad-free", "realloc of invalid pointer"); if (o->st == 2) err("use-after-free", "realloc");
    if (n == 0) { release(p, "realloc"); retc(0); return true; }
    uint32_t os = o->size; uint64_t q = newObj(S->heap, n, 3, 0xbe); S->live++; if (std::min<uint64_t>(os, n)) memcpy_(q, p, std::min<uint64_t>(os, n)); release(p, "realloc"); retc(q); return true; }
  case B_free: { uint64_t p = conc(A[0]); if (!p) return true; release(p, "free"); return true; }
  case B_abort: err("abort", "abort() called");
  case B___assert_fail: err("abort", "assertion failed in the code: " + cstr(conc(A[0])));
  case B_exit: err("exit", "exit() called");
  case B__setjmp: { uint64_t a = conc(A[0]); S->jbs.push_back({(uint32_t)S->fr.size(), S->fr.back().pc, S->fr.back().serial}); store({a, nullptr}, 0, 64, {S->jbs.size() - 1 + 0x5e7a0000, nullptr}); retc(0); return true; }
  case B_longjmp: { uint64_t a = conc(A[0]); uint64_t v = conc(A[1]) & 0xffffffff; Val t = load({a, nullptr}, 0, 64); if (t.e || t.v - 0x5e7a0000 >= S->jbs.size()) err("bad-longjmp", "longjmp to uninitialised jmp_buf"); JB j = S->jbs[t.v - 0x5e7a0000];
    if (j.depth > S->fr.size() || S->fr[j.depth - 1].serial != j.serial) err("bad-longjmp", "longjmp to a frame that returned");
    while (S->fr.size() > j.depth) popFrame(); Frame &f = S->fr.back(); f.pc = j.pc; const Inst &J = f.f->code[j.pc]; if (J.d >= 0) S->regs[f.base + J.d] = {v ? v : 1, nullptr}; f.pc++; return false; }
  case B_vp_sym_bytes: symBytes(conc(A[0]), conc(A[1])); return true;
  case B_vp_fix_arg: { uint64_t a = conc(A[0]); unsigned n = (unsigned)conc(A[1]); int v = S->fixIdx < optFix.size() ? optFix[S->fixIdx] : -1; S->fixIdx++; symBytes(a, 1, v); (void)n; return true; }
  case B_vp_assume: { Expr *c = mkNot(mkBin(O_EQ, ex(A[0], 32), mkConst(0, 32))); if (c->op == O_CONST) { if (!c->cv) throw PathEnd{PE_ASSUME}; return true; }
    if (!ev(c)) { Model m; SRes r = solve(S->pc, c, S->model, m); if (r == S_UNSAT) throw PathEnd{PE_ASSUME}; if (r == S_UNKNOWN) trunc_("solver-unknown-assume"); S->model = m; } addC(S, c); return true; }
  case B_vp_skip: throw PathEnd{PE_SKIP};
  case B_vp_check: { nAsserts++; Expr *c = mkNot(mkBin(O_EQ, ex(A[0], 32), mkConst(0, 32))); if (c->op == O_CONST) { if (!c->cv) err("assert", cstr(conc(A[1]))); return true; }
    if (S->pcset.count(c)) return true;
    nAssertQ++; bool v = ev(c); std::string msg;
    if (!v) { // violated under the current model: report, then go on with the values for which it holds
      State *k = nullptr; Model m; SRes r = solve(S->pc, c, S->model, m); if (r == S_SAT) { k = new State(*S); addC(k, c); k->model = m; work.push_back(k); } err("assert", cstr(conc(A[1]))); }
    Model m; SRes r = solve(S->pc, mkNot(c), S->model, m);
    if (r == S_SAT) { Model keep = S->model; msg = cstr(conc(A[1])); try { err("assert", msg, m); } catch (PathEnd &) {} }
    else if (r == S_UNKNOWN) { truncWhy["solver-unknown-assert"]++; nTrunc++; if (optProfile) forkSites["UNKNOWN-ASSERT " + where() + "   " + exprStr(c, 12).substr(0, 2500)]++; }
    if (r != S_UNSAT) addC(S, c);
    return true; }
  case B_vp_fail: err("assert", cstr(conc(A[0])));
  case B_vp_observe: S->obs.push_back(A[0]); return true;
  case B_vp_reach: reach[cstr(conc(A[0]))]++; return true;
  case B_vp_heap_live: retc(S->live); return true;
  case B_vp_concrete: retc(conc(A[0])); return true;
  case B_vp_is_engine: retc(1); return true;
  case B_vp_is_symbolic: retc(A[0].e != nullptr); return true;
  case B_vp_debug: { fprintf(stderr, "[debug] %s %s\n", cstr(conc(A[0])).c_str(), A[1].e ? exprStr(A[1].e).c_str() : std::to_string((long long)A[1].v).c_str()); return true; }
  case B_vp_memswap: return true;
  case B_vp_strtod: { uint64_t a = conc(A[0]); std::string s = cstr(a); char *end; double d = strtod(s.c_str(), &end); uint64_t v; memcpy(&v, &d, 8); uint64_t pe = conc(A[1]); if (pe) store({pe, nullptr}, 0, 64, {a + (end - s.c_str()), nullptr}); retc(v); return true; }
  case B_vp_fmt_double: { uint64_t a = conc(A[0]), n = conc(A[1]); std::string f = cstr(conc(A[2])); uint64_t v = conc(A[3]); double d; memcpy(&d, &v, 8); char buf[512]; int k = snprintf(buf, sizeof buf, f.c_str(), d); for (int i = 0; i <= k && (uint64_t)i < n; i++) store({a + i, nullptr}, 0, 8, {(uint8_t)buf[i], nullptr}); retc((uint32_t)k); return true; }
  case B_ceil: un(O_FRINT, RM_CEIL); return true; case B_floor: un(O_FRINT, RM_FLOOR); return true; case B_trunc: un(O_FRINT, RM_TRUNC); return true; case B_round: un(O_FRINT, RM_RNA); return true; case B_rint: case B_nearbyint: un(O_FRINT, RM_RNE); return true; case B_sqrt: un(O_FSQRT, 0); return true;
  case B_fabs: ret(mkv(mkBin(O_AND, ex(A[0], 64), mkConst(0x7fffffffffffffffull, 64)))); return true;
  case B_fmod: uf(UF_FMOD, true); return true; case B_pow: uf(UF_POW, true); return true; case B_exp: uf(UF_EXP, false); return true; case B_log: uf(UF_LOG, false); return true; case B_sin: uf(UF_SIN, false); return true; case B_cos: uf(UF_COS, false); return true; case B_tan: uf(UF_TAN, false); return true; case B_asin: uf(UF_ASIN, false); return true; case B_acos: uf(UF_ACOS, false); return true; case B_atan: uf(UF_ATAN, false); return true;
  case B_memcpy: case B_memmove: { uint64_t n = conc(A[2]); uint64_t d = conc(A[0]), s = conc(A[1]); memcpy_(d, s, n); retc(d); return true; }
  case B_memset: { uint64_t n = conc(A[2]), d = conc(A[0]); if (n) { uint32_t id; ObjVec *sp; chk(d, n, true, id, sp); Val v = A[1]; if (v.e) v = mkv(mkExtract(v.e, 0, 8)); OD *o = sp->wrData(id); for (uint64_t i = 0; i < n; i++) wrRaw(o, (uint32_t)d + i, 8, v); } retc(d); return true; }
  }
  trunc_("builtin " + ci.name);
}

static void step(uint64_t budget) { // run the current state until it ends
  std::vector<Val> A;
  for (;;) {
    Frame *fr = &S->fr.back(); Func *f = fr->f; const Inst *code = f->code.data(); Val *R = &S->regs[fr->base]; const Val *K = P.K.data();
#define V(o) ((o) >= 0 ? R[o] : K[~(o)])
    bool sw = false;
    while (!sw) {
      const Inst &I = code[fr->pc]; nInstr++;
      switch (I.op) {
      case I_BIN: { const Val &a = V(I.a), &b = V(I.b); if (!a.e && !b.e && I.x != O_UDIV && I.x != O_SDIV && I.x != O_UREM && I.x != O_SREM) { uint64_t m = maskw(I.w); uint64_t r; switch (I.x) { case O_ADD: r = (a.v + b.v) & m; break; case O_SUB: r = (a.v - b.v) & m; break; case O_MUL: r = (a.v * b.v) & m; break; case O_AND: r = a.v & b.v; break; case O_OR: r = a.v | b.v; break; case O_XOR: r = a.v ^ b.v; break; default: r = bin(I.x, I.w, a, b).v; } R[I.d] = {r, nullptr}; } else { Val r = bin(I.x, I.w, a, b); S->regs[fr->base + I.d] = r; } fr->pc++; break; }
      case I_ICMP: R[I.d] = icmp(I.x, I.w, V(I.a), V(I.b)); fr->pc++; break;
      case I_FBIN: { Expr *x = ex(V(I.a), I.w), *y = ex(V(I.b), I.w); R[I.d] = mkv(I.x == O_UF ? mkUF(UF_FMOD, x, y) : mkBin((Op)I.x, x, y)); fr->pc++; break; }
      case I_FCMP: R[I.d] = fcmp(I.x, I.w, V(I.a), V(I.b)); fr->pc++; break;
      case I_FNEG: { const Val &a = V(I.a); R[I.d] = a.e ? mkv(mkBin(O_XOR, a.e, mkConst(1ull << (I.w - 1), I.w))) : Val{a.v ^ (1ull << (I.w - 1)), nullptr}; fr->pc++; break; }
      case I_TRUNC: { const Val &a = V(I.a); R[I.d] = a.e ? mkv(mkExtract(a.e, 0, I.w2)) : Val{a.v & maskw(I.w2), nullptr}; fr->pc++; break; }
      case I_ZEXT: { const Val &a = V(I.a); R[I.d] = a.e ? mkv(mkZext(a.e, I.w2)) : a; fr->pc++; break; }
      case I_SEXT: { const Val &a = V(I.a); R[I.d] = a.e ? mkv(mkSext(a.e, I.w2)) : Val{(uint64_t)sext64(a.v, I.w) & maskw(I.w2), nullptr}; fr->pc++; break; }
      case I_COPY: R[I.d] = V(I.a); fr->pc++; break;
      case I_FPTOSI: R[I.d] = mkv(mkUn(O_FTOSI, ex(V(I.a), I.w), I.w2)); fr->pc++; break;
      case I_FPTOUI: R[I.d] = mkv(mkUn(O_FTOUI, ex(V(I.a), I.w), I.w2)); fr->pc++; break;
      case I_SITOFP: R[I.d] = mkv(mkUn(O_SITOF, ex(V(I.a), I.w), I.w2)); fr->pc++; break;
      case I_UITOFP: R[I.d] = mkv(mkUn(O_UITOF, ex(V(I.a), I.w), I.w2)); fr->pc++; break;
      case I_FPCONV: R[I.d] = mkv(mkUn(O_FPCONV, ex(V(I.a), I.w), I.w2)); fr->pc++; break;
      case I_LOAD: { Val r = load(V(I.a), I.x, I.w); R[I.d] = r; fr->pc++; break; }
      case I_STORE: store(V(I.a), I.x, I.w, V(I.b)); fr->pc++; break;
      case I_GEP: { const GepInfo &g = f->geps[I.x]; Val b = V(I.a); bool sym = b.e; for (auto &t : g.terms) if (V(t.first).e) sym = true;
        if (!sym) { uint64_t v = b.v + g.cst; for (size_t i = 0; i < g.terms.size(); i++) v += (uint64_t)sext64(V(g.terms[i].first).v, g.widths[i]) * (uint64_t)g.terms[i].second; R[I.d] = {v, nullptr}; }
        else { Expr *e = mkBin(O_ADD, ex(b, 64), mkConst(g.cst, 64)); for (size_t i = 0; i < g.terms.size(); i++) { const Val &t = V(g.terms[i].first); Expr *x = mkSext(ex(t, g.widths[i]), 64); e = mkBin(O_ADD, e, mkBin(O_MUL, x, mkConst(g.terms[i].second, 64))); } R[I.d] = mkv(e); }
        fr->pc++; break; }
      case I_ALLOCA: { uint64_t n = conc(V(I.a)); uint64_t sz = n * I.x; if (sz > (1u << 26)) err("stack-overflow", "huge alloca"); R[I.d] = {newObj(S->stack, sz, 4, 0xbe), nullptr}; fr->pc++; break; }
      case I_SELECT: { const Val &c = V(I.c); if (!c.e) R[I.d] = c.v & 1 ? V(I.a) : V(I.b); else R[I.d] = mkv(mkIte(c.e, ex(V(I.a), I.w), ex(V(I.b), I.w))); fr->pc++; break; }
      case I_BR: takeEdge(f, I.x); if ((nInstr > budget || late)) return; if (++S->icount > optMaxInstr) err("hang", "instruction budget of one path exceeded"); break;
      case I_CBR: { const Val &c = V(I.a); bool t = c.e ? decide(c.e) : (c.v & 1); takeEdge(f, t ? I.x : (uint32_t)I.b); if ((nInstr > budget || late)) return; if (++S->icount > optMaxInstr) err("hang", "instruction budget of one path exceeded"); break; }
      case I_SWITCH: { const SwitchInfo &si = f->switches[I.x]; Val c = V(I.a); uint32_t e = si.def;
        if (!c.e) { for (auto &k : si.cases) if (k.first == c.v) { e = k.second; break; } }
        else { // group the cases by target so that one branch covers all values with the same target
          uint64_t v = ev(c.e); for (auto &k : si.cases) if (k.first == v) { e = k.second; break; }
          auto same = [&](uint32_t x) { return x == e || (f->edges[x].target == f->edges[e].target && f->edges[x].copies == f->edges[e].copies); };
          Expr *cond;
          if (same(si.def)) { cond = mkConst(1, 1); for (auto &k : si.cases) if (!same(k.second)) cond = mkBin(O_AND, cond, mkNot(mkBin(O_EQ, c.e, mkConst(k.first, I.w)))); }
          else { cond = mkConst(0, 1); for (auto &k : si.cases) if (same(k.second)) cond = mkBin(O_OR, cond, mkBin(O_EQ, c.e, mkConst(k.first, I.w))); }
          decide(cond); }
        takeEdge(f, e); break; }
      case I_CALL: case I_ICALL: {
        CallInfo &ci = f->calls[I.x]; Func *g = ci.f; int b = ci.builtin;
        if (I.op == I_ICALL) { uint64_t a = conc(V(I.a)); if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 >= P.funcs.size()) err("bad-call", "call through invalid function pointer"); g = P.funcs[(a - FBASE) / 16]; b = g->builtin; }
        if (b >= 0) { A.clear(); for (auto &a : ci.args) A.push_back(V(a.reg)); 
          if (optVerbose) fprintf(stderr, "builtin %s\n", ci.name.c_str());
          if (builtin(I, ci, b, A)) { fr = &S->fr.back(); fr->pc++; } sw = true; break; }
        if (!g->defined) trunc_("external " + g->name);
        A.clear(); for (auto &a : ci.args) A.push_back(V(a.reg));
        if (++S->icount > optMaxInstr) err("hang", "instruction budget of one path exceeded");
        for (size_t i = 0; i < ci.args.size(); i++) if (ci.args[i].byval) (void)conc(A[i]);
        if (A.size() < g->params.size()) err("bad-call", "too few arguments for " + g->name);
        pushFrame(g, I.d, ci.nret); Frame &nf = S->fr.back();
        for (size_t i = 0; i < ci.args.size(); i++) if (ci.args[i].byval) { uint64_t c = newObj(S->stack, ci.args[i].byval, 4, 0); memcpy_(c, A[i].v, ci.args[i].byval); A[i] = {c, nullptr}; }
        Val *NR = &S->regs[nf.base]; for (size_t i = 0; i < g->params.size(); i++) NR[g->params[i]] = A[i];
        if (g->vararg) { size_t n = A.size() - g->params.size(); uint64_t c = newObj(S->stack, n * 8 + 8, 4, 0); for (size_t i = 0; i < n; i++) { Val v = A[g->params.size() + i]; if (v.e && v.e->w < 64) v.e = mkZext(v.e, 64); store({c + 8 * i, nullptr}, 0, 64, v); } nf.va = c; }
        sw = true; break; }
      case I_RET: { const RetInfo &ri = f->rets[I.x]; Val rv[8]; size_t n = std::min<size_t>(8, ri.regs.size()); for (size_t i = 0; i < n; i++) rv[i] = V(ri.regs[i]); int32_t d = fr->ret; int nr = fr->nret; popFrame(); if (S->fr.empty()) throw PathEnd{PE_DONE}; Frame &c = S->fr.back(); if (d >= 0) for (size_t i = 0; i < n && (int)i < nr; i++) S->regs[c.base + d + i] = rv[i]; c.pc++; sw = true; break; }
      case I_UNREACH: err("unreachable", "unreachable code executed");
      case I_TRAP: err("trap", "trap executed");
      case I_VASTART: { uint64_t a = conc(V(I.a)); store({a, nullptr}, 0, 32, {48, nullptr}); store({a, nullptr}, 4, 32, {176, nullptr}); store({a, nullptr}, 8, 64, {fr->va, nullptr}); store({a, nullptr}, 16, 64, {0, nullptr}); fr->pc++; break; }
      case I_VACOPY: { uint64_t a = conc(V(I.a)), b = conc(V(I.b)); memcpy_(a, b, 24); fr->pc++; break; }
      case I_MEMCPY: { uint64_t n = conc(V(I.c)); uint64_t d = conc(V(I.a)), s = conc(V(I.b)); memcpy_(d, s, n); fr->pc++; break; }
      case I_MEMSET: { A.clear(); A.push_back(V(I.a)); A.push_back(V(I.b)); A.push_back(V(I.c)); CallInfo ci; Inst J = I; J.d = -1; builtin(J, ci, B_memset, A); fr->pc++; break; }
      case I_MINMAX: { Val a = V(I.a), b = V(I.b); using namespace llvm; Val c = icmp(I.x == 0 ? CmpInst::ICMP_SGT : I.x == 1 ? CmpInst::ICMP_SLT : I.x == 2 ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT, I.w, a, b); R[I.d] = c.e ? mkv(mkIte(c.e, ex(a, I.w), ex(b, I.w))) : c.v ? a : b; fr->pc++; break; }
      case I_FPCLASS: { Expr *x = ex(V(I.a), I.w); unsigned mb = I.w == 64 ? 52 : 23; uint64_t inf = maskw(I.w - 1) & ~maskw(mb); Expr *mag = mkBin(O_AND, x, mkConst(maskw(I.w - 1), I.w)); Expr *neg = mkNot(mkBin(O_EQ, mkExtract(x, I.w - 1, 1), mkConst(0, 1)));
        auto sgn = [&](Expr *c, bool n, bool p) { Expr *r = mkConst(0, 1); if (n) r = mkBin(O_OR, r, mkBin(O_AND, c, neg)); if (p) r = mkBin(O_OR, r, mkBin(O_AND, c, mkNot(neg))); return n && p ? c : r; };
        Expr *nan = mkBin(O_ULT, mkConst(inf, I.w), mag), *isinf = mkBin(O_EQ, mag, mkConst(inf, I.w)), *zero = mkBin(O_EQ, mag, mkConst(0, I.w)), *nz = mkNot(zero), *sub = mkBin(O_AND, nz, mkBin(O_ULT, mag, mkConst(1ull << mb, I.w))), *nrm = mkBin(O_AND, mkBin(O_ULE, mkConst(1ull << mb, I.w), mag), mkBin(O_ULT, mag, mkConst(inf, I.w)));
        Expr *quiet = mkNot(mkBin(O_EQ, mkExtract(x, mb - 1, 1), mkConst(0, 1))); Expr *r = mkConst(0, 1); unsigned m = I.x;
        if ((m & 3) == 3) r = mkBin(O_OR, r, nan); else if (m & 1) r = mkBin(O_OR, r, mkBin(O_AND, nan, mkNot(quiet))); else if (m & 2) r = mkBin(O_OR, r, mkBin(O_AND, nan, quiet));
        r = mkBin(O_OR, r, sgn(isinf, m & 4, m & 512)); r = mkBin(O_OR, r, sgn(nrm, m & 8, m & 256)); r = mkBin(O_OR, r, sgn(sub, m & 16, m & 128)); r = mkBin(O_OR, r, sgn(zero, m & 32, m & 64)); R[I.d] = mkv(r); fr->pc++; break; }
      case I_OVF: { Val a = V(I.a), b = V(I.b); unsigned w = I.w; Expr *x = ex(a, w), *y = ex(b, w); Op op = (I.x % 3) == 0 ? O_ADD : (I.x % 3) == 1 ? O_SUB : O_MUL; Expr *r = mkBin(op, x, y), *o; Expr *z = mkConst(0, w);
        if (I.x == 0) o = mkBin(O_EQ, mkBin(O_SLT, r, x), mkNot(mkBin(O_SLT, y, z))), o = mkBin(O_AND, o, mkNot(mkBin(O_EQ, y, z)));
        else if (I.x == 1) o = mkBin(O_AND, mkNot(mkBin(O_EQ, y, z)), mkBin(O_EQ, mkBin(O_SLT, x, r), mkNot(mkBin(O_SLT, y, z))));
        else if (I.x == 3) o = mkBin(O_ULT, r, x); else if (I.x == 4) o = mkBin(O_ULT, x, y);
        else if (w <= 32) { Expr *r2 = I.x == 2 ? mkBin(O_MUL, mkSext(x, 64), mkSext(y, 64)) : mkBin(O_MUL, mkZext(x, 64), mkZext(y, 64)); o = mkNot(mkBin(O_EQ, r2, I.x == 2 ? mkSext(r, 64) : mkZext(r, 64))); }
        else { Expr *nz = mkNot(mkBin(O_EQ, x, z)); Expr *q = mkBin(I.x == 2 ? O_SDIV : O_UDIV, r, x); o = mkBin(O_AND, nz, mkNot(mkBin(O_EQ, q, y))); if (I.x == 2) o = mkBin(O_OR, o, mkBin(O_AND, mkBin(O_EQ, x, mkConst(~0ull, w)), mkBin(O_EQ, y, mkConst(1ull << (w - 1), w)))); }
        R[I.d] = mkv(r); R[I.d + 1] = mkv(o); fr->pc++; break; }
      default: trunc_("op " + std::to_string(I.op));
      }
    }
  }
}

static std::string hex(const std::vector<uint8_t> &v) { std::string s; char b[3]; for (auto x : v) { snprintf(b, 3, "%02x", x); s += b; } return s; }
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static uint64_t finishObs() { uint64_t h = 0xcbf29ce484222325ull; for (auto &v : S->obs) { uint64_t x = v.e ? ev(v.e) : v.v; for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 0xff; h *= 0x100000001b3ull; } } return h; }

static std::chrono::steady_clock::time_point g_t0; static double el() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static void report(bool timeout) {
  bool complete = work.empty() && !timeout && nTrunc == 0 && nDropped == 0;
  if (optProfile) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &x : forkSites) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) printf("forks %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  FILE *o = optOut ? fopen(optOut, "w") : stdout;
  fprintf(o, "{\"complete\":%s,\"paths\":%llu,\"assumed_out\":%llu,\"skipped\":%llu,\"error_paths\":%llu,\"truncated\":%llu,\"pending\":%llu,\"forks\":%llu,\"instructions\":%llu,\"time_s\":%.3f,", complete ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nAssumed, (unsigned long long)nSkipped, (unsigned long long)nErrPaths, (unsigned long long)nTrunc, (unsigned long long)work.size(), (unsigned long long)nForks, (unsigned long long)nInstr, el());
  fprintf(o, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"z3_calls\":%llu,\"z3_time_s\":%.3f,\"max_query_s\":%.3f},", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.z3calls, g_ss.z3time, g_ss.maxq);
  fprintf(o, "\"asserts\":%llu,\"assert_queries\":%llu,\"max_vars\":%llu,\"max_pc\":%llu,", (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)maxVars, (unsigned long long)maxPc);
  fprintf(o, "\"reach\":{"); bool first = true; for (auto &r : reach) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(r.first).c_str(), (unsigned long long)r.second); first = false; } fprintf(o, "},\"truncated_why\":{"); first = true; for (auto &r : truncWhy) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\"functions\":["); first = true; for (auto *f : P.funcs) if (f->executed && f->file.find("/repo/") == 0) { fprintf(o, "%s%s", first ? "" : ",", js(f->name).c_str()); first = false; }
  fprintf(o, "],\"errors\":["); first = true; for (auto &r : errors) { fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"input\":\"%s\"}", first ? "" : ",", js(r.kind).c_str(), js(r.msg).c_str(), js(r.where).c_str(), hex(r.in).c_str()); first = false; }
  fprintf(o, "],\"samples\":["); first = true; for (auto &r : samples) { fprintf(o, "%s{\"input\":\"%s\",\"obs\":\"%016llx\"}", first ? "" : ",", hex(r.in).c_str(), (unsigned long long)r.obs); first = false; }
  fprintf(o, "]}\n"); if (optOut) fclose(o);
  fflush(nullptr); _exit(0);
}
// z3 sometimes ignores its time limit: when one query outlives the budget, write what was decided so far
static void *watchdog(void *) {
  for (;;) { usleep(200000); if (el() > optTime) late = true; double t = g_queryStart; if (t > 0 && el() > optTime + 3 && el() - t > g_timeoutMs / 1000.0 + 3) { g_reporting = 1; usleep(100000); if (g_queryStart != t) { g_reporting = 0; continue; } truncWhy["query past its time limit"]++; nTrunc++; report(true); } }
}
extern bool g_noIte; static int g_argc; static char **g_argv; static int g_rc = 0;
static void *mainThread(void *) {
  int argc = g_argc; char **argv = g_argv; const char *bc = nullptr; std::string entry = "vp_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--max-instr") optMaxInstr = atoll(nx().c_str()); else if (a == "--timeout-ms") g_timeoutMs = atoi(nx().c_str()); else if (a == "--seed") optSeed = atoi(nx().c_str()); else if (a == "--search") optSearch = nx(); else if (a == "--out") optOut = argv[++i]; else if (a == "--entry") entry = nx(); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--max-errors") optMaxErrors = atoi(nx().c_str()); else if (a == "--fix") optFix.push_back(atoi(nx().c_str())); else if (a == "-v") optVerbose = true; else if (a == "--profile") optProfile = true; else if (a == "--dump-slow") g_dumpSlow = true; else if (a == "--noite") g_noIte = true; else if (a == "--max-depth") optMaxDepth = atoi(nx().c_str()); else bc = argv[i]; }
  rng.seed(optSeed);
  std::string e; if (!loadModule(bc, e)) { fprintf(stderr, "load error: %s\n", e.c_str()); g_rc = 3; return nullptr; }
  Func *mf = P.byName.count(entry) ? P.byName[entry] : nullptr; if (!mf || !mf->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); g_rc = 3; return nullptr; }
  atexit([] { if (g_queryStart > 0) { truncWhy["z3 gave up"]++; nTrunc++; report(true); } });
  g_t0 = std::chrono::steady_clock::now(); g_now = el; pthread_t wt; pthread_create(&wt, nullptr, watchdog, nullptr);
  State *s0 = new State; S = s0; s0->model = std::make_shared<std::vector<uint8_t>>();
  s0->heap.push({nullptr, 0, 0, 0});
  for (auto &g : P.globals) { OD *d = odNew(g.size); memcpy(d->b, g.init.data(), g.size); uint32_t i = s0->heap.push({d, (uint32_t)g.size, (uint8_t)(g.constant ? 2 : 1), 1}); if (((uint64_t)i << OSH) != g.addr) { fprintf(stderr, "global layout\n"); abort(); } }
  nGlobals = s0->heap.n; pushFrame(mf, -1, 0); work.push_back(s0); S = nullptr;
  bool timeout = false;
  while (!work.empty()) {
    if (el() > optTime) { timeout = true; break; }
    if (errors.size() >= optMaxErrors) break;
    size_t k = work.size() - 1; if (optSearch == "random" && work.size() < optPending) { k = rng() % work.size(); std::swap(work[k], work.back()); }
    S = work.back(); work.pop_back();
    bool done = false;
    while (!done) {
      try { step(nInstr + 20000000); done = false; if (el() > optTime) { timeout = true; work.push_back(S); S = nullptr; break; } }
      catch (PathEnd &pe) {
        done = true;
        switch (pe.why) { case PE_DONE: { nPaths++; uint64_t h = 0; bool take = samples.size() < optSamples; size_t pos = samples.size(); sampleSeen++; if (!take) { uint64_t r = rng() % sampleSeen; if (r < optSamples) { take = true; pos = r; } } if (take) { h = finishObs(); Sample sm; sm.in.assign(S->model->begin(), S->model->end()); sm.in.resize(S->nvars, 0); sm.obs = h; if (pos == samples.size()) samples.push_back(sm); else samples[pos] = sm; } break; }
        case PE_ASSUME: nAssumed++; break; case PE_SKIP: nSkipped++; break; case PE_ERROR: break; default: nTrunc++; }
      }
    }
    if (S) { if (S->pc.size() > maxPc) maxPc = S->pc.size(); delete S; S = nullptr; }
  }
  report(timeout);
  return nullptr;
}
int main(int argc, char **argv) {
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("thread"); return 3; } pthread_join(t, nullptr); return g_rc;
}
