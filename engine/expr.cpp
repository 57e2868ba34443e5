#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <map>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

uint64_t g_nexpr = 0;

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

struct EHash { size_t operator()(const Expr *e) const {
  uint64_t h = e->op; h = mix(h, e->w); h = mix(h, e->aux); h = mix(h, e->cv);
  h = mix(h, (uint64_t)e->a); h = mix(h, (uint64_t)e->b); h = mix(h, (uint64_t)e->c); return h; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->aux == y->aux && x->cv == y->cv && x->a == y->a && x->b == y->b && x->c == y->c; } };

static std::unordered_set<Expr *, EHash, EEq> &tab() { static std::unordered_set<Expr *, EHash, EEq> t; return t; }
static std::set<VarSet> &vsets() { static std::set<VarSet> s; return s; }
static const VarSet *internVS(const VarSet &v) { return &*vsets().insert(v).first; }
static const VarSet *mergeVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  static std::map<std::pair<const VarSet *, const VarSet *>, const VarSet *> memo;
  auto k = a < b ? std::make_pair(a, b) : std::make_pair(b, a);
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarSet *p = internVS(r); memo[k] = p; return p;
}

static char *arena = nullptr; static size_t arenaLeft = 0;
static Expr *newExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char *)malloc(arenaLeft); }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}

static Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t cv, unsigned aux) {
  Expr k; k.op = op; k.w = w; k.aux = aux; k.cv = cv; k.a = a; k.b = b; k.c = c;
  auto it = tab().find(&k); if (it != tab().end()) return *it;
  Expr *e = newExpr();
  *e = k; e->id = g_nexpr++; e->evEpoch = 0; e->z_bv = e->z_bl = e->z_fp = nullptr;
  static const VarSet *emptyVS = internVS({});
  const VarSet *v = emptyVS;
  if (op == O_VAR) v = internVS({(uint32_t)cv});
  if (a) v = mergeVS(v, a->vars);
  if (b) v = mergeVS(v, b->vars);
  if (c) v = mergeVS(v, c->vars);
  e->vars = v;
  e->hasFP = (op >= O_FADD) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
  uint64_t sz = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0);
  e->size = sz > 0xffffffu ? 0xffffff : sz;
  tab().insert(e);
  return e;
}

Expr *mkConst(uint64_t v, unsigned w) { return mk(O_CONST, w, 0, 0, 0, v & maskw(w), 0); }
Expr *mkVar(uint32_t idx) { return mk(O_VAR, 8, 0, 0, 0, idx, 0); }

static double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float bf(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static uint64_t fb(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a &= m; b &= m;
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case O_SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m;
  case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: { int64_t x = sext64(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sext64(a, w) < sext64(b, w);
  case O_SLE: return sext64(a, w) <= sext64(b, w);
  case O_FADD: return w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b));
  case O_FSUB: return w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b));
  case O_FMUL: return w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b));
  case O_FDIV: return w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b));
  case O_FOEQ: return w == 64 ? bd(a) == bd(b) : bf(a) == bf(b);
  case O_FOLT: return w == 64 ? bd(a) < bd(b) : bf(a) < bf(b);
  case O_FOLE: return w == 64 ? bd(a) <= bd(b) : bf(a) <= bf(b);
  case O_FUNO: return w == 64 ? (std::isnan(bd(a)) || std::isnan(bd(b))) : (std::isnan(bf(a)) || std::isnan(bf(b)));
  default: fprintf(stderr, "foldBin op %d\n", op); abort();
  }
}

uint64_t foldUn(Op op, uint64_t a, unsigned wa, unsigned w, unsigned aux) {
  switch (op) {
  case O_FSQRT: return w == 64 ? db(sqrt(bd(a))) : fb(sqrtf(bf(a)));
  case O_FRINT: { double d = wa == 64 ? bd(a) : bf(a); switch (aux) { case RM_CEIL: d = ceil(d); break; case RM_FLOOR: d = floor(d); break; case RM_TRUNC: d = trunc(d); break; case RM_RNE: d = nearbyint(d); break; case RM_RNA: d = round(d); } return w == 64 ? db(d) : fb((float)d); }
  case O_FTOSI: { double d = wa == 64 ? bd(a) : bf(a); if (w == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d; }
    double lo = -ldexp(1, w - 1), hi = ldexp(1, w - 1); double t = trunc(d); if (!(t >= lo && t < hi)) return (1ull << (w - 1)); return (uint64_t)(int64_t)t & maskw(w); }
  case O_FTOUI: { double d = wa == 64 ? bd(a) : bf(a); double hi = ldexp(1, w); double t = trunc(d); if (!(t >= 0 && t < hi)) return (1ull << (w - 1)); return (uint64_t)t & maskw(w); }
  case O_SITOF: return w == 64 ? db((double)sext64(a, wa)) : fb((float)sext64(a, wa));
  case O_UITOF: return w == 64 ? db((double)(a & maskw(wa))) : fb((float)(a & maskw(wa)));
  case O_FPCONV: return w == 64 ? db((double)bf(a)) : fb((float)bd(a));
  default: abort();
  }
}

uint64_t foldUF(unsigned which, uint64_t a, uint64_t b) {
  double x = bd(a), y = bd(b);
  switch (which) {
  case UF_FMOD: return db(fmod(x, y)); case UF_POW: return db(pow(x, y)); case UF_EXP: return db(exp(x)); case UF_LOG: return db(log(x));
  case UF_SIN: return db(sin(x)); case UF_COS: return db(cos(x)); case UF_TAN: return db(tan(x)); case UF_ASIN: return db(asin(x));
  case UF_ACOS: return db(acos(x)); case UF_ATAN: return db(atan(x));
  }
  abort();
}

static bool isC(Expr *e) { return e->op == O_CONST; }

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(~a->cv, a->w);
  if (a->op == O_NOT) return a->a;
  if (a->w == 1) {
    if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a);
    if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
    if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a);
    if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a);
  }
  return mk(O_NOT, a->w, a, 0, 0, 0, 0);
}

Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (isC(c)) return c->cv ? t : f;
  if (t == f) return t;
  if (c->op == O_NOT) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->cv ? c : mkNot(c);
    if (isC(t)) return t->cv ? mkBin(O_OR, c, f) : mkBin(O_AND, mkNot(c), f);
    if (isC(f)) return f->cv ? mkBin(O_OR, mkNot(c), t) : mkBin(O_AND, c, t);
  }
  if (t->op == O_ITE && t->a == c) t = t->b;
  if (f->op == O_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  return mk(O_ITE, t->w, c, t, f, 0, 0);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->cv >> lo, w);
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->a, lo + (unsigned)a->cv, w);
  case O_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case O_ZEXT: { unsigned lw = a->a->w; if (lo + w <= lw) return mkExtract(a->a, lo, w); if (lo >= lw) return mkConst(0, w);
    return mkZext(mkExtract(a->a, lo, lw - lo), w); }
  case O_SEXT: { unsigned lw = a->a->w; if (lo + w <= lw) return mkExtract(a->a, lo, w); if (lo < lw) return mkSext(mkExtract(a->a, lo, lw - lo), w); break; }
  case O_AND: case O_OR: case O_XOR:
    if (isC(a->b) || a->size < 20) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case O_NOT: return mkNot(mkExtract(a->a, lo, w));
  case O_ADD: case O_SUB: case O_MUL: if (lo == 0 && a->size < 64) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case O_ITE: if ((isC(a->b) && isC(a->c)) || (a->b->op == O_CONST && a->c->op == O_ITE && a->size < 600) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
  default: break;
  }
  return mk(O_EXTRACT, w, a, 0, 0, lo, 0);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->cv << lo->w) | lo->cv, hi->w + lo->w);
  if (isC(hi) && hi->cv == 0) return mkZext(lo, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->cv == lo->cv + lo->w)
    return mkExtract(hi->a, (unsigned)lo->cv, hi->w + lo->w);
  // hi = extract(x, k..), lo = zext/.. pieces
  if (hi->op == O_EXTRACT && hi->a->w > 0 && lo == mkExtract(hi->a, (unsigned)hi->cv - std::min<unsigned>(hi->cv, lo->w), lo->w) && hi->cv >= lo->w)
    return mkExtract(hi->a, (unsigned)hi->cv - lo->w, hi->w + lo->w);
  // lo is concat(x, y): try merging hi with x
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->cv == lo->a->cv + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->cv, hi->w + lo->a->w), lo->b);
  // hi is concat(x, y): try merging lo with y
  if (hi->op == O_CONCAT && ((hi->b->op == O_EXTRACT && lo->op == O_EXTRACT && hi->b->a == lo->a && hi->b->cv == lo->cv + lo->w) || (isC(hi->b) && isC(lo))))
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->op == O_ZEXT && hi->a->op != O_CONST) // zext(x) . lo  ->  zext(x . lo)
    return mkZext(mkConcat(hi->a, lo), hi->w + lo->w);
  return mk(O_CONCAT, hi->w + lo->w, hi, lo, 0, 0, 0);
}

Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->cv, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return mk(O_ZEXT, w, a, 0, 0, 0, 0);
}
static uint64_t umax(Expr *e, int d = 4);
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((uint64_t)sext64(a->cv, a->w), w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  if (a->w > 1 && umax(a, 4) < 1ull << (a->w - 1)) return mkZext(a, w);
  return mk(O_SEXT, w, a, 0, 0, 0, 0);
}

static Expr *tabulate(Expr *e, bool fp = false);
Expr *mkUn(Op op, Expr *a, unsigned w, unsigned aux) {
  if (isC(a)) return mkConst(foldUn(op, a->cv, a->w, w, aux), w);
  if ((op == O_FTOSI || op == O_FTOUI) && a->vars->size() == 1) { Expr *t = tabulate(mk(op, w, a, 0, 0, 0, aux), true); if (t) return t; }
  return mk(op, w, a, 0, 0, 0, aux);
}
Expr *mkUF(unsigned which, Expr *a, Expr *b) {
  if (!b) b = mkConst(0, 64);
  if (isC(a) && isC(b)) return mkConst(foldUF(which, a->cv, b->cv), 64);
  return mk(O_UF, 64, a, b, 0, 0, which);
}

// upper bound on the unsigned value of e (cheap)
static uint64_t umax(Expr *e, int d) {
  if (isC(e)) return e->cv;
  if (d) switch (e->op) {
    case O_ZEXT: return umax(e->a, d - 1);
    case O_EXTRACT: return std::min(maskw(e->w), umax(e->a, d - 1) >> e->cv);
    case O_AND: return std::min(umax(e->a, d - 1), umax(e->b, d - 1));
    case O_OR: case O_XOR: { uint64_t m = umax(e->a, d - 1) | umax(e->b, d - 1); return m ? ~0ull >> __builtin_clzll(m) : 0; }
    case O_SEXT: { uint64_t m = umax(e->a, d - 1); if (m < 1ull << (e->a->w - 1)) return m; break; }
    case O_UREM: if (isC(e->b) && e->b->cv) return e->b->cv - 1; break;
    case O_ITE: return std::max(umax(e->b, d - 1), umax(e->c, d - 1));
    case O_LSHR: if (isC(e->b) && e->b->cv < e->w) return umax(e->a, d - 1) >> e->b->cv; break;
    case O_UDIV: if (isC(e->b) && e->b->cv) return umax(e->a, d - 1) / e->b->cv; break;
    case O_ADD: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1); uint64_t s; if (!__builtin_add_overflow(x, y, &s) && s <= maskw(e->w)) return s; break; }
    case O_MUL: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1); uint64_t s; if (!__builtin_mul_overflow(x, y, &s) && s <= maskw(e->w)) return s; break; }
    default: break;
  }
  return maskw(e->w);
}

// lower bound on the unsigned value of e (cheap)
static uint64_t umin(Expr *e, int d = 4) {
  if (isC(e)) return e->cv;
  if (d) switch (e->op) {
    case O_ZEXT: return umin(e->a, d - 1);
    case O_ITE: return std::min(umin(e->b, d - 1), umin(e->c, d - 1));
    case O_OR: return std::max(umin(e->a, d - 1), umin(e->b, d - 1));
    case O_ADD: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1), s; if (!__builtin_add_overflow(x, y, &s) && s <= maskw(e->w)) return umin(e->a, d - 1) + umin(e->b, d - 1); break; }
    default: break;
  }
  return 0;
}

// an if-then-else tree whose leaves are all constants (at most n leaves)
static bool constTree(Expr *e, int &n) { if (isC(e)) return --n >= 0; return e->op == O_ITE && e->w > 1 && constTree(e->b, n) && constTree(e->c, n); }
static Expr *mapTree(Expr *e, Op op, Expr *k, bool left) { return isC(e) ? (left ? mkBin(op, k, e) : mkBin(op, e, k)) : mkIte(e->a, mapTree(e->b, op, k, left), mapTree(e->c, op, k, left)); }
// a remainder over one input byte is rewritten to a decision tree over that byte (evaluated for all 256 values), so that no multiplier reaches the solver
static Expr *tabTree(Expr *v, const uint64_t *t, unsigned bit, unsigned w) {
  bool same = true; for (unsigned i = 1; i < (1u << bit); i++) if (t[i] != t[0]) { same = false; break; }
  if (same) return mkConst(t[0], w);
  unsigned h = 1u << (bit - 1); return mkIte(mkBin(O_EQ, mkExtract(v, bit - 1, 1), mkConst(1, 1)), tabTree(v, t + h, bit - 1, w), tabTree(v, t, bit - 1, w));
}
static Expr *tabulate(Expr *e, bool fp) { // nullptr when not applicable
  static std::unordered_map<uint32_t, Expr *> memo; if (e->vars->size() != 1 || (e->hasFP && !fp) || e->size > 3000) return nullptr;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Expr *&r = memo[e->id]; r = nullptr;
  uint32_t x = e->vars->front(); std::vector<uint8_t> m(x + 1, 0); std::vector<uint64_t> t(256); for (int i = 0; i < 256; i++) { m[x] = i; evNewEpoch(); t[i] = evalExpr(e, m) & maskw(e->w); }
  Expr *q = tabTree(mkVar(x), t.data(), 8, e->w); memo[e->id] = q; return q;
}
static Expr *narrowDiv(Op op, Expr *a, uint64_t bv, unsigned w) { // divide in as few bits as the operands need
  uint64_t m = umax(a, 6) | bv; unsigned k = 64 - __builtin_clzll(m); if (k >= w) return nullptr;
  return mkZext(mkBin(op, mkExtract(a, 0, k), mkConst(bv, k)), w);
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
  if ((a->op == O_ITE && isC(b)) || (b->op == O_ITE && isC(a))) { bool left = isC(a); int n = 8; if (constTree(left ? b : a, n) && a->w == b->w && a->w > 1) return mapTree(left ? b : a, op, left ? a : b, left); }
  unsigned w = a->w;
  bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_FOEQ && op <= O_FUNO);
  unsigned rw = cmp ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->cv, b->cv, w), rw);
  if (op >= O_UDIV && op <= O_SREM && (a->vars->size() == 1 ? (isC(b) ? op == O_SDIV || op == O_SREM : b->vars->size() == 0 || *b->vars == *a->vars) : isC(a) && b->vars->size() == 1)) { if (!(isC(b) && (b->cv == 0 || b->cv == 1))) { Expr *t = tabulate(mk(op, rw, a, b, 0, 0, 0)); if (t) return t; } }
  if (op >= O_FOEQ && op <= O_FUNO && (a->vars->size() == 1 || b->vars->size() == 1)) { Expr *t = tabulate(mk(op, 1, a, b, 0, 0, 0), true); if (t) return t; }
  switch (op) { // commutative: constant to the right, otherwise by id
  case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: case O_FOEQ: case O_FUNO:
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    break;
  default: break;
  }
  uint64_t M = maskw(w);
  bool bc = isC(b), ac = isC(a); uint64_t bv = bc ? b->cv : 0;
  switch (op) {
  case O_ADD:
    if (bc && bv == 0) return a;
    for (int i = 0; i < 2; i++) { Expr *x = i ? b : a, *y = i ? a : b; if (x->op == O_CONCAT && isC(x->b) && x->b->cv == 0 && y->op == O_ZEXT && y->a->w <= x->b->w) return mkBin(O_OR, x, y); }
    if (bc && a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(bv + a->b->cv, w));
    if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
    if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
    if (bc && a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(O_ADD, a, mkConst(0 - bv, w));
    if (a->op == O_ADD && a->a == b) return a->b;
    if (a->op == O_ADD && a->b == b) return a->a;
    break;
  case O_MUL:
    if (bc && bv == 0) return b;
    if (bc && bv == 1) return a;
    if (bc && (bv & (bv - 1)) == 0) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(bv), w));
    break;
  case O_UDIV: if (bc && bv == 1) return a; if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(bv), w)); if (bc && bv && umax(a) < bv) return mkConst(0, w); if (bc && bv) { Expr *t = narrowDiv(op, a, bv, w); if (t) return t; } break;
  case O_UREM: if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(O_AND, a, mkConst(bv - 1, w)); if (bc && bv && umax(a) < bv) return a; if (bc && bv && a->vars->size() == 1) { Expr *t = tabulate(mk(O_UREM, w, a, b, 0, 0, 0)); if (t) return t; } if (bc && bv) { Expr *t = narrowDiv(op, a, bv, w); if (t) return t; } break;
  case O_SDIV: if (bc && bv == 1) return a; break;
  case O_AND:
    if (bc && bv == 0) return b;
    if (bc && bv == M) return a;
    if (a == b) return a;
    if (bc && a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(bv & a->b->cv, w));
    if (bc && a->op == O_ZEXT && w > 1) { uint64_t lm = maskw(a->a->w); if ((bv & lm) == lm) return a; return mkZext(mkBin(O_AND, a->a, mkConst(bv & lm, a->a->w)), w); }
    if (bc && w > 1 && ((bv + 1) & bv) == 0) { unsigned k = __builtin_popcountll(bv); return mkZext(mkExtract(a, 0, k), w); }
    if (w == 1 && ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a))) return mkConst(0, 1);
    break;
  case O_OR:
    if (bc && bv == 0) return a;
    if (bc && bv == M) return b;
    if (a == b) return a;
    if (w == 1 && ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a))) return mkConst(1, 1);
    for (int i = 0; i < 2; i++, std::swap(a, b)) { // split at known zero bits
      if (a->op == O_ZEXT && a->a->w < w) { unsigned k = a->a->w; return mkConcat(mkExtract(b, k, w - k), mkBin(O_OR, a->a, mkExtract(b, 0, k))); }
      if (a->op == O_CONCAT && isC(a->b) && a->b->cv == 0) { unsigned k = a->b->w; return mkConcat(mkBin(O_OR, a->a, mkExtract(b, k, w - k)), mkExtract(b, 0, k)); }
    }
    break;
  case O_XOR:
    if (bc && bv == 0) return a;
    if (a == b) return mkConst(0, w);
    if (bc && bv == M) return mkNot(a);
    if (bc && a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(bv ^ a->b->cv, w));
    if (bc && a->op == O_ZEXT && a->a->w == 1 && bv == 1) return mkZext(mkNot(a->a), w);
    break;
  case O_SHL:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return mkConst(0, w);
    if (bc) return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv));
    break;
  case O_LSHR:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return mkConst(0, w);
    if (bc) return mkZext(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
    break;
  case O_ASHR:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) { bv = w - 1; b = mkConst(bv, w); }
    if (bc) return mkSext(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && bc) return bv ? a : mkNot(a);
    if (bc) {
      if (umin(a) > bv || umax(a) < bv) return mkConst(0, 1);
      if (a->size > 100 && a->vars->size() == 1) { Expr *t = tabulate(mk(O_EQ, 1, a, b, 0, 0, 0)); if (t) return t; }
      switch (a->op) {
      case O_ZEXT: if (bv & ~maskw(a->a->w)) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(bv, a->a->w));
      case O_SEXT: { Expr *t = mkConst(bv, a->a->w); if ((uint64_t)(sext64(t->cv, t->w) & (int64_t)M) != bv) return mkConst(0, 1); return mkBin(O_EQ, a->a, t); }
      case O_CONCAT: return mkBin(O_AND, mkBin(O_EQ, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(O_EQ, a->b, mkConst(bv, a->b->w)));
      case O_ADD: if (isC(a->b)) return mkBin(O_EQ, a->a, mkConst(bv - a->b->cv, w)); break;
      case O_XOR: if (isC(a->b)) return mkBin(O_EQ, a->a, mkConst(bv ^ a->b->cv, w)); break;
      case O_NOT: return mkBin(O_EQ, a->a, mkConst(~bv, w));
      case O_ITE:
        if (isC(a->b) && isC(a->c)) { bool t = a->b->cv == bv, f = a->c->cv == bv; return t ? (f ? mkConst(1, 1) : a->a) : (f ? mkNot(a->a) : mkConst(0, 1)); }
        if (isC(a->b)) { Expr *r = mkBin(O_EQ, a->c, b); return a->b->cv == bv ? mkBin(O_OR, a->a, r) : mkBin(O_AND, mkNot(a->a), r); }
        if (isC(a->c)) { Expr *r = mkBin(O_EQ, a->b, b); return a->c->cv == bv ? mkBin(O_OR, mkNot(a->a), r) : mkBin(O_AND, a->a, r); }
        break;
      default: if (umax(a) < bv) return mkConst(0, 1); break;
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
    }
    break;
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && bv == 0) return mkConst(0, 1);
    if (bc && bv == 1) return mkBin(O_EQ, a, mkConst(0, w));
    if (bc && umax(a) < bv) return mkConst(1, 1);
    if (ac && umax(b) <= a->cv) return mkConst(0, 1);
    if ((bc && umin(a) >= bv)) return mkConst(0, 1);
    if (ac && umin(b) > a->cv) return mkConst(1, 1);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a);
    if (bc && a->op == O_ZEXT && bv <= maskw(a->a->w)) return mkBin(O_ULT, a->a, mkConst(bv, a->a->w));
    if (ac && b->op == O_ZEXT && a->cv <= maskw(b->a->w)) return mkBin(O_ULT, mkConst(a->cv, b->a->w), b->a);
    break;
  case O_ULE:
    if (a == b) return mkConst(1, 1);
    if (ac && a->cv == 0) return mkConst(1, 1);
    if (bc && bv == M) return mkConst(1, 1);
    if (bc && umax(a) <= bv) return mkConst(1, 1);
    if (ac && umax(b) < a->cv) return mkConst(0, 1);
    if (bc && umin(a) > bv) return mkConst(0, 1);
    if (ac && umin(b) >= a->cv) return mkConst(1, 1);
    if (bc && bv == 0) return mkBin(O_EQ, a, b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULE, a->a, b->a);
    if (bc && a->op == O_ZEXT && bv <= maskw(a->a->w)) return mkBin(O_ULE, a->a, mkConst(bv, a->a->w));
    if (ac && b->op == O_ZEXT && a->cv <= maskw(b->a->w)) return mkBin(O_ULE, mkConst(a->cv, b->a->w), b->a);
    break;
  case O_SLT: case O_SLE: {
    if (a == b) return mkConst(op == O_SLE, 1);
    // both provably non-negative: unsigned comparison
    uint64_t half = 1ull << (w - 1);
    uint64_t ma = umax(a), mb = umax(b);
    if (ma < half && mb < half) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (bc && bv == 0 && ma < half && op == O_SLT) return mkConst(0, 1);
    if (ac && mb < half && sext64(a->cv, w) < 0) return mkConst(1, 1);
    if (bc && ma < half && sext64(bv, w) < 0) return mkConst(0, 1);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == O_SEXT && bc) { unsigned k = a->a->w; int64_t v = sext64(bv, w), lo = sext64(1ull << (k - 1), k), hi = (int64_t)(maskw(k) >> 1);
      if (v >= lo && v <= hi) return mkBin(op, a->a, mkConst(bv, k)); if (v > hi) return mkConst(1, 1); return mkConst(0, 1); }
    if (b->op == O_SEXT && ac) { unsigned k = b->a->w; int64_t v = sext64(a->cv, w), lo = sext64(1ull << (k - 1), k), hi = (int64_t)(maskw(k) >> 1);
      if (v >= lo && v <= hi) return mkBin(op, mkConst(a->cv, k), b->a); if (v > hi) return mkConst(0, 1); return mkConst(1, 1); }
    break; }
  default: break;
  }
  return mk(op, rw, a, b, 0, 0, 0);
}

static uint32_t g_epoch = 1;
void evNewEpoch() { g_epoch++; }
uint64_t evalExpr(Expr *e, const std::vector<uint8_t> &m) {
  if (e->op == O_CONST) return e->cv;
  if (e->op == O_VAR) return e->cv < m.size() ? m[e->cv] : 0;
  if (e->evEpoch == g_epoch) return e->evVal;
  uint64_t r;
  switch (e->op) {
  case O_NOT: r = ~evalExpr(e->a, m) & maskw(e->w); break;
  case O_CONCAT: { uint64_t h = evalExpr(e->a, m); r = (h << e->b->w) | evalExpr(e->b, m); break; }
  case O_EXTRACT: r = (evalExpr(e->a, m) >> e->cv) & maskw(e->w); break;
  case O_ZEXT: r = evalExpr(e->a, m); break;
  case O_SEXT: r = (uint64_t)sext64(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  case O_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
  case O_FSQRT: case O_FRINT: case O_FTOSI: case O_FTOUI: case O_SITOF: case O_UITOF: case O_FPCONV:
    r = foldUn(e->op, evalExpr(e->a, m), e->a->w, e->w, e->aux); break;
  case O_UF: { uint64_t x = evalExpr(e->a, m); r = foldUF(e->aux, x, evalExpr(e->b, m)); break; }
  default: { uint64_t x = evalExpr(e->a, m); r = foldBin(e->op, x, evalExpr(e->b, m), e->a->w); }
  }
  e->evEpoch = g_epoch; e->evVal = r; return r;
}

std::string exprStr(Expr *e, int d) {
  static const char *N[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "not", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frint", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "fpconv", "uf"};
  char buf[64];
  if (e->op == O_CONST) { snprintf(buf, sizeof buf, "%lld:%d", (long long)sext64(e->cv, e->w), e->w); return buf; }
  if (e->op == O_VAR) { snprintf(buf, sizeof buf, "b%llu", (unsigned long long)e->cv); return buf; }
  if (d == 0) return "...";
  std::string s = std::string("(") + N[e->op] + std::to_string(e->w);
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->cv);
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
