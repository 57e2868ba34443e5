// Hash-consed bit-vector / floating-point expressions over symbolic input bytes.
#pragma once
#include <cstdint>
#include <vector>
#include <string>

typedef std::vector<uint32_t> VarSet;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_NOT,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // floating point on raw bits
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FRINT,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FPCONV,
  O_UF,
};

// rounding modes for O_FRINT (aux)
enum { RM_CEIL, RM_FLOOR, RM_TRUNC, RM_RNE, RM_RNA };
// uninterpreted (for the solver) math functions (aux of O_UF)
enum { UF_FMOD, UF_POW, UF_EXP, UF_LOG, UF_SIN, UF_COS, UF_TAN, UF_ASIN, UF_ACOS, UF_ATAN, UF_COUNT };

struct Expr {
  Op op; uint8_t w; uint16_t aux; uint32_t id;
  uint64_t cv;              // CONST value / VAR index / EXTRACT low bit
  Expr *a, *b, *c;
  const VarSet *vars;
  uint32_t evEpoch; uint64_t evVal;
  void *z_bv, *z_bl, *z_fp; // Z3_ast caches
  bool hasFP; uint32_t size;
};

extern uint64_t g_nexpr;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(uint32_t idx);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkUn(Op op, Expr *a, unsigned w, unsigned aux = 0);
Expr *mkUF(unsigned which, Expr *a, Expr *b);

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
uint64_t foldUn(Op op, uint64_t a, unsigned wa, unsigned w, unsigned aux);
uint64_t foldUF(unsigned which, uint64_t a, uint64_t b);

void evNewEpoch();
uint64_t evalExpr(Expr *e, const std::vector<uint8_t> &m);
std::string exprStr(Expr *e, int depth = 6);
