#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

struct Val { uint64_t v; Expr *e; };

enum IOp : uint16_t {
  I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_COPY,
  I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_FPCONV,
  I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_SELECT,
  I_BR, I_CBR, I_SWITCH, I_CALL, I_ICALL, I_RET, I_UNREACH,
  I_VASTART, I_VACOPY, I_MEMCPY, I_MEMSET, I_BUILTIN, I_NOP, I_TRAP, I_MINMAX, I_OVF, I_FPCLASS,
};

struct Inst { uint16_t op; uint8_t w, w2; int32_t d, a, b, c; uint32_t x; uint32_t line; };
struct GepInfo { int64_t cst; std::vector<std::pair<int32_t, int64_t>> terms; std::vector<uint8_t> widths; };
struct ArgInfo { int32_t reg; uint8_t w; uint32_t byval; };
struct Func;
struct CallInfo { Func *f = nullptr; int builtin = -1; std::vector<ArgInfo> args; int nret = 0; std::vector<uint8_t> retw; std::string name; };
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct LsInfo { std::vector<std::pair<uint32_t, uint8_t>> parts; }; // offset,width of flattened aggregate
struct RetInfo { std::vector<int32_t> regs; };

struct Func {
  std::string name, file; bool defined = false; bool vararg = false; int builtin = -1; uint32_t idx;
  std::vector<Inst> code; uint32_t nregs = 0;
  std::vector<int32_t> params; // starting reg of each scalar param piece
  std::vector<uint32_t> byval; std::vector<uint8_t> paramw;
  std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<LsInfo> ls; std::vector<RetInfo> rets;
  bool executed = false;
};
struct Global { std::string name; uint64_t size; std::vector<uint8_t> init; bool constant; uint64_t addr; };

struct Prog {
  std::vector<Func *> funcs; std::vector<Global> globals; std::vector<Val> K;
  std::unordered_map<std::string, Func *> byName;
};
extern Prog P;
static const uint64_t FBASE = 0x40000000ull; // function "addresses"
static const unsigned OSH = 32;              // object id = address >> OSH
bool loadModule(const char *path, std::string &err);

#define BUILTINS(X) X(malloc) X(calloc) X(realloc) X(free) X(abort) X(exit) X(_setjmp) X(longjmp) X(__assert_fail) \
  X(vp_sym_bytes) X(vp_assume) X(vp_fail) X(vp_check) X(vp_observe) X(vp_reach) X(vp_heap_live) X(vp_concrete) X(vp_fix_arg) X(vp_is_engine) X(vp_skip) \
  X(vp_strtod) X(vp_fmt_double) X(ceil) X(floor) X(trunc) X(round) X(rint) X(nearbyint) X(sqrt) X(fabs) X(fmod) X(pow) X(exp) X(log) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) \
  X(memcpy) X(memmove) X(memset) X(vp_debug) X(vp_memswap) X(vp_is_symbolic)
enum Builtin { B_NONE = -1,
#define X(n) B_##n,
  BUILTINS(X)
#undef X
  B_COUNT };
