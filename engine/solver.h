#pragma once
#include "expr.h"
#include <memory>
typedef std::shared_ptr<std::vector<uint8_t>> Model;
enum SRes { S_SAT, S_UNSAT, S_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, z3calls = 0; double z3time = 0, maxq = 0; };
extern SolverStats g_ss; extern volatile double g_queryStart; extern volatile int g_reporting; extern double (*g_now)();
extern unsigned g_timeoutMs;
extern bool g_dumpSlow;
// is pc /\ e satisfiable?  cur satisfies pc.  on SAT, out is a model of pc /\ e.
SRes solve(const std::vector<Expr *> &pc, Expr *e, const Model &cur, Model &out);
