#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <cmath>
#include <unistd.h>

SolverStats g_ss; volatile double g_queryStart = 0; volatile int g_reporting = 0; double (*g_now)() = nullptr;
static Z3_lbool guarded(Z3_context c, Z3_solver s, size_t n, Z3_ast *a) { g_queryStart = g_now ? g_now() + 1e-9 : 0; Z3_lbool r = a ? Z3_solver_check_assumptions(c, s, n, a) : Z3_solver_check(c, s); g_queryStart = 0; while (g_reporting) usleep(1000); return r; }
 unsigned g_timeoutMs = 5000; bool g_dumpSlow = false;

static Z3_context C = nullptr; static Z3_sort bvs[65]; static Z3_sort f64, f32; static Z3_ast rne, rtz, rtp, rtn, rna;
static Z3_func_decl ufs[UF_COUNT];
static Z3_solver inc = nullptr; static uint64_t incCount = 0;
static std::unordered_map<uint32_t, Z3_ast> proxies;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(C, a); return a; }

static void setp(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
static void initZ3() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
  for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(C, i); Z3_inc_ref(C, (Z3_ast)bvs[i]); }
  f64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, (Z3_ast)f64); f32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, (Z3_ast)f32);
  rne = ref(Z3_mk_fpa_rne(C)); rtz = ref(Z3_mk_fpa_rtz(C)); rtp = ref(Z3_mk_fpa_rtp(C)); rtn = ref(Z3_mk_fpa_rtn(C)); rna = ref(Z3_mk_fpa_rna(C));
  static const char *un[] = {"fmod", "pow", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan"};
  for (int i = 0; i < UF_COUNT; i++) { Z3_sort d[2] = {bvs[64], bvs[64]}; ufs[i] = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, un[i]), 2, d, bvs[64]); Z3_inc_ref(C, (Z3_ast)ufs[i]); }
}
static Z3_ast toBV(Expr *e); static Z3_ast toBool(Expr *e); static Z3_ast toFP(Expr *e);

static Z3_ast bvnum(uint64_t v, unsigned w) { return ref(Z3_mk_unsigned_int64(C, v, bvs[w])); }

static Z3_ast toFP(Expr *e) {
  if (e->z_fp) return (Z3_ast)e->z_fp;
  Z3_ast r; Z3_sort s = e->w == 64 ? f64 : f32;
  switch (e->op) {
  case O_FADD: r = Z3_mk_fpa_add(C, rne, toFP(e->a), toFP(e->b)); break;
  case O_FSUB: r = Z3_mk_fpa_sub(C, rne, toFP(e->a), toFP(e->b)); break;
  case O_FMUL: r = Z3_mk_fpa_mul(C, rne, toFP(e->a), toFP(e->b)); break;
  case O_FDIV: r = Z3_mk_fpa_div(C, rne, toFP(e->a), toFP(e->b)); break;
  case O_FSQRT: r = Z3_mk_fpa_sqrt(C, rne, toFP(e->a)); break;
  case O_FRINT: { Z3_ast m = e->aux == RM_CEIL ? rtp : e->aux == RM_FLOOR ? rtn : e->aux == RM_TRUNC ? rtz : e->aux == RM_RNA ? rna : rne; r = Z3_mk_fpa_round_to_integral(C, m, toFP(e->a)); break; }
  case O_SITOF: r = Z3_mk_fpa_to_fp_signed(C, rne, toBV(e->a), s); break;
  case O_UITOF: r = Z3_mk_fpa_to_fp_unsigned(C, rne, toBV(e->a), s); break;
  case O_FPCONV: r = Z3_mk_fpa_to_fp_float(C, rne, toFP(e->a), s); break;
  case O_ITE: r = Z3_mk_ite(C, toBool(e->a), toFP(e->b), toFP(e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), s);
  }
  e->z_fp = ref(r); return r;
}
static Z3_ast toBool(Expr *e) {
  if (e->z_bl) return (Z3_ast)e->z_bl;
  Z3_ast r;
  switch (e->op) {
  case O_CONST: r = e->cv ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case O_NOT: r = Z3_mk_not(C, toBool(e->a)); break;
  case O_AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
  case O_OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
  case O_XOR: r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
  case O_EQ: r = e->a->w == 1 ? Z3_mk_eq(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
  case O_ULT: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
  case O_ULE: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
  case O_SLT: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
  case O_SLE: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
  case O_ITE: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
  case O_FOEQ: r = Z3_mk_fpa_eq(C, toFP(e->a), toFP(e->b)); break;
  case O_FOLT: r = Z3_mk_fpa_lt(C, toFP(e->a), toFP(e->b)); break;
  case O_FOLE: r = Z3_mk_fpa_leq(C, toFP(e->a), toFP(e->b)); break;
  case O_FUNO: { Z3_ast x[2] = {ref(Z3_mk_fpa_is_nan(C, toFP(e->a))), ref(Z3_mk_fpa_is_nan(C, toFP(e->b)))}; r = Z3_mk_or(C, 2, x); break; }
  default: r = Z3_mk_eq(C, toBV(e), bvnum(1, 1));
  }
  e->z_bl = ref(r); return r;
}
static Z3_ast toBV(Expr *e) {
  if (e->z_bv) return (Z3_ast)e->z_bv;
  Z3_ast r = nullptr;
  switch (e->op) {
  case O_CONST: r = bvnum(e->cv, e->w); break;
  case O_VAR: { char n[24]; snprintf(n, sizeof n, "b%u", (unsigned)e->cv); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bvs[8]); break; }
  case O_ADD: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
  case O_SUB: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
  case O_MUL: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
  case O_UREM: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
  case O_SHL: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
  case O_CONCAT: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
  case O_EXTRACT: r = Z3_mk_extract(C, (unsigned)(e->cv + e->w - 1), (unsigned)e->cv, toBV(e->a)); break;
  case O_ZEXT: r = e->a->w == 1 ? Z3_mk_ite(C, toBool(e->a), bvnum(1, e->w), bvnum(0, e->w)) : Z3_mk_zero_ext(C, e->w - e->a->w, toBV(e->a)); break;
  case O_SEXT: r = e->a->w == 1 ? Z3_mk_ite(C, toBool(e->a), bvnum(maskw(e->w), e->w), bvnum(0, e->w)) : Z3_mk_sign_ext(C, e->w - e->a->w, toBV(e->a)); break;
  case O_AND: if (e->w > 1) r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
  case O_OR: if (e->w > 1) r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
  case O_XOR: if (e->w > 1) r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
  case O_NOT: if (e->w > 1) r = Z3_mk_bvnot(C, toBV(e->a)); break;
  case O_ITE: if (e->w > 1) r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
  case O_UF: { Z3_ast x[2] = {toBV(e->a), toBV(e->b)}; r = Z3_mk_app(C, ufs[e->aux], 2, x); break; }
  case O_FTOSI: case O_FTOUI: {
    Z3_ast x = toFP(e->a); Z3_sort s = e->a->w == 64 ? f64 : f32; bool sg = e->op == O_FTOSI;
    double lo = sg ? -__builtin_ldexp(1, e->w - 1) : 0, hi = __builtin_ldexp(1, sg ? e->w - 1 : e->w);
    Z3_ast xt = ref(Z3_mk_fpa_round_to_integral(C, rtz, x)), nl = ref(Z3_mk_fpa_numeral_double(C, lo, s)), nh = ref(Z3_mk_fpa_numeral_double(C, hi, s));
    Z3_ast in[2] = {ref(Z3_mk_fpa_geq(C, xt, nl)), ref(Z3_mk_fpa_lt(C, xt, nh))};
    Z3_ast v = ref(sg ? Z3_mk_fpa_to_sbv(C, rtz, x, e->w) : Z3_mk_fpa_to_ubv(C, rtz, x, e->w));
    r = Z3_mk_ite(C, ref(Z3_mk_and(C, 2, in)), v, bvnum(1ull << (e->w - 1), e->w)); break; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FRINT: case O_SITOF: case O_UITOF: case O_FPCONV:
    r = Z3_mk_fpa_to_ieee_bv(C, toFP(e)); break;
  default: break;
  }
  if (!r) r = Z3_mk_ite(C, toBool(e), bvnum(1, 1), bvnum(0, 1));
  e->z_bv = ref(r); return r;
}

struct CacheEnt { SRes r; std::vector<std::pair<uint32_t, uint8_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x100000001b3ull + (h >> 29); return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

static bool holds(const std::vector<Expr *> &cs, const std::vector<uint8_t> &m) { evNewEpoch(); for (auto c : cs) if (!evalExpr(c, m)) return false; return true; }
static void collectUF(Expr *e, std::vector<Expr *> &out, std::unordered_map<Expr *, bool> &seen) {
  if (!e || seen[e]) return; seen[e] = true; if (e->op == O_UF) out.push_back(e);
  collectUF(e->a, out, seen); collectUF(e->b, out, seen); collectUF(e->c, out, seen);
}

static std::vector<Model> recent;

SRes solve(const std::vector<Expr *> &pc, Expr *e, const Model &cur, Model &out) {
  g_ss.queries++;
  if (e->op == O_CONST) { if (!e->cv) { g_ss.unsat++; return S_UNSAT; } out = cur; g_ss.sat++; return S_SAT; }
  // independence slicing
  std::vector<Expr *> sl; sl.push_back(e);
  {
    std::vector<char> used(pc.size(), 0); std::vector<char> vs;
    auto addv = [&](Expr *x) { for (auto v : *x->vars) { if (v >= vs.size()) vs.resize(v + 1, 0); vs[v] = 1; } };
    addv(e); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (auto v : *pc[i]->vars) if (v < vs.size() && vs[v]) { hit = true; break; } if (hit) { used[i] = 1; sl.push_back(pc[i]); addv(pc[i]); ch = true; } } }
  }
  std::vector<uint32_t> key; for (auto x : sl) key.push_back(x->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto mkOut = [&](const std::vector<std::pair<uint32_t, uint8_t>> &m) { auto r = std::make_shared<std::vector<uint8_t>>(*cur); for (auto &p : m) { if (p.first >= r->size()) r->resize(p.first + 1, 0); (*r)[p.first] = p.second; } return r; };
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cacheHits++; if (it->second.r == S_SAT) { out = mkOut(it->second.m); g_ss.sat++; } else if (it->second.r == S_UNSAT) g_ss.unsat++; else g_ss.unknown++; return it->second.r; }
  std::vector<uint32_t> vars; for (auto x : sl) for (auto v : *x->vars) vars.push_back(v); std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  // try recent models
  for (size_t k = recent.size(); k-- > 0;) if (holds(sl, *recent[k])) {
    CacheEnt ce; ce.r = S_SAT; for (auto v : vars) ce.m.push_back({v, v < recent[k]->size() ? (*recent[k])[v] : 0});
    out = mkOut(ce.m); cache[key] = ce; g_ss.sat++; g_ss.cacheHits++; return S_SAT; }
  if (!C) initZ3();
  bool fp = false; for (auto x : sl) fp |= x->hasFP;
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce; ce.r = S_UNKNOWN;
  if (fp) { // cheap search for a model first (a model is checked, so this decides only satisfiable queries)
    static std::mt19937_64 rg(7); static const double sp[] = {0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, 2, 3, -3, 0.1, 1e10, -1e10, 4503599627370497.5, 9007199254740992.0, 9007199254740993.0, 9223372036854775808.0, -9223372036854775808.0, 1.8446744073709552e19, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, INFINITY, -INFINITY, NAN};
    static const int64_t si[] = {0, 1, -1, 2, -2, 3, 7, 10, 63, 64, 65, 100, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1ll << 53, (1ll << 53) + 1, -(1ll << 53) - 1, 1ll << 62, 0x7ffffffffffffc00ll, 1ll << 32};
    std::vector<uint32_t> st; for (size_t i = 0; i < vars.size();) { size_t j = i; while (j < vars.size() && j - i < 8 && vars[j] == vars[i] + (j - i)) j++; st.push_back(vars[i]); i = j; }
    std::vector<uint8_t> m(*cur); if (m.size() <= vars.back()) m.resize(vars.back() + 1, 0); std::vector<uint8_t> base(m);
    std::vector<uint64_t> prev;
    auto c0 = std::chrono::steady_clock::now();
    for (int t = 0; t < 4000; t++) {
      if ((t & 63) == 63 && std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count() > 0.08) break;
      prev.clear();
      for (size_t i = 0; i < st.size(); i++) { uint32_t lo = st[i], hi = i + 1 < st.size() ? st[i + 1] : vars.back() + 1; uint64_t v = 0; bool keep = false; double d;
        switch (rg() % 8) { case 0: case 1: keep = true; break; case 2: memcpy(&v, &sp[rg() % (sizeof sp / 8)], 8); break; case 3: v = (uint64_t)si[rg() % (sizeof si / 8)]; break; case 4: v = rg(); break; case 5: d = ldexp((double)(int64_t)rg(), (int)(rg() % 64) - 63); memcpy(&v, &d, 8); break;
          case 6: if (prev.empty()) v = (uint64_t)((int64_t)rg() >> (rg() % 64)); else { v = prev[rg() % prev.size()]; int64_t q = (int64_t)(rg() % 5) - 2; v += q; } break;
          default: if (prev.empty()) v = rg() & 0xff; else { uint64_t u = prev[rg() % prev.size()]; if (rg() & 1) { d = (double)(int64_t)u; memcpy(&v, &d, 8); } else { memcpy(&d, &u, 8); v = d > -9e18 && d < 9e18 ? (uint64_t)(int64_t)d : 5; } } }
        for (uint32_t k = lo; k < hi && k < lo + 8; k++) m[k] = keep ? base[k] : (uint8_t)(v >> (8 * (k - lo)));
        uint64_t u = 0; for (uint32_t k = lo; k < hi && k < lo + 8; k++) u |= (uint64_t)m[k] << (8 * (k - lo)); prev.push_back(u); }
      if (holds(sl, m)) { ce.r = S_SAT; for (auto v : vars) ce.m.push_back({v, m[v]}); out = mkOut(ce.m); cache[key] = ce; g_ss.sat++; g_ss.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); recent.push_back(out); if (recent.size() > 12) recent.erase(recent.begin()); return S_SAT; }
    }
  }
  std::vector<Z3_ast> extra;
  for (int round = 0; round < 6; round++) {
    Z3_solver s; Z3_lbool r; g_ss.z3calls++;
    if (!fp) {
      if (!inc || incCount > 4000) { if (inc) Z3_solver_dec_ref(C, inc); for (auto &p : proxies) Z3_dec_ref(C, p.second); proxies.clear(); incCount = 0; inc = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, inc); setp(inc, g_timeoutMs); }
      s = inc; std::vector<Z3_ast> as;
      for (auto x : sl) { auto pi = proxies.find(x->id); Z3_ast p; if (pi == proxies.end()) { p = ref(Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C))); Z3_ast tb = toBool(x); Z3_ast im = ref(Z3_mk_implies(C, p, tb)); Z3_solver_assert(C, inc, im); Z3_dec_ref(C, im); proxies[x->id] = p; incCount++; } else p = pi->second; as.push_back(p); }
      r = guarded(C, s, as.size(), as.data());
    } else {
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV")); Z3_solver_inc_ref(C, s);
      Z3_solver_dec_ref(C, s);
      static Z3_tactic tac = nullptr;
      if (!tac) {
        Z3_tactic a = Z3_mk_tactic(C, "simplify"); Z3_tactic_inc_ref(C, a); Z3_tactic b = Z3_mk_tactic(C, "fpa2bv"); Z3_tactic_inc_ref(C, b); Z3_tactic c = Z3_mk_tactic(C, "smt"); Z3_tactic_inc_ref(C, c);
        Z3_tactic q = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, q); Z3_tactic ac = Z3_mk_tactic(C, "ackermannize_bv"); Z3_tactic_inc_ref(C, ac);
        Z3_tactic pv = Z3_mk_tactic(C, "propagate-values"); Z3_tactic_inc_ref(C, pv);
        Z3_probe pq = Z3_mk_probe(C, "is-qfbv"); Z3_probe_inc_ref(C, pq);
        Z3_tactic t = Z3_tactic_cond(C, pq, q, c); Z3_tactic_inc_ref(C, t);
        t = Z3_tactic_and_then(C, ac, t); Z3_tactic_inc_ref(C, t);
        t = Z3_tactic_and_then(C, a, t); Z3_tactic_inc_ref(C, t);
        t = Z3_tactic_and_then(C, b, t); Z3_tactic_inc_ref(C, t);
        t = Z3_tactic_and_then(C, pv, t); Z3_tactic_inc_ref(C, t);
        t = Z3_tactic_and_then(C, a, t); Z3_tactic_inc_ref(C, t);
        tac = t;
      }
      s = Z3_mk_solver_from_tactic(C, tac); Z3_solver_inc_ref(C, s); setp(s, g_timeoutMs);
      for (auto x : sl) Z3_solver_assert(C, s, toBool(x));
      for (auto x : extra) Z3_solver_assert(C, s, x);
      r = guarded(C, s, 0, nullptr);
    }
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m); ce.m.clear();
      for (auto v : vars) { Z3_ast o; uint8_t val = 0; if (Z3_model_eval(C, m, toBV(mkVar(v)), true, &o)) { Z3_inc_ref(C, o); uint64_t u = 0; Z3_get_numeral_uint64(C, o, &u); val = (uint8_t)u; Z3_dec_ref(C, o); } ce.m.push_back({v, val}); }
      Z3_model_dec_ref(C, m);
      auto o2 = mkOut(ce.m);
      if (holds(sl, *o2)) { ce.r = S_SAT; out = o2; if (fp) Z3_solver_dec_ref(C, s); break; }
      ce.r = S_UNKNOWN;
      bool more = false;
      if (fp) { // refine uninterpreted functions with their true values at this point
        std::vector<Expr *> us; std::unordered_map<Expr *, bool> seen; for (auto x : sl) collectUF(x, us, seen);
        evNewEpoch();
        for (auto u : us) { uint64_t x = evalExpr(u->a, *o2), y = evalExpr(u->b, *o2); Z3_ast args[2] = {bvnum(x, 64), bvnum(y, 64)}; extra.push_back(ref(Z3_mk_eq(C, ref(Z3_mk_app(C, ufs[u->aux], 2, args)), bvnum(foldUF(u->aux, x, y), 64)))); more = true; }
        Z3_solver_dec_ref(C, s);
      }
      if (!more) break;
      continue;
    }
    if (fp) Z3_solver_dec_ref(C, s);
    ce.r = r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
    break;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (g_dumpSlow && dt > 0.15) { fprintf(stderr, "[slow query %.2fs res=%d]\n", dt, ce.r); for (auto x : sl) fprintf(stderr, "   %s\n", exprStr(x, 7).c_str()); }
  cache[key] = ce;
  if (ce.r == S_SAT) { g_ss.sat++; recent.push_back(out); if (recent.size() > 12) recent.erase(recent.begin()); }
  else if (ce.r == S_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return ce.r;
}
