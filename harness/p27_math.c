// vp: shards=34 quick=60 thorough=900
// bounds: abs, floor, ceil, sqrt, exp, log, sin, cos, tan, asin, acos, atan on every int and every float (the C library's own function is the oracle; the transcendental ones are uninterpreted for the solver); max and min of up to 3 ints (all values) or floats (all values) or ints (all values) and floats (15 values, the ends of the ranges among them); gcd and lcm of all pairs of a number below 32 (thorough: 64) and one up to 24 (thorough: 63) as they are and times 2^40, also as floats (12 values), and of nonpositive numbers; isprime of every n below 1024, of 2048 numbers between 39600 and 49920 (float arguments: 19 of each 256; thorough: 256 numbers about 1009 ** 2 too) (where its table of primes ends; the squares of the first primes after it are among them) and of every negative int; deg and rad on 10 values; every function on values of every other type
// outside: abs of the least int (its result is not an int); gcd, lcm and isprime of larger numbers and of floats that are not whole; the accuracy of the C library
#include "h.h"
#include <math.h>
static YS *S; static char src[600], *d; static void P(const char *s) { d = put(d, s); }
static const char *const fn1[] = {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "ceil", "floor", "abs", "deg", "rad", "isprime"};
static double ref(int k, double x) { switch (k) { case 0: return sqrt(x); case 1: return exp(x); case 2: return log(x); case 3: return sin(x); case 4: return cos(x); case 5: return tan(x); case 6: return asin(x); case 7: return acos(x); case 8: return atan(x); case 9: return ceil(x); default: return floor(x); } }
static uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static int64_t xi[4]; static double xf[4]; static int kind[4]; static const char *const an[] = {"a", "b", "c", "e"};
static void go(void) { S = h_new(src); YASL_decllib_math(S); for (int i = 0; i < 4; i++) if (kind[i] == 1) h_gint(S, an[i], xi[i]); else if (kind[i] == 2) h_gflt(S, an[i], xf[i]); else h_gundef(S, an[i]); h_out(S, "r"); h_out(S, "q"); }
static void call(const char *f, int n) { d = src; P("r = math."); P(f); P("("); for (int i = 0; i < n; i++) { if (i) P(", "); P(an[i]); } P("); q = 1;"); for (int i = n; i < 4; i++) kind[i] = 0; }
static void un(int k) { kind[0] = 1 + (int)vp_choose(2); if (kind[0] == 1) xi[0] = vp_i64(); else xf[0] = vp_f64(); double x = kind[0] == 1 ? (double)xi[0] : xf[0]; call(fn1[k], 1); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); double w = ref(k, x); HV v = h_get(S, "r"); VP_CHECK(v.t == TF, "a float"); VP_CHECK(bits(v.f) == bits(w) || (v.f != v.f && w != w), "the function's value"); if (k == 10 && x == x) VP_CHECK(v.f <= x, "floor is at most x"); h_end(S); }
static void absf(void) { kind[0] = 1 + (int)vp_choose(2); if (kind[0] == 1) { xi[0] = vp_i64(); vp_assume(xi[0] != INT64_MIN); } else xf[0] = vp_f64(); call("abs", 1); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); if (kind[0] == 1) { HV v = h_get(S, "r"); VP_CHECK(v.t == TI && v.i >= 0 && (v.i == xi[0] || v.i == -xi[0]), "abs of an int"); } else { HV v = h_get(S, "r"); VP_CHECK(v.t == TF, "a float"); VP_CHECK(xf[0] != xf[0] ? v.f != v.f : v.f >= 0 && (v.f == xf[0] || v.f == -xf[0]), "abs of a float"); } h_end(S); }
static bool ge(int i, int j) { // argument i >= argument j, exactly
  if (kind[i] == 1 && kind[j] == 1) return xi[i] >= xi[j]; if (kind[i] == 2 && kind[j] == 2) return xf[i] >= xf[j];
  double f = kind[i] == 2 ? xf[i] : xf[j]; int64_t n = kind[i] == 1 ? xi[i] : xi[j]; int c; // sign of f - n
  if (f >= 9223372036854775808.0) c = 1; else if (f < -9223372036854775808.0) c = -1; else { int64_t t = (int64_t)f; double fr = f - (double)t; c = t > n ? 1 : t < n ? -1 : fr > 0 ? 1 : fr < 0 ? -1 : 0; }
  return kind[i] == 2 ? c >= 0 : c <= 0; }
static void maxmin(bool mx, int n) {
  static const double fs[] = {0, -0.0, 1.5, -2.5, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, INFINITY, -INFINITY, 0.0 / 0.0, 9223372036854774784.0, -1e19};
  bool nan = false; int ni = 0; for (int i = 0; i < n; i++) { kind[i] = 1 + (int)vp_choose(2); ni += kind[i] == 1; }
  for (int i = 0; i < n; i++) { if (kind[i] == 2 && ni) { xf[i] = fs[vp_choose(15)]; if (xf[i] != xf[i]) nan = true; continue; } if (kind[i] == 1) xi[i] = vp_i64(); else { xf[i] = vp_f64(); if (xf[i] != xf[i]) nan = true; } }
  call(mx ? "max" : "min", n); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); HV v = h_get(S, "r");
  if (n == 0) { VP_CHECK(v.t == TF && v.f == (mx ? -INFINITY : INFINITY), "of nothing"); } else if (nan) { VP_CHECK(v.t == TF && v.f != v.f, "nan stays nan"); }
  else { bool found = false; for (int i = 0; i < n; i++) { bool best = true; for (int j = 0; j < n; j++) if (j != i) best = best && (mx ? ge(i, j) : ge(j, i)); bool is = kind[i] == 1 ? v.t == TI && v.i == xi[i] : v.t == TF && bits(v.f) == bits(xf[i]); if (kind[i] == 2 && v.t == TF && v.f == xf[i]) is = true; found = found || (best && is); } VP_CHECK(found, "one of the arguments, not less (greater) than any other"); } h_end(S); }
static void gl(bool lcm, int neg) {
  int sh = (int)vp_choose(2); static const int shs[] = {0, 40}; sh = shs[sh]; bool asf = vp_choose(2); int64_t a = asf ? 1 + 5 * (int64_t)vp_choose(12) : vp_u8() & (VP_TIER == 1 ? 31 : 63), b = 1 + (int64_t)vp_choose(VP_TIER == 1 ? 24 : 63); if (!neg && vp_choose(2)) { int64_t t = a; a = b; b = t; } if (neg) { a = vp_i64(); b = vp_i64(); vp_assume(neg == 1 ? a <= 0 : b <= 0); sh = 0; } else { vp_assume(a > 0 && b > 0); }
  kind[0] = 1; kind[1] = 1; xi[0] = a << sh; xi[1] = b << sh; if (asf && !neg) { kind[0] = 2; xf[0] = (double)xi[0]; } call(lcm ? "lcm" : "gcd", 2); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs");
  if (neg) { h_is_undef(S, "r", "of nonpositive numbers is undef"); h_end(S); return; } int64_t g = 1; for (int64_t k = 2; k < 64; k++) g = (a % k == 0) & (b % k == 0) ? k : g; if (lcm) h_is_int(S, "r", (a * b / g) << sh, "least common multiple"); else h_is_int(S, "r", g << sh, "greatest common divisor"); h_end(S); }
static void prime(int how) {
  int64_t n; if (how == 4) { n = vp_i64(); vp_assume(n < 0); } else { static const int64_t b[] = {0, 256, 512, 768, 39600, 40000, 40256, 40800, 41856, 44416, 46976, 49664, 1018000}; int pg = (int)vp_choose(how < 2 ? 4 : VP_TIER == 1 ? 8 : 9); n = b[how < 2 ? pg : 4 + pg] + (how & 1 ? (int64_t)(vp_choose(19) * 13 + 1) : vp_u8()); }
  bool asf = how == 1 || how == 3; kind[0] = asf ? 2 : 1; xi[0] = n; xf[0] = (double)n; call("isprime", 1); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); bool p = n >= 2; for (int64_t k = 2; k < (how < 2 || how == 4 ? 40 : how == 2 && n >= 1000000 ? 1012 : 226); k++) p = p & !((n % k == 0) & (n > k)); if (how == 4) p = false; h_is_bool(S, "r", p, "isprime"); h_end(S); }
static void types(void) { int k = (int)vp_choose(19); static const char *const bad[] = {"undef", "true", "'a'", "[]", "{}", "fn(a) { return a; }", "math"}; static const char *const two[] = {"max", "min", "gcd", "lcm"}; int b = (int)vp_choose(7); int w = (int)vp_choose(2); for (int i = 0; i < 4; i++) kind[i] = 0; d = src; P("r = math."); if (k < 15) { if (w) vp_skip(); P(fn1[k]); P("("); P(bad[b]); } else { P(two[k - 15]); P(w ? "(2, " : "("); P(bad[b]); if (!w) P(", 2"); } P("); q = 1;"); go(); VP_CHECK(h_run(S) == YASL_TYPE_ERROR, "not a number"); h_is_undef(S, "q", "stops"); h_end(S); }
static void degs(void) { static const double v[] = {0, 1, -1, 0.5, 3.14159265358979, 180, 1e10, -1e-10, 57.3, 1e100}; int i = (int)vp_choose(10); int dir = (int)vp_choose(2); kind[0] = i == 5 || i == 1 ? 1 + (int)vp_choose(2) : 2; xi[0] = (int64_t)(i == 1 ? 1 : 180); xf[0] = v[i]; call(dir ? "deg" : "rad", 1); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); HV r = h_get(S, "r"); double w = dir ? v[i] * 57.295779513082320877 : v[i] * 0.017453292519943295769; VP_CHECK(r.t == TF && fabs(r.f - w) <= fabs(w) * 1e-14, "degrees and radians"); h_end(S); }
static void consts(void) { for (int i = 0; i < 4; i++) kind[i] = 0; int k = (int)vp_choose(3); d = src; P(k == 0 ? "r = math.pi; q = 1;" : k == 1 ? "r = math.nan; q = 1;" : "r = math.inf; q = 1;"); go(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); HV v = h_get(S, "r"); VP_CHECK(v.t == TF && (k == 0 ? v.f == 3.14159265358979323846 : k == 1 ? v.f != v.f : v.f == INFINITY), "constant"); h_end(S); }
void vp_main(void) { int k = (int)vp_shard(34); if (k < 11) un(k); else if (k == 11) absf(); else if (k < 16) maxmin(true, k - 12); else if (k < 20) maxmin(false, k - 16); else if (k == 20) gl(false, 0); else if (k == 21) gl(true, 0); else if (k < 26) gl(k & 1, 1 + (k - 22) / 2); else if (k < 31) prime(k - 26); else if (k == 31) types(); else if (k == 32) degs(); else consts(); }
