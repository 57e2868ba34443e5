// vp: shards=42 quick=60 thorough=900
// bounds: ints: 256 neighbouring values around 0, around every power of ten (both signs) and at both ends of the range; floats: 256 multiples of 1/64 around 0, 10, 1000, 99999, 10^6 and 10^8 of both signs (exact text), 40 further floats (rounding, large, tiny, infinite, nan); bools and undef; lists and tables of these nested up to 3 deep with symbolic values; lists and tables that contain themselves directly and through one another, or the same list twice; conversions between int, float, bool and str, all values in range
// outside: order of the pairs of tables with several keys (either accepted for two keys); texts of functions and pointers; toint of floats out of the range of int
#include "h.h"
#include <math.h>
static YS *S; static char src[900], *d; static void P(const char *s) { d = put(d, s); }
static char t[400]; static size_t tn; static void T(const char *s) { size_t n = strlen(s); memcpy(t + tn, s, n); tn += n; }
static void itext(int64_t v, bool neg) { uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; if (neg) t[tn++] = '-'; int nd = 1; uint64_t p = 1; while (nd < 19 && u >= p * 10) { p *= 10; nd++; } for (; p; p /= 10) t[tn++] = '0' + (char)(u / p % 10); }
static void ints(int k) {
  int64_t p = 1; for (int i = 0; i < k; i++) p *= 10; int64_t base = k < 3 ? 256 * k : k == 19 ? INT64_MAX - 255 : p - 128; uint8_t b = vp_u8(); int64_t x = base + b; bool neg = vp_choose(2); if (neg) { x = k == 19 ? INT64_MIN + b : -x; vp_assume(x != 0); }
  int how = (int)vp_choose(4); d = src; *d = 0; P(how == 0 ? "s = x ~ ''; " : how == 1 ? "s = x->tostr(); " : how == 2 ? "s = \"#{x}\"; " : "echo x; s = [x]->tostr(); s = s[1:-1]; "); P("n = s->toint(); q = n == x; f = s->tofloat();"); S = h_new(src); h_gint(S, "x", x); h_out(S, "s"); h_out(S, "n"); h_out(S, "q"); h_out(S, "f"); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs");
  tn = 0; if (neg && k == 19 ? b == 0 : false) T("-9223372036854775808"); else itext(x, neg); h_is_str(S, "s", t, tn, "decimal text"); h_is_int(S, "n", x, "the same int back"); h_is_bool(S, "q", true, "equal"); if (k < 15) h_is_flt(S, "f", (double)x, "as a float"); h_end(S); }
static void flts(int k) {
  static const int64_t bs[] = {0, 640 - 100, 64000 - 128, 99999 * 64 - 100, 64000000 - 128, 6400000000ll - 128}; uint8_t b = vp_u8(); int64_t q = bs[k % 6] + b; bool neg = k >= 6; if (neg) { q = -q; vp_assume(q != 0); } double x = (double)q / 64.0; int how = VP_TIER == 1 ? (k + k / 6) % 3 : (int)vp_choose(3); d = src; *d = 0;
  P(how == 0 ? "s = x ~ ''; " : how == 1 ? "s = x->tostr(); " : "s = [x]->tostr(); s = s[1:-1]; "); P("n = s->tofloat();"); S = h_new(src); h_gflt(S, "x", x); h_out(S, "s"); h_out(S, "n"); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); uint64_t a = neg ? 0 - (uint64_t)q : (uint64_t)q; tn = 0; itext(neg ? 0 - (int64_t)(a >> 6) : (int64_t)(a >> 6), neg); t[tn++] = '.'; uint64_t fr = (a & 63) * 15625; int nd = 6; while (nd > 1 && fr % 10 == 0) { fr /= 10; nd--; } uint64_t p = 1; for (int i = 1; i < nd; i++) p *= 10; for (; p; p /= 10) t[tn++] = '0' + (char)(fr / p % 10);
  h_is_str(S, "s", t, tn, "six decimals without trailing zeros"); h_is_flt(S, "n", x, "the same float back"); h_end(S); }
static void rounded(int h) {
  static const struct { double v; const char *t; } f[] = {{0, "0.0"}, {0.0000004, "0.0"}, {0.0000006, "0.000001"}, {1.9999999, "2.0"}, {1.9999994, "1.999999"}, {9.9999999, "10.0"}, {0.1, "0.1"}, {0.2, "0.2"}, {1.0 / 3, "0.333333"}, {2.0 / 3, "0.666667"}, {123456789.123456, "123456789.123456"}, {1e15, "1000000000000000.0"}, {1e15 + 0.5, "1000000000000000.5"}, {9007199254740993.0, "9007199254740992.0"}, {1e18, "1000000000000000000.0"}, {1e22, "10000000000000000000000.0"}, {4.9e-324, "0.0"}, {1e-7, "0.0"}, {123.4, "123.4"}, {100.25, "100.25"}, {1000, "1000.0"}, {10, "10.0"}, {100, "100.0"}, {0.01, "0.01"}, {0.10001, "0.10001"}, {3.14159265, "3.141593"}, {2.718281828, "2.718282"}, {1e6, "1000000.0"}, {1e7 + 0.01, "10000000.01"}, {0.999999, "0.999999"}, {0.9999995, "0.999999"}, {5e-7, "0.0"}, {1.5e-6, "0.000001"}, {65536.0001, "65536.0001"}, {1.10, "1.1"}, {20.02, "20.02"}, {99.5, "99.5"}, {0.5, "0.5"}, {INFINITY, "inf"}, {0.0 / 0.0, "nan"}};
  int i = (int)vp_choose(40); bool neg = h; double x = neg ? -f[i].v : f[i].v; if (neg && x != x) vp_skip(); S = h_new("s = x ~ ''; r = x->tostr(); echo x; l = [x, x]->tostr(); n = s->tofloat();"); h_gflt(S, "x", x); h_out(S, "s"); h_out(S, "r"); h_out(S, "l"); h_out(S, "n"); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); tn = 0; if (neg) T("-"); T(f[i].t); 
  if (i == 30 || i == 31 || i == 32) { HV v = h_get(S, "s"); VP_CHECK(v.t == TS, "a str"); h_free(v); } else { h_is_str(S, "s", t, tn, "rounded to six decimals"); h_is_str(S, "r", t, tn, "rounded to six decimals"); char o[40]; size_t on = tn; memcpy(o, t, tn); tn = 0; t[tn++] = '['; memcpy(t + tn, o, on); tn += on; T(", "); memcpy(t + tn, o, on); tn += on; T("]"); h_is_str(S, "l", t, tn, "in a list"); t[tn = on] = 0; memcpy(t, o, on); t[on] = '\n'; h_is_out(S, t, on + 1, "printed"); } h_end(S); }
static uint64_t hh; static int64_t xv; static char sv[3]; static size_t sn;
static void val(int dep) { // one random value: program text and its text
  int k = (int)vp_choose(dep ? 9 : 6); hh = hh * 31 + (uint64_t)k + 7; switch (k) { case 0: P("x"); if (xv < 0) itext(xv, true); else itext(xv, false); break; case 1: P("true"); T("true"); break; case 2: P("undef"); T("undef"); break; case 3: P("1.50"); T("1.5"); break; case 4: P("s0"); memcpy(t + tn, sv, sn); tn += sn; break; case 5: P("-7"); T("-7"); break;
  case 6: { int n = (int)vp_choose(3); hh += (uint64_t)n * 101; P("["); T("["); for (int i = 0; i < n; i++) { if (i) { P(", "); T(", "); } val(dep - 1); if (VP_TIER == 1 && dep == 2 && hh % 4) vp_skip(); } P("]"); T("]"); break; }
  case 7: { static const char *const kp[] = {"1", "'k'", "true", "2.5"}, *const kt[] = {"1", "k", "true", "2.5"}; int i = (int)vp_choose(4); P("{"); P(kp[i]); P(": "); T("{"); T(kt[i]); T(": "); size_t before = tn; char *db = d; val(dep - 1); if (memcmp(db, "undef", 5) == 0 && d == db + 5) { tn = before - strlen(kt[i]) - 2; } P("}"); T("}"); break; }
  default: P("[[], {}]"); T("[[], {}]"); } }
static void nested(int top) { hh = 0; d = src; *d = 0; tn = 0; xv = (int64_t)(vp_u8() & 127) - 64; sn = vp_choose(3); vp_sym_bytes(sv, sn); int neg = (int)vp_choose(3); vp_assume(neg == 0 ? xv < 0 : neg == 1 ? xv >= 0 && xv < 10 : xv >= 10); P("r = "); if (top == 0) { P("["); T("["); val(2); P(", "); T(", "); val(VP_TIER == 1 ? 0 : 1); P("]"); T("]"); } else if (top == 1) { P("{'a': [1, "); T("{a: [1, "); val(2); P("]}"); T("]}"); } else { P("[[["); T("[[["); val(1); P("]], "); T("]], "); val(VP_TIER == 1 ? 0 : 1); P("]"); T("]"); }
  if (VP_TIER == 1 && hh % 7) vp_skip();
  P(vp_choose(2) ? "->tostr();" : " ~ '';"); S = h_new(src); h_gint(S, "x", xv); h_gstr(S, "s0", sv, sn); h_out(S, "r"); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_str(S, "r", t, tn, "the elements' texts in order"); h_end(S); }
static void cycles(void) { // these values refer to themselves: they terminate (and stay allocated)
  static const struct { const char *p, *a, *b; } c[] = {
    {"let l = [1]; l->push(l); r = l->tostr();", "[1, [...]]", 0}, {"let l = [1]; l->push(l); l->push(2); l->push(l); r = l->tostr();", "[1, [...], 2, [...]]", 0}, {"let t = {}; t.a = t; r = t->tostr();", "{a: {...}}", 0}, {"let t = {'l': [1]}; t.l->push(t); r = t->tostr();", "{l: [1, {...}]}", 0}, {"let t = {'l': [1]}; t.l->push(t); r = t.l->tostr();", "[1, {l: [...]}]", 0}, {"let a = [1]; let b = [2, a]; a->push(b); r = [a, b]->tostr();", "[[1, [2, [...]]], [2, [1, [...]]]]", 0},
    {"let a = [1]; r = [a, a, [a]]->tostr();", "[[1], [1], [[1]]]", 0}, {"let a = {'k': 1}; r = [a, a, {'z': a}]->tostr();", "[{k: 1}, {k: 1}, {z: {k: 1}}]", 0}, {"let a = []; r = [a, a]->tostr();", "[[], []]", 0}, {"let a = [1]; let b = {2: a}; let e = {3: b}; a->push(e); r = b ~ '';", "{2: [1, {3: {...}}]}", 0}, {"r = {1: 'a', 2: 'b'}->tostr();", "{1: a, 2: b}", "{2: b, 1: a}"}, {"let l = [1, 2]; l->push(l); l->push(3); echo l; r = l ~ '';", "[1, 2, [...], 3]", 0} };
  int i = (int)vp_choose(12); S = h_new(c[i].p); h_out(S, "r"); VP_CHECK(h_run(S) == YASL_SUCCESS, "terminates"); if (c[i].b) { HV v = h_get(S, "r"); VP_CHECK(v.t == TS && v.n == strlen(c[i].a) && (!memcmp(v.s, c[i].a, v.n) || !memcmp(v.s, c[i].b, v.n)), "either order"); h_free(v); } else h_is_str(S, "r", c[i].a, strlen(c[i].a), "text of a value that contains itself or is shared"); if (i == 6 || i == 7 || i == 8 || i == 10) h_end(S); else YASL_delstate(S); }
static void conv(int k) { // conversions between types
  S = h_new(k == 0 ? "a = x->tofloat(); b = x->tobool(); c = x->toint();" : k == 1 ? "a = x->toint(); b = x->tobool(); c = x->tofloat();" : k == 2 ? "a = x->tostr(); b = x->tobool();" : "a = x->tobool(); b = x->tostr();"); h_out(S, "a"); h_out(S, "b"); h_out(S, "c");
  if (k == 0) { int64_t x = vp_i64(); h_gint(S, "x", x); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_flt(S, "a", (double)x, "int to float"); h_is_bool(S, "b", true, "ints are true"); h_is_int(S, "c", x, "int to int"); }
  else if (k == 1) { double x = vp_f64(); vp_assume(x > -9.0e18 && x < 9.0e18); h_gflt(S, "x", x); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_int(S, "a", (int64_t)x, "float to int truncates"); h_is_bool(S, "b", true, "numbers are true"); h_is_flt(S, "c", x, "float to float"); }
  else if (k == 2) { bool x = vp_choose(2); h_gbool(S, "x", x); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_str(S, "a", x ? "true" : "false", x ? 4 : 5, "bool"); h_is_bool(S, "b", x, "bool"); }
  else { char s[4]; size_t n = vp_choose(4); vp_sym_bytes(s, n); h_gstr(S, "x", s, n); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_bool(S, "a", n != 0, "the empty str is false"); h_is_str(S, "b", s, n, "the str itself"); } h_end(S); }
void vp_main(void) { int k = (int)vp_shard(42); if (k < 20) ints(k); else if (k < 32) flts(k - 20); else if (k < 34) rounded(k - 32); else if (k < 37) nested(k - 34); else if (k == 37) cycles(); else conv(k - 38); }
