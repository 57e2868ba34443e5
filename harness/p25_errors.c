// vp: shards=42 quick=60 thorough=900
// bounds: programs of up to 12 points that can fail (14 ways: assert, division and remainder by zero, wrong operand types, index out of range, calling a non-function, missing methods, failing native functions, failing functions called in an operand, failing metamethods, failing interpolation, iterating or slicing a non-collection, mutable keys), in ifs, loops, matches, named functions and closures nested up to 2 deep; which point fails is a symbolic int (none included); blank lines, line and block comments, raw and interpolated strings over several lines, and code of up to 25000 bytes in front; a second program run on the same state afterwards
// outside: the words of the messages; statements that span several lines
#include "h.h"
static YS *S; static char src[60000], *d; static int line; static int kind;
static void P(const char *s) { for (; *s; s++) { *d++ = *s; if (*s == '\n') line++; } *d = 0; }
static void PI(int i) { char b[12]; int n = 0; do b[n++] = (char)('0' + i % 10); while (i /= 10); while (n) *d++ = b[--n]; *d = 0; }
static int lg[64], nlg; static int l_log(YS *S) { lg[nlg++ & 63] = (int)YASL_popint(S); YASL_pushundef(S); return 1; }
static int l_fail(YS *S) { if (YASL_popint(S) == 0) { YASL_print_err(S, "ValueError: native."); YASL_throw_err(S, YASL_VALUE_ERROR); } YASL_pushundef(S); return 1; }
static struct { int line, fn, inner, status; } pt[40]; static int npt; // fn: function the point is in; inner: line of a helper function it fails in (0: none)
static struct { int call, in; } fns[24]; static int nfn; static int cur; static int hl; static int budget;
static void point(int t) { int i = npt++; P("log("); PI(i); P(");\n"); pt[i].line = line; pt[i].fn = cur; pt[i].inner = 0; pt[i].status = YASL_TYPE_ERROR;
  switch (t) {
  case 0: P("assert k != "); PI(i); P(";\n"); pt[i].status = YASL_ASSERT_ERROR; break;
  case 1: P("z = 1 // (k - "); PI(i); P(");\n"); pt[i].status = YASL_DIVIDE_BY_ZERO_ERROR; break;
  case 2: P("z = 7 % (k - "); PI(i); P(");\n"); pt[i].status = YASL_DIVIDE_BY_ZERO_ERROR; break;
  case 3: P("if k == "); PI(i); P(" { z = 1 + []; }\n"); break;
  case 4: P("if k == "); PI(i); P(" { z = [1][5]; }\n"); pt[i].status = YASL_VALUE_ERROR; break;
  case 5: P("if k == "); PI(i); P(" { undef(); }\n"); break;
  case 6: P("if k == "); PI(i); P(" { z = 'a'->nosuch(); }\n"); break;
  case 7: P("fail(k - "); PI(i); P(");\n"); pt[i].status = YASL_VALUE_ERROR; break;
  case 8: P("z = [h(k - "); PI(i); P(")];\n"); pt[i].status = YASL_DIVIDE_BY_ZERO_ERROR; pt[i].inner = hl; break;
  case 9: P("z = m + (k - "); PI(i); P(");\n"); pt[i].status = YASL_DIVIDE_BY_ZERO_ERROR; pt[i].inner = hl + 2; break;
  case 10: P("z = \"a#{1 // (k - "); PI(i); P(")}b\";\n"); pt[i].status = YASL_DIVIDE_BY_ZERO_ERROR; break;
  case 11: P("if k == "); PI(i); P(" { z = 'ab'[true:1]; }\n"); break;
  case 12: P("if k == "); PI(i); P(" { z = {[]: 1}; }\n"); break;
  default: P("if k == "); PI(i); P(" { z = -'a'; }\n"); break; } }
static void gap(int g) { switch (g) { case 0: break; case 1: P("\n"); break; case 2: P("# a comment {\n\n"); break; case 3: P("/* block\n\n comment */\n"); break; case 4: P("z = `raw\ntext\n`;\n"); break; case 5: P("z = [\n1,\n2];\n"); break; case 6: for (int i = 0; i < 300; i++) P("\n"); break; default: P("z = /* a */ 1; # b\n"); } }
static void seq(int dep, int n);
static uint64_t hh;
static void item(int dep) { int t = dep ? (int)vp_choose(8) : 0; hh = hh * 37 + (uint64_t)t; int f; switch (t) {
  case 0: point(kind); break; case 1: P("if k < 1000 {\n"); seq(dep - 1, 1); P("}\n"); break; case 2: P("while true {\n"); seq(dep - 1, 1); P("break;\n}\n"); break; case 3: P("for q <- [1] {\n"); seq(dep - 1, 1); P("}\n"); break;
  case 4: case 5: case 6: { f = nfn++; fns[f].in = cur; int o = cur; cur = f; if (t == 4) { P("let f"); PI(f); P(" = fn(a, b) {\n"); } else if (t == 5) { P("let c"); PI(f); P(" = 3; let f"); PI(f); P(" = fn(a, b) {\nc"); PI(f); P(" += 1;\n"); } else { P("fn f"); PI(f); P("(a, b) {\nlet w = a;\n"); } seq(dep - 1, 1); cur = o; P("return a;\n}\n\n"); fns[f].call = line; P("z = 1 + f"); PI(f); P("(2, 'x');\n"); break; }
  default: P("match k {\n'a' { z = 1; }\nundef {}\n* {\n"); seq(dep - 1, 1); P("}\n}\n"); } }
static void seq(int dep, int n) { for (int i = 0; i < n; i++) { if (dep && i == 0) gap((int)((hh + (uint64_t)kind) % 8)); item(dep); if (budget && i == 0) point((kind + 5) % 14); } }
static void expect(int rc, int64_t k, const char *e, size_t n) { (void)k; int i = nlg - 1; VP_CHECK(rc == pt[i].status, "status of the failing operation"); char x[400]; size_t xn = 0; char *o = d; d = x; int sl = line; P(" (line "); PI(pt[i].inner ? pt[i].inner : pt[i].line); P(")\n"); if (pt[i].inner) { P("In function call on line "); PI(pt[i].line); P("\n"); }
  for (int f = pt[i].fn; f >= 0; f = fns[f].in) { P("In function call on line "); PI(fns[f].call); P("\n"); } xn = (size_t)(d - x); d = o; line = sl; VP_CHECK(n > xn && !memcmp(e + n - xn, x, xn), "line of the failing statement and of the active calls"); size_t nl = 0, xl = 0; for (size_t j = 0; j < n; j++) nl += e[j] == '\n'; for (size_t j = 0; j < xn; j++) xl += x[j] == '\n'; VP_CHECK(nl == xl, "one message"); }
static void program(int pad) { d = src; *d = 0; line = 1; npt = nfn = nlg = 0; cur = -1; hh = 0; budget = 1; hl = 1; P("fn h(a) { return 1 // a; }\nlet m = {};\nfn ma(a, b) { z = a; return h0(b); }\n"); /* h0: native division */ P("mt.set(m, {'__add': ma});\n");
  if (pad == 1) { P("z = ["); for (int i = 0; i < 70; i++) P("1,"); P("2];\n"); } else if (pad == 2) { P("\nz = ["); for (int i = 0; i < 900; i++) P("5000,"); P("2];\n"); }
  if (pad == 2) { for (int i = 0; i < 2; i++) { point(kind); P("z = ["); for (int i = 0; i < 900; i++) P("7.5,"); P("2];\n"); } point((kind + 3) % 14); } else { seq(2, 2); if (VP_TIER == 1 && hh % 15 != (uint64_t)kind) vp_skip(); } point(0); }
static int l_h0(YS *S) { return l_fail(S); }
void vp_main(void) { int k = (int)vp_shard(42); kind = k % 14; program(k / 14); uint8_t b = vp_u8(); vp_assume(b < npt + 1); S = h_new(src); YASL_decllib_mt(S); h_gint(S, "k", b); h_out(S, "z"); h_gfn(S, "log", l_log, 1); h_gfn(S, "fail", l_fail, 1); h_gfn(S, "h0", l_h0, 1);
  int rc = h_run(S); YASL_loadprinterr(S); HV v = h_top(S); VP_CHECK(v.t == TS, "err"); if (rc == YASL_SUCCESS) { VP_CHECK(nlg == npt, "everything ran"); VP_CHECK(v.n == 0, "no message"); VP_CHECK(b == npt, "a failing operation fails"); } else { VP_CHECK(nlg > 0 && nlg <= npt, "failed at some point"); VP_CHECK(b == nlg - 1, "failed at the failing point"); if (pt[nlg - 1].status == YASL_DIVIDE_BY_ZERO_ERROR && pt[nlg - 1].inner == hl + 2) pt[nlg - 1].status = YASL_VALUE_ERROR; expect(rc, b, v.s, v.n); } for (int i = 0; i < nlg; i++) VP_CHECK(lg[i] == i, "statements ran in order, once"); h_free(v);
  size_t e0 = v.n; int n0 = nlg; int bad = (int)vp_choose(2); YASL_resetstate_bb(S, bad ? "w = k + 1;\n\n/* */ assert k == 300;\nw = 0;" : "w = k + 1; log(7);", bad ? strlen("w = k + 1;\n\n/* */ assert k == 300;\nw = 0;") : strlen("w = k + 1; log(7);")); YASL_setprinterr_tostr(S); h_out(S, "w"); rc = h_run(S); h_is_int(S, "w", (int64_t)b + 1, "the next program runs"); YASL_loadprinterr(S); v = h_top(S);
  if (bad) { VP_CHECK(rc == YASL_ASSERT_ERROR, "assert"); VP_CHECK(v.n > e0 + 10 && !memcmp(v.s + v.n - 10, " (line 3)\n", 10), "line in the next program"); } else { VP_CHECK(rc == YASL_SUCCESS && nlg == n0 + 1 && lg[n0] == 7, "the next program runs"); VP_CHECK(v.n == e0, "no message"); } h_free(v); h_end(S); }
