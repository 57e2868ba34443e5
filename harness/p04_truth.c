// vp: shards=18 quick=60 thorough=300
// bounds: 18 contexts that test a value (!, &&, ||, ??, ?:, if, elseif, while, for, comprehension, match guard, assert, tobool, nesting and negation of these) x 8 kinds of value, all contents (strs of 0..2 bytes, of their own or sharing the storage of a longer one), right operands counted
#include "h.h"
static const char *fn = "fn f() { c += 1; return y; }; fn g() { e += 1; return z; }; ";
static const char *ctx[] = {
  "r = !x", "r = x && f()", "r = x || f()", "r = x ?? f()", "r = x ? f() : g()", "if x { r = f(); } else { r = g(); }", "while x { r = f(); x = false; break; }", "if false { r = 5; } elseif x { r = f(); } else { r = g(); }",
  "r = len [1 for k <- [1, 2] if x]", "match 1 {\n* if x { r = f(); }\n* { r = g(); }\n}", "assert x; r = f()", "for let k = x; k; k = false { r = f(); }", "r = (x && f()) || g()", "r = (x || f()) && g()", "r = !(!x)", "r = !x ? f() : g()", "r = !(x && f())", "r = (x ?? f()) ? 1 : 2"};
void vp_main(void) {
  unsigned c = vp_shard(18); static char src[400], w[8]; int xk = (int)vp_choose(NKIND); bool sl = xk == KS && vp_choose(2); char *d = put(src, sl ? "x = w[1:1 + len x]; " : ""); d = put(d, fn); d = put(d, ctx[c]); put(d, "; q = 1;");
  YS *S = h_new(src); Any x = h_any(S, "x", xk); if (sl) { w[0] = 'k'; for (size_t i = 0; i < x.n; i++) vp_assume((w[1 + i] = x.s[i]) != 0); w[1 + x.n] = 'm'; YASL_declglobal(S, "w"); YASL_pushlit(S, w); YASL_setglobal(S, "w"); } bool t = h_truthy(x); int yk = (c >= 12 && c != 14 && c != 15) ? vp_choose(NKIND) : KI; Any y = h_any(S, "y", yk); bool ty = h_truthy(y);
  int64_t z = vp_i64(); h_gint(S, "z", z); h_gint(S, "c", 0); h_gint(S, "e", 0); h_gint(S, "q", 0); h_out(S, "r");
  int rc = h_run(S); if (c == 10 && !t) { VP_CHECK(rc == YASL_ASSERT_ERROR, "assert of a falsey value fails"); h_is_undef(S, "r", "nothing runs after a failed assert"); h_is_int(S, "c", 0, "nothing runs after a failed assert"); h_end(S); return; }
  VP_CHECK(rc == 0, "runs"); h_is_int(S, "q", 1, "goes on");
  int nc = 0, ne = 0;
  switch (c) {
  case 0: h_is_bool(S, "r", !t, "! negates truth"); break;
  case 1: nc = t; h_is_any(S, "r", t ? y : x, "&& yields the deciding operand"); break;
  case 2: nc = !t; h_is_any(S, "r", t ? x : y, "|| yields the deciding operand"); break;
  case 3: nc = x.k == KU; h_is_any(S, "r", x.k == KU ? y : x, "?? yields the first operand that is not undef"); break;
  case 4: case 5: case 7: case 9: nc = t; ne = !t; if (t) h_is_any(S, "r", y, "true branch"); else h_is_int(S, "r", z, "false branch"); break;
  case 6: case 11: nc = t; if (t) h_is_any(S, "r", y, "loop body runs"); else h_is_undef(S, "r", "loop body does not run"); break;
  case 8: h_is_int(S, "r", t ? 2 : 0, "comprehension condition"); break;
  case 10: nc = 1; break;
  case 12: nc = t; ne = !(t && ty); if (t && ty) h_is_any(S, "r", y, "(a && b) || c"); else h_is_int(S, "r", z, "(a && b) || c"); break;
  case 13: nc = !t; ne = t || ty; if (t || ty) h_is_int(S, "r", z, "(a || b) && c"); else h_is_any(S, "r", y, "(a || b) && c"); break;
  case 14: h_is_bool(S, "r", t, "double negation"); break;
  case 15: nc = !t; ne = t; if (!t) h_is_any(S, "r", y, "negated condition"); else h_is_int(S, "r", z, "negated condition"); break;
  case 16: nc = t; h_is_bool(S, "r", !(t && ty), "!(a && b)"); break;
  default: nc = x.k == KU; h_is_int(S, "r", (x.k == KU ? ty : t) ? 1 : 2, "(a ?? b) ?"); }
  h_is_int(S, "c", nc, "right operand evaluated exactly when needed"); h_is_int(S, "e", ne, "other operand evaluated exactly when needed");
  vp_reach(ctx[c]); h_end(S);
}
