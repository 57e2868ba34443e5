// vp: shards=30 quick=60 thorough=300
// bounds: every binary operator over every pair of 8 kinds of value (undef, any int, any float, any bool, any str of 0..2 bytes, empty list, empty table, native function), every unary operator, call, index, field and iteration over every kind; right operands of // and % are not 0, of ** in 0..3 or 0.5
#include "h.h"
static const char *ops[] = {"+", "-", "*", "/", "**", "//", "%", "&", "|", "^", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "~", "&&", "||", "??"};
static bool num(int k) { return k == KI || k == KF; }
static int ok(unsigned o, int a, int b) { // 1 supported, 0 type error, 2 not decided here
  if (o <= 4) return (num(a) && num(b)) || (o == 0 && a == KL && b == KL);
  if (o <= 12) return (a == KI && b == KI) || (o == 8 && a == KT && b == KT);
  if (o <= 16) return (num(a) && num(b)) || (a == KS && b == KS);
  return 1;
}
static const char *uops[] = {"-x", "+x", "^x", "len x", "!x", "x()", "x[0]", "x[0] = 1", "x.q", "x->q()", "for e <- x { r = 3; }", "x[0:1]", "echo x", "x.q = 1"};
void vp_main(void) {
  unsigned o = vp_shard(30); bool un = o >= 25; static char src[300]; char *d; int want; // 1 ok, 0 type error, 2 value error, 3 any non-type error
  int a = vp_choose(NKIND), b = KU;
  YS *S0 = NULL; unsigned u = 0;
  if (un) { u = (o - 25) * 3 + vp_choose(3); if (u >= LEN(uops)) vp_skip(); d = put(src, "w = 1; "); if (u != 7 && u != 10 && u != 12 && u != 13) d = put(d, "r = "); if (u == 7) { d = put(src, "w = 1; "); } d = put(d, uops[u]); put(d, "; q = 1;");
    switch (u) { case 0: case 1: want = num(a); break; case 2: want = a == KI; break; case 3: want = a == KS || a == KL || a == KT; break; case 4: want = 1; break; case 5: want = a == KC; break;
    case 6: want = a == KT ? 1 : 2; break; case 7: want = a == KL ? 2 : a == KT ? 1 : 0; break; case 8: want = a == KT ? 1 : -1; break; case 9: want = -1; break; case 10: want = a == KS || a == KL || a == KT; break;
    case 11: want = a == KS || a == KL ? -1 : 0; break; case 12: want = 1; break; default: want = a == KT ? 1 : -1; }
  } else { b = vp_choose(NKIND); d = put(src, "w = 1; r = x "); d = put(d, ops[o]); put(d, " y; q = 1;"); want = ok(o, a, b); }
  YS *S = h_new(src); Any x = h_any(S, "x", a), y = h_any(S, "y", b);
  if (!un && (o == 5 || o == 6) && b == KI) vp_assume(y.i != 0);
  if (!un && o == 4) { vp_assume(!(b == KI) | (y.i >= 0 & y.i < 4)); vp_assume(!(b == KF) | (y.f == 2.0 | y.f == 0.5)); }
  if (un && u == 12) vp_assume(a != KF & a != KI); // text of numbers: P24
  if (!un && o == 21) vp_assume(a != KF & a != KI & b != KF & b != KI);
  h_gint(S, "w", 0); h_gint(S, "r", 77); h_gint(S, "q", 0); int rc = h_run(S);
  if (want == 1) { VP_CHECK(rc == YASL_SUCCESS, "supported operand types succeed"); h_is_int(S, "q", 1, "execution goes on"); }
  else if (want == 0) { VP_CHECK(rc == YASL_TYPE_ERROR, "unsupported operand types are a type error"); h_is_int(S, "q", 0, "no later statement runs"); h_is_int(S, "r", 77, "a failing operator assigns nothing"); }
  else if (want == 2) { VP_CHECK(rc == YASL_VALUE_ERROR || a == KS && x.n > 0 && rc == 0, "absent index is a value error"); }
  else VP_CHECK(rc == YASL_SUCCESS || rc == YASL_TYPE_ERROR || rc == YASL_VALUE_ERROR, "a documented status");
  h_is_int(S, "w", 1, "earlier effects stay"); if (!(un && u == 7)) h_is_any(S, "x", x, "left operand unchanged"); h_is_any(S, "y", y, "right operand unchanged");
  vp_observe(rc); vp_reach(want == 1 ? "supported" : "rejected"); h_end(S);
}
