// vp: shards=26 quick=60 thorough=600
// bounds: every operator over every pair of 25 literals of all scalar types (boundary ints and floats, bools, undef, strs), compared in value, type and status with the same operator over variables; choices are enumerated symbolically, values are concrete
#include "h.h"
static const char *ops[] = {"+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "~", "&&", "||", "??", "u"};
static const char *uops[] = {"-", "+", "!", "^", "len "};
static const char *lits[] = {"0", "1", "(-1)", "2", "(-7)", "64", "129", "9223372036854775807", "(-9223372036854775807 - 1)", "0.0", "(-0.0)", "1.5", "1.0", "(1.0/0.0)", "(-1.0/0.0)", "(0.0/0.0)", "9007199254740993.0", "1e300", "true", "false", "undef", "''", "'a'", "'b'", "'7'"};
void vp_main(void) {
  unsigned k = vp_shard(26); bool un = k == 25;
  const char *op = un ? uops[vp_choose(5)] : ops[k];
  const char *x = lits[vp_choose(LEN(lits))], *y = "1"; if (!un) y = lits[vp_choose(LEN(lits))];
  static char src[600], vs[600];
  char *d = put(src, "r = "); if (un) { d = put(d, op); d = put(d, x); } else { d = put(d, x); *d++ = ' '; d = put(d, op); *d++ = ' '; d = put(d, y); } put(d, "; q = 1;");
  d = put(vs, "let x = "); d = put(d, x); d = put(d, "; let y = "); d = put(d, y); d = put(d, "; r = "); if (un) { d = put(d, op); d = put(d, "x"); } else { d = put(d, "x "); d = put(d, op); d = put(d, " y"); } put(d, "; q = 1;");
  YS *A = h_new(src); h_out(A, "r"); h_gint(A, "q", 0); int ra = h_run(A);
  YS *B = h_new(vs); h_out(B, "r"); h_gint(B, "q", 0); int rb = h_run(B);
  VP_CHECK(ra == rb, "literals and variables give the same status");
  HV a = h_get(A, "r"), b = h_get(B, "r"), qa = h_get(A, "q"), qb = h_get(B, "q");
  VP_CHECK(a.t == b.t, "literals and variables give the same type"); VP_CHECK(qa.i == qb.i, "execution stops at the same point");
  if (a.t == TI) VP_CHECK(a.i == b.i, "same int"); else if (a.t == TF) VP_CHECK(h_feq(a.f, b.f), "same float"); else if (a.t == TB) VP_CHECK(a.b == b.b, "same bool");
  else if (a.t == TS) { VP_CHECK(a.n == b.n, "same str length"); VP_CHECK(memcmp(a.s, b.s, a.n) == 0, "same str"); }
  vp_observe(ra); vp_observe(a.t); h_free(a); h_free(b); vp_reach(ra ? "error" : "value");
  YASL_delstate(A); h_end(B);
}
