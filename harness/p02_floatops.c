// vp: shards=45 quick=60 thorough=600
// bounds: both operands any bit pattern (int or float); one operator and one type combination per shard; ** through the C library's pow as an uninterpreted function
#include "h.h"
static const char *ops[] = {"+", "-", "*", "/", "**", "<", "<=", ">", ">=", "==", "!="};
void vp_main(void) {
  unsigned k = vp_shard(45);
  if (k == 44) {
    double a = vp_f64();
    YS *S = h_new("r = -a; s = +a; t = !a; u = a;"); h_gflt(S, "a", a); h_out(S, "r"); h_out(S, "s"); h_out(S, "t"); h_out(S, "u");
    VP_CHECK(h_run(S) == 0, "unary float operators succeed");
    h_is_flt(S, "r", -a, "-float"); h_is_flt(S, "s", a, "+float"); h_is_bool(S, "t", h_isnan(a), "!float"); h_is_flt(S, "u", a, "float is stored unchanged");
    vp_reach("unary"); h_end(S); return;
  }
  unsigned o = k / 4, c = k % 4; // c: bit 0 left is a float, bit 1 right is a float
  const char *op = ops[o];
  bool lf = c & 1, rf = c & 2;
  if (!lf && !rf && o != 3) { // int op int stays an int: P01; here only that / is a float and == agrees with ===
    int64_t a = vp_i64(), b = vp_i64();
    YS *S = h_new("r = a === b; s = a !== b; t = a == b;"); h_gint(S, "a", a); h_gint(S, "b", b); h_out(S, "r"); h_out(S, "s"); h_out(S, "t");
    VP_CHECK(h_run(S) == 0, "identity of ints"); h_is_bool(S, "r", a == b, "int === int"); h_is_bool(S, "s", a != b, "int !== int"); h_is_bool(S, "t", a == b, "int == int"); vp_reach("=== ints"); h_end(S); return;
  }
  double fa = 0, fb = 0; int64_t ia = 0, ib = 0;
  if (lf) fa = vp_f64(); else ia = vp_i64();
  if (rf) fb = vp_f64(); else ib = vp_i64();
  double x = lf ? fa : (double)ia, y = rf ? fb : (double)ib;
  char src[160]; strcpy(src, "r = a "); strcat(src, op); strcat(src, " b; t = a === b; u = a !== b; s = a;"); if (o < 5) { strcat(src, " s "); strcat(src, op); strcat(src, "= b;"); }
  YS *S = h_new(src);
  if (lf) h_gflt(S, "a", fa); else h_gint(S, "a", ia);
  if (rf) h_gflt(S, "b", fb); else h_gint(S, "b", ib);
  h_out(S, "r"); h_out(S, "s"); h_out(S, "t"); h_out(S, "u");
  VP_CHECK(h_run(S) == 0, "float operators succeed");
  HV r = h_get(S, "r"), s = h_get(S, "s"), t = h_get(S, "t"), u = h_get(S, "u");
  if (o >= 5) {
    bool e = o == 5 ? x < y : o == 6 ? x <= y : o == 7 ? x > y : o == 8 ? x >= y : o == 9 ? x == y : !(x == y);
    VP_CHECK(r.t == TB, op); VP_CHECK(r.b == e, op);
  } else {
    double e = o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : o == 3 ? x / y : pow(x, y);
    VP_CHECK(r.t == TF, "a float operand gives a float"); VP_CHECK(h_feq(r.f, e), op);
    VP_CHECK(s.t == TF, "op= gives a float"); VP_CHECK(h_feq(s.f, e), "op= agrees with op");
  }
  VP_CHECK(t.t == TB && u.t == TB && t.b != u.b, "=== and !== are opposite bools");
  if (lf != rf || (!lf && !rf && ia != ib)) VP_CHECK(!t.b, "=== distinguishes int from float");
  if (lf && rf) { if (h_bits(fa) == h_bits(fb)) { if (!h_isnan(fa)) VP_CHECK(t.b, "a float is identical to itself"); } else if (!(fa == fb)) VP_CHECK(!t.b, "unequal floats are not identical"); }
  h_obs(r); h_obs(s); vp_reach(op); h_end(S);
}
