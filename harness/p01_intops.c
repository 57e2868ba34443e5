// vp: shards=19 quick=60 thorough=300
// bounds: both operands any 64-bit int (multiplication, division and remainder included), one operator per shard; ** with bases -4..4 and 20 exponents from 0 to 65, each chosen pair concretely
// outside: ** on operands beyond the stated range
#include "h.h"
static const char *ops[] = {"+", "-", "*", "&", "|", "^", "&^", "<<", ">>", "//", "%", "<", "<=", ">", ">=", "==", "!=", "u", "**"};
void vp_main(void) {
  unsigned k = vp_shard(19); const char *op = ops[k];
  int64_t a, b;
  static const int8_t ex[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 30, 31, 32, 40, 61, 62, 63, 65};
  if (k == 18) { a = (int64_t)vp_choose(9) - 4; b = ex[vp_choose(20)]; } else { a = vp_i64(); b = vp_i64(); }
  char src[160];
  if (k == 17) strcpy(src, "r = -a; s = ^a; t = +a; u = !a;");
  else { strcpy(src, "r = a "); strcat(src, op); strcat(src, " b; s = a; s "); if (k < 11 || k == 18) { strcat(src, op); strcat(src, "= b;"); } else strcpy(src, "r = a ? b : b; r = a "), strcat(src, op), strcat(src, " b; s = r;"); }
  YS *S = h_new(src);
  h_gint(S, "a", a); h_gint(S, "b", b); h_out(S, "r"); h_out(S, "s"); h_out(S, "t"); h_out(S, "u");
  int rc = h_run(S);
  uint64_t x = a, y = b;
  const char *m = op;
  if (k == 17) { VP_CHECK(rc == 0, "unary: status"); h_is_int(S, "r", (int64_t)(0 - x), "-a"); h_is_int(S, "s", (int64_t)~x, "^a"); h_is_int(S, "t", a, "+a"); h_is_bool(S, "u", false, "!int is false"); h_end(S); return; }
  if ((k == 9 || k == 10) && b == 0) { VP_CHECK(rc == YASL_DIVIDE_BY_ZERO_ERROR, "division by zero is reported as such"); vp_reach("div0"); h_end(S); return; }
  VP_CHECK(rc == 0, "int operators succeed");
  HV r = h_get(S, "r"), s = h_get(S, "s");
  if (k >= 11 && k <= 16) {
    bool e = k == 11 ? a < b : k == 12 ? a <= b : k == 13 ? a > b : k == 14 ? a >= b : k == 15 ? a == b : a != b;
    VP_CHECK(r.t == TB, m); VP_CHECK(r.b == e, m);
  } else {
    uint64_t e = 0;
    switch (k) {
    case 0: e = x + y; break; case 1: e = x - y; break; case 2: e = x * y; break; case 3: e = x & y; break; case 4: e = x | y; break; case 5: e = x ^ y; break; case 6: e = x & ~y; break;
    case 7: vp_assume(y < 64); e = x << (y & 63); break;
    case 8: vp_assume(y < 64); e = (uint64_t)(a >> (y & 63)); break;
    case 9: e = b == -1 ? 0 - x : (uint64_t)(a / b); break;
    case 10: e = b == -1 ? 0 : (uint64_t)(a % b); break;
    case 18: { int64_t w = 1, m = a < 0 ? -a : a; bool ov = false; for (int i = 0; i < b && !ov; i++) { if (m > 1 && (w > INT64_MAX / m || w < INT64_MIN / m)) ov = true; else w *= a; } if (ov) { vp_reach("pow overflow"); h_end(S); return; } e = (uint64_t)w; break; }
    }
    VP_CHECK(r.t == TI, m); VP_CHECK((uint64_t)r.i == e, m); VP_CHECK(s.t == TI && (uint64_t)s.i == e, "op= agrees with op");
  }
  h_obs(r); h_obs(s); vp_reach(op); h_end(S);
}
