// vp: shards=19 quick=60 thorough=600
// bounds: A op B over two literals, each any int of either sign (63 binary digits) or a float that is the quotient of two such ints (NaN and infinities included), compared through a third such literal with the same expression over variables; // and % with a divisor other than 0 and -1, shifts by 0..63; for != only 8-bit ints and their quotients
// outside: float literals that are not a quotient of two ints; ints below -(2^63-1) have no literal
#include "h.h"
static const char *ops[] = {"+", "-", "*", "/", "//", "%", "&", "|", "^", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "u"};
typedef struct { bool f; int64_t a, b; bool na, nb; } Lit;
static int64_t si(bool neg) { int64_t v = vp_i64() & INT64_MAX; return neg ? -v : v; }
static bool small; // "!=" branches on equality: quotients of 8-bit ints only
static Lit mk(bool f) { Lit l; memset(&l, 0, sizeof l); l.f = f; l.na = vp_choose(2); l.a = si(l.na); if (f) l.b = si(false); if (small) { l.a = l.na ? -(int64_t)vp_u8() : (int64_t)vp_u8(); l.b = vp_u8(); } return l; }
static char *show(char *d, Lit l) { if (!l.f) return h_lit(d, l.a, l.na); *d++ = '('; d = h_lit(d, l.a, l.na); *d++ = '/'; d = h_lit(d, l.b, l.nb); *d++ = ')'; return d; }
static void set(YS *S, const char *n, Lit l) { if (l.f) h_gflt(S, n, (double)l.a / (double)l.b); else h_gint(S, n, l.a); }
void vp_main(void) {
  unsigned k = vp_shard(19); const char *op = ops[k];
  small = k == 17; bool ints = (k >= 4 && k <= 11);
  Lit x = mk(ints ? 0 : vp_choose(2)), y, z; memset(&y, 0, sizeof y);
  bool cmp = k >= 12 && k <= 17;
  static char src[800], vs[64]; char *d;
  if (k == 18) {
    static const char *us[] = {"-", "+", "^", "!"}; unsigned u = vp_choose(4); if (u == 2) vp_assume(!x.f);
    if (u == 3) { d = put(src, "r = !"); d = show(d, x); put(d, ";"); put(vs, "r = !x;"); }
    else { z = mk(x.f); d = put(src, "r = ("); d = put(d, us[u]); d = show(d, x); d = put(d, ") == "); d = show(d, z); put(d, ";"); d = put(vs, "r = ("); d = put(d, us[u]); put(d, "x) == z;"); }
  } else {
    y = mk(ints ? 0 : vp_choose(2));
    if (k == 4 || k == 5) vp_assume(y.a != 0 && y.a != -1);
    if (k == 10 || k == 11) vp_assume(y.a >= 0 && y.a < 64);
    if (cmp) { d = put(src, "r = "); d = show(d, x); *d++ = ' '; d = put(d, op); *d++ = ' '; d = show(d, y); put(d, ";"); d = put(vs, "r = x "); d = put(d, op); put(d, " y;"); }
    else { z = mk(k == 3 || x.f || y.f); d = put(src, "r = ("); d = show(d, x); *d++ = ' '; d = put(d, op); *d++ = ' '; d = show(d, y); d = put(d, ") == "); d = show(d, z); put(d, ";"); d = put(vs, "r = (x "); d = put(d, op); put(d, " y) == z;"); }
  }
  YS *A = h_new(src); h_out(A, "r"); int ra = h_run(A);
  YS *B = h_new(vs); h_out(B, "r"); set(B, "x", x); set(B, "y", y); if (!cmp && strchr(vs, 'z')) set(B, "z", z); int rb = h_run(B);
  VP_CHECK(ra == 0 && rb == 0, "literals and variables both succeed");
  HV a = h_get(A, "r"), b = h_get(B, "r");
  VP_CHECK(a.t == TB && b.t == TB, "both are bools"); VP_CHECK(a.b == b.b, "literals and variables give the same value");
  vp_observe(a.b); vp_reach(op); YASL_delstate(A); h_end(B);
}
