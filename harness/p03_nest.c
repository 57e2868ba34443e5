// vp: shards=17 quick=80 thorough=600
// bounds: (A op1 B) op2 C and A op1 (B op2 C) over int literals of 3-bit (thorough: 4-bit) magnitude, with / // % << >> the enumerated magnitudes 0 and 3 (thorough: 0, 3, 6, 9), signs +-+ and -+- (thorough: all), every pair of the arithmetic, bitwise and comparison operators, compared with a fourth literal; literal conditions of if, while, ?:, &&, ||, ??
#include "h.h"
static const char *ops[] = {"+", "-", "*", "&", "|", "^", "&^", "<<", ">>", "//", "%", "/", "<", ">=", "==", "!="};
static void same(YS *A, YS *B, const char *n) {
  HV a = h_get(A, n), b = h_get(B, n);
  VP_CHECK(a.t == b.t, "same type");
  if (a.t == TI) VP_CHECK(a.i == b.i, "same int"); else if (a.t == TF) VP_CHECK(h_feq(a.f, b.f), "same float"); else if (a.t == TB) VP_CHECK(a.b == b.b, "same bool");
  else if (a.t == TS) { VP_CHECK(a.n == b.n, "same str length"); VP_CHECK(memcmp(a.s, b.s, a.n) == 0, "same str"); }
  h_free(a); h_free(b);
}
static const char *lits[] = {"true", "false", "undef", "0", "1", "-1", "0.0", "1.5", "''", "'a'", "[]", "(0.0/0.0)", "!true", "!0", "1 < 2", "2 < 1", "1 + 1", "(1 == 1.0)"};
static const char *shapes[] = {"if @ { r = 1; } else { r = 2; };", "r = @ ? 1 : 2;", "r = @ && 5;", "r = @ || 5;", "r = @ ?? 5;", "r = !@;", "r = 0; while @ { r = 7; break; };", "if @ { r = 3; } elseif z { r = 4; } else { r = 5; };", "if z { r = 3; } elseif @ { r = 4; } else { r = 5; };", "fn f() { if @ { return 1; }; return 2; } r = f();", "r = (@ ? y : z) ?? 6;", "r = 0; while @ { r += 1; if r >= 2 { break; }; continue; };"};
void vp_main(void) {
  unsigned k = vp_shard(17);
  static char src[700], vs[300];
  if (k == 16) {
    const char *l = lits[vp_choose(LEN(lits))], *sh = shapes[vp_choose(LEN(shapes))]; char *d = src, *v = put(vs, "let v = "); v = put(v, l); v = put(v, ";\n");
    for (const char *q = sh; *q; q++) if (*q == '@') { *d++ = '('; d = put(d, l); *d++ = ')'; *v++ = 'v'; } else { *d++ = *q; *v++ = *q; }
    *d = *v = 0;
    // `v` is a global of the script, so functions see it too
    YS *A = h_new(src), *B = h_new(vs);
    h_out(A, "r"); h_gint(A, "y", 8); h_gbool(A, "z", false); h_out(B, "r"); h_gint(B, "y", 8); h_gbool(B, "z", false);
    VP_CHECK(h_run(A) == h_run(B), "same status"); same(A, B, "r"); vp_reach("condition"); YASL_delstate(A); h_end(B); return;
  }
  const char *o1 = ops[k], *o2 = ops[vp_choose(16)]; unsigned left = vp_choose(2);
  // small operands: the operators themselves are covered over all values by p03_fold; the result is compared with a further literal, so it is never stored
  bool fl = strchr("/%", o1[0]) || o1[1] == '<' || o1[1] == '>' || strchr("/%", o2[0]) || o2[1] == '<' || o2[1] == '>';
  int64_t v[4]; bool ng[4]; static const char *nm[] = {"a", "b", "c", "e"}; unsigned sg = VP_TIER > 1 ? vp_choose(8) : vp_choose(2) ? 5 : 2;
  for (int i = 0; i < 4; i++) { ng[i] = sg >> i & 1; v[i] = fl ? vp_choose(VP_TIER > 1 ? 4 : 2) * 3 : vp_u8() & (VP_TIER > 1 ? 15 : 7); if (ng[i]) { vp_assume(v[i] != 0); v[i] = -v[i]; } }
#define NZ(op, x) if (op[0] == '/' && op[1] == '/' || op[0] == '%') vp_assume((x) != 0 && (x) != -1); if (op[0] == '<' && op[1] == '<' || op[0] == '>' && op[1] == '>') vp_assume((x) >= 0 && (x) < 64);
  if (left) { NZ(o1, v[1]); NZ(o2, v[2]); } else { NZ(o2, v[2]); }
  for (int m = 0; m < 2; m++) {
    char *d = put(m ? vs : src, "r = (");
#define OPND(i) d = m ? put(d, nm[i]) : h_lit(d, v[i], ng[i])
    if (left) *d++ = '('; OPND(0); *d++ = ' '; d = put(d, o1); *d++ = ' '; if (!left) *d++ = '('; OPND(1); if (left) *d++ = ')'; *d++ = ' '; d = put(d, o2); *d++ = ' '; OPND(2); if (!left) *d++ = ')';
    d = put(d, ") == "); OPND(3); put(d, ";");
  }
  YS *A = h_new(src), *B = h_new(vs); h_out(A, "r"); h_out(B, "r"); for (int i = 0; i < 4; i++) h_gint(B, nm[i], v[i]);
  int ra = h_run(A), rb = h_run(B); VP_CHECK(ra == rb, "same status"); same(A, B, "r"); vp_observe(ra); vp_reach("nested"); YASL_delstate(A); h_end(B);
}
