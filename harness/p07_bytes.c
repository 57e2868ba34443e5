// vp: shards=14 quick=60 thorough=600
// bounds: toupper, tolower, isal, isnum, isalnum, isspace, tobool, tostr, rep over strs of 0..5 bytes (thorough 7), any bytes, own storage and shared storage; rep counts -3..6; toint over decimal (1..6 digits and the 19-digit texts 92233720368547xxxxx up to the largest int), hexadecimal (1..4 digits) and binary (1..8 digits) texts with separators, against the literal of the same text for the compiler; tofloat over d.d, dd.dd, d.de+d, d.de-d, d_d.d_d, int texts
#include "sv.h"
static const char *ex[] = {"s->toupper()", "s->tolower()", "s->isal()", "s->isnum()", "s->isalnum()", "s->isspace()", "s->tobool()", "s->tostr()", "s->rep(m)"};
static bool up(unsigned char c) { return (c >= 'A') & (c <= 'Z'); }
static bool lo(unsigned char c) { return (c >= 'a') & (c <= 'z'); }
static bool di(unsigned char c) { return (c >= '0') & (c <= '9'); }
static bool sp(unsigned char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\v') | (c == '\r'); }
static void bytes(unsigned op) {
  size_t n = vp_choose(VP_TIER == 1 ? 6 : 8); unsigned var = (unsigned[]){0, 2, 4, 3}[vp_choose(4)]; static char src[400]; SV v; char *d = sv_src(src, "s", &v, var, n, 0); d = put(d, "r = "); d = put(d, ex[op]); put(d, "; q = 1;");
  int64_t m = op == 8 ? (int64_t)vp_choose(10) - 3 : 0; YS *S = h_new(src); sv_glob(S, "s", &v); h_gint(S, "m", m); h_gint(S, "q", 0); h_gundef(S, "r"); int rc = h_run(S);
  if (op == 8 && m < 0) { VP_CHECK(rc == YASL_VALUE_ERROR, "negative count is a value error"); h_is_undef(S, "r", "no result"); h_end(S); return; }
  VP_CHECK(rc == 0, "no error"); h_is_int(S, "q", 1, "completes"); char o[64]; bool all = true; const unsigned char *e = (const unsigned char *)v.e;
  switch (op) {
  case 0: for (size_t i = 0; i < n; i++) o[i] = e[i] - (lo(e[i]) ? 32 : 0); h_is_str(S, "r", o, n, "toupper changes exactly a-z"); break;
  case 1: for (size_t i = 0; i < n; i++) o[i] = e[i] + (up(e[i]) ? 32 : 0); h_is_str(S, "r", o, n, "tolower changes exactly A-Z"); break;
  case 2: for (size_t i = 0; i < n; i++) all &= up(e[i]) | lo(e[i]); h_is_bool(S, "r", all, "all letters"); break;
  case 3: for (size_t i = 0; i < n; i++) all &= di(e[i]); h_is_bool(S, "r", all, "all digits"); break;
  case 4: for (size_t i = 0; i < n; i++) all &= up(e[i]) | lo(e[i]) | di(e[i]); h_is_bool(S, "r", all, "all alphanumeric"); break;
  case 5: for (size_t i = 0; i < n; i++) all &= sp(e[i]); h_is_bool(S, "r", all, "all white space"); break;
  case 6: h_is_bool(S, "r", n > 0, "nonempty is true"); break;
  case 7: h_is_str(S, "r", e, n, "a str is its own text"); break;
  default: { size_t l = 0; for (int64_t i = 0; i < m; i++) { memcpy(o + l, e, n); l += n; } h_is_str(S, "r", o, l, "repeated"); } }
  h_is_str(S, "s", e, n, "operand unchanged"); vp_reach(ex[op]); h_end(S);
}
static void toint(unsigned op) {
  char t[40], u[40]; size_t l = 0, w = 0; uint64_t e = 0; static char src[200]; bool neg = false;
  unsigned sep = 0;
  if (op == 0) { neg = vp_choose(2); if (neg) t[l++] = '-'; unsigned k = 1 + vp_choose(6); sep = vp_choose(k); for (unsigned i = 0; i < k; i++) { unsigned char c = vp_u8(); vp_assume(c >= '0' & c <= '9'); e = e * 10 + (uint64_t)(c - '0'); if (i && i == sep) t[l++] = '_'; t[l++] = c; } }
  else if (op == 1) { l = (size_t)(put(t, "92233720368547") - t); e = 92233720368547ull; for (int i = 0; i < 5; i++) { unsigned char c = vp_u8(); vp_assume(c >= '0' & c <= '9'); e = e * 10 + (uint64_t)(c - '0'); t[l++] = c; } vp_assume(e <= INT64_MAX); }
  else if (op == 2) { unsigned k = 1 + vp_choose(4); sep = vp_choose(k); t[l++] = '0'; t[l++] = vp_choose(2) ? 'x' : 'X'; for (unsigned i = 0; i < k; i++) { unsigned g = vp_below(16), c = vp_u8() & 32; e = e * 16 + g; if (i && i == sep) t[l++] = '_'; t[l++] = g < 10 ? '0' + g : ('A' + g - 10) | c; } }
  else { unsigned k = 1 + vp_choose(8); sep = vp_choose(k); t[l++] = '0'; t[l++] = vp_choose(2) ? 'b' : 'B'; for (unsigned i = 0; i < k; i++) { unsigned g = vp_u8() & 1; e = e * 2 + g; if (i && i == sep) t[l++] = '_'; t[l++] = '0' + g; } }
  (void)u; (void)w; char *d = put(src, "r = s->toint(); q = 1; "); YS *S = h_new(src); (void)d; h_gstr(S, "s", t, l); h_gint(S, "q", 0); h_gundef(S, "r"); int rc = h_run(S);
  VP_CHECK(rc == 0, "no error"); h_is_int(S, "r", (int64_t)(neg ? 0 - e : e), "toint of the text of an int literal is that int"); vp_reach(sep ? "separator" : "plain"); h_end(S);
}
static void tofloat(void) {
  char t[40], c[40], *d = t, *k = c; unsigned f = vp_choose(6); static const char *fm[] = {"D.D", "DD.DD", "D.De+D", "D.De-D", "D_D.D_D", "DD"}; static const char dg[] = "0579"; // any digits, four each
  for (const char *p = fm[f]; *p; p++) { char x = *p == 'D' ? dg[vp_choose(4)] : *p; *d++ = x; if (x != '_') *k++ = x; } *k = 0;
  YS *S = h_new("r = s->tofloat(); q = 1;"); h_gstr(S, "s", t, (size_t)(d - t)); h_gundef(S, "r"); h_gint(S, "q", 0); int rc = h_run(S); VP_CHECK(rc == 0, "no error"); h_is_flt(S, "r", strtod(c, NULL), "tofloat of the text of a literal is that number"); vp_reach("tofloat"); h_end(S);
}
void vp_main(void) { unsigned k = vp_shard(14); if (k < 9) bytes(k); else if (k < 13) toint(k - 9); else tofloat(); }
