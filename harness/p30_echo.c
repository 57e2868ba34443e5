// vp: shards=40 quick=60 thorough=900
// bounds: a value printed by echo and embedded in a str in 8 ways (interpolation alone, with text on both sides, nested, on a second place; ~ on either side; tostr; a named value); the value is undef, a bool, an int (all in -1000..1000 and the ends of the range), one of 12 floats, a str of up to 3 symbolic bytes, a list or table of these (nested twice), a str of a length around every buffer size; up to 4 echoes in sequence, loop, branch, function and closure; output before an error; interpolated expressions of 10 forms
// outside: functions and pointers (their text is an address); order of the elements of a table with more than one key
#include "h.h"
static YS *S; static char src[2000], *d; static void P(const char *s) { d = put(d, s); }
static uint8_t w[6000]; static size_t wn; static void W(const char *s, size_t n) { memcpy(w + wn, s, n); wn += n; } static void Wz(const char *s) { W(s, strlen(s)); }
static char t[64]; static size_t tn; // text of the value
static int64_t xi; static char xs[4]; static size_t xn; static double xf; static int xk;
static const struct { double v; const char *t; } fl[] = {{0, "0.0"}, {-0.0, "-0.0"}, {1, "1.0"}, {0.5, "0.5"}, {-2.25, "-2.25"}, {0.1, "0.1"}, {100, "100.0"}, {123456.75, "123456.75"}, {1.0 / 3, "0.333333"}, {-1000000, "-1000000.0"}, {0.000001, "0.000001"}, {99.999999, "99.999999"}};
static void itext(int64_t v) { tn = 0; char b[24]; int n = 0; uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; do { b[n++] = '0' + (char)(u % 10); u /= 10; } while (u); if (v < 0) t[tn++] = '-'; while (n) t[tn++] = b[--n]; }
static void value(int k) { xk = k; tn = 0; switch (k) {
  case 0: memcpy(t, "undef", tn = 5); break; case 1: xi = (int)vp_choose(2); tn = xi ? 4 : 5; memcpy(t, xi ? "true" : "false", tn); break;
  case 2: { int r = (int)vp_choose(5); // the digits are symbolic, their number is not
    if (r < 3) { xi = vp_u8() | (int64_t)(vp_u8() & 3) << 8; bool neg = vp_choose(2); vp_assume(r == 0 ? xi < 10 && (xi > 0 || !neg) : r == 1 ? xi >= 10 && xi < 100 : xi >= 100 && xi <= 999); if (neg) { xi = -xi; t[tn++] = '-'; } int64_t a = neg ? -xi : xi; if (r == 2) t[tn++] = '0' + (char)(a / 100); if (r >= 1) t[tn++] = '0' + (char)(a / 10 % 10); t[tn++] = '0' + (char)(a % 10); } else { xi = r == 3 ? INT64_MAX : INT64_MIN; itext(xi); } break; }
  case 3: { int i = (int)vp_choose(12); xf = fl[i].v; memcpy(t, fl[i].t, tn = strlen(fl[i].t)); break; }
  default: xn = vp_choose(4); vp_sym_bytes(xs, xn); memcpy(t, xs, xn); tn = xn; } }
static void setx(void) { switch (xk) { case 0: h_gundef(S, "x"); break; case 1: h_gbool(S, "x", xi); break; case 2: h_gint(S, "x", xi); break; case 3: h_gflt(S, "x", xf); break; default: h_gstr(S, "x", xs, xn); } h_out(S, "s"); }
static void wrap(int c) { // a container around x, and its text
  static const char *const pre[] = {"", "[", "[1, ", "{2: ", "[[", "{'k': [", "[{3: ", "[undef, [], "}, *const post[] = {"", "]", ", 'z']", "}", "], {}]", "]}", "}, true]", "]"};
  static const char *const tp[] = {"", "[", "[1, ", "{2: ", "[[", "{k: [", "[{3: ", "[undef, [], "}, *const tq[] = {"", "]", ", z]", "}", "], {}]", "]}", "}, true]", "]"};
  if (xk == 0 && (c == 3 || c == 6)) { P(c == 3 ? "let v = {2: undef}; " : "let v = [{3: x}, true]; "); tn = c == 3 ? 2 : 10; memcpy(t, c == 3 ? "{}" : "[{}, true]", tn); return; } // undef removes the key
  P("let v = "); P(pre[c]); P("x"); P(post[c]); P("; "); char b[64]; size_t n = 0; memcpy(b, tp[c], n = strlen(tp[c])); memcpy(b + n, t, tn); n += tn; memcpy(b + n, tq[c], strlen(tq[c])); n += strlen(tq[c]); memcpy(t, b, tn = n); }
static void echoed(void) { for (size_t i = 0; i < tn; i++) if (t[i]) w[wn++] = t[i]; } // echo leaves NUL bytes out
static void ways(int k, int c) {
  value(k); d = src; *d = 0; wrap(c); int m = (int)vp_choose(8);
  static const char *const e[] = {"v", "\"#{v}\"", "\"<#{v}>\"", "\"#{\"(#{v})\"}\"", "\"#{1 + 1}#{v};\"", "v ~ '!'", "'!' ~ v", "v->tostr()"}; static const char *const a[] = {"", "", "<", "(", "2", "", "!", ""}, *const z[] = {"", "", ">", ")", ";", "!", "", ""};
  if (m == 7 && (k == 0 && c == 0)) vp_skip(); P("echo "); P(e[m]); P(";"); if (m) { P(" s = "); P(e[m]); P(";"); }
  S = h_new(src); setx(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); wn = 0; Wz(a[m]); echoed(); Wz(z[m]); Wz("\n"); h_is_out(S, (char *)w, wn, "the text of the value and a newline");
  if (m) { wn = 0; Wz(a[m]); W(t, tn); Wz(z[m]); h_is_str(S, "s", w, wn, "the same text in a str"); } vp_reach("printed"); h_end(S); }
static void order(void) { // program order
  int k = (int)vp_choose(3) * 2; value(k); if (k == 4) vp_assume(xn < 2 || xs[0]); int c = (int)vp_choose(8); char o[64]; size_t on; d = src; *d = 0;
  static const char *const p[] = {"echo 1; echo x; echo 'b'; echo x;", "for let i = 0; i < 3; i += 1 { echo i; echo x; };", "for i <- [x, 5, x] { echo i; };", "fn f(a) { echo a; return a; }; echo f(x); echo 'end';", "if x == undef { echo 'u'; } else { echo 'n'; }; echo x;", "let g = []; for i <- [1, 2] { let j = i; g->push(fn() { echo j; echo x; }); }; g[0](); g[1]();", "echo x; echo ''; echo x; let y = 1 // 0; echo 'never';", "let m = match x { undef { echo 'mu'; } * { echo 'mo'; }\n}; echo x;"};
  if (c == 7) { P("match x {\nundef { echo 'mu'; }\n* { echo 'mo'; }\n}; echo x;"); } else P(p[c]); memcpy(o, t, on = tn); (void)o; S = h_new(src); setx(); int st = h_run(S); VP_CHECK(st == (c == 6 ? YASL_DIVIDE_BY_ZERO_ERROR : YASL_SUCCESS), "status"); wn = 0;
#define X echoed(); Wz("\n")
  switch (c) { case 0: Wz("1\n"); X; Wz("b\n"); X; break; case 1: Wz("0\n"); X; Wz("1\n"); X; Wz("2\n"); X; break; case 2: X; Wz("5\n"); X; break; case 3: X; X; Wz("end\n"); break; case 4: Wz(k == 0 ? "u\n" : "n\n"); X; break; case 5: Wz("1\n"); X; Wz("2\n"); X; break; case 6: X; Wz("\n"); X; break; default: Wz(k == 0 ? "mu\n" : "mo\n"); X; }
  h_is_out(S, (char *)w, wn, "in program order"); h_end(S); }
static void lengths(void) { // long texts
  static const int ls[] = {0, 1, 15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000}; int n = ls[vp_choose(23)]; int how = (int)vp_choose(4); static char big[5001]; for (int i = 0; i < n; i++) big[i] = 'a' + i % 26; uint8_t c = vp_u8(); vp_assume(c != 0); if (n) big[n / 2] = (char)c; if (n > 3 && how == 3) big[n - 1] = 0; d = src; *d = 0;
  P(how == 0 || how == 3 ? "echo x;" : how == 1 ? "echo \"<#{x}>\"; s = \"<#{x}>\";" : "echo [x]; s = [x]->tostr();"); S = h_new(src); h_gstr(S, "x", big, n); h_out(S, "s"); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); wn = 0; if (how == 1) Wz("<"); if (how == 2) Wz("["); for (int i = 0; i < n; i++) if (big[i]) w[wn++] = big[i]; if (how == 1) Wz(">"); if (how == 2) Wz("]"); Wz("\n"); h_is_out(S, (char *)w, wn, "the whole text"); if (how == 1 || how == 2) h_is_str(S, "s", w, wn - 1, "the same text in a str"); h_end(S); }
static void inter(void) { // interpolated expressions
  static const char *const e[] = {"x + 1", "[x, x]", "{'a': x}['a']", "(fn(a) { return a * 2; })(x)", "x > 0 ? 'p' : 'n'", "'in}ner'", "\"#{x}#{x}\"", "x ~ \"#{'q' ~ x}\"", "{}", "len [x, 1]", "-x", "x ?? 4"}; value(2); vp_assume(xi > -9 && xi < 9); int i = (int)vp_choose(12); int ctx = (int)vp_choose(3); d = src; *d = 0; P(ctx == 0 ? "s = \"" : ctx == 1 ? "s = \"a#{x}b" : "let l = [\""); P("#{"); P(e[i]); P("}"); P(ctx == 2 ? ".\"]; s = l[0];" : ".\";"); S = h_new(src); setx(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); wn = 0; char o[8]; size_t on = tn; memcpy(o, t, tn); if (ctx == 1) { Wz("a"); W(o, on); Wz("b"); } int64_t v = xi;
  switch (i) { case 0: itext((int64_t)vp_concrete(v + 1)); W(t, tn); break; case 1: Wz("["); W(o, on); Wz(", "); W(o, on); Wz("]"); break; case 2: case 11: W(o, on); break; case 3: itext((int64_t)vp_concrete(v * 2)); W(t, tn); break; case 4: Wz(v > 0 ? "p" : "n"); break; case 5: Wz("in}ner"); break; case 6: W(o, on); W(o, on); break; case 7: W(o, on); Wz("q"); W(o, on); break; case 8: Wz("{}"); break; case 9: Wz("2"); break; default: itext((int64_t)vp_concrete(-v)); W(t, tn); } Wz("."); h_is_str(S, "s", w, wn, "the text of the expression's value"); h_end(S); }
void vp_main(void) { int k = (int)vp_shard(40); if (k < 37) { if (k < 35) ways(k / 7, k % 7); else if (k == 35) order(); else lengths(); } else if (k == 37) inter(); else if (k == 38) ways(4, 7); else ways(2, 7); }
