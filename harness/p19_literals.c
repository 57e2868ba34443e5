// vp: shards=14 shards2=14 quick=60 thorough=900
// bounds: decimal literals of 1..20 digits, hexadecimal of 1..17 and binary of 1..66, one digit (any position, quick tier: first, second, middle or last four) arbitrary and the others from two patterns per base (all nines or the largest int; mixed), both cases, with separators in one place; float literals of up to 4.4 digits (thorough 7.7), likewise, with exponents 0..29 of either sign; strs of up to 3 parts in each quote form with one arbitrary byte, every escape, any \x escape; interpolation of up to 3 parts, nested; 40 malformed literals; as whole statement, operand, element, negated, at the very end of the text
// outside: float literals of more than 15 digits (rounding of the C library)
#include "h.h"
static unsigned hs_; static unsigned ch(unsigned n) { unsigned c = vp_choose(n); hs_ = hs_ * 7 + c + (hs_ >> 3); return c; }
static void thin(unsigned n) { if (VP_TIER == 1 && hs_ % n) vp_skip(); } // the quick tier takes a part of the combinations of texts
static char src[600], *w; static void P(const char *s) { w = put(w, s); } static void C(char c) { *w++ = c; *w = 0; }
static unsigned char dig(void) { unsigned char c = vp_u8(); vp_assume((c >= '0') & (c <= '9')); return c; } // the digit itself, so that values stay small expressions
static int ctx; static const char *tail;
// writes a program that stores the literal printed by lit() in q
static void open_(void) { w = src; ctx = ch(4); P(ctx == 0 ? "q = " : ctx == 1 ? "q = [" : ctx == 2 ? "q = (" : "r = 1\nq="); tail = ctx == 0 ? ";" : ctx == 1 ? "][0];" : ctx == 2 ? ");" : "\n"; }
static int TH = 1; static YS *run(void) { thin(TH); P(tail); YS *S = h_newn(src, (size_t)(w - src)); h_gundef(S, "q"); h_gundef(S, "r"); VP_CHECK(h_run(S) == 0, "the literal is accepted"); return S; }
static int at; // position of the arbitrary digit or byte
static void ints(int kind) {
  int base = kind == 0 ? 10 : kind == 1 ? 16 : 2; int n = 1 + ch(kind == 0 ? 20 : kind == 1 ? 17 : 66); if (kind == 2 && VP_TIER == 1 && n > 6 && n < 61) vp_skip();
  at = ch(n); if (VP_TIER == 1 && at > 1 && at < n - 4 && at != n / 2) vp_skip();
  open_(); int sep = ch(5); bool up = kind == 1 && ch(2); bool neg = ctx == 2 && ch(2); if (VP_TIER == 1 && ctx != 0 && sep != 0) vp_skip();
  if (neg) C('-'); if (kind == 1) { C('0'); C(up ? 'X' : 'x'); } if (kind == 2) { C('0'); C(sep & 1 ? 'B' : 'b'); }
  uint64_t v = 0, lim = 0x7fffffffffffffffull; bool over = false; if (kind && sep == 4) P("__"); int pat = ch(2);
  for (int i = 0; i < n; i++) { unsigned char c; int d;
    if (kind == 0) { static const char mx[] = "92233720368547758070"; c = pat ? mx[i] : (unsigned char)('0' + (i * 7 + 1) % 10); if (i == at && (i || n == 1)) c = dig(); d = c - '0'; }
    else if (kind == 1) { static const char hx[] = "0f7f9a3fffffffff0"; bool letter; unsigned char A = up ? 'A' : 'a'; if (i == at) { letter = ch(2); c = vp_u8(); if (letter) vp_assume((c >= A) & (c < A + 6)); else vp_assume((c >= '0') & (c <= '9')); } else { c = pat ? hx[i] : i ? 'f' : '7'; letter = c >= 'a'; if (letter && up) c -= 32; } d = letter ? c - A + 10 : c - '0'; }
    else { if (i == at) { c = vp_u8(); vp_assume((c == '0') | (c == '1')); } else c = pat ? '1' : (unsigned char)('0' + i % 3 % 2); d = c & 1; }
    C((char)c);
    if (kind == 0) { if (i >= 18) over |= (v > lim / 10) | ((v == lim / 10) & ((unsigned)d > lim % 10)); } else over |= (v >> (kind == 1 ? 59 : 62)) != 0;
    v = v * (unsigned)base + (unsigned)d; if (i == 0 && sep >= 1 && n > 1) C('_'); if (i == n / 2 && sep == 2) P("__"); if (i == n - 1 && sep == 3) C('_'); }
  bool o = vp_concrete(over); uint64_t e = o ? 0x7fffffffffffffffull : v; if (neg) e = 0 - e; YS *S = run(); h_is_int(S, "q", (int64_t)e, "an int literal denotes its text, or the largest int"); vp_reach("int"); h_end(S);
}
static void floats(int kind) {
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  int mx = VP_TIER == 1 ? 4 : 7, a = 1 + ch(mx), b = 1 + ch(mx); at = ch(a + b); open_(); int sep = ch(4); bool neg = ctx == 2 && ch(2); if (VP_TIER == 1 && ctx != 0 && sep != 0) vp_skip(); if (neg) C('-'); int64_t m = 0; int ex = -b;
  for (int i = 0; i < a; i++) { unsigned char c = i == at ? dig() : (unsigned char)('0' + (i * 7 + a) % 10); C((char)c); m = m * 10 + (c - '0'); if (i == 0 && sep == 1) C('_'); } C('.');
  for (int i = 0; i < b; i++) { unsigned char c = i + a == at ? dig() : (unsigned char)('0' + (i * 3 + b) % 10); C((char)c); m = m * 10 + (c - '0'); if (i == 0 && sep == 2) C('_'); }
  if (sep == 3) C('_');
  if (kind) { if (VP_TIER == 1 && (a + b) % 3) vp_skip(); C(ch(2) ? 'e' : 'E'); int s = ch(3); if (s == 1) C('+'); if (s == 2) C('-'); int e = ch(14), e1 = e < 3 ? -1 : e / 3 % 3; static const int ones[] = {0, 5, 9}; int v; if (VP_TIER == 1 && sep && e % 4) vp_skip(); if (e1 >= 0) { C((char)('0' + e1)); if (sep == 1) C('_'); v = e1 * 10; } else v = 0; C((char)('0' + ones[e % 3])); v += ones[e % 3]; ex += s == 2 ? -v : v; }
  double e; if (ex < -22 || ex > 22) vp_skip(); e = ex < 0 ? (double)m / p10[-ex] : (double)m * p10[ex]; if (neg) e = -e;
  YS *S = run(); h_is_flt(S, "q", e, "a float literal denotes its text"); vp_reach("float"); h_end(S);
}
static char want[64]; static int nw;
static unsigned char sb(char delim, bool esc) { if (at-- != 0) { static const char cs[] = "a \xff}"; return (unsigned char)cs[nw & 3]; } unsigned char c = vp_u8(); vp_assume(c != (unsigned char)delim); if (esc) vp_assume((c != '\\') & (c != '\n')); if (delim == '"') vp_assume(c != '#'); return c; }
static void part(char delim, int n) { // n bytes, escapes or \x escapes; records their value
  for (int i = 0; i < n; i++) { int k = delim == '`' ? 0 : ch(3); if (k == 0) { unsigned char c = sb(delim, delim != '`'); C((char)c); want[nw++] = (char)c; }
    else if (k == 1) { static const char es[] = "abfnrtv0'\"#\\", ev[] = "\a\b\f\n\r\t\v\0'\"#\\"; int j = ch(12); if (VP_TIER == 1 && i > 0 && j % 4) vp_skip(); C('\\'); C(es[j]); want[nw++] = ev[j]; }
    else { int h = ch(5), up = i & 1; static const int hs[] = {0, 1, 7, 10, 15}; h = hs[h]; unsigned char l; int d; bool ll = ch(2); char A = up ? 'A' : 'a'; if (at-- == 0) { l = vp_u8(); if (ll) vp_assume((l >= A) & (l < A + 6)); else vp_assume((l >= '0') & (l <= '9')); } else l = ll ? A + 5 : '9'; d = ll ? l - A + 10 : l - '0'; P("\\x"); C((char)(h > 9 ? A + h - 10 : '0' + h)); C((char)l); want[nw++] = (char)(h << 4 | d); } } }
static void strs(int kind) { static const char dl[] = "'\"`"; char d = dl[kind]; open_(); int n = ch(kind == 2 ? 6 : VP_TIER == 1 ? 3 : 4); at = n ? (int)ch(n) : 0; if (VP_TIER == 1 && n > 1 && ctx != 2) vp_skip(); C(d); part(d, n); C(d); YS *S = run(); h_is_str(S, "q", want, nw, "a str literal denotes its text"); vp_reach("str"); h_end(S); }
static void interp(void) { // "a#{e}b#{e}c"
  open_(); C('"'); int np = 1 + ch(2); at = ch(2); static const char *es[] = {"1", "x", "'}'", "\"z\"", "\"<#{x}>\"", "x + 1", " { .a: 2 }.a ", "[1, 'b'][1]", "`#`", "fn(y) { return y; }(7)", "true", "undef"}, *ev[] = {"1", "5", "}", "z", "<5>", "6", "2", "b", "#", "7", "true", "undef"};
  part('"', ch(2)); for (int i = 0; i < np; i++) { int j = ch(12); P("#{"); P(es[j]); C('}'); for (const char *p = ev[j]; *p; p++) want[nw++] = *p; part('"', ch(2)); } C('"');
  thin(4); P(tail); YS *S = h_newn(src, (size_t)(w - src)); h_gundef(S, "q"); h_gundef(S, "r"); h_gint(S, "x", 5); VP_CHECK(h_run(S) == 0, "the literal is accepted"); h_is_str(S, "q", want, nw, "an interpolated str is its parts in order"); vp_reach("interpolation"); h_end(S);
}
static const char *bad[] = {"0x", "0b", "0xg", "0b2", "0b12", "0x_", "1.5e", "1.5e+", "1.5e-;", "1.5ex", "12a", "0x1g", "1.2.3", "'", "'a", "\"", "\"a", "`", "`a", "'\\", "'\\q'", "'\\x'", "'\\x1'", "'\\xg0'", "'\\x0g'", "'\\x+5'", "'\\x 5'", "'a\nb'", "\"a\nb\"", "\"#", "\"#{", "\"#{1", "\"#{1}", "\"#{}\"", "\"#x\"", "\"\\y\"", "1.5e5.5", "1__x", "0b0b1", "'a''b'"};
static void malformed(void) { w = src; int j = ch(LEN(bad)), before = ch(2), after = ch(3); if (before) P("p = 2; "); P("q = "); P(bad[j]); P(after == 0 ? "" : after == 1 ? ";" : "\nq = 3; p = 4;\n");
  YS *S = h_new(src); h_gundef(S, "q"); h_gint(S, "p", 1); h_rc = YASL_execute(S); VP_CHECK(h_rc == YASL_SYNTAX_ERROR, "a malformed literal is a syntax error"); h_is_undef(S, "q", "nothing runs"); h_is_int(S, "p", 1, "nothing runs"); YASL_delstate(S); vp_reach("malformed"); }
static void anyx(void) { // \xAB with any byte in either place: a byte, or a syntax error
  static const char cs[] = "09aFg +-xX'\n`"; int i = ch(14); bool first = ch(2); unsigned char x = vp_u8(), a = first ? x : (unsigned char)cs[i], b = first ? (unsigned char)cs[i] : x; w = src; P("q = '\\x"); C((char)a); C((char)b); P("';"); YS *S = h_newn(src, (size_t)(w - src)); h_gundef(S, "q"); h_rc = YASL_execute(S);
  int A = a >= '0' && a <= '9' ? a - '0' : a >= 'a' && a <= 'f' ? a - 'a' + 10 : a >= 'A' && a <= 'F' ? a - 'A' + 10 : -1, B = b >= '0' && b <= '9' ? b - '0' : b >= 'a' && b <= 'f' ? b - 'a' + 10 : b >= 'A' && b <= 'F' ? b - 'A' + 10 : -1;
  if (A < 0 || B < 0) { VP_CHECK(h_rc == YASL_SYNTAX_ERROR, "not a hexadecimal escape"); YASL_delstate(S); vp_reach("bad escape"); return; }
  VP_CHECK(h_rc == 0, "hexadecimal escape"); char c = (char)(A * 16 + B); h_is_str(S, "q", &c, 1, "hexadecimal escape"); vp_reach("escape"); h_end(S); }
static void anyesc(void) { unsigned char a = vp_u8(); vp_assume(a != 'x'); bool dq = ch(2); w = src; P(dq ? "q = \"b\\" : "q = 'b\\"); C((char)a); P(dq ? "c\";" : "c';"); YS *S = h_newn(src, (size_t)(w - src)); h_gundef(S, "q"); h_rc = YASL_execute(S);
  static const char es[] = "abfnrtv0'\"#\\", ev[] = "\a\b\f\n\r\t\v\0'\"#\\"; int j = -1; for (int i = 0; i < 12; i++) if (a == (unsigned char)es[i]) j = i; if (j < 0) { VP_CHECK(h_rc == YASL_SYNTAX_ERROR, "no such escape"); YASL_delstate(S); vp_reach("bad escape"); return; }
  VP_CHECK(h_rc == 0, "escape"); char e[3] = {'b', ev[j], 'c'}; h_is_str(S, "q", e, 3, "escape"); vp_reach("escape"); h_end(S); }
static void words(void) { static const char *t[] = {"true", "false", "undef", "-0", "00", "007", "0", "1", "-1", "/*c*/7/**/", "7#c\n", "0.0", "-0.0", "1_.5", "9223372036854775807", "-9223372036854775807"}; int a = ch(16), b = ch(16); w = src; P("q = "); P(t[a]); P("\nr = ["); P(t[b]); P("];");
  YS *S = h_new(src); h_gundef(S, "q"); h_gundef(S, "r"); VP_CHECK(h_run(S) == 0, "accepted"); YASL_loadglobal(S, "r"); YASL_listget(S, 0); YASL_declglobal(S, "s"); YASL_setglobal(S, "s"); YASL_pop(S);
  for (int k = 0; k < 2; k++) { int j = k ? b : a; const char *g = k ? "s" : "q"; switch (j) { case 0: h_is_bool(S, g, true, "true"); break; case 1: h_is_bool(S, g, false, "false"); break; case 2: h_is_undef(S, g, "undef"); break; case 11: h_is_flt(S, g, 0.0, "0.0"); break; case 12: h_is_flt(S, g, -0.0, "-0.0"); break; case 13: h_is_flt(S, g, 1.5, "1.5"); break; default: { static const int64_t v[] = {0, 0, 0, 0, 0, 7, 0, 1, -1, 7, 7, 0, 0, 0, INT64_MAX, -INT64_MAX}; h_is_int(S, g, v[j], t[j]); } } }
  vp_reach("words"); h_end(S); }
static void longstr(void) { int n = ch(70); open_(); C('\''); for (int i = 0; i < n; i++) { C((char)('a' + i % 26)); want[i % 64] = 0; } int k = ch(2); at = 0; unsigned char c = sb('\'', true); if (k) C((char)c); C('\''); char e[80]; for (int i = 0; i < n; i++) e[i] = (char)('a' + i % 26); e[n] = (char)c; YS *S = run(); h_is_str(S, "q", e, (size_t)(n + k), "long str literal"); vp_reach("long"); h_end(S); }
void vp_main(void) { unsigned k = vp_shard(14); static const int th[] = {7, 8, 1, 4, 13, 2, 2, 1, 4, 1, 1, 1, 1, 1}; TH = th[k]; switch (k) { case 0: case 1: case 2: ints((int)k); break; case 3: case 4: floats((int)k - 3); break; case 5: case 6: case 7: strs((int)k - 5); break; case 8: interp(); break; case 9: malformed(); break; case 10: anyx(); break; case 11: anyesc(); break; case 12: words(); break; case 13: longstr(); break; default: vp_skip(); } }
