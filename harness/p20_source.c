// vp: shards=16 shards2=16 quick=60 thorough=900 opts="--max-instr 3000000"
// bounds: 32 base texts that together use every construct, with one arbitrary byte inserted at or put in place of any position (quick tier: a quarter of the positions, two byte classes elsewhere), with up to 6 bytes removed at any position, or cut off at any position and followed by one arbitrary byte; every text of up to 3 tokens out of 82, in 6 surroundings (quick tier: a part of the 3-token texts); every text of up to 2 arbitrary bytes
// outside: texts that differ from these in more places; execution of texts whose own loops may not end (compiled only); texts nested so deeply that the C stack overflows
#include "h.h"
static unsigned hs_; static unsigned ch(unsigned n) { unsigned c = vp_choose(n); hs_ = hs_ * 7 + c * 3 + (hs_ >> 3); return c; }
static void thin(unsigned n) { if (VP_TIER == 1 && hs_ % n) vp_skip(); }
static const char *base[] = {
  "let a = 1; a += 2 * (a - 3) // 4; echo a;\n", "const b, c = 1.5e1, 0x1F\necho b ** c == 2 && !true || undef ?? 3;", "fn f(a, const b) { if a { return b; } elseif b { return a, 1; } else { echo 'x'; }; };\nf(1, 2);", "let s = \"a#{1 + 2}b#{\"c#{3}d\"}\";\necho s;",
  "let s = `raw\n`; let t = 'q\\x41\\n\\'' ~ \"w\\\"\";\n", "match g(1) {\n 1 | -2.5 if true { m(1); }\n [let x, 'a', ...] { m(x); }\n {.k: undef, 'b': const y} { m(y); }\n * { }\n}\n", "let l = [x * 2 for x <- [1, 2] if x > 1]\nlet t = {k: 1 for k <- 'ab'};\n", "let t = {1: 2, 'a': [3, 4], .b: {}}\nt.c = t['a'][0]; t->clear();\n",
  "fn t.f(x) { return x; };\necho t.f(3);\n", "const fn k() { let n = 0; return fn() { n += 1; return n; }; };\nk()();\n", "x, l[0] = 1, 2\nlet p, const q = m(1), m(2);\n", "/* c\n*/ echo 1; # d\necho 2 /3/ 4;\n",
  "while g(1) { break; }\nfor let i = 0; i < 2; i += 1 { continue; }\n", "for x <- [1, 2] { m(x); };\nfor c <- 'ab' { m(c); break; }\n", "l[1:2]; l[:2]; l[1:];\nl[:]\n", "a ??= 1; a ||= 2; a &&= 3; a ~= 4; a **= 2; a <<= 1; a >>= 1; a &^= 3; a ^= 5; a |= 6; a //= 2; a %= 3;\n",
  "assert 1 === 1; assert 1 !== 2;\nassert (1 ? 2 : 3) != 4;\n", "export {.a: 1};\n", "return 1, m(2);\n", "m(1, g(2), undef)->foo(3).bar[4];\n",
  "l->push(1_000); l->push(0b1_1);\nlen l;\n", "let f = fn(x) { return -x + +x - ^x; }; { let z = 1; };\n", "if undef { m(1); } else { m(2); };\nif 1 { }", "match l {\n [] { }\n [int, str, (bool | float), list, table] { }\n [...] { }\n {...} { }\n { 1: *, ... } { }\n .k { }\n}",
  "a = b = 1\n;;\n-1 ** -2 < 3 <= 4 > 5 >= 6", "let a = [\n1,\n2\n]\nlet b = {\n1: 2,\n3: 4\n}\n", "m(\n1,\n2)\nm(fn () {\n})", "1 << 2 >> 3 & 4 &^ 5 ^ 6 | 7 ~ 8 == 9\n", "t.a += 1; t['b'] ~= 'c'; l[0] *= 2;", "a[1] += 2, 3", "let m, n = m(1),\n2", "\"#{[1,\"#{2}\"][1]}#{{1:2}}\" =~ 1 !~ 2 := 3"};
static const char *tok[] = {"1", "1.5", "'s'", "\"t\"", "\"a#{", "}b\"", "`r`", "x", "true", "undef", "if", "elseif", "else", "while", "break", "continue", "for", "const", "fn", "let", "return", "export", "echo", "len", "assert", "match", "(", ")", "[", "]", "{", "}", ".", "...", ",", "^", "^=", "+", "+=", "-", "!", "!=", "!==", "~", "~=", "*", "**", "/", "//", "%", "<", "<<=", ">", ">>", "=", "==", "===", "=~", "&", "&&", "&&=", "&^", "|", "||", "?", "??", ":", ":=", "->", "<-", "\n", ";", "#c\n", "/*c*/", "/*", "0x", "1e", "1.", "@", "\\", "'", "let y =", "int"};
static char src[700]; static size_t n_; static int mc;
static int m_(YS *S) { mc++; YASL_pushundef(S); return 1; }
static int g_(YS *S) { YASL_pushbool(S, mc++ < 3); return 1; }
static void P(const char *s) { size_t k = strlen(s); memcpy(src + n_, s, k); n_ += k; src[n_] = 0; }
static bool has(const char *w) { size_t k = strlen(w); for (size_t i = 0; i + k <= n_; i++) { bool e = true; for (size_t j = 0; j < k && e; j++) e = vp_concrete(src[i + j] == w[j]); if (e) return true; } return false; }
static void check(bool may_run) {
  YS *S = h_newn(src, n_); static const char *gl[] = {"a", "x", "l", "t", "s"}; for (int i = 0; i < 5; i++) h_gundef(S, gl[i]); YASL_declglobal(S, "l"); YASL_pushlist(S); YASL_setglobal(S, "l"); YASL_declglobal(S, "t"); YASL_pushtable(S); YASL_setglobal(S, "t"); h_gfn(S, "m", m_, -1); h_gfn(S, "g", g_, 1);
  h_rc = may_run ? YASL_execute(S) : YASL_compile(S); if (!vp_is_engine() && getenv("VP_SHOW")) fprintf(stderr, "status %d\n", h_rc); vp_observe(h_rc);
  VP_CHECK(h_rc == 0 || h_rc == YASL_SYNTAX_ERROR || (may_run && (h_rc == YASL_TYPE_ERROR || h_rc == YASL_DIVIDE_BY_ZERO_ERROR || h_rc == YASL_VALUE_ERROR || h_rc == YASL_ASSERT_ERROR || h_rc == YASL_STACK_OVERFLOW_ERROR || h_rc == YASL_MODULE_SUCCESS)), "a documented status");
  YASL_loadprinterr(S); HV v = h_top(S); VP_CHECK(v.t == TS, "errors are a str"); if (h_rc > 1) VP_CHECK(v.n > 8 && v.s[v.n - 1] == '\n', "an error is reported, in whole lines"); else VP_CHECK(v.n == 0, "no error, no message");
  if (h_rc == YASL_SYNTAX_ERROR) { VP_CHECK(memcmp(v.s, "SyntaxError", 11) == 0, "a syntax error says so"); VP_CHECK(mc == 0, "nothing runs in a rejected text"); YASL_loadprintout(S); HV o = h_top(S); VP_CHECK(o.t == TS && o.n == 0, "nothing is printed by a rejected text"); h_free(o); }
  h_free(v); int rc = h_rc; mc = 0; YASL_resetstate_bb(S, "m(1); echo 7;\n", 14); VP_CHECK(YASL_execute(S) == 0, "the state is usable afterwards"); VP_CHECK(mc == 1, "and runs the next program"); vp_reach(rc ? rc == YASL_SYNTAX_ERROR ? "rejected" : "failed" : "accepted");
  h_rc = rc; if (may_run) YASL_delstate(S); else h_end(S);
}
static void mutated(int k) {
  int b = (k % 8) * 4 + (int)ch(4); const char *t = base[b]; size_t len = strlen(t); int op = (int)ch(3); size_t p = ch((unsigned)len + 1), e = p; if (op == 1 && p == len) vp_skip();
  int cut = op == 2 ? (int)ch(7) : 0; // 0: the rest
  if (op == 2) { e = cut ? p + (size_t)cut : len; if (e > len) vp_skip(); } else e = p + (size_t)op;
  bool wide; if (op < 2) { int w = (int)ch(2); wide = w; if (k < 8 ? w : !w) vp_skip(); thin(VP_TIER == 1 ? (w ? 5 : 3) : 1); } else { wide = k < 8; thin(cut ? (wide ? 4 : 1000000) : 1); if (cut && !wide) vp_skip(); }
  memcpy(src, t, p); n_ = p; bool sym = op < 2 || cut == 0;
  if (sym) { unsigned char c; if (!wide) { static const char some[] = "\n ;'\"`#{}[]()0x.,:|-=<>*/\\\0\xff$"; c = (unsigned char)some[ch(sizeof some - 1)]; if (op < 2) thin(VP_TIER == 1 ? 3 : 1); } else { c = vp_u8(); } src[n_++] = (char)c; }
  memcpy(src + n_, t + e, len - e); n_ += len - e; bool loops = b == 12 || b == 13 || b == 9; check(!loops && b != 17);
}
static void tokens(int k) {
  int n = 1 + (int)ch(3), s = (int)ch(6); static const char *pre[] = {"", "m(", "let q = ", "[", "match x {\n", "if x {"}, *post[] = {"", ");", "\n", "]\n", "\n}", "}\n"}; if (n == 1 && k != 14) vp_skip(); if (n == 2 && k != 14) vp_skip(); if (n == 2) thin(2); if (n == 3 && k != 15) vp_skip();
  P(pre[s]); for (int i = 0; i < n; i++) { P(tok[ch(LEN(tok))]); if (n == 3) { if (VP_TIER == 1 && i == 1 && hs_ % 13) vp_skip(); if (VP_TIER == 1 && i == 2 && hs_ % 19) vp_skip(); } if (i + 1 < n) P(" "); } P(post[s]); check(!has("while") && !has("for"));
}
static void raw(void) { int n = (int)ch(3), s = (int)ch(5); static const char *pre[] = {"", "'", "\"", "1", "x"}; P(pre[s]); for (int i = 0; i < n; i++) src[n_++] = (char)(i ? (unsigned char)"\n\0a1/*'\"`#{.=-x\\ $"[ch(18)] : vp_u8()); check(true); }
void vp_main(void) { unsigned k = vp_shard(16); if (k == 13) { if (ch(2)) raw(); else mutated(13); } else if (k >= 14) tokens((int)k); else mutated((int)k); }
