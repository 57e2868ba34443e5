// vp: shards=36 quick=60 thorough=900 opts="--max-depth 40000 --max-instr 400000000"
// bounds: 1, 2, 3, 126-130, 253-258, 300 and (where the operand stack allows it) 511-513, 900 of: parameters, given arguments, locals, top-level variables, host globals, captured variables (of one and of two enclosing functions), int, float and str constants, list elements, table pairs, functions, match arms, pattern elements, pattern bindings, alternatives, elseif arms, ternaries, multiple declarations and assignments, returned values, interpolated parts, operands, field and method names, loop iterations; nesting of functions, blocks and loops up to 100; str literals and identifiers of up to 66000 and 600 bytes; if, else, while, for, continue, break, short-circuit and ternary jumps over up to 70000 bytes of code; which of the items is read and which is changed; the values are symbolic ints
// outside: programs larger than that; sizes in between
#include "h.h"
static YS *S; static char src[400000], *d; static void P(const char *s) { for (; *s; s++) *d++ = *s; *d = 0; }
static void PI(int i) { char b[12]; int n = 0; if (i < 0) { *d++ = '-'; i = -i; } do b[n++] = (char)('0' + i % 10); while (i /= 10); while (n) *d++ = b[--n]; *d = 0; }
// formats: % = i
static void F(const char *f, int i) { for (; *f; f++) if (*f == '%') PI(i); else *d++ = *f; *d = 0; }
static void R(int n, const char *f, const char *sep) { for (int i = 0; i < n; i++) { if (i && sep) P(sep); F(f, i); } }
static int64_t x; static int size(int max) { static const int s[] = {1, 2, 3, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 900}; int m = 0; while (m < 19 && s[m] <= max) m++; return s[vp_choose((uint64_t)m)]; }
static int item(int n) { static const int s[] = {0, 1, 126, 127, 128, 253, 254, 255, 256, 257}; int k = (int)vp_choose(VP_TIER == 1 ? 6 : 12); if (VP_TIER == 1) { static const int q[] = {0, 11, 4, 7, 8, 10}; k = q[k]; } if (k == 11) return n - 1; if (k == 10) return n / 2; if (s[k] >= n - 1 || s[k] == n / 2) vp_skip(); return s[k]; }
static void go(void) { S = h_new(src); h_gint(S, "x", x); h_out(S, "r"); h_out(S, "q"); h_out(S, "z"); }
#define LIMIT 255
static void ran(bool ok) { int rc = h_run(S); if (!ok) VP_CHECK(rc == YASL_SYNTAX_ERROR, "more than the limit is a syntax error"); else VP_CHECK(rc == YASL_SUCCESS, "runs"); }
static void fin(void) { h_end(S); }
static int gcount; static int l_var(YS *S) { (void)S; return 0; }
void vp_main(void) { int k = (int)vp_shard(36); d = src; *d = 0; x = vp_i64(); int n, j, c; bool ok = true; (void)l_var; (void)gcount;
  switch (k) {
  case 0: n = size(300); j = item(n); P("fn f("); R(n, "p%", ", "); F(") { p0 += 1; return p%; }\nr = f(", j); R(n, "x + %", ", "); P(");"); go(); ran(ok = n <= LIMIT); if (ok) h_is_int(S, "r", x + j + (j == 0), "the parameter's value"); break;
  case 1: n = size(300); j = item(n); P("fn f("); R(n, "p%", ", "); F(") { return p%; }\nr = f(x);", j); go(); ran(ok = n <= LIMIT); if (ok) { if (j) h_is_undef(S, "r", "not given"); else h_is_int(S, "r", x, "given"); } break;
  case 2: n = size(900); P("fn f(a, b) { let w = 7; return [a, b, w]; }\nq = [2, f("); R(n, "x + %", ", "); P("), 3]; r = q[1];"); go(); ran(n >= 0); YASL_loadglobal(S, "q"); YASL_len(S); VP_CHECK(h_top(S).i == 3, "excess arguments are dropped"); YASL_loadglobal(S, "r"); YASL_listget(S, 0); { HV v = h_top(S); VP_CHECK(v.t == TI && v.i == x, "first"); } YASL_listget(S, 1); { HV v = h_top(S); if (n > 1) VP_CHECK(v.t == TI && v.i == x + 1, "second"); else VP_CHECK(v.t == TU, "second"); } YASL_listget(S, 2); { HV v = h_top(S); VP_CHECK(v.i == 7, "local"); } YASL_pop(S); break;
  case 3: case 4: n = size(300); j = item(n); c = item(n); if (k == 3) P("fn f() {\n"); else P("if true {\n"); R(n, "let v% = x + %;\n", 0); F("v% += 1000;\nq = ", c); F("v%;\n", n - 1); if (k == 3) F("return v%;\n}\nr = f();", j); else F("r = v%;\n}\n", j); go(); ran(ok = n <= LIMIT); if (ok) { h_is_int(S, "r", x + j + (j == c ? 1000 : 0), "the local's value"); h_is_int(S, "q", x + n - 1 + (n - 1 == c ? 1000 : 0), "the last local's value"); } break;
  case 5: n = size(300); j = item(n); c = item(n); R(n, "let v% = x + %;\n", 0); F("fn f() { v% *= 2; return ", c); F("v%; }\n", j); P("r = f(); q = "); F("v%;", c); go(); ran(ok = n <= LIMIT - 1); /* f is one more */ if (ok) { h_is_int(S, "r", j == c ? 2 * (x + j) : x + j, "the variable's value"); h_is_int(S, "q", 2 * (x + c), "changed"); } break;
  case 6: { n = size(900); j = item(n); static char nm[900][8]; F("r = g%; ", j); F("g% = r + 1; ", n / 2); F("q = g%;", n - 1); go(); for (int i = 0; i < n; i++) { d = nm[i]; F("g%", i); YASL_declglobal(S, nm[i]); YASL_pushint(S, x + i); YASL_setglobal(S, nm[i]); } ran(true); h_is_int(S, "r", x + j, "the global's value"); h_is_int(S, "q", n / 2 == n - 1 ? x + j + 1 : x + n - 1, "the last global's value"); h_is_int(S, nm[n / 2], x + j + 1, "changed"); break; }
  case 7: n = size(255); j = item(n); c = item(n); P("fn g("); R(n, "p%", ", "); P(") { return fn() {\n"); F("p% += 5;\nreturn ", c); R(n, "p%", " + "); F(" - p% * 0; }; }\nlet h = g(", j); R(n, "x + %", ", "); P("); r = h(); q = h();"); go(); ran(true); { int64_t s = (int64_t)((uint64_t)x * (uint64_t)n) + (int64_t)n * (n - 1) / 2; h_is_int(S, "r", s + 5, "captured values"); h_is_int(S, "q", s + 10, "kept by the closure"); } break;
  case 8: { n = size(300); j = item(n); int a = n / 2, b = n - a; P("fn g() {\n"); R(a, "let u% = x + %;\n", 0); P("return fn() {\n"); R(b, "let w% = x - %;\n", 0); P("return fn() { return ["); R(a, "u%", ", "); if (a) P(", "); R(b, "w%", ", "); P("]; }; }; }\nq = g()()(); "); F("r = q[%];", j); go(); ran(ok = n <= 255); if (ok) h_is_int(S, "r", j < a ? x + j : x - (j - a), "captured from both functions"); break; }
  case 9: n = size(900); j = item(n); P("q = ["); R(n, "%000", ", "); F("]; r = q[%] + x;", j); go(); ran(true); h_is_int(S, "r", x + 1000 * (int64_t)j, "the constant"); YASL_loadglobal(S, "q"); YASL_len(S); VP_CHECK(h_top(S).i == n, "as many"); break;
  case 10: n = size(900); j = item(n); P("q = ["); R(n, "'s%'", ", "); F("]; r = q[%]; ", j); P("z = [q[0] ~ 's0', "); F("'s%'];", n - 1); go(); ran(true); { char b[20]; char *o = d; d = b; F("s%", j); size_t bn = (size_t)(d - b); d = o; h_is_str(S, "r", b, bn, "the constant"); } YASL_loadglobal(S, "z"); YASL_listget(S, 0); { HV v = h_top(S); VP_CHECK(v.t == TS && v.n == 4 && !memcmp(v.s, "s0s0", 4), "first"); h_free(v); } YASL_pop(S); break;
  case 11: n = size(900); j = item(n); P("q = ["); R(n, "%.5", ", "); F("]; r = q[%];", j); go(); ran(true); h_is_flt(S, "r", j + 0.5, "the constant"); break;
  case 12: n = size(900); j = item(n); P("q = ["); R(n, "x + %", ", "); F("]; r = q[%]; z = len q;", j); go(); ran(true); h_is_int(S, "r", x + j, "the element"); h_is_int(S, "z", n, "as many"); break;
  case 13: n = size(300); j = item(n); c = (int)vp_choose(2); P("q = {"); R(n, c ? "%: x + %" : "'k%': x + %", ", "); F(c ? "}; r = q[%]; z = len q;" : "}; r = q.k%; z = len q;", j); go(); ran(true); h_is_int(S, "r", x + j, "the pair"); h_is_int(S, "z", n, "as many"); break;
  case 14: n = size(300); j = item(n); c = (int)vp_choose(2); R(n, c ? "fn f%(a) { return a + %; }\n" : "let f% = fn(a) { return a + %; };\n", 0); F("r = f%(x);", j); go(); ran(ok = n <= LIMIT); if (ok) h_is_int(S, "r", x + j, "the function"); break;
  case 15: case 16: case 17: case 18: { n = size(300); if (n > 3 && n < 250) vp_skip(); int64_t X = x; uint8_t b = vp_u8(); x = b; (void)X; 
    if (k == 15) { P("match x {\n"); R(n, "% { r = %; }\n", 0); P("* { r = -1; }\n}\n"); } else if (k == 16) { P("match x {\n"); R(n, "%", " | "); P(" { r = x; }\n* { r = -1; }\n}\n"); } else if (k == 17) { P("if x < 0 { r = -2; }"); R(n, " elseif x == % { r = %; }", 0); P(" else { r = -1; }\n"); } else { P("r = "); R(n, "x == % ? % : ", 0); P("-1;"); }
    go(); ran(true); h_is_int(S, "r", b < n ? b : -1, "the arm of the value"); break; }
  case 19: { n = size(900); c = (int)vp_choose(5); int m = c == 0 ? n : c == 1 ? n - 1 : c == 2 ? n + 1 : c == 3 ? n % 256 : n + 256; if (c == 3 && n < 256) vp_skip(); if (m > 900) vp_skip(); P("q = []; for let i = 0; i < "); PI(m); P("; i += 1 { q->push(i); }; match q {\n["); R(n - 1, "%, ", 0); F("let a] { r = a; }\n* { r = 'no'; }\n}\n", 0); go(); ran(true); if (m == n) h_is_int(S, "r", n - 1, "a list of the pattern's length"); else h_is_str(S, "r", "no", 2, "a list of another length"); break; }
  case 20: n = size(300); j = item(n); P("match ["); R(n, "x + %", ", "); P("] {\n["); R(n, "let a%", ", "); F("] { r = a%; }\n* { r = 'no'; }\n}\n", j); go(); ran(ok = n <= LIMIT); if (ok) h_is_int(S, "r", x + j, "the bound element"); break;
  case 21: { n = size(300); c = (int)vp_choose(3); int m = c == 0 ? n : c == 1 ? n - 1 : n + 1; P("match {"); R(m, "'k%': %", ", "); P("} {\n{"); R(n, "'k%': %", ", "); P("} { r = 1; }\n{"); R(n, "'k%': %", ", "); P(", ...} { r = 2; }\n* { r = 'no'; }\n}\n"); go(); ran(true); if (m == n) h_is_int(S, "r", 1, "exactly these pairs"); else if (m > n) h_is_int(S, "r", 2, "at least these pairs"); else h_is_str(S, "r", "no", 2, "a pair is missing"); break; }
  case 22: n = (int)vp_choose(5); n = n == 0 ? 1 : n == 1 ? 20 : n == 2 ? 50 : n == 3 ? 70 : 100; c = (int)vp_choose(4); if (c == 0) { P("r = "); R(n, "fn(a%) { return ", 0); F("a0 + a%", n - 1); R(n, "; }", 0); R(n, "(x + %)", 0); P(";"); } else if (c == 1) { R(n, "if x == x { let a% = x + %; ", 0); F("r = a0 + a%; ", n - 1); R(n, "}; ", 0); } else if (c == 2) { R(n, "for a% <- [x + %] { ", 0); F("r = a0 + a%; ", n - 1); R(n, "}; ", 0); } else { P("r = x + "); R(n, "(1 + ", 0); P("x"); R(n, ")", 0); P(";"); } go(); ran(true); if (c == 3) h_is_int(S, "r", x + x + n, "nested"); else h_is_int(S, "r", 2 * x + n - 1, "nested"); break;
  case 23: n = size(300); j = item(n); P("let "); R(n, "v%", ", let "); P(" = "); R(n, "x + %", ", "); F("; r = v%; ", j); if (n <= 128) { R(n, "v%", ", "); P(" = "); for (int i = n - 1; i >= 0; i--) { F("v%", i); P(i ? ", " : ";\n"); } } F(" q = v%;", 0); go(); ran(ok = n <= LIMIT); if (ok) { h_is_int(S, "r", x + j, "declared together"); h_is_int(S, "q", n <= 128 ? x + n - 1 : x, "assigned together"); } break;
  case 24: n = size(300); j = item(n); c = (int)vp_choose(3); P("fn f() { return "); R(n, "x + %", ", "); P("; }\nlet "); { int m = c == 0 ? n : c == 1 ? 2 : n + 1; R(m, "v%", ", let "); P(" = f();"); if (j >= m) vp_skip(); F("r = v%;", j); F(" q = v%;", m - 1); go(); int rc = h_run(S); if (rc == YASL_SYNTAX_ERROR) VP_CHECK(m > 253, "only too many values are rejected"); else { VP_CHECK(rc == YASL_SUCCESS, "runs"); h_is_int(S, "r", x + j, "returned value"); if (m - 1 < n) h_is_int(S, "q", x + m - 1, "last value"); else h_is_undef(S, "q", "no such value"); } } break;
  case 25: n = size(300); P("z = 's'; r = \""); R(n, "%#{z}", 0); P("\"; q = "); R(n, "z", " ~ "); P(";"); go(); ran(true); { static char b[3000]; char *o = d; d = b; R(n, "%s", 0); size_t bn = (size_t)(d - b); h_is_str(S, "r", b, bn, "all parts"); d = b; R(n, "s", 0); h_is_str(S, "q", b, (size_t)n, "all operands"); d = o; } break;
  case 26: n = size(900); c = (int)vp_choose(3); P("r = x"); R(n, c == 0 ? " + %" : c == 1 ? " ^ %" : " - x + x", 0); P(";"); go(); ran(true); if (c != 1) h_is_int(S, "r", c == 0 ? x + (int64_t)n * (n - 1) / 2 : x, "all operands"); else { int64_t e = x; for (int i = 0; i < n; i++) e ^= i; h_is_int(S, "r", e, "all operands"); } break;
  case 27: { static const int L[] = {126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 66000}; n = L[vp_choose(12)]; j = (int)vp_choose(3); j = j == 0 ? 0 : j == 1 ? n - 1 : 255; if (j >= n) vp_skip(); P("q = '"); for (int i = 0; i < n; i++) *d++ = (char)('a' + i % 23); F("'; r = q[%]; z = len q;", j); go(); ran(true); char e = (char)('a' + j % 23); h_is_str(S, "r", &e, 1, "the character"); h_is_int(S, "z", n, "as long"); break; }
  case 28: { static const int L[] = {1, 63, 64, 127, 128, 255, 256, 257, 512, 600}; n = L[vp_choose(10)]; c = (int)vp_choose(4); char *a = d; static char id[700]; for (int i = 0; i < n; i++) id[i] = 'n'; id[n] = 0; (void)a; 
    if (c == 0) { P("let "); P(id); P("1 = x; let "); P(id); P("2 = x + 1; r = "); P(id); P("1; q = "); P(id); P("2;"); } else if (c == 1) { P("fn f("); P(id); P("1, "); P(id); P("2) { r = "); P(id); P("1; q = "); P(id); P("2; }\nf(x, x + 1);"); } else if (c == 2) { P("z = {}; z."); P(id); P("1 = x; z."); P(id); P("2 = x + 1; r = z."); P(id); P("1; q = z['"); P(id); P("2'];"); } else { P("fn f() { let "); P(id); P("1 = x; let "); P(id); P("2 = x + 1; return fn() { r = "); P(id); P("1; q = "); P(id); P("2; }; }\nf()();"); } go(); ran(true); h_is_int(S, "r", x, "the name ending in 1"); h_is_int(S, "q", x + 1, "the name ending in 2"); break; }
  case 29: case 30: case 31: { static const int L[] = {1, 8, 15, 16, 31, 32, 33, 64, 1000, 2040, 2048, 4100, 8200}; n = L[vp_choose(VP_TIER == 1 ? 10 : 13)]; c = (int)vp_choose(7); if (c == 5 && n > 1000) vp_skip(); uint8_t b = vp_u8(); vp_assume(b < 4); x = b; P("let s = 0; let m = 5; ");
    #define BODY R(n, "s += m; ", 0)
    switch (c) { case 0: P("if x == 0 { "); BODY; P("r = 'a'; } elseif x == 1 { "); BODY; P("r = 'b'; } else { "); BODY; P("r = 'c'; }; "); break; case 1: P("let i = 0; while i < x { "); P("i += 1; if i == 2 { continue; }; "); BODY; P("}; r = i; "); break; case 2: P("r = 0; for let i = 0; i < 3; i += 1 { if i == x { break; }; "); BODY; P("r += 1; }; "); break; case 3: P("r = 0; for y <- [1, 2, 3] { if y == x { continue; }; "); BODY; P("r += 1; }; "); break;
      case 4: P("fn f(a) { let s = 0; let m = 1; "); if (k == 30) P("let g = fn() { return m; }; "); P("if a == 2 { return a; }; "); BODY; P("return s; }\nr = f(x); "); break; case 5: P("r = x == 1 ? m"); R(n, " + m", 0); P(" : m"); R(n, " - m", 0); P("; "); break; default: P("match x {\n1 { "); BODY; P("r = 'b'; }\n2 { "); BODY; P("r = 'c'; }\n* { r = 'd'; }\n}\n"); }
    if (k == 31) P("q = x > 1 || s > 0; "); else P("q = s; "); go(); ran(true); int64_t m = 5, one = m * n, s = 0; switch (c) { case 0: s = one; h_is_str(S, "r", b == 0 ? "a" : b == 1 ? "b" : "c", 1, "branch"); break; case 1: s = one * (b >= 2 ? b - 1 : b); h_is_int(S, "r", b, "iterations"); break; case 2: s = one * (b > 3 ? 3 : b); h_is_int(S, "r", b > 3 ? 3 : b, "iterations"); break; case 3: s = one * (b ? 2 : 3); h_is_int(S, "r", b ? 2 : 3, "iterations"); break; case 4: h_is_int(S, "r", b == 2 ? 2 : n, "result"); break; case 5: h_is_int(S, "r", b == 1 ? m * (n + 1) : m * (1 - (int64_t)n), "operand"); break; default: s = b == 1 || b == 2 ? one : 0; h_is_str(S, "r", b == 1 ? "b" : b == 2 ? "c" : "d", 1, "arm"); }
    if (k == 31) h_is_bool(S, "q", b > 1 || s > 0, "short circuit"); else h_is_int(S, "q", s, "every statement of the body ran"); break; }
  case 32: n = size(900); j = item(n); P("q = {}; "); R(n, "q.k% = x + %; ", 0); F("r = q.k%; z = len q;", j); go(); ran(true); h_is_int(S, "r", x + j, "the field"); h_is_int(S, "z", n, "as many"); break;
  case 33: n = size(300); j = item(n); P("let o = {}; mt.set(o, {"); R(n, "'m%': fn(s, a) { return a - %; }", ", "); F("}); r = o->m%(x);", j); S = h_new(src); YASL_decllib_mt(S); h_gint(S, "x", x); h_out(S, "r"); ran(true); h_is_int(S, "r", x - j, "the method"); break;
  case 34: { static const int L[] = {1, 127, 128, 255, 256, 257, 990, 999, 1000, 1001, 1030}; n = L[vp_choose(11)]; c = (int)vp_choose(4); if (c == 2 && n > 990) vp_skip(); /* a comprehension's elements are on the operand stack */ P("q = []; r = x; for let i = 0; i < "); PI(n); P(c == 0 ? "; i += 1 { for y <- [1, 2] { r += 1; break; }; q->push(i); }; z = len q;" : c == 1 ? "; i += 1 { q->push(i); r += 1; let w = [y for y <- [1]]; }; z = len q;" : c == 2 ? "; i += 1 { q->push(i); }; for y <- q { r += 1; }; z = len [y for y <- q];" : "; i += 1 { let a = i; q->push(fn() { return a; }); if a == 5 { r += 0; continue; }; r += a - i + 1; }; z = len q;"); go(); ran(true); h_is_int(S, "r", x + n - (c == 3 && n > 5), "every iteration"); h_is_int(S, "z", n, "as many"); break; }
  default: { n = size(300); j = item(n); c = (int)vp_choose(3); /* several functions, each with many locals or constants */ if (c == 0) { P("fn f() {\n"); R(n > 250 ? 250 : n, "let a% = x + %;\n", 0); F("return fn(b) { let w = b; return a% + w; }; }\n", j < 250 ? j : 0); P("fn g() {\n"); R(n > 250 ? 250 : n, "let a% = 7;\n", 0); P("return a0; }\nr = f()(g());"); go(); ran(true); h_is_int(S, "r", x + (j < 250 ? j : 0) + 7, "locals of two functions"); } else if (c == 1) { R(n, "q = %000 + 'a%'->len; ", 0); P("r = x;"); d = src; *d = 0; R(n, "q = len 'c%' + %000; ", 0); F("r = q - %000 + x;", n - 1); go(); ran(true); int dg = n - 1 < 10 ? 1 : n - 1 < 100 ? 2 : 3; h_is_int(S, "r", x + 1 + dg, "constants"); } else { P("if x == x { "); R(n, "if x != x { let b% = 1; let c% = 2; }; ", 0); P("let z1 = x; r = z1; };"); go(); ran(true); h_is_int(S, "r", x, "variables of finished blocks do not count"); } } }
  fin(); }
