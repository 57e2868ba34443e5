// vp: shards=30 quick=60 thorough=900
// bounds: modules that export each kind of value (functions, closures with shared or fresh variables, tables, lists, strs, numbers, undef, functions taking callbacks, methods, results of other modules), with and without other statements before the export, required in 10 ways (top level, function, twice, loop, between other literals and locals, through a closure, for a second program of the state, inside an expression, by file name); modules that are missing, rejected, failing, without export or failing later when called, required in 6 ways, followed by a second program; the values are symbolic ints
// outside: native libraries (__require_c__), search paths, modules that change the standard libraries, modules that require each other
#include "h.h"
static YS *S; static char src[4000], mod[2000], *d; static void P(const char *s) { d = put(d, s); }
static int64_t a, b;
static void file(const char *name, const char *text) { FILE *f = fopen(name, "w"); if (!f) vp_skip(); fwrite(text, 1, strlen(text), f); fclose(f); }
static void clean(void) { remove("./vpmod.yasl"); remove("./vpsub.yasl"); }
// body of the module, and of `fn uze(m)` in the main program
static const struct { const char *mod, *use; } K[] = {
  {"export fn(x, y) { return x + y; };", "return m(a, b);"},
  {"fn f(x) { return x * 3; };\nexport { .f: f, .k: 7 };", "return m.f(a) + m.k;"},
  {"let n = 0;\nfn inc(x) { n += x; return n; };\nexport { .inc: inc, .get: fn() { return n; } };", "m.inc(a); m.inc(b); return m.get();"},
  {"export [10, 20, 'st'];", "return m[1] + a + len m + len m[2];"},
  {"export 'text';", "return m == 'text' ? a + len m : 0;"},
  {"export 1234567;", "return m + a;"},
  {"export undef;", "return m == undef ? a : b;"},
  {"export fn(x) { let c = x; return fn(y) { c = c + y; return c; }; };", "let g = m(a); let h = m(b); g(b); h(1); return g(b) - h(1);"},
  {"export fn(x, y) { return math.max(x, 3) + math.min(y, 3); };", "return m(2, 9) + a;"},
  {"export fn(f, x) { return f(x) + f(1); };", "return m(fn(z) { return z * 2; }, a);"},
  {"const t = 'post';\nexport fn(x) { return 'pre' ~ x ~ t; };", "return m('ab') == 'preabpost' ? a : b;"},
  {"let s = require('vpsub');\nexport fn(x) { return s.f(x) + s.k; };", "return m(a);"},
  {"export require('vpsub').f;", "return m(a);"},
  {"let a = 5;\nconst r0 = 6;\nexport fn() { return a + r0; };", "return m() + a;"},
  {"let z = [1, 2, 3];\nexport { .l: z, .sum: fn() { let t = 0; for v <- z { t += v; }; return t; } };", "m.l[0] = a; m.l->push(b); return m.sum();"},
  {"export { .v: 3, .m: fn(self, x) { return self.v + x; } };", "return m->m(a);"},
  {"export fn(x) { let t = 0; for v <- [i + x for i <- [1, 2, 3]] { t += v; }; match t { 1 { t = 1; }\nlet q { t = q; }\n}; return t; };", "return m(a);"},
  {"export fn(x) { return 'f', x, 1.5; };", "let q, let w, let e = m(a); return q == 'f' && e == 1.5 ? w : b;"},
  {"export collections.set(1, 2, 2);", "return len m + a;"},
  {"const o = {'v': 2};\nexport mt.set({}, { .__add: fn(l, r) { return o.v + r; } });", "return m + a;"},
};
static int64_t want(int k) { uint64_t A = (uint64_t)a, B = (uint64_t)b; switch (k) { case 0: case 2: return A + B; case 1: return A * 3 + 7; case 3: return 20 + A + 3 + 2; case 4: return A + 4; case 5: return 1234567 + A; case 6: case 10: case 17: return A;
  case 7: return A + B + B - (B + 2); case 8: return A + 6; case 9: return A * 2 + 2; case 11: return A * 5 + 40; case 12: return A * 5; case 13: return A + 11; case 14: return A + 2 + 3 + B; case 15: return A + 3; case 16: return 3 * A + 6; case 18: return A + 2; default: return A + 2; } }
static void globals(void) { YASLX_decllibs(S); h_gint(S, "a", a); h_gint(S, "b", b); h_out(S, "r0"); h_out(S, "r1"); h_out(S, "r2"); h_out(S, "g"); }
static void modfile(int k, int pre) { static const char *const pr[] = {"", "let u0 = 'module text'; let u1 = 99; let u2 = [u0, u1, 'pre', 2.5];\n", "fn unused(p, q) { return p ~ q ~ 'post'; };\nif unused(1, 2) == '12post' { let w = 4; };\n"};
  char *save = d; d = mod; P(pr[pre]); P(K[k].mod); P("\n"); d = save; file("./vpmod.yasl", mod); file("./vpsub.yasl", "let kk = 40;\nfn five(x) { return x * 5; };\nexport { .f: five, .k: kk };\n"); }
static void good(int k) {
  int u = (int)vp_choose(10), pre = (int)vp_choose(3); a = vp_i64(); b = vp_i64(); modfile(k, pre); d = src; *d = 0; bool two = false; int64_t w1 = 0, w2 = 0; bool c1 = false, c2 = false;
  P("fn uze(m) { "); P(K[k].use); P(" };\n");
  switch (u) {
  case 0: P("let m = require('vpmod'); r0 = uze(m);"); break;
  case 1: P("fn w(p) { let q = p; let m = require('vpmod'); let r = uze(m); return r + q; }; r0 = w(0);"); break;
  case 2: P("let m = require('vpmod'); let n = require('vpmod'); r0 = uze(m); r1 = uze(n);"); c1 = true; w1 = want(k); break;
  case 3: P("r1 = 0; for let i = 0; i < 3; i += 1 { let m = require('vpmod'); r0 = uze(m); r1 += i; };"); c1 = true; w1 = 3; break;
  case 4: P("fn h(x) { return len ('literal' ~ x) + 77; }; let z = 'other'; let m = require('vpmod'); r0 = uze(m); r1 = h('zz') + len z; const q = 'later text'; r2 = len q + 88;"); c1 = c2 = true; w1 = 91; w2 = 98; break;
  case 5: P("let l0 = a; let l1 = 2; let l2 = 'three'; let m = require('vpmod'); let l3 = 4; r0 = uze(m); r1 = l0 + l1; r2 = len l2 + l3;"); c1 = c2 = true; w1 = (int64_t)((uint64_t)a + 2); w2 = 9; break;
  case 6: P("fn mk() { let m = require('vpmod'); return fn() { return uze(m); }; }; let c = mk(); r0 = c();"); break;
  case 7: P("g = require('vpmod'); r1 = 'one';"); two = true; break;
  case 8: P("let t = [1, uze(require('vpmod')), 'x' ~ 'y']; r0 = t[1]; r1 = t[0]; r2 = len t[2];"); c1 = c2 = true; w1 = 1; w2 = 2; break;
  default: P("let m = require('./vpmod.yasl'); r0 = uze(m);"); }
  S = h_new(src); globals(); int st = h_run(S); VP_CHECK(st == YASL_SUCCESS, "requiring the module succeeds");
  if (two) { d = src; *d = 0; P("fn uze(m) { "); P(K[k].use); P(" };\nr0 = uze(g); r1 = 5;"); VP_CHECK(YASL_resetstate_bb(S, src, strlen(src)) == YASL_SUCCESS, "reset"); st = h_run(S); VP_CHECK(st == YASL_SUCCESS, "what a module exported works in a second program"); c1 = true; w1 = 5; }
  h_is_int(S, "r0", want(k), "what the module exports"); if (c1) h_is_int(S, "r1", w1, "the rest of the program is as without the module"); if (c2) h_is_int(S, "r2", w2, "the rest of the program is as without the module");
  h_is_int(S, "a", a, "globals of the program"); h_is_int(S, "b", b, "globals of the program"); vp_reach("exported"); h_end(S); clean();
}
static const struct { const char *mod; int st; const char *use; int line; } B[] = { // line: in the module
  {0, YASL_ERROR, "", 0}, {"let q = [1, 2, 3;\nexport q;\n", YASL_ERROR, "", 0}, {"let q = 1;\nlet s = 'abc' ~ q;\nexport undeclared;\n", YASL_ERROR, "", 0}, {"let q = [1, 2];\nlet w = {'k': fn() { return q; }};\nexport q + 1;\n", YASL_ERROR, "", 0}, {"let q = [1, 2, 3];\nq->push('text');\n", YASL_ERROR, "", 0},
  {"", YASL_ERROR, "", 0}, {"assert false;\nexport 1;\n", YASL_ERROR, "", 0}, {"fn r(f, x) { return f(f, x + 1) + 1; };\nexport r(r, 1);\n", YASL_ERROR, "", 0}, {"export require('vpnone');\n", YASL_ERROR, "", 0}, {"let z = 'keep';\nfor v <- [1, 2] { let t = require('vpsub'); t->push(z); };\nexport 3;\n", YASL_ERROR, "", 0},
  {"let q = 4;\n\nexport fn(x) {\n return q // x; };\n", YASL_DIVIDE_BY_ZERO_ERROR, "m(0);", 4}, {"export {\n .f: fn(x) { return x; },\n .g: fn(x) {\n return x[7]; } };\n", YASL_VALUE_ERROR, "m.f(1); m.g([1]);", 4}, {"fn rec(f, x) { return f(f, [x]) ~ 'x'; };\nexport fn(x) { return rec(rec, x); };\n", YASL_STACK_OVERFLOW_ERROR, "m(1);", 0}, {"export 5;\n", YASL_TYPE_ERROR, "m();", 0},
  {"export fn(f) {\n let t = 'x';\n return f(t); };\n", YASL_TYPE_ERROR, "m(fn(t) { return t + 1; });", 3},
};
static bool contains(const char *h, size_t n, const char *x) { size_t l = strlen(x); for (size_t i = 0; i + l <= n; i++) if (!memcmp(h + i, x, l)) return true; return false; }
static void bad(int k) {
  int u = (int)vp_choose(6), again = (int)vp_choose(4); a = vp_i64(); b = vp_i64(); if (B[k].mod) file("./vpmod.yasl", B[k].mod); file("./vpsub.yasl", "export {'v': 1};\n"); d = src; *d = 0; P("r0 = a; r1 = 'before';\n");
  switch (u) {
  case 0: P("let m = require('vpmod'); "); P(B[k].use); break;
  case 1: P("let z = [a, 'x']; fn w(p) { let m = require('vpmod'); let o = 'text' ~ p; "); P(B[k].use); P(" return o; }; w(z);"); break;
  case 2: P("let z = [1, 'one', fn(m) { "); P(B[k].use); P(" }(require('vpmod')), 2];"); break;
  case 3: P("for v <- ['p', 'q'] { let c = fn() { return v; }; let m = require('vpmod'); "); P(B[k].use); P(" c(); };"); break;
  case 4: P("let n = require('vpsub'); let l = [n]; let m = require('vpmod'); l->push(m); "); P(B[k].use); break;
  default: P("fn mk(f) { return fn() { let m = require('vpmod'); "); P(B[k].use); P(" return f; }; }; let x = 'a' ~ a; g = mk(fn() { return x; }); g();"); }
  P(" r1 = 'after'; r0 = b;"); S = h_new(src); globals(); int st = h_run(S); VP_CHECK(st == B[k].st, "a missing or failing module is reported");
  if (B[k].line && u != 2) { YASL_loadprinterr(S); HV v = h_top(S); char t[20] = "line 0"; t[5] = '0' + B[k].line; VP_CHECK(v.t == TS && contains(v.s, v.n, t), "the line in the module"); h_free(v); }
  h_is_int(S, "r0", a, "stops there"); h_is_str(S, "r1", "before", 6, "stops there"); h_is_int(S, "b", b, "globals of the program"); vp_reach("reported");
  if (again) { d = src; *d = 0; if (again == 1) P("r0 = b; r1 = 'new text';"); else { modfile(1, 2); P(again == 2 ? "let m = require('vpmod'); r0 = m.f(b) - m.f(b) + b; r1 = 'new' ~ ' text';" : "r1 = 'new text'; fn w() { return require('vpmod'); }; r0 = w().f(b) - w().f(b) + b;"); }
    VP_CHECK(YASL_resetstate_bb(S, src, strlen(src)) == YASL_SUCCESS, "reset"); st = h_run(S); VP_CHECK(st == YASL_SUCCESS, "the state can be used again"); h_is_int(S, "r0", b, "the state can be used again"); h_is_str(S, "r1", "new text", 8, "the state can be used again"); }
  h_end(S); clean();
}
static void args(void) { static const char *const t[] = {"require(1)", "require()", "require(undef)", "require([])", "require('')", "require('vp' ~ a)", "require('vpmod', 2)"}; int i = (int)vp_choose(7); a = 5; b = 0; modfile(5, 0); d = src; *d = 0; P("r0 = 1; let z = 'x'; r0 = "); P(t[i]); P("; r1 = z;"); S = h_new(src); globals(); int st = h_run(S);
  VP_CHECK(st == (i < 4 ? YASL_TYPE_ERROR : i < 6 ? YASL_ERROR : YASL_SUCCESS), "wrong argument"); h_is_int(S, "r0", i == 6 ? 1234567 : 1, "stops there"); if (i == 6) h_is_str(S, "r1", "x", 1, "goes on"); h_end(S); clean(); }
void vp_main(void) { int k = (int)vp_shard(30); clean(); if (k < 20) good(k); else if (k < 29) { bad((int)(k - 20) + 9 * (int)vp_choose(k - 20 < 6 ? 2 : 1)); } else args(); }
