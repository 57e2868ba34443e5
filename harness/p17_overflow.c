// vp: shards=24 shards2=24 quick=60 thorough=900
// bounds: recursion through script functions, closures, methods, metamethods (__add, __neg, __eq, __get, __set, __call, tostr), native callbacks, match, loops and comprehensions, with 0..11 extra locals, arguments, elements, temporaries or nested loops per level and depth 3, 17, 60, 120, 5000; lists, calls and native results of 3..5000 values; afterwards a second program and the deletion of the state
// outside: depth of the C stack (values nested, or source text nested, many thousand levels); host code pushing more than the stack holds outside of a run
#include "h.h"
#include "std/yasl-std-mt.h"
static char src[60000], *w; static void P(const char *s) { w = put(w, s); }
static void N(int n) { char b[12]; int k = 0; do { b[k++] = '0' + n % 10; n /= 10; } while (n); while (k) *w++ = b[--k]; *w = 0; }
static int cb(YS *S) { // cb(f, n): calls f with n
  int64_t n = YASL_popint(S); YASL_pushint(S, n); int r = YASL_functioncall(S, 1); VP_CHECK(r == 1, "one value"); return 1; }
static int cnt_(YS *S) { int64_t n = YASL_peekvargscount(S); YASL_pushint(S, n); return 1; }
static int many(YS *S) { int64_t n = YASL_peekint(S); for (int i = 0; i < n; i++) YASL_pushint(S, i); return (int)n; }
static int pad; static void pads(const char *pre, const char *post) { for (int i = 0; i < pad; i++) { P(pre); if (post) { N(i); P(post); } } }
void vp_main(void) {
  int kind = vp_shard(24); static const int ds[] = {3, 17, 60, 120, 5000}; int d = ds[vp_choose(5)]; pad = vp_choose(12); if (VP_TIER == 1 && pad % 3 == 2) vp_skip();
  int64_t v = vp_i64(), x = vp_i64(); w = src; const char *res = "v"; int64_t want = v; bool big = d == 5000, small = d <= 17;
  P("l->push(5); ");
  switch (kind) {
  case 0: P("f = fn(n) { c += 1; if n == 0 { return v; }; "); pads("let p", " = n; "); P("return f(n - 1); }; q = f("); N(d); P(");"); break;
  case 1: P("f = fn(n) { c += 1; if n == 0 { return v; }; return f(n - 1"); pads(", n", NULL); P("); }; q = f("); N(d); P(");"); break;
  case 2: P("f = fn(n) { c += 1; if n == 0 { return v; }; return ["); pads("n, ", NULL); P("f(n - 1)]["); N(pad); P("]; }; q = f("); N(d); P(");"); break;
  case 3: P("f = fn(n) { c += 1; if n == 0 { return v; }; return {"); pads("n + ", ": 1, "); P(".a: f(n - 1)}.a; }; q = f("); N(d); P(");"); break;
  case 4: P("f = fn(n) { c += 1; if n == 0 { return v; }; "); pads("for x", " <- [n] { "); P("let y = f(n - 1); return y; "); pads("}; ", NULL); P("}; q = f("); N(d); P(");"); break;
  case 5: P("f = fn(n) { c += 1; if n == 0 { return v; }; "); pads("let p", " = 'a'; "); P("let r = [f(n - 1) for x <- [1]]; return r[0]; }; q = f("); N(d); P(");"); break;
  case 6: P("mt.set(o, {.f: fn(self, n) { c += 1; if n == 0 { return v; }; "); pads("let p", " = {}; "); P("return self->f(n - 1); }}); q = o->f("); N(d); P(");"); break;
  case 7: P("const mk = fn() { let u = 1; let z = 0; f = fn(n) { c += 1; u += z; if n == 0 { return v; }; "); pads("let p", " = n; "); P("const g = fn() { z += n; return u; }; g(); return f(n - 1); }; return 1; }; mk(); q = f("); N(d); P(");"); break;
  case 8: P("mt.set(o, {.__add: fn(a, b) { c += 1; if b == 0 { return v; }; "); pads("let p", " = b; "); P("return a + (b - 1); }}); q = o + "); N(d); P(";"); break;
  case 9: P("let n = "); N(d); P("; mt.set(o, {.tostr: fn(self) { c += 1; if n == 0 { return 'z'; }; n -= 1; "); pads("let p", " = n; "); P("return \"a#{self}\"; }}); const s = \"#{o}\"; q = len s == "); N(d + 1); P(" ? v : 0;"); break;
  case 10: P("f = fn(n) { c += 1; if n == 0 { return v; }; "); pads("let p", " = n; "); P("return cb(f, n - 1); }; q = f("); N(d); P(");"); break;
  case 11: P("f = fn(n) { c += 1; if n == 0 { return v; }; return "); pads("n, ", NULL); P("f(n - 1); }; const k = cnt_(f("); N(d); P(")); q = k == "); N(d * pad + 1); P(" ? v : 0;"); break;
  case 12: P("f = fn(n) { c += 1; match n {\n0 { return v; }\n["); for (int i = 0; i < pad; i++) { P("let p"); N(i); P(", "); } P("...] { }\nlet m { let r = f(m - 1); return r; }\n}; return 0; }; q = f("); N(d); P(");"); break;
  case 13: P("mt.set(o, {.__get: fn(self, k) { c += 1; if k == 0 { return v; }; "); pads("let p", " = k; "); P("return self[k - 1]; }}); q = o["); N(d); P("];"); break;
  case 14: P("let s = [v]; let i = 0; while i < "); N(d > 1000 ? 1000 : d); P(" { s = ["); pads("1, ", NULL); P("s]; i += 1; }; const t = \"#{s}\"; c = 1; while i > 0 { s = s["); N(pad); P("]; i -= 1; }; q = s[0];"); break; // nested lists
  case 15: if (d > 1000) d = 1100; P("const s = [v"); for (int i = 1; i < d + pad; i++) P(", 1"); P("]; c = len s; q = c == "); N(d + pad); P(" ? s[0] : 0;"); break;
  case 16: P("q = cnt_(v"); { int n = d > 1000 ? 1020 + pad : d + pad; if (n > 255) n = 200 + pad; for (int i = 1; i < n; i++) P(", 1"); P(") == "); N(n); } P(" ? v : 0;"); break; // a call has at most 255 values
  case 17: P("f = fn(n) { c += 1; if n == 0 { return v; }; return 0 * n "); for (int i = 0; i < pad; i++) { P("+ (0 "); } P("+ f(n - 1)"); pads(")", NULL); P("; }; q = f("); N(d); P(");"); break;
  case 18: P("mt.set(o, {.__neg: fn(self) { c += 1; k -= 1; if k == 0 { return v; }; "); pads("let p", " = 1; "); P("return -self; }}); k = "); N(d); P("; q = -o;"); break;
  case 19: P("mt.set(o, {.__eq: fn(a, b) { c += 1; k -= 1; if k == 0 { return true; }; "); pads("let p", " = 1; "); P("return a == o2; }}); k = "); N(d); P("; mt.set(o2, mt.get(o)); q = o == o2 ? v : 0;"); break;
  case 20: P("mt.set(o, {.__set: fn(self, i, y) { c += 1; if i == 0 { k = y; return 1; }; "); pads("let p", " = 1; "); P("self[i - 1] = y; return 1; }}); o["); N(d); P("] = v; q = k;"); break;
  case 21: P("mt.set(o, {.__call: fn(n) { c += 1; if n == 0 { return v; }; "); pads("let p", " = 1; "); P("return o(n - 1); }}); q = o("); N(d); P(");"); break;
  case 22: P("const k0 = cnt_(many("); N(d > 120 ? 5000 : d); P("), many("); N(pad * 90); P(")); q = k0 == "); N(1 + (d > 120 ? 5000 : pad * 90)); P(" ? v : 0;"); break;
  default: P("f = fn(n) { c += 1; if n == 0 { return v; }; let e = [n"); pads(", n + ", ""); P("]; const [a] = [1]; return 1; };"); w = src; P("l->push(5); f = fn(n) { c += 1; if n == 0 { return v; }; let r = 0; for let i = 0; i < 1; i += 1 { while true { "); pads("let p", " = i; "); P("for ch <- 'ab' { r = f(n - 1); break; }; break; }; }; return r; }; q = f("); N(d); P(");"); break;
  }
  P(" l->push(6);");
  YS *S = h_new(src); static const char *gs[] = {"c", "q", "k"}; for (int i = 0; i < 3; i++) h_gint(S, gs[i], 0); h_gint(S, "v", v); h_gint(S, "x", x); h_gundef(S, "f");
  h_gfn(S, "cb", cb, 2); h_gfn(S, "cnt_", cnt_, -1); h_gfn(S, "many", many, 1); VP_CHECK(YASL_decllib_mt(S) == YASL_SUCCESS, "library");
  YASL_declglobal(S, "l"); YASL_pushlist(S); YASL_setglobal(S, "l"); YASL_declglobal(S, "o"); YASL_pushtable(S); YASL_setglobal(S, "o"); YASL_declglobal(S, "o2"); YASL_pushtable(S); YASL_setglobal(S, "o2");
  int rc = h_run(S); (void)res;
  VP_CHECK(rc == YASL_SUCCESS || rc == YASL_STACK_OVERFLOW_ERROR, "a result or the stack-overflow status");
  if (small && kind != 22 && kind != 15 && kind != 14) VP_CHECK(rc == YASL_SUCCESS, "there is room for shallow recursion");
  if (big && kind != 14 && kind != 16) VP_CHECK(rc == YASL_STACK_OVERFLOW_ERROR, "endless recursion is a stack overflow");
  if (rc == YASL_SUCCESS) { vp_reach("fits"); h_is_int(S, "q", want, "right result"); } else { vp_reach("overflow"); h_is_int(S, "q", 0, "nothing after the overflow ran"); }
  YASL_loadglobal(S, "l"); YASL_len(S); int64_t n = YASL_popint(S); VP_CHECK(n == (rc == YASL_SUCCESS ? 2 : 1), "effects before the overflow stay, nothing after it ran");
  { HV c = h_get(S, "c"); VP_CHECK(c.t == TI, "inspectable"); }
  // the state can be used again
  YASL_resetstate_bb(S, "const g = fn(n) { let s = 0; for y <- [1, 2, 3] { s += y; }; return n == 0 ? s : g2(n - 1); }; g2 = g; q = x + g(9); echo q === x + 6;", 0 + strlen("const g = fn(n) { let s = 0; for y <- [1, 2, 3] { s += y; }; return n == 0 ? s : g2(n - 1); }; g2 = g; q = x + g(9); echo q === x + 6;")); h_gundef(S, "g2");
  VP_CHECK(h_run(S) == YASL_SUCCESS, "the state is usable after the overflow"); h_is_int(S, "q", (int64_t)((uint64_t)x + 6), "a second program computes"); h_is_out(S, "true\n", 5, "and prints");
  h_end(S);
}
