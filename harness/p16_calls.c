// vp: shards=40 shards2=40 quick=60 thorough=900
// bounds: every function with 0..4 parameters (let or const) returning 0..4 values, called with 0..5 arguments of arbitrary int value, as script function, closure, method, table field, callable object, native function with 0..4 fixed parameters, variadic native function with 0..2 fixed ones, recursion, or from a native function; in every context asking for values (expression, statement, operand, list, table, last and inner argument, return, return of an expression, multiple declaration and assignment of 1..4 targets, interpolation, condition)
// outside: more than 5 arguments; results that are not ints
#include "h.h"
#include "std/yasl-std-mt.h"
static char src[4000], *w; static void P(const char *s) { w = put(w, s); }
static void D(int n) { *w++ = '0' + n; *w = 0; }
static int64_t av[6], logv[100]; static int nl; static int vfix, nret;
static int l_(YS *S) { VP_CHECK(nl < 100, "terminates"); logv[nl++] = YASL_isint(S) ? YASL_peekint(S) : YASL_isundef(S) ? -1111 : -7777; return 1; } // logs and returns its argument
static int64_t nth(YS *S, unsigned n) { return YASL_isnint(S, n) ? YASL_peeknint(S, n) : YASL_isnundef(S, n) ? -1111 : -7777; }
static int nfix; // native function of nfix parameters: logs them, returns nret values 90.., leaving them on top
static int nat(YS *S) { for (int i = 0; i < nfix; i++) logv[nl++] = nth(S, i); for (int i = 0; i < nret; i++) YASL_pushint(S, 90 + i); return nret; }
static int var(YS *S) { int64_t n = YASL_peekvargscount(S); logv[nl++] = n; for (int i = 0; i < vfix; i++) logv[nl++] = nth(S, i); for (int i = 0; i < n; i++) logv[nl++] = nth(S, vfix + 1 + i); for (int i = 0; i < nret; i++) YASL_pushint(S, 90 + i); return nret; }
static int64_t outv[40]; static int no;
static int put_(YS *S) { int64_t n = YASL_peekvargscount(S); for (int i = 0; i < n && no < 40; i++) outv[no++] = YASL_isnbool(S, 1 + i) ? (YASL_peeknbool(S, 1 + i) ? -2001 : -2000) : nth(S, 1 + i); YASL_pushundef(S); return 1; }
static int cb_n; // calls its first argument with cb_n ints, logs how many values came back and the values
static int cb(YS *S) { for (int i = 0; i < cb_n; i++) YASL_pushint(S, av[i]); int r = YASL_functioncall(S, cb_n); logv[nl++] = r; for (int i = 0; i < r; i++) { logv[nl++] = YASL_isint(S) ? YASL_peekint(S) : -1111; YASL_pop(S); } YASL_pushint(S, 5); return 1; }
static void params(int n) { for (int i = 0; i < n; i++) { if (i) P(", "); if (i & 1) P("const "); P("p"); D(i); } }
static void body(int n, int r) { for (int i = 0; i < n; i++) { P("l(p"); D(i); P("); "); } if (r == 0) { P("l(0); "); return; } P("return "); for (int i = 0; i < r; i++) { if (i) P(", "); D(9); D(i); } P("; "); }
static void args(int n) { for (int i = 0; i < n; i++) { if (i) P(", "); P("l(a"); D(i); P(")"); } }
static int64_t exp_[100]; static int ne; static void E(int64_t v) { exp_[ne++] = v; }
static int np, na, r, kind;
// what a call logs; the arguments first
static void eargs(int n) { for (int i = 0; i < n; i++) E(av[i]); }
static void ebody(const int64_t *a, int n) { if (kind == 5) { for (int i = 0; i < np; i++) E(i < n ? a[i] : -1111); } else if (kind == 6) { E(n > np ? n - np : 0); for (int i = 0; i < np; i++) E(i < n ? a[i] : -1111); for (int i = np; i < n; i++) E(a[i]); } else { for (int i = 0; i < np; i++) E(i < n ? a[i] : -1111); if (r == 0) E(0); } }
// values of a call: script functions without return give one undef
static int nvals(void) { return (kind == 5 || kind == 6) ? r : r == 0 ? 1 : r; }
static int64_t val(int i) { return i < r ? 90 + i : -1111; }
static void call(int n) { P(kind == 2 ? "o->f(" : kind == 3 ? "t.f(" : kind == 4 ? "o(" : "f("); args(n); P(")"); }
void vp_main(void) {
  unsigned sh = vp_shard(40); kind = sh % 8; int ctxg = sh / 8; for (int i = 0; i < 6; i++) { av[i] = vp_i64(); } w = src;
  np = vp_choose(5); r = vp_choose(5); na = vp_choose(6);
  if (VP_TIER == 1 && (np + r + na) % 2 == (int)(ctxg & 1) && np * r * na) vp_skip();
  if (kind == 6) np = np % 3;
  const int MF = kind == 2; // the receiver is the first argument
  // declarations
  switch (kind) {
  case 0: P("let f = fn("); params(np); P(") { "); body(np, r); P("}; "); break;
  case 1: P("let c0 = 1; let f = undef; let c1 = fn() { let c2 = 2; f = fn("); params(np); P(") { c0 += c2; let loc = 4; "); body(np, r); P("}; return 1; }; c1(); "); break;
  case 2: case 4: P("let o = {}; mt.set(o, {."); P(kind == 2 ? "f" : "__call"); P(": fn("); if (MF) { P("self"); if (np) P(", "); } params(np); P(") { "); body(np, r); P("}}); "); break;
  case 3: P("let t = {}; fn t.f("); params(np); P(") { "); body(np, r); P("}; "); break;
  case 5: case 6: break;
  case 7: P("fn f("); params(np); P(") { if n > 0 { n -= 1; let x = 3; let y = f("); for (int i = 0; i < na; i++) { if (i) P(", "); P("a"); D(i); } P("); }; "); body(np, r); P("}; "); break; // recursion; n is a global of the host
  }
  P("let b0 = 41; ");
  unsigned c = vp_choose(ctxg == 0 ? 4 : ctxg == 1 ? 4 : ctxg == 2 ? 4 : ctxg == 3 ? 4 : 4); int ctx = ctxg * 4 + c; int nres = 0; int64_t res[12]; int64_t bv[6]; int nb; int rep = kind == 7 ? 3 : 1;
#define CALLED(n) do { eargs(n); for (int q_ = 0; q_ < rep; q_++) ebody(av, n); rep = 1; } while (0)
#define R(v) (res[nres++] = (v))
  switch (ctx) {
  case 0: call(na); P("; "); CALLED(na); break;
  case 1: P("put_("); call(na); P("); "); CALLED(na); for (int i = 0; i < nvals(); i++) R(val(i)); break; // variadic method: all values
  case 2: P("put_(7, "); call(na); P(" === undef, 8); "); CALLED(na); R(7); R(val(0) == -1111 ? -2001 : -2000); R(8); break;
  case 3: P("let d0 = "); call(na); P("; put_(d0, b0); "); CALLED(na); R(val(0)); R(41); break;
  case 4: case 5: { int nt = 2 + (int)vp_choose(3); for (int i = 0; i < nt; i++) { if (i) P(", "); if (ctx == 5) { if (i == 0) P("b0"); else if (i == 1) { P("let d"); D(i); } else if (i == 2) P("tt[1]"); else { P("const d"); D(i); } } else { P(i & 1 ? "const d" : "let d"); D(i); } } P(" = "); call(na); P("; let e0 = 42; put_("); for (int i = 0; i < nt; i++) { if (i) P(", "); if (ctx == 5 && i == 0) P("b0"); else if (ctx == 5 && i == 2) P("tt[1]"); else { P("d"); D(i); } } P(", e0); "); CALLED(na); for (int i = 0; i < nt; i++) R(i < nvals() ? val(i) : -1111); R(42); break; }
  case 6: P("let d0, let d1, let d2 = 31, "); call(na); P("; let e0 = 42; put_(d0, d1, d2, e0); "); CALLED(na); R(31); R(nvals() > 0 ? val(0) : -1111); R(nvals() > 1 ? val(1) : -1111); R(42); break;
  case 7: P("let d0, let d1, let d2 = "); call(na); P(", 32; let e0 = 42; put_(d0, d1, d2, e0); "); CALLED(na); R(val(0)); R(32); R(-1111); R(42); break;
  case 8: P("put_(["); call(na); P(", "); call(na); P("]->__len(), len {1: "); call(na); P(", 2: 3}); "); CALLED(na); CALLED(na); CALLED(na); R(2); R(r > 0 ? 2 : 1); break;
  case 9: P("const g = fn(x, y) { return 33, "); call(na); P("; }; put_(g(1)); "); CALLED(na); R(33); for (int i = 0; i < nvals(); i++) R(val(i)); break;
  case 10: P("const g = fn(x, y) { return "); call(na); P("; }; put_(g(1)); "); CALLED(na); for (int i = 0; i < nvals(); i++) R(val(i)); break;
  case 11: P("const g = fn(x) { return ("); call(na); P(" ?? 35) + 1; }; put_(g(1)); "); CALLED(na); R(r > 0 ? 91 : 36); break;
  case 12: P("const h = fn(x, y, z) { put_(x, y, z); return x; }; let d0 = 30 + h("); call(na); P(", "); call(na); P(") ?? 1; put_(b0); "); if (r == 0) vp_skip(); CALLED(na); CALLED(na); R(val(0)); for (int i = 0; i < 2; i++) R(i < nvals() ? val(i) : -1111); R(41); break;
  case 13: P("const g = fn(x) { return [x, 2, "); call(na); P("]->__len(), len ["); call(na); P(", 1]; }; put_(g(1)); "); CALLED(na); CALLED(na); R(3); R(2); break;
  case 14: P("if "); call(na); P(" { put_(1); } else { put_(2); }; for let i = 0; i < 2; i += 1 { "); call(na); P("; }; put_(b0); "); CALLED(na); CALLED(na); CALLED(na); R(r > 0 ? 1 : 2); R(41); break;
  case 15: if (kind == 2 || kind == 3 || kind == 4) vp_skip(); cb_n = na; P("let k = cb(f); put_(k, b0); "); for (int q_ = 0; q_ < rep; q_++) ebody(av, na); E(nvals()); for (int i = nvals() - 1; i >= 0; i--) E(val(i)); R(5); R(41); break;
  case 16: P("const h = fn(g, x) { return g("); args(na); P("), x; }; put_(h("); if (kind == 2 || kind == 3 || kind == 4) vp_skip(); P("f, 44)); "); CALLED(na); R(val(0)); R(44); break;
  case 17: P("const g = fn() { "); call(na); P("; return b0; }; put_(g(), g(), b0); "); CALLED(na); CALLED(na); R(41); R(41); R(41); break;
  case 18: P("for x <- [1, 2] { let y = x; let z = "); call(na); P("; put_(y, z, x); }; "); for (int x = 1; x < 3; x++) { CALLED(na); R(x); R(val(0)); R(x); } break;
  default: P("const g = fn(x) { let loc = 5; return x == 1 ? "); call(na); P(" : 3; }; put_(g(1), g(2)); "); CALLED(na); R(val(0)); R(3); break;
  }
  P("q = 1;"); nret = r; nfix = vfix = np;
  YS *S = h_new(src); h_gfn(S, "l", l_, 1); h_gfn(S, "cb", cb, 1); h_gint(S, "q", 0); h_gint(S, "n", 2); static char an[6][3]; for (int i = 0; i < 6; i++) { an[i][0] = 'a'; an[i][1] = '0' + i; h_gint(S, an[i], av[i]); }
  h_gfn(S, "put_", put_, -1); VP_CHECK(YASL_decllib_mt(S) == YASL_SUCCESS, "library"); YASL_declglobal(S, "tt"); YASL_pushtable(S); YASL_setglobal(S, "tt");
  if (kind == 5) h_gfn(S, "f", nat, np); if (kind == 6) h_gfn(S, "f", var, ~np);
  (void)bv; (void)nb;
  VP_CHECK(h_run(S) == 0, "no error"); h_is_int(S, "q", 1, "runs to the end");
  VP_CHECK(nl == ne, "as many parameters and evaluations as expected"); bool same = true; for (int i = 0; i < ne && i < nl; i++) { same &= logv[i] == exp_[i]; vp_observe(logv[i]); } VP_CHECK(same, "arguments are evaluated left to right and bound to the parameters by position");
  VP_CHECK(no == nres, "number of values"); bool okv = true; for (int i = 0; i < nres && i < no; i++) { vp_observe(outv[i]); okv &= outv[i] == res[i]; } VP_CHECK(okv, "the values of a call");
  vp_reach("ran"); if (kind == 7 || kind == 2) YASL_delstate(S); else h_end(S);
}
