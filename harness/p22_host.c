// vp: shards=12 quick=50 thorough=600
// bounds: native functions of 0..3 parameters, and variadic ones with 0..2 fixed parameters, called from a script with 0..4 arguments of every kind (symbolic values), as a call, a method of a table, through a variable and from inside a script function, each indexed predicate and peek compared with the argument; YASLX_check functions on every kind; callbacks of script closures from native code with 1..3 arguments, nested to depth 3, with an error at each level; histories of 4 (thorough 5) steps among 12: host sets or reads globals, five programs (one failing, one rejected), compile only, new globals, calls of functions defined by earlier programs
#include "h.h"
bool YASL_isnuserptr(YS *, unsigned); bool YASL_isnstr(YS *, unsigned);
static YS *S; static int calls;
// --- arguments
static int nfix, vari, nargs, kind[5]; static Any av[5]; static const char *const gn[] = {"a0", "a1", "a2", "a3", "a4"}; static int64_t retv;
static void arg(YS *T, unsigned n, int i) { // the value in position n is argument i, or undef
  int k = i < nargs ? kind[i] : KU; static const char *const tn[] = {"undef", "int", "float", "bool", "str", "list", "table", "fn"};
  VP_CHECK(YASL_isnundef(T, n) == (k == KU), "isnundef"); VP_CHECK(YASL_isnint(T, n) == (k == KI), "isnint"); VP_CHECK(YASL_isnfloat(T, n) == (k == KF), "isnfloat"); VP_CHECK(YASL_isnbool(T, n) == (k == KB), "isnbool"); VP_CHECK(YASL_isnstr(T, n) == (k == KS), "isnstr"); VP_CHECK(YASL_isnlist(T, n) == (k == KL), "isnlist"); VP_CHECK(YASL_isntable(T, n) == (k == KT), "isntable"); VP_CHECK(!YASL_isnuserdata(T, "tag", n) && !YASL_isnuserptr(T, n), "not host data");
  VP_CHECK(YASL_peeknint(T, n) == (k == KI ? av[i].i : 0), "peeknint"); VP_CHECK(h_feq(YASL_peeknfloat(T, n), k == KF ? av[i].f : 0.0), "peeknfloat"); VP_CHECK(YASL_peeknbool(T, n) == (k == KB && av[i].b), "peeknbool"); VP_CHECK(strcmp(YASL_peekntypename(T, n), tn[k]) == 0, "peekntypename");
}
static int native(YS *T) {
  calls++; for (int i = 0; i < nfix; i++) arg(T, i, i);
  if (vari) { int rest = nargs > nfix ? nargs - nfix : 0; VP_CHECK(YASL_peekvargscount(T) == rest, "number of variable arguments"); for (int i = 0; i < rest; i++) arg(T, nfix + 1 + i, nfix + i); }
  YASL_pushint(T, retv); return 1;
}
static char src[900]; static char *d; static void P(const char *s) { d = put(d, s); }
static void args(void) {
  int how = (int)vp_choose(4); vari = (int)vp_choose(2); nfix = (int)vp_choose(vari ? 3 : 4); nargs = (int)vp_choose(5); int k0 = (int)vp_choose(NKIND);
  for (int i = 0; i < nargs; i++) kind[i] = (k0 + i * 3) % NKIND; // each kind in each position
  d = src; P(how == 0 ? "" : how == 1 ? "o.m = f; " : how == 2 ? "let h = f; " : "let w = fn(a, b) { let c = 5; return f("); 
  if (how < 3) P(how == 0 ? "x = f(" : how == 1 ? "x = o.m(" : "x = [1, h("); for (int i = 0; i < nargs; i++) { if (i) P(", "); P(gn[i]); } P(how < 3 ? how == 2 ? "), 2][1];" : ");" : "); }; x = w(1, 2);"); P(" q = 1;");
  S = h_new(src); for (int i = 0; i < nargs; i++) av[i] = h_any(S, gn[i], kind[i]); retv = vp_i64(); h_out(S, "x"); h_out(S, "q"); YASL_declglobal(S, "o"); YASL_pushtable(S); YASL_setglobal(S, "o"); h_gfn(S, "f", native, vari ? ~nfix : nfix);
  h_run(S); VP_CHECK(h_rc == YASL_SUCCESS, "the program runs"); VP_CHECK(calls == 1, "called once"); h_is_int(S, "x", retv, "the value the native function returned"); h_is_int(S, "q", 1, "runs on"); for (int i = 0; i < nargs; i++) h_is_any(S, gn[i], av[i], "arguments keep their values"); h_end(S);
}
// --- checks of arguments
static int what; 
static int checker(YS *T) {
  calls++; switch (what) { case 0: { int64_t v = YASLX_checknint(T, "f", 1); VP_CHECK(v == av[0].i, "checknint"); break; } case 1: { double v = YASLX_checknfloat(T, "f", 1); VP_CHECK(h_feq(v, av[0].f), "checknfloat"); break; } case 2: { bool v = YASLX_checknbool(T, "f", 1); VP_CHECK(v == av[0].b, "checknbool"); break; } case 3: YASLX_checknundef(T, "f", 1); break; default: YASLX_checknuserdata(T, "tag", "f", 1); VP_CHECK(0, "checknuserdata accepts no script value"); }
  calls++; YASL_pushint(T, 7); return 1;
}
static void checks(void) {
  what = (int)vp_choose(5); int k = (int)vp_choose(NKIND); bool ok = (what == 0 && k == KI) || (what == 1 && k == KF) || (what == 2 && k == KB) || (what == 3 && k == KU);
  S = h_new("q = 1; x = f('first', a0, 0); q = 2;"); av[0] = h_any(S, "a0", k); h_out(S, "x"); h_out(S, "q"); h_gfn(S, "f", checker, 3); h_run(S);
  VP_CHECK(h_rc == (ok ? YASL_SUCCESS : YASL_TYPE_ERROR), "wrong kinds of argument are type errors"); VP_CHECK(calls == (ok ? 2 : 1), "nothing after the check runs"); h_is_int(S, "q", ok ? 2 : 1, "the script stops at the error"); if (ok) h_is_int(S, "x", 7, "result"); h_end(S);
}
// --- callbacks
static int depthmax, failat, depth; static int64_t ca[3]; static int cn;
static int callback(YS *T) { // cb(closure): calls it with cn numbers and the level
  int l = depth++; YASL_duptop(T); for (int i = 0; i < cn; i++) YASL_pushint(T, ca[i]); int n = YASL_functioncall(T, cn); depth--; VP_CHECK(n == 1, "one result"); VP_CHECK(YASL_isint(T), "an int comes back"); int64_t r = YASL_popint(T); VP_CHECK(YASL_peektype(T) >= 0 && !YASL_isint(T), "the closure is below the result"); (void)l; YASL_pushint(T, (int64_t)((uint64_t)r + 1)); return 1; }
static int level(YS *T) { YASL_pushint(T, depth); return 1; }
static int boom(YS *T) { if (depth == failat) { calls++; YASL_pushint(T, 1); YASLX_checknbool(T, "boom", 0); } YASL_pushint(T, 0); return 1; }
static void callbacks(void) {
  depthmax = 1 + (int)vp_choose(3); cn = 1 + (int)vp_choose(3); failat = (int)vp_choose(5); int how = (int)vp_choose(2);
  d = src; P("let k = 100; let f = undef; f = fn(a, b) { let t = a; boom(7); if level() < "); *d++ = '0' + depthmax; *d = 0; P(how ? " { let u = [cb(f)]; return u[0] * 2 + k; }; return t; };" : " { return cb(f) * 2 + k; }; return t; };"); P(" x = cb(f); q = 2; f = undef;");
  S = h_new(src); for (int i = 0; i < 3; i++) ca[i] = vp_i64(); h_out(S, "x"); h_gint(S, "q", 1); h_gfn(S, "cb", callback, 1); h_gfn(S, "level", level, 0); h_gfn(S, "boom", boom, 1); depth = 0; h_run(S);
  bool fails = failat >= 1 && failat <= depthmax;
  VP_CHECK(h_rc == (fails ? YASL_TYPE_ERROR : YASL_SUCCESS), "an error inside a callback ends the program with its status"); h_is_int(S, "q", fails ? 1 : 2, "nothing after the error runs"); VP_CHECK(calls == fails, "failed once");
  if (!fails) { uint64_t v = (uint64_t)ca[0]; for (int i = 0; i < depthmax; i++) v = i == depthmax - 1 ? v + 1 : (v + 1) * 2 + 100; h_is_int(S, "x", (int64_t)v, "results pass through native frames"); }
  if (!fails) h_end(S); else YASL_delstate(S); // the failing closure refers to itself
}
// --- histories
static const char *const prog[] = {"x = x * 3 + 1;", "let x2 = x; g = fn(a) { x = x + a; return x2; }; y = 5;", "y = g(4);", "y = 6; x = 'a' - 1; y = 7;", "y = 8; x = (;", "let x = 50; y = x; x = 51;", "y = z + 1;", "const c = x; y = c; const r = fn() { return c; }; g = fn(a) { y = a; return r(); };"};
static void history(int first) {
  int64_t x = vp_i64(), y = 0, z = 0, gx2 = 0; int g = 0, ykind = KU; bool hasz = false; S = h_new("x = x + 0;"); h_gint(S, "x", x); h_out(S, "y"); h_out(S, "g"); static const char *const zn = "z";
  int n = VP_TIER > 1 ? 5 : 4; bool fresh = true;
  for (int i = 0; i < n; i++) {
    int op = i == 0 ? first : (int)vp_choose(12);
    if (op < 8) {
      int want = YASL_SUCCESS; fresh = true; YASL_resetstate_bb(S, prog[op], strlen(prog[op])); 
      switch (op) {
      case 0: x = (int64_t)((uint64_t)x * 3 + 1); break; case 1: g = 1; gx2 = x; y = 5; ykind = KI; break; 
      case 2: if (!g) want = YASL_TYPE_ERROR; else { if (g == 1) { x = (int64_t)((uint64_t)x + 4); y = gx2; } else { y = gx2; } ykind = KI; } break;
      case 3: y = 6; ykind = KI; want = YASL_TYPE_ERROR; break; case 4: want = YASL_SYNTAX_ERROR; break; case 5: y = 50; ykind = KI; break;
      case 6: if (!hasz) want = YASL_SYNTAX_ERROR; else { y = (int64_t)((uint64_t)z + 1); ykind = KI; } break; default: y = x; ykind = KI; g = 2; gx2 = x; }
      int rc = YASL_execute(S); VP_CHECK(rc == want, "status of the program"); if (want == YASL_SYNTAX_ERROR) h_rc = rc;
    } else switch (op) {
    case 8: x = vp_i64(); YASL_pushint(S, x); VP_CHECK(YASL_setglobal(S, "x") == YASL_SUCCESS, "set"); break;
    case 9: VP_CHECK(YASL_loadglobal(S, "x") == YASL_SUCCESS, "load"); VP_CHECK(YASL_isint(S), "x is an int"); VP_CHECK(YASL_popint(S) == x, "the host reads what scripts wrote"); break;
    case 10: { z = vp_i64(); if (!hasz) YASL_declglobal(S, zn); hasz = true; YASL_pushint(S, z); VP_CHECK(YASL_setglobal(S, zn) == YASL_SUCCESS, "set z"); break; }
    default: YASL_resetstate_bb(S, "y = 99;", 7); VP_CHECK(YASL_compile(S) == YASL_SUCCESS, "compiles"); break; // compiling runs nothing
    }
  }
  h_is_int(S, "x", x, "global x"); if (ykind == KU) h_is_undef(S, "y", "global y"); else h_is_int(S, "y", y, "global y"); if (hasz) h_is_int(S, "z", z, "global z"); (void)fresh; h_end(S);
}
void vp_main(void) { int k = (int)vp_shard(12); calls = 0; h_rc = 0; if (k < 9) { static const int f[] = {0, 1, 2, 3, 4, 5, 6, 7, 10}; history(f[k]); } else if (k == 9) args(); else if (k == 10) checks(); else callbacks(); vp_reach("host"); }
