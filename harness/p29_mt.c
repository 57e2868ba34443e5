// vp: shards=31 quick=60 thorough=900
// bounds: the 19 binary and 4 unary overloadable operators, each with left operand a table, list or userdata with its own metatable (defining the operator or everything but it); right operands of every kind with symbolic values, among them an object with a metatable of its own; the overload is a native function, a script function, a closure or a callable object, returning values of several kinds, in 5 surroundings; reading and writing fields, method calls, calls, len, conversion to str and == inside containers with custom metatables with and without an entry or __get; metatables shared, replaced, changed between two uses and removed; every builtin method by name on every type
// outside: metatables that refer back to their object (cycles)
#include "h.h"
static YS *S; static char src[2000], *d; static void P(const char *s) { d = put(d, s); } static void N(int v) { if (v < 0) { *d++ = '-'; v = -v; } if (v >= 10) N(v / 10); *d++ = '0' + v % 10; *d = 0; }
static int calls; static int64_t gotv[8]; static int64_t ret; static int retk; static int64_t vx, vy;
static int64_t code(YS *T, unsigned n) { // identifies argument n
  if (YASL_isnint(T, n)) return YASL_peeknint(T, n); if (YASL_isnundef(T, n)) return -1000001; if (YASL_isnbool(T, n)) return -1000002 - YASL_peeknbool(T, n); if (YASL_isnfloat(T, n)) return -1000005; if (strcmp(YASL_peekntypename(T, n), "str") == 0) return -1000006; if (YASL_isnlist(T, n)) return -1000007; if (YASL_isntable(T, n)) return -1000008; if (YASL_isnuserdata(T, "ud", n)) return -1000009; return -1000010; }
static void pushret(YS *T) { switch (retk) { case 0: YASL_pushint(T, ret); break; case 1: YASL_pushundef(T); break; case 2: YASL_pushlit(T, "ov"); break; default: YASL_pushbool(T, true); } }
static int over2(YS *T) { if (calls < 4) { gotv[2 * calls] = code(T, 0); gotv[2 * calls + 1] = code(T, 1); } calls++; pushret(T); return 1; }
static int val(YS *T) { pushret(T); return 1; }
static void isret(const char *n, const char *msg) { if (retk == 0) h_is_int(S, n, ret, msg); else if (retk == 1) h_is_undef(S, n, msg); else if (retk == 2) h_is_str(S, n, "ov", 2, msg); else h_is_bool(S, n, true, msg); }
static const char *const bop[] = {"+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "&^", "^", "|", "<", ">", "<=", ">=", "==", "!="};
static const char *const bname[] = {"__add", "__sub", "__mul", "__div", "__idiv", "__mod", "__pow", "__bshl", "__bshr", "__band", "__bandnot", "__bxor", "__bor", "__lt", "__gt", "__le", "__ge", "__eq", "__eq"};
static const char *const uop[] = {"-", "+", "^", "len "}, *const uname[] = {"__neg", "__pos", "__bnot", "__len"};
static void dest(void *p) { (void)p; }
static const int64_t kc[] = {-1000008, -1000007, -1000009};
static void globals(void) {
  S = h_new(src); YASL_decllib_mt(S); h_gint(S, "x", vx); h_gint(S, "y", vy); h_gint(S, "q", 0); h_out(S, "r"); h_out(S, "p"); h_out(S, "o"); h_out(S, "o2"); h_out(S, "m"); h_gfn(S, "ov", over2, 2); h_gfn(S, "val", val, 0); YASL_declglobal(S, "u"); static int dat; YASL_pushuserdata(S, &dat, "ud", dest); YASL_setglobal(S, "u"); }
static void overload(const char *name) { // defines f, the overload
  switch (vp_choose(4)) { case 0: P("let f = ov; "); break; case 1: P("let f = fn(a, b) { let c = 1; return ov(a, b); }; "); break; case 2: P("let n = 1; let f = fn(a, b) { n += 1; for z <- [1, 2] { return ov(a, b); }; }; "); break; default: P("let f = {}; mt.set(f, {'__call': ov}); "); }
  (void)name; }
static void obj(const char *n, int k, const char *name, bool has) { // an object of kind k (0 table 1 list 2 userdata) with its own metatable
  P(n); P(k == 0 ? " = {'k': 1}; " : k == 1 ? " = [x, 2]; " : " = u; "); P("mt.set("); P(n); P(", {"); if (has) { P("'"); P(name); P("': f, "); } P("'other': 5, '__foo': ov}); "); }
static void binop(int op) {
  int lk = (int)vp_choose(3); bool has = vp_choose(2); int rk = (int)vp_choose(8); retk = op == 18 ? 3 : (int)vp_choose(4); int ctx = (int)vp_choose(5); bool eq = op >= 17; int64_t lc, rc;
  d = src; overload(bname[op]);
  if (lk < 3) { obj("o", lk, bname[op], has); lc = kc[lk]; } else if (lk == 3) { P("o = true; mt.get(o)."); P(bname[op]); P(" = f; "); lc = -1000003; } else { P("o = 'a'; mt.get('zz')."); P(bname[op]); P(" = f; "); lc = -1000006; }
  bool builtin = false; // the operator has a meaning without the metatable
  switch (rk) { case 0: P("let w = y; "); rc = vy; break; case 1: P("let w = undef; "); rc = -1000001; break; case 2: P("let w = 'str'; "); rc = -1000006; builtin = lk == 4 && op >= 13; break; case 3: P("let w = [y]; "); rc = -1000007; break; case 4: P("let w = {'k': 1}; "); rc = -1000008; break; case 5: P("let w = o; "); rc = lc; builtin = lk == 4 && op >= 13; break; case 6: P("let w = u; "); rc = -1000009; break; default: P("let w = [1]; mt.set(w, {'"); P(bname[op]); P("': val}); "); rc = -1000007; }
  if (eq && lk >= 3) builtin = true; bool samekind = lk < 3 && rc == lc; if (eq && lk < 3 && !samekind) builtin = true;
  P(ctx == 0 ? "r = o " : ctx == 1 ? "p = [7, o " : ctx == 2 ? "let g = fn(a) { let l = 4; return a " : ctx == 3 ? "for z <- [1] { let h = o " : "let a0 = 3; const a1 = o "); P(bop[op]); P(ctx == 0 ? " w; " : ctx == 1 ? " w, 8]; r = p[1]; " : ctx == 2 ? " w; }; r = g(o); " : ctx == 3 ? " w; r = h; }; " : " w; let a2 = a0; r = a1; q = a2; "); P("q = q + 1;");
  vx = vp_i64(); vy = vp_i64(); ret = vp_i64(); if (rk == 0) rc = vy; calls = 0; globals(); int st = h_run(S);
  if (builtin) { VP_CHECK(calls == 0, "values the operator is defined for do not ask the metatable"); VP_CHECK(st == YASL_SUCCESS, "builtin meaning"); if (eq) { bool same = lk == 4 ? rk == 5 : lk == 3 && rk == 5; h_is_bool(S, "r", same != (op == 18), "values of different types are not equal"); } vp_reach("builtin"); }
  else if (!has) { VP_CHECK(st == YASL_TYPE_ERROR, "an operator the metatable does not define is a type error"); VP_CHECK(calls == 0, "no other entry is called"); h_is_int(S, "q", 0, "stops at the operator"); vp_reach("type error"); }
  else { VP_CHECK(st == YASL_SUCCESS, "the overload is called"); VP_CHECK(calls == 1, "exactly once"); VP_CHECK(gotv[0] == lc && gotv[1] == rc, "with the operands in order"); if (op == 18) h_is_bool(S, "r", false, "negated result"); else isret("r", "its result is the result of the expression"); h_is_int(S, "q", ctx == 4 ? 4 : 1, "runs on"); vp_reach("overloaded"); }
  h_end(S);
}
static void unop(int op) {
  int k = (int)vp_choose(3); bool has = vp_choose(2); retk = (int)vp_choose(4); int ctx = (int)vp_choose(3); d = src; overload(uname[op]); if (k < 3) obj("o", k, uname[op], has); else if (k == 3) { P("o = true; mt.get(o)."); P(uname[op]); P(" = f; "); } else { P("o = undef; mt.get(undef)."); P(uname[op]); P(" = f; "); }
  P(ctx == 0 ? "r = " : ctx == 1 ? "p = [1, " : "let g = fn(a) { return "); P(uop[op]); P(ctx == 0 ? "o; " : ctx == 1 ? "o, 2]; r = p[1]; " : "a; }; r = g(o); "); P("q = 1;"); vx = vp_i64(); vy = 0; ret = vp_i64(); calls = 0; globals(); int st = h_run(S);
  if (!has) { VP_CHECK(st == YASL_TYPE_ERROR && calls == 0, "an operator the metatable does not define is a type error"); h_is_int(S, "q", 0, "stops"); }
  else { VP_CHECK(st == YASL_SUCCESS && calls == 1, "called exactly once"); VP_CHECK(gotv[0] == (k < 3 ? kc[k] : k == 3 ? -1000003 : -1000001), "with the operand"); isret("r", "result"); h_is_int(S, "q", 1, "runs on"); } h_end(S);
}
static void fields(void) { // reading o.k / o['k'] / o[5], with or without an entry, __get, and an own key
  int k = (int)vp_choose(3); bool entry = vp_choose(2), get = vp_choose(2), own = vp_choose(2); int how = (int)vp_choose(3); int ctx = (int)vp_choose(2); retk = (int)vp_choose(2); d = src; if (k != 0 && own) vp_skip(); overload("__get");
  P(k == 0 ? own ? "o = {'k': 71, 5: 72}; " : "o = {}; " : k == 1 ? "o = []; " : "o = u; "); P("mt.set(o, {'z': 0, "); if (entry) P("'k': 81, 5: 82, "); if (get) P("'__get': f, "); P("'__foo': ov}); ");
  P(ctx ? "p = [1, " : "r = "); P(how == 0 ? "o.k" : how == 1 ? "o['k']" : "o[x - x + 5]"); P(ctx ? ", 2]; r = p[1]; " : "; "); P("q = 1;"); vx = 3; vy = 0; ret = vp_i64(); calls = 0; globals(); int st = h_run(S);
  if (entry) h_is_int(S, "r", how == 2 ? 82 : 81, "the entry of the metatable"); else if (get) { VP_CHECK(st == YASL_SUCCESS && calls == 1 && gotv[0] == kc[k] && gotv[1] == (how == 2 ? 5 : -1000006), "__get is called once with object and key"); isret("r", "its result"); } else if (own) h_is_int(S, "r", how == 2 ? 72 : 71, "the object's own key");
  else { VP_CHECK(st == YASL_VALUE_ERROR, "nothing found"); h_is_int(S, "q", 0, "stops"); } if (entry || get || own) { VP_CHECK(st == YASL_SUCCESS, "found"); h_is_int(S, "q", 1, "runs on"); } VP_CHECK(calls == (get && !entry), "no other entry is called"); h_end(S);
}
static int set3(YS *T) { gotv[0] = code(T, 0); gotv[1] = code(T, 1); gotv[2] = code(T, 2); calls++; pushret(T); return 1; }
static void writes(void) { int k = (int)vp_choose(3); bool has = vp_choose(2); int how = (int)vp_choose(4); retk = (int)vp_choose(2); d = src; P("let f = "); P(vp_choose(2) ? "st; " : "fn(a, b, c) { return st(a, b, c); }; "); obj("o", k, "__set", has); P(how == 0 ? "o.k = y; " : how == 1 ? "o['k'] = y; " : how == 2 ? "o[x] = y; " : "let g = fn(a) { let b = 4; a[x] = y; m = b; }; g(o); "); P("q = 1;");
  vx = vp_i64(); vy = vp_i64(); ret = vp_i64(); calls = 0; globals(); h_gfn(S, "st", set3, 3); int st = h_run(S); if (!has) { VP_CHECK(st == YASL_TYPE_ERROR && calls == 0, "not assignable"); h_is_int(S, "q", 0, "stops"); } else { VP_CHECK(st == YASL_SUCCESS && calls == 1, "__set called once"); VP_CHECK(gotv[0] == kc[k] && gotv[1] == (how < 2 ? -1000006 : vx) && gotv[2] == vy, "with object, key and value"); h_is_int(S, "q", 1, "runs on"); if (how == 3) h_is_int(S, "m", 4, "locals undisturbed"); } h_end(S); }
static void methods(void) { // o->k(y): the object comes first
  int k = (int)vp_choose(3); int where = (int)vp_choose(4); int ctx = (int)vp_choose(2); retk = (int)vp_choose(3); if (where == 2 && k != 0) vp_skip(); d = src; overload("k"); P(k == 0 ? where == 2 ? "o = {'k': f}; " : "o = {}; " : k == 1 ? "o = []; " : "o = u; "); P("mt.set(o, {"); if (where == 0) P("'k': f, "); if (where == 1) P("'__get': fn(a, b) { return b == 'k' ? f : undef; }, "); P("'__foo': val}); "); P(ctx ? "p = [1, o->k(y), 2]; r = p[1]; " : "r = o->k(y); "); P("q = 1;");
  vx = 0; vy = vp_i64(); ret = vp_i64(); calls = 0; globals(); int st = h_run(S); if (where == 3) { VP_CHECK(st == YASL_VALUE_ERROR && calls == 0, "no such method"); h_is_int(S, "q", 0, "stops"); } else { VP_CHECK(st == YASL_SUCCESS && calls == 1, "called once"); VP_CHECK(gotv[0] == kc[k] && gotv[1] == vy, "with the object before the arguments"); isret("r", "result"); h_is_int(S, "q", 1, "runs on"); } h_end(S); }
static void callit(void) { // o(x, y)
  int k = (int)vp_choose(3); bool has = vp_choose(2); int ctx = (int)vp_choose(4); retk = (int)vp_choose(3); d = src; overload("__call"); if (k < 3) obj("o", k, "__call", has); else P("o = 5; mt.get(1).__call = f; "); P(ctx == 0 ? "r = o(x, y); " : ctx == 1 ? "p = [1, o(x, y), 2]; r = p[1]; " : ctx == 2 ? "let g = fn(a) { let c = 2; return a(x, y); }; r = g(o); " : "let t = {'h': o}; r = t.h(x, y); "); P("q = 1;");
  vx = vp_i64(); vy = vp_i64(); ret = vp_i64(); calls = 0; globals(); int st = h_run(S); if (strstr(src, "let f = {}")) { if (has) VP_CHECK(st == YASL_TYPE_ERROR, "__call must be a function"); YASL_delstate(S); return; }
  if (!has) { VP_CHECK(st == YASL_TYPE_ERROR && calls == 0, "not callable"); h_is_int(S, "q", 0, "stops"); } else { VP_CHECK(st == YASL_SUCCESS && calls == 1, "called once"); VP_CHECK(gotv[0] == vx && gotv[1] == vy, "with the arguments"); isret("r", "result"); h_is_int(S, "q", 1, "runs on"); } h_end(S); }
static void tostrs(void) { // conversion to str
  int k = (int)vp_choose(3); bool has = vp_choose(2); int ctx = (int)vp_choose(5); retk = vp_choose(2) ? 2 : 0; d = src; overload("tostr"); obj("o", k, "tostr", has); P(ctx == 0 ? "r = 'a' ~ o; " : ctx == 1 ? "r = o ~ 'b'; " : ctx == 2 ? "r = \"<#{o}>\"; " : ctx == 3 ? "r = [1, o]->tostr(); " : "echo o; "); P("q = 1;"); vx = vp_u8() & 7; vy = 0; ret = 0; calls = 0; globals(); int st = h_run(S);
  static const char *const w[] = {"aov", "ovb", "<ov>", "[1, ov]", ""};
  bool nested = ctx == 3 && k < 2; // lists and tables inside a list are shown by their elements
  if (nested) { VP_CHECK(st == YASL_SUCCESS, "nested containers are shown by their elements"); } else if (!has || retk != 2) { VP_CHECK(st == YASL_TYPE_ERROR, "no str"); h_is_int(S, "q", 0, "stops"); } else { VP_CHECK(st == YASL_SUCCESS && calls == 1 && gotv[0] == kc[k], "tostr called once with the object"); if (ctx < 4) h_is_str(S, "r", w[ctx], strlen(w[ctx]), "its text is used"); else h_is_out(S, "ov\n", 3, "its text is printed"); } h_end(S); }
static void changes(void) { // shared, replaced, changed and removed metatables
  int how = (int)vp_choose(7); d = src; P("m = {'__add': fn(a, b) { return x; }}; o = {}; o2 = []; mt.set(o, m); mt.set(o2, m); let t = [o + 1, o2 + 1]; "); P(how == 0 ? "m.__add = fn(a, b) { return y; }; " : how == 1 ? "mt.set(o, {'__add': fn(a, b) { return y; }}); " : how == 2 ? "m.__add = undef; " : how == 3 ? "mt.set(o2, mt.get([])); " : how == 4 ? "m = {'__add': 5}; " : how == 5 ? "o = o2; " : "mt.get(o).__add = fn(a, b) { return y; }; o = o2; "); P("q = 1; r = o + 2; q = 2; p = o2 + (false ? 1 : [3]); q = 3;"); vx = vp_i64(); vy = vp_i64(); calls = 0; globals(); int st = h_run(S);
  if (how == 2) { VP_CHECK(st == YASL_TYPE_ERROR, "the removed entry is gone for both"); h_is_int(S, "q", 1, "stops"); } else { VP_CHECK(st == YASL_SUCCESS, "runs"); h_is_int(S, "q", 3, "to the end"); h_is_int(S, "r", how == 0 || how == 1 || how == 6 ? vy : vx, "the current entry of the object's metatable"); if (how == 3) { HV v = h_get(S, "p"); VP_CHECK(v.t == TL, "lists have their own operators again"); } else h_is_int(S, "p", how == 0 || how == 6 ? vy : vx, "shared metatable"); } 
  h_end(S); }
static void builtins(void) { // every builtin method is found on its type and on no other; a table's own key shadows its methods, the metatable's functions are those values
  static const char *const meth[] = {"tostr", "tobool", "tofloat", "toint", "toupper", "tolower", "isalnum", "startswith", "replace", "search", "count", "split", "trim", "rep", "repeat", "push", "pop", "copy", "extend", "clear", "join", "reverse", "sort", "slice", "insert", "keys", "values", "remove", "nosuch"};
  static const char *const vals[] = {"undef", "1.5", "1", "true", "'ab'", "[1]", "{1: 2}"};
  static const unsigned char ok[7][29] = {{1,0},{1,1,1,1},{1,1,1,1},{1,1},{1,1,1,1,1,1,1,1,1,1,1,1,1,1,0},{1,0,0,0,0,0,0,0,0,1,1,0,0,0,0,1,1,1,0,1,1,1,1,0,1},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,1,0,0,0,0,0,1,1,1}};
  int v = (int)vp_choose(7), mi = (int)vp_choose(29); d = src; P("o = "); P(vals[v]); P("; let g = o."); P(meth[mi]); P("; q = 1; let h = mt.get(o)."); P(meth[mi]); P("; q = 2;"); vx = vy = 0; globals(); int st = h_run(S); HV q = h_get(S, "q"); vp_observe(st); vp_observe(q.i); (void)ok;
  if (ok[v][mi]) { VP_CHECK(st == YASL_SUCCESS, "builtin method found"); VP_CHECK(q.i == 2, "and is the metatable's"); } else { if (mi == 28) VP_CHECK(st != YASL_SUCCESS, "no such method"); } h_end(S);
}
static void shadow(void) { int mi = (int)vp_choose(4); static const char *const mm[] = {"copy", "keys", "tostr", "__len"}; int how = (int)vp_choose(3); d = src; P("o = {'"); P(mm[mi]); P("': y}; "); P(how == 0 ? "r = o." : how == 1 ? "r = o['" : "o."); P(mm[mi]); P(how == 1 ? "'];" : how == 2 ? " = x; r = o." : ";"); if (how == 2) { P(mm[mi]); P(";"); } P(" q = len o;"); vx = vp_i64(); vy = vp_i64(); globals(); VP_CHECK(h_run(S) == YASL_SUCCESS, "runs"); h_is_int(S, "r", how == 2 ? vx : vy, "a table's key comes before the builtin methods"); h_is_int(S, "q", 1, "operators do not look at the keys"); h_end(S); }
void vp_main(void) { int k = (int)vp_shard(31); calls = 0; if (k < 19) binop(k); else if (k < 23) unop(k - 19); else switch (k) { case 23: fields(); break; case 24: writes(); break; case 25: methods(); break; case 26: callit(); break; case 27: tostrs(); break; case 28: changes(); break; case 29: builtins(); break; default: shadow(); } }
