// vp: shards=15 shards2=15 quick=60 thorough=900
// bounds: 100 program fragments that hold values in temporaries, containers, closures, frames, iterators or builtins while they call out, alone and in every pair, as top-level code, in a function, in a closure call inside an argument list and inside a loop; the call that fails is any of the first 24 (or none), with an error or by exhausting the call depth; every pair of 20 operators and builtins with every pair of kinds of operand; running once, twice, or with a second program
// outside: values kept alive only by a reference cycle; failing memory allocation
#include "h.h"
static unsigned hs_; static unsigned ch(unsigned n) { unsigned c = vp_choose(n); hs_ = hs_ * 7 + c * 3 + (hs_ >> 3); return c; }
static void thin(unsigned n) { if (VP_TIER == 1 && hs_ % n) vp_skip(); }
static unsigned char fail; static int calls, how;
static int t_(YS *S) { if (vp_concrete((int)fail == calls++)) { if (how == 0) YASL_throw_err(S, YASL_VALUE_ERROR); if (how == 1) { YASL_pushlit(S, "gone"); YASL_pushlist(S); YASL_print_err(S, "x\n"); YASL_throw_err(S, YASL_ERROR); } YASL_loadglobal(S, "inf"); YASL_functioncall(S, 0); } return 1; }
static int dead; static void destroy(void *p) { free(p); dead++; }
static int u_(YS *S) { YASL_pushuserdata(S, malloc(3), "thing", destroy); return 1; }
static int cb_(YS *S) { YASL_loadglobal(S, "f"); YASL_pushlit(S, "arg"); YASL_pushlist(S); YASL_functioncall(S, 2); return 1; }
static const char *frag[] = {
  "[t('a'), ['b' ~ t('c')], {t('d'): [t(4)]}];", "let x1 = 'p' ~ t('q') ~ t('r') ~ 's';", "{'k' ~ t(1): t('v'), 2: {t(3): t('w')}};", "m(t([1]), t({1: 'x'}), t('z' ~ 1));", "[1, 'a' ~ t(2)]->push(t('el'));", "let l1 = [t('a')]; l1[0] = t('b'); l1->push(l1[0] ~ t('c')); l1->insert(0, t('q')); l1->pop(); l1->clear();", "let d1 = {}; d1['a' ~ t(1)] = t(['x']); d1->remove('a1'); d1.z = t('y'); d1->keys(); d1->values(); d1->copy();",
  "for x <- ['a' ~ t(1), 'b', t('c')] { m(x ~ t('d')); };", "for x <- {'a' ~ t(1): 2} { m(x ~ t('e')); };", "for x <- 'ab' ~ t('c') { m(x ~ t('f')); };", "[x ~ t(1) for x <- ['a', t('b')] if t(true)];", "let ct = {x ~ 'k': t(x) for x <- ['a', 'b'] if t(true)};",
  "let c1 = 'cap'; let g1 = fn(a) { return a ~ t(c1); }; m(g1('q' ~ t(1)), g1(t('w')));", "let mk = fn() { let z = ['n']; return fn() { z->push(t('m')); return z; }; }; let h1 = mk(); h1(); h1();", "const fn w1(a, b) { let loc = a ~ b; t(loc); return loc, t([loc]); }; let r1, let r2 = w1('a', t('b'));", "m(w2('a' ~ t(1), w2(t('b'), ['c'])));",
  "match t(['a', {.k: 'v' ~ t(1)}]) {\n [let q, {.k: const r}] if t(true) { t(q ~ r); }\n * { t(1); }\n};", "match 'x' ~ t(1) {\n 'y' { t(2); }\n let v if t(false) { t(v); }\n str { t('z'); }\n};",
  "m(o1 + t('arg'));", "m(o1 ~ t('arg'));", "m(o1 == t(o1));", "m([o1, t('a'), o1] == [o1, 'a', t(o1)]);", "m({'a': o1} == {'a': t(o1)});", "m(o1->tostr());", "m([1, 'abcdefghij', o1, t('x')]->tostr());", "m({1: 'abcdefghij', 'k': o1, 2: [o1]}->tostr());", "m([[['a' ~ t(1)], o1]]->tostr());", "m([o1, t('b'), o1]->join(', ' ~ t('s')));", "m('a' ~ o1 ~ 'b');", "m(\"a#{o1}b#{t('c')}\");", "echo [o1, t('x')];", "echo 'abc' ~ t('d');", "m(o1.some); m(o1['q' ~ t(1)]);", "o1.other = 'v' ~ t(1); o1['k'] = t(['v']);", "m(o1('a' ~ t(1), [t('b')]));", "m(o1->meth('a' ~ t(1), [2]));", "m(-o1); m(len o1); m(^o1);", "m(o1 < t(o1)); m(o1 >= o1); m(o1 === o1);", "m(o1 ? t('a') : t('b')); m(o1 && t('c')); m(undef ?? t('d'));",
  "collections.set('a' ~ t(1), t('b'), o1->tostr());", "m(collections.set(1, 'a' ~ t(2)) | collections.set(t('z')));", "m(collections.set(t('x')) - t(1));", "m(collections.set('a' ~ t('b'))->tolist()); m(collections.set('q')->tostr() ~ t('w'));", "m(collections.list('a', t('b'))); m(collections.table('k' ~ t(1), ['v'], t('z')));", "m(collections.table('a', 'b' ~ t(1), [t('bad')], 'v'));", "m(collections.set('a', 'b' ~ t(1), [t('bad')]));", "let cs = collections.set('a'); cs->add('b' ~ t(1)); cs->remove('a'); cs->add([t('bad')]); m(cs);",
  "m('a-b-c'->split('-' ~ t(''))); m('abc'->replace('b', t('xyz'), t(1)));", "m('a b'->split()); m('ab'->rep(t(3))); m('  a'->trim(' ' ~ t('')));", "m('abc' ~ t(1))[1:t(2)];", "m(('abc' ~ t(1))[1]); m(['a' ~ t(1)][t(0)]); m([t('a'), 'b'][t(0):t(1)]);", "['a' ~ t(1)][t(7)];", "['b', 'a' ~ t(1)]->sort(); ['b', t(1)]->sort();", "['b', 'a' ~ t(1)]->search(t('b')); ['a', 'a']->count('a' ~ t('')); [t('x')]->reverse(); ['a', 'b' ~ t(1)]->spread();",
  "m(['a' ~ t(1)] + [t('b')] + ['c']);", "m({'a': 'x' ~ t(1)} | {t('b'): ['y']});", "'a' ~ t(1) + 1;", "['a' ~ t(1)] + t(2);", "{['a' ~ t(1)]: t(2)};", "undef('a' ~ t(1), ['b']);", "(t('nofn'))('a', ['b' ~ t(1)]);", "'a'->nomethod('b' ~ t(1), ['c']);", "assert t('a' ~ t(1)) == 'b';", "for x <- 'q' ~ t(1) { for y <- ['r' ~ x, t('s')] { m(y ~ 1 / 0 ~ (1 // t(0))); }; };", "('ab' ~ t(1))->replace('a' ~ t(1), 'b', -2);", "len 'ab' ~ t(1); 5->nomethod(t('x')); (1.5)->tostr();",
  "let ud = u(); let ul = [u(), t('x'), u()]; ul->pop(); ul = t('y');", "m(u(), t(u()), [u(), t('z')]);", "let a3, let b3 = t(['a']), 'b' ~ t(1); a3, b3 = b3, a3;", "l[0], dd.k = 'a' ~ t(1), t(['b']);", "dd.k = t('a'); dd.k ~= t('b'); l[0] = 'c'; l[0] ~= t('d');", "x ~= t('a'); x = t(['b']) + ['c'];", "x ||= 'd' ~ t(1); x &&= t('e'); x ??= t('f');", "fn dd.f2(a, b) { return a ~ t(b); };\ndd->f2('q'); dd.f2('z' ~ t(1), 'w');", "cb(t); x = cb(); f = undef; x = cb();", "let it = 'n'; if t(true) { let in1 = 'a' ~ t(1); it = fn() { in1 ~= t('b'); return in1; }; }; it(); it();", "while t(false) { m('x'); }; for let i = 0; i < 3; i += t(1) { if i == t(1) { continue; }; let s3 = 'i' ~ i; fs->push(fn() { return s3; }); };", "fn() { for x <- ['a' ~ t(1), 'b'] { return x ~ t('c'), [x]; }; }();", "fn() { for x <- {'a': t('q')} { for y <- 'cd' { if t(true) { return fn() { return x ~ y; }; }; }; }; }()();",
  "f(1, t('z'), 'extra' ~ t(3));", "m(1.5 ~ t(true) ~ undef ~ t(-7));", "[t('a') for x <- 5];", "mt.set({}, t({'a': 'b' ~ t(1)})); mt.get([t('x')]); mt.set(1, {t('q'): 2});", "mt.set(t('zz'), {'a': 1});", "[o1, t('x')]->sort();", "l->push(t('x')); l[t('bad')];", "m(t('x')->toint()); 'zz'->tobool(t('a')); [1, 2]->tostr(t('extra'));", "throwing();", "x = [throwing, 'a' ~ t(1)]; x[0]('q', ['w']);", "m(o1->nometh('a' ~ t(1), [t(2)]));", "m(o2->nometh('a' ~ t(1))); m(o2 + t(1));", "m([u(), o1] == [u(), t(o1)]);", "{.a: 'b' ~ t(1), 'c': [t('d')]}.a.b.c;"};
#define NF LEN(frag)
static const char pre[] = "o2 = {.a: 'b' ~ 1}; mt.set(o2, {'__get': fn(a, k) { return fn(b) { return t(k ~ 'r'); }; }}); f = fn(a, b) { let q = [a, b ~ 'x']; return t(q); }; inf = fn() { let pad = 'p' ~ 'q'; return inf(); }; dd = {.i: 'j' ~ 1}; l = ['z' ~ 1]; fs = []; o1 = {.real: 'r' ~ 1}; fn w2(a, b) { t(b); return a ~ 'w', [b]; };\n"
 "mt.set(o1, {'__add': fn(a, b) { return [t('s'), b]; }, '__eq': fn(a, b) { let z = ['y']; return t(true); }, 'tostr': fn(a) { let z = ['w']; return 'o' ~ t('str'); }, '__get': fn(a, k) { return t(['got', k]); }, '__set': fn(a, k, v) { return t(k); }, '__call': fn(a) { return 'c' ~ t(a); }, 'meth': fn(a, b, c) { return t([b, c]); }, '__neg': fn(a) { return t('n'); }, '__len': fn(a) { return t(4); }, '__lt': fn(a, b) { return t(true); }, '__ge': fn(a, b) { return t(false); }, '__bnot': fn(a) { return t(['bn']); }});\n";
static char src[6000], *w; static void P(const char *s) { w = put(w, s); }
static int throwing_(YS *S) { YASL_pushlit(S, "temp"); YASL_pushlist(S); YASL_pushtable(S); YASL_print_err(S, "no\n"); YASL_throw_err(S, YASL_VALUE_ERROR); }
static int m_(YS *S) { (void)S; return 0; }
static YS *state(void) {
  YS *S = h_newn(src, (size_t)(w - src)); static const char *gl[] = {"f", "inf", "dd", "l", "fs", "o1", "x", "pp", "o2"}; for (int i = 0; i < 9; i++) h_gundef(S, gl[i]); YASL_decllib_mt(S); YASL_decllib_collections(S);
  h_gfn(S, "t", t_, 1); h_gfn(S, "m", m_, -1); h_gfn(S, "u", u_, 0); h_gfn(S, "cb", cb_, -1); h_gfn(S, "throwing", throwing_, -1); return S; }
static void go(YS *S) { h_run(S); VP_CHECK(h_rc == 0 || h_rc >= 1, "status"); vp_observe(h_rc); vp_observe(calls); VP_CHECK(h_rc != YASL_SYNTAX_ERROR, "the programs are well-formed"); vp_reach(h_rc ? "failed" : "finished"); }
static void finish(YS *S) {
  int again = ch(3); if (again == 1) { VP_CHECK(1, ""); YASL_resetstate_bb(S, "f = undef; o1 = [1]; x = 'a' ~ 2; dd = l; t(x);\n", strlen("f = undef; o1 = [1]; x = 'a' ~ 2; dd = l; t(x);\n")); fail = 255; go(S); VP_CHECK(h_rc == 0, "the state is usable afterwards"); }
  if (again == 2) { YASL_loadglobal(S, "l"); YASL_loadglobal(S, "o1"); YASL_pushlist(S); YASL_duptop(S); } h_end(S); }
static void body(int k, const char *a, const char *b) {
  switch (k) { case 0: P(a); P(b); P("\n"); break; case 1: P("pp = fn(p) { let u1 = [p, 'l' ~ p]; "); P(a); P(b); P(" };\npp('z');\n"); break; case 2: P("m('tmp' ~ 1, (fn(p) { "); P(a); P(b); P(" return p; })('q' ~ 1), ['never' ~ 1]);\n"); break; default: P("for zz <- ['o' ~ 1, 'p'] { let y0 = [zz]; fs->push(fn() { return y0; }); "); P(a); P(b); P(" };\n"); } }
static void pairs(int k) {
  int a = (int)ch((NF + 11) / 12) * 12 + k, b = (int)ch(NF + 1); if (a >= NF) vp_skip(); int kind = (int)ch(4); if (b < NF) thin(61); if (b == a) vp_skip(); how = (int)ch(3); if (how == 2) thin(3);
  w = src; P(pre); body(kind, frag[a], b < NF ? frag[b] : ""); fail = vp_u8(); vp_assume(fail < 24); YS *S = state(); go(S); finish(S);
}
static void ops(int k) {
  static const char *op[] = {"A + B", "A - B", "A * B", "A / B", "A // B", "A % B", "A ** B", "A ~ B", "A == B", "A < B", "A & B", "A | B", "A << B", "A && B", "A[B]", "A[B:]", "A[:B]", "[A, B]", "{A: B}", "A(B)", "-A ~ len B", "A.b", "A->push(B)", "A->split(B)", "A->join(B)", "A->replace(B, A)", "A->rep(B)", "A->insert(B, A)", "A->remove(B)", "A->search(B)", "A->tostr(B)", "A->foo(B)", "A ?? B", "[z ~ B for z <- A]", "A->count(B)", "A->trim(B)", "A->startswith(B)", "A->keys(B)", "A->copy()", "A->sort()", "A->pop()", "A->clear()", "A->toint()", "A->tofloat()", "mt.set(A, B)", "mt.get(A)", "collections.set(A, B)", "collections.table(A, B)", "collections.list(A, B)", "collections.set(A)->add(B)", "collections.set(A) | B", "A->spread()", "A->values()", "A->tolist()", "A->upper() ~ A->isal()"};
  static const char *v[] = {"undef", "3", "1.5", "true", "('s' ~ 1)", "['e' ~ 1, 'f']", "{'k' ~ 1: ['v' ~ 2]}", "f", "t", "o1", "''", "[]", "u()", "(-2)", "collections.set('m' ~ 1)"};
  int o = (int)ch((LEN(op) + 1) / 2) * 2 + k, a = (int)ch(LEN(v)), b = (int)ch(LEN(v)), c = (int)ch(3); if (o >= LEN(op)) vp_skip(); if (c) thin(7);
  w = src; P(pre); P(c == 0 ? "x = (" : c == 1 ? "m('tmp' ~ 1, ['q'], " : "f('tmp' ~ 1, ["); for (const char *s = op[o]; *s; s++) { if (*s == 'A') P(v[a]); else if (*s == 'B') P(v[b]); else { *w++ = *s; *w = 0; } } P(c == 2 ? "]);\n" : ");\n"); fail = 255; YS *S = state(); go(S); finish(S);
}
static void syntaxleak(void) { // known finding: the names of unfinished constructs
  static const char *const t[] = {"for let abc = ", "for abc <- ", "match x { [abc, "}; w = src; P(t[vp_choose(3)]);
  YS *S = state(); h_run(S); VP_CHECK(h_rc == YASL_SYNTAX_ERROR, "rejected"); YASL_delstate(S); VP_CHECK(vp_heap_live() == 0, "everything freed after a syntax error"); }
void vp_main(void) { unsigned k = vp_shard(15); if (k < 12) pairs((int)k); else if (k < 14) ops((int)k - 12); else syntaxleak(); }
