// vp: shards=22 quick=60 thorough=900
// bounds: nests of 1..3 for loops, each over a list global of 0..3 symbolic ints, a str of 0..3 symbolic bytes, a table of 0..3 keys (int and str keys, one pair colliding in the smallest table), a list literal, the list a looping function returns, a table literal or a comprehension, with break, continue or return at any one element of any level, at top level, in a function called twice from inside a loop, and in a recursive function; comprehensions over 6 kinds of collection with 7 kinds of element and 3 kinds of condition (all outcomes), in 16 contexts, next to locals, and table comprehensions including repeated keys; a list of 40 elements
// outside: containers changed while they are iterated over; comprehensions of more than 900 elements (they need the stack)
#include "h.h"
static YS *S; static char src[2500], *d; static void P(const char *s) { d = put(d, s); } static void N(int v) { if (v >= 10) N(v / 10); *d++ = '0' + v % 10; *d = 0; }
#define ML_ 700
static int64_t lg[ML_], ex[ML_]; static int nl, ne;
static void L(int64_t v) { if (ne < ML_) ex[ne] = v; ne++; }
static int64_t code(YS *T) { if (YASL_isint(T)) return YASL_peekint(T); if (YASL_isstr(T)) { char *c = YASL_peekcstr(T); YASL_duptop(T); YASL_len(T); int64_t n = YASL_popint(T), v = 1000000 * n + (n > 0 ? (unsigned char)c[0] : 0); free(c); return v; } if (YASL_isundef(T)) return -7; return -8; }
static int log_(YS *T) { if (nl < ML_) lg[nl] = code(T); nl++; YASL_pushundef(T); return 1; }
static int64_t l[3], v0, v1; static char s[3]; static int nlist, nstr, ntab; static int64_t tk[3]; static int mask, at; static bool first;
static int keep(YS *T) { bool b = (mask >> (at % 4)) & 1; at++; YASL_pushbool(T, b); return 1; }
enum { CL, CS, CT, CLL, CF, CTL, CC, NCOLL };
static const char *const cs[] = {"l", "s", "t", "[v0, v1, v0]", "mk(3)", "{7: v0}", "[z + 1 for z <- l]"};
static int coll(int c, int64_t *e) { // the elements, as logged
  int n = 0; switch (c) { case CL: for (int i = 0; i < nlist; i++) e[n++] = l[i]; break; case CS: for (int i = 0; i < nstr; i++) e[n++] = 1000000 + (unsigned char)s[i]; break; case CT: for (int i = 0; i < ntab; i++) e[n++] = tk[i]; break; case CLL: e[0] = e[2] = v0; e[1] = v1; n = 3; break;
  case CF: for (int i = 0; i < 3; i++) e[n++] = 2 * (i + 1); break; case CTL: e[n++] = 7; break; default: for (int i = 0; i < nlist; i++) e[n++] = (int64_t)((uint64_t)l[i] + 1); } return n; }
static void setup(void) { // the globals; the table's order is asked from the host side
  S = h_new(src); h_gint(S, "v0", v0); h_gint(S, "v1", v1); h_gint(S, "q", 0); h_out(S, "r"); h_out(S, "mk"); h_out(S, "f"); h_out(S, "fl"); h_out(S, "rec"); h_gstr(S, "s", s, nstr); h_gfn(S, "m", log_, 1); h_gfn(S, "keep", keep, 1);
  YASL_declglobal(S, "l"); YASL_pushlist(S); for (int i = 0; i < nlist; i++) { YASL_pushint(S, l[i]); YASL_listpush(S); } YASL_setglobal(S, "l");
  YASL_declglobal(S, "t"); YASL_pushtable(S); for (int i = 0; i < ntab; i++) { if (i == 1) YASL_pushlit(S, "k"); else YASL_pushint(S, i == 0 ? 5 : 5 + 1891); YASL_pushint(S, 50 + i); YASL_tableset(S); }
  int c = 0; bool seen[3] = {0}; YASL_pushundef(S); while (YASL_tablenext(S)) { YASL_pop(S); int64_t k = code(S); VP_CHECK(c < 3, "at most as many keys as were set"); tk[c++] = k; int w = k == 5 ? 0 : k == 5 + 1891 ? 2 : 1; VP_CHECK(!seen[w] && (w != 1 || k == 1000000 + 'k'), "each key once"); seen[w] = true; } VP_CHECK(c == ntab, "every key"); YASL_setglobal(S, "t"); }
static void finish(void) { VP_CHECK(h_run(S) == YASL_SUCCESS, "runs without error"); h_is_int(S, "q", 1, "runs to the end"); VP_CHECK(nl == ne, "the bodies run as often as there are elements"); bool same = true; for (int i = 0; i < ne && i < nl; i++) { same &= lg[i] == ex[i]; vp_observe(lg[i]); } VP_CHECK(same, "the elements come in order, each once"); }
static void sizes(int c) { nlist = c == CL || c == CC ? (int)vp_choose(4) : 2; nstr = c == CS ? (int)vp_choose(4) : 2; ntab = c == CT ? (int)vp_choose(4) : 2; for (int i = 0; i < 3; i++) { l[i] = vp_i64(); } v0 = vp_i64(); v1 = vp_i64(); vp_sym_bytes(s, 3); }
// --- nests of loops
static int cc[3], lv, act, actl, acti, ctx; static const char *const vn[] = {"a", "b", "c"}, *const kn[] = {"i", "j", "k"};
static void emit(int k) { // loop of level k
  P("let "); P(kn[k]); P(" = 0; for "); P(vn[k]); P(" <- "); P(cs[cc[k]]); P(" { ");
  if (act && actl == k) { P("if "); P(kn[k]); P(" == "); N(acti); P(act == 1 ? " { break; }; " : act == 2 ? " { i = i + 0; j9 = 4; continue; }; " : " { let h = 3; return 77; }; "); if (act == 2) { char *x = strstr(src, "i = i + 0; j9 = 4; "); memmove(x, x + 19, strlen(x + 19) + 1); d -= 19; } }
  P(kn[k]); P(" += 1; m("); P(vn[k]); P("); "); if (k + 1 < lv) emit(k + 1); P("let w"); N(k); P(" = "); P(vn[k]); P("; m(w"); N(k); P("); "); P("}; m("); N(90 + k); P("); ");
}
static int run(int k) { // 1: returned
  int64_t e[4]; int n = coll(cc[k], e), i = 0; for (int j = 0; j < n; j++) { if (act && actl == k && i == acti) { if (act == 1) break; if (act == 2) continue; return 1; } i++; L(e[j]); if (k + 1 < lv && run(k + 1)) return 1; L(e[j]); } L(90 + k); return 0; }
static void loops(int c0, int cx) {
  ctx = cx; cc[0] = c0; lv = 1 + (int)vp_choose(VP_TIER > 1 ? 3 : 3); for (int k = 1; k < lv; k++) cc[k] = VP_TIER > 1 || lv < 3 ? (int)vp_choose(NCOLL) : k == 1 ? (int)vp_choose(NCOLL) : (cc[1] * 3 + c0) % NCOLL;
  act = (int)vp_choose(cx ? 4 : 3); actl = act ? (int)vp_choose(lv) : 0; acti = act ? (int)vp_choose(lv == 3 ? 2 : 3) : 0; sizes(c0);
  d = src; P("mk = fn(n) { let o = []; for let i = 1; i <= n; i += 1 { o->push(i); }; let p = []; for x <- o { for y <- 'ab' { if y == 'b' { p->push(2 * x); break; }; }; }; return p; }; let o1 = 31; ");
  if (cx) P("let g = fn(p1) { let p2 = 8; "); emit(0); if (cx) P("m(p1); m(p2); return 78; }; for z <- [1, 2] { let u = [z, g(5)]; m(u[1]); m(z); }; "); P("m(o1); q = 1;");
  setup(); if (!cx) run(0); else for (int z = 1; z <= 2; z++) { int r = run(0); if (!r) { L(5); L(8); } L(r ? 77 : 78); L(z); } L(31); finish(); h_end(S);
}
static void recursion(void) { // a function that iterates and calls itself from the body; loops left by return
  int depth = 1 + (int)vp_choose(3), c = (int)vp_choose(NCOLL), stop = (int)vp_choose(3); cc[0] = c; sizes(c); d = src; P("mk = fn(n) { return [2, 4, 6]; }; rec = fn(n) { let here = n; for x <- "); P(cs[c]); P(" { if n > 0 { m(rec(n - 1)); }; m(x); m(here); "); if (stop) P(stop == 1 ? "return here; " : "if n == 0 { return 9; }; "); P("}; return 60 + here; }; m(rec("); N(depth); P(")); rec = undef; q = 1;"); setup();
  // reference: an explicit recursion
  struct { int n, i; } f[5]; int sp = 0; int64_t e[4]; int n = coll(c, e), ret = -1; f[0].n = depth; f[0].i = 0; bool resumed = false;
  while (sp >= 0) { int lev = f[sp].n; if (!resumed) { if (f[sp].i >= n) { ret = 60 + lev; sp--; resumed = true; continue; } if (lev > 0) { f[sp + 1].n = lev - 1; f[sp + 1].i = 0; sp++; continue; } } else L(ret); resumed = false;
    L(e[f[sp].i]); L(lev); if (stop == 1) { ret = lev; sp--; resumed = true; continue; } if (stop == 2 && lev == 0) { ret = 9; sp--; resumed = true; continue; } f[sp].i++; }
  L(ret); finish(); h_end(S);
}
static void longlist(void) { int n = 30 + 10 * (int)vp_choose(2); int kind = (int)vp_choose(3); d = src; nlist = nstr = ntab = 0; v0 = vp_i64(); P(kind == 0 ? "for x <- [" : kind == 1 ? "r = [x * 2 for x <- [" : "for x <- [y for y <- ["); for (int i = 0; i < n; i++) { if (i) P(", "); P("v0 + "); N(i); } P(kind == 0 ? "] { m(x); }; " : kind == 1 ? "]]; for x <- r { m(x); }; " : "]] { m(x); };"); P("q = 1;"); setup(); for (int i = 0; i < n; i++) L((int64_t)(((uint64_t)v0 + i) * (kind == 1 ? 2 : 1))); finish(); h_end(S); }
// --- comprehensions
static const char *const ee[] = {"x", "f(x)", "[x, 5][0]", "fl(x)", "{'p': x}.p", "keep(1) && x || x", "(fn(y) { return y; })(x)"};
static void comp(int cx) {
  int c = (int)vp_choose(6), e = (int)vp_choose(7), cond = (int)vp_choose(3); sizes(c); mask = cond || e == 5 ? (int)vp_choose(8) : 0; at = 0; char comp_[200], *w = comp_, *o;
  o = d; d = w; P("["); P(ee[e]); P(" for x <- "); P(cs[c]); if (cond) P(cond == 1 ? " if keep(x)" : " if !keep(x) == false"); P("]"); d = o;
  d = src; P("mk = fn(n) { let o = []; for let i = 1; i <= n; i += 1 { o->push(2 * i); }; return o; }; f = fn(x) { for z <- [1, 2] { if z == 2 { return x; }; }; return 4; }; fl = fn(x) { let o = [y for y <- [x]]; return o[0]; }; let o1 = 41; const o2 = 42; ");
  switch (cx) {
  case 0: P("let c = "); P(comp_); P("; let b = 6; r = c; m(b); "); break; case 1: P("r = "); P(comp_); P("; "); break; case 2: P("let g = fn(p) { let u = 3; return "); P(comp_); P("; }; r = g(1); "); break;
  case 3: P("r = []; for y <- "); P(comp_); P(" { r->push(y); }; "); break; case 4: P("r = "); P(comp_); P(" + [v0]; "); break; case 5: P("r = []; m(len "); P(comp_); P("); "); d = put(strstr(src, "m(len "), "r = len "); P(comp_); P("; r = [r]; "); break;
  case 6: P("let a = 5; let c = "); P(comp_); P("; let b = 6; m(a); m(b); r = c; "); break; case 7: P("for z <- 'uv' { let c = "); P(comp_); P("; m(z); r = c; }; "); break; case 8: P("r = [y for y <- "); P(comp_); P("]; "); break;
  case 9: P("r = v0 == v0 ? "); P(comp_); P(" : 3; "); break; case 10: P("match "); P(comp_); P(" { list { r = 1; } \n * { r = 2; }\n}; r = "); P(comp_); P("; "); break; case 11: P("r = undef ?? "); P(comp_); P("; "); break;
  case 12: P("let g = fn() { let n1 = 1; let c = "); P(comp_); P("; let n2 = 2; return [c, n1, n2]; }; let y9 = g(); r = y9[0]; m(y9[1]); m(y9[2]); "); break; case 13: P("if "); P(comp_); P(" { r = "); P(comp_); P("; }; "); break;
  case 14: P("let x = 13; r = "); P(comp_); P("; m(x); "); break; default: P("while true { let c = "); P(comp_); P("; r = c; if o1 == 41 { break; }; }; "); }
  P("m(o1); m(o2); q = 1;"); setup();
  int64_t el[4], out[8]; int n = coll(c, el), k = 0, times = cx == 7 || cx == 10 || cx == 13 ? 2 : 1; at = 0;
  for (int t = 0; t < times; t++) { k = 0; for (int i = 0; i < n; i++) { bool in = true; if (cond) { in = (mask >> (at % 4)) & 1; at++; } if (in) { if (e == 5) at++; out[k++] = el[i]; } } if (cx == 7) L(1000000 + (t ? 'v' : 'u')); }
  if (cx == 4) out[k++] = v0; if (cx == 5) { out[0] = k; k = 1; } if (cx == 0) L(6); if (cx == 6) { L(5); L(6); } if (cx == 12) { L(1); L(2); } if (cx == 14) L(13); L(41); L(42);
  int want = at; at = 0; finish(); VP_CHECK(at == want, "conditions and elements are evaluated once each"); YASL_loadglobal(S, "r"); VP_CHECK(YASL_islist(S), "a list"); YASL_duptop(S); YASL_len(S); VP_CHECK(YASL_popint(S) == k, "as many elements as the loop would collect"); for (int i = 0; i < k; i++) { YASL_listget(S, i); VP_CHECK(code(S) == out[i], "the same elements in order"); YASL_pop(S); } YASL_pop(S); h_end(S);
}
static void tablecomp(void) { // repeated keys: the last one wins
  int k[4], n = (int)vp_choose(4) + 1, form = (int)vp_choose(4), cond = (int)vp_choose(2); nlist = nstr = ntab = 0; for (int i = 0; i < 3; i++) l[i] = vp_i64(); v0 = vp_i64(); mask = cond ? (int)vp_choose(16) : 15; at = 0; static const int kv[] = {5, 9, 5 + 1891}; for (int i = 0; i < n; i++) k[i] = kv[vp_choose(3)];
  d = src; P("let o1 = 41; let n = 0; let nx = fn() { n += 1; return v0 + n; }; "); const char *cd = cond ? " if keep(x)" : "";
  if (form == 1) P("let g = fn() { return "); else if (form == 2) P("let c = "); else P("r = "); P("{x: nx() for x <- ["); for (int i = 0; i < n; i++) { if (i) P(", "); N(k[i]); } P("]"); P(cd); P("}"); P(form == 1 ? "; }; r = g(); " : form == 2 ? "; let b = 3; m(b); r = c; " : form == 3 ? " | {77: o1}; " : "; "); P("m(o1); q = 1;"); setup(); if (form == 2) L(3); L(41); at = 0; finish();
  int64_t key[5], val[5], cnt = 0; int nn = 0; for (int i = 0; i < n; i++) { if (cond && !((mask >> i) & 1)) continue; cnt++; int j = 0; while (j < nn && key[j] != k[i]) j++; key[j] = k[i]; val[j] = (int64_t)((uint64_t)v0 + cnt); if (j == nn) nn++; } if (form == 3) { key[nn] = 77; val[nn++] = 41; }
  YASL_loadglobal(S, "r"); VP_CHECK(YASL_istable(S), "a table"); int c = 0; YASL_pushundef(S); while (YASL_tablenext(S)) { int64_t v = YASL_popint(S), kk = YASL_peekint(S); int j = 0; while (j < nn && key[j] != kk) j++; VP_CHECK(j < nn, "a key of the loop"); VP_CHECK(v == val[j], "the last value given to the key"); vp_observe(v); c++; } VP_CHECK(c == nn, "all keys"); YASL_pop(S); h_end(S);
}
static void temporaries(void) { // known finding: with a value under evaluation below it, a comprehension uses the wrong slot
  static const char *const t[] = {"r = 1 + len [x * 2 for x <- [v0, v1]];"}; d = src; P(t[0]); P(" q = 1;"); nlist = nstr = ntab = 0; v0 = vp_i64(); v1 = vp_i64(); setup(); h_run(S); HV v = h_get(S, "r"); VP_CHECK(h_rc == YASL_SUCCESS && v.t == TI && v.i == 3, "a comprehension inside a larger expression"); h_end(S);
}
void vp_main(void) {
  int k = (int)vp_shard(22); nl = ne = 0; first = true;
  if (k < 7) loops(k, (int)vp_choose(2)); else if (k < 15) comp(k - 7); else if (k < 19) { if (k == 15) recursion(); else if (k == 16) longlist(); else if (k == 17) tablecomp(); else comp(8 + (int)vp_choose(4)); } else if (k == 19) comp(12 + (int)vp_choose(2)); else if (k == 20) comp(14 + (int)vp_choose(2)); else temporaries();
  vp_reach("iterated");
}
