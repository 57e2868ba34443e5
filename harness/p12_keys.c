// vp: shards=75 shards2=75 quick=60 thorough=900
// bounds: pairs of keys: strs of 0..2 bytes (thorough 3) (bytes 00 01 20 21 40 41 60 61 c1) in each of 7 x 7 spellings; ints and floats made from 5 values by setting any byte to one of 8 others, both zeros, infinities and subnormals included; every pair of hashable types with related values; every unhashable kind offered in 8 ways
// outside: NaN (equal to nothing, itself included); longer strs
#include "sv.h"
#include "std/yasl-std-collections.h"
static const char *TAIL = "t = {}; t[x] = 1; t[y] = 2; n = len t; a = t[x]; b = t[y]; u = {x: 3}; l = u[y]; s = collections.set(x, y); m = len s; i = s[x] && s[y]; p = collections.set([x])[y]; c = 0; for k <- t { if k === x { c += 1; } elseif t[k] == 2 { c += 10; }; }; w = {}; w[x] = 1; w[y] = undef; k = len w; e = x == y; v = collections.table(y, 4)[x]; z = t->copy()[x]; r = ({x: 1} | {y: 2})[x]; q = 1;";
static void check(YS *S, bool eq, bool strs) {
  VP_CHECK(h_run(S) == 0, "no error"); h_is_int(S, "q", 1, "runs to the end");
  h_is_int(S, "n", eq ? 1 : 2, "number of keys"); h_is_int(S, "a", eq ? 2 : 1, "value of the first key"); h_is_int(S, "b", 2, "value of the second key"); h_is_int(S, "m", eq ? 1 : 2, "number of elements"); h_is_bool(S, "i", true, "elements are found"); h_is_bool(S, "p", eq, "in a set, found iff equal");
  if (eq) { h_is_int(S, "l", 3, "found by an equal key"); h_is_int(S, "v", 4, "found by an equal key"); h_is_int(S, "k", 0, "removed by an equal key"); } else { h_is_undef(S, "l", "not found by a different key"); h_is_undef(S, "v", "not found by a different key"); h_is_int(S, "k", 1, "not removed by a different key"); }
  h_is_int(S, "z", eq ? 2 : 1, "value in a copy"); h_is_int(S, "r", eq ? 2 : 1, "value in a union"); if (strs) h_is_bool(S, "e", eq, "=="); vp_reach(eq ? "same key" : "different keys"); h_end(S);
}
static void decl(YS *S) { static const char *o[] = {"t", "u", "s", "w", "n", "a", "b", "l", "m", "i", "p", "c", "k", "e", "v", "z", "r"}; for (int i = 0; i < LEN(o); i++) h_out(S, o[i]); h_gint(S, "q", 0); VP_CHECK(YASL_decllib_collections(S) == YASL_SUCCESS, "library"); }
void vp_main(void) {
  unsigned sh = vp_shard(75); static char src[1500];
  if (sh < 49) { // strs
    unsigned mx = VP_TIER == 1 ? 3 : 4; SV x, y; unsigned n = vp_choose(mx); char *d = sv_src(src, "x", &x, sh % 7, n, 3); unsigned n2 = vp_choose(2) && n + 1 < mx ? n + 1 : n; int alpha = vp_choose(2) ? 2 : 3; d = sv_src(d, "y", &y, sh / 7, n2, alpha); put(d, TAIL);
    YS *S = h_new(src); sv_glob(S, "x", &x); sv_glob(S, "y", &y); decl(S); bool eq = x.n == y.n && memcmp(x.e, y.e, x.n) == 0; check(S, eq, true); return;
  }
  if (sh < 74) { // numbers: a base value with one byte replaced in each
    unsigned base = (sh - 49) / 5; sh = 49 + (sh - 49) % 5; bool f1 = sh == 50 || sh == 52, f2 = sh == 50 || sh == 51, bx = sh == 53; static const uint64_t ib[] = {0, 5, 0xffffffffffffffffull, 0x8000000000000000ull, 0x0102030405060708ull}; static const double fb[] = {0.0, 1.0, -2.5, 1e300, 5e-324};
    uint64_t k[2]; unsigned p1 = vp_choose(8), p2 = vp_choose(2); p2 = p2 ? p1 : 7 - p1;
    for (int i = 0; i < 2; i++) { if (i ? f2 : f1) k[i] = h_bits(fb[base]); else k[i] = ib[base]; unsigned p = i ? p2 : p1; uint64_t m = (uint64_t)(vp_u8() & (i ? 0x83 : 0x81)); k[i] = (k[i] & ~(0xffull << (8 * p))) | m << (8 * p); }
    put(src, TAIL); YS *S = h_new(src); bool eq; double d0, d1; memcpy(&d0, &k[0], 8); memcpy(&d1, &k[1], 8); if (f1) vp_assume(!h_isnan(d0)); if (f2) vp_assume(!h_isnan(d1));
    if (bx) { bool c = k[0] & 1; h_gbool(S, "x", c); unsigned w = vp_choose(3); if (w == 0) { h_gbool(S, "y", k[1] & 1); eq = (k[0] & 1) == (k[1] & 1); } else { if (w == 1) h_gint(S, "y", (int64_t)k[1]); else h_gstr(S, "y", c ? "true" : "false", c ? 4 : 5); eq = false; } }
    else { if (f1) h_gflt(S, "x", d0); else h_gint(S, "x", (int64_t)k[0]); if (f2) h_gflt(S, "y", d1); else h_gint(S, "y", (int64_t)k[1]);
      uint64_t z = 0x7fffffffffffffffull; eq = f1 != f2 ? false : f1 ? (k[0] == k[1] || ((k[0] & z) == 0 && (k[1] & z) == 0)) : k[0] == k[1]; eq = vp_concrete(eq); }
    decl(S); check(S, eq, !bx && f1 == f2); return;
  }
  // keys that are no keys
  static const char *bad[] = {"[]", "[1, 2]", "{}", "undef", "fn() { return 1; }", "echo_", "collections.set(1)"}, *use[] = {"t[x] = 9;", "t = {.a: 1, x: 9};", "g->add(x);", "collections.set(1, x, 2);", "collections.set([1, x]);", "collections.table(1, 2, x, 3);", "t = {k: v for k, v <- t}; t[x] = 5;", "t = t | {x: 2};"};
  unsigned b = vp_choose(LEN(bad)), u = vp_choose(LEN(use)); if (u == 6) vp_skip(); bool own = vp_choose(2); int64_t v = vp_i64();
  char *d = put(src, "let x = "); d = put(d, bad[b]); d = put(d, "; let g = collections.set(5); let t = {.a: v, 3: 4}; o = t; og = g; "); d = put(d, use[u]); put(d, " q = 1;");
  if (own) { d = put(src, "let g = collections.set(5); let t = {.a: v, 3: 4}; o = t; og = g; let f = fn(x) { "); d = put(d, use[u]); d = put(d, " }; f("); d = put(d, bad[b]); put(d, "); q = 1;"); }
  YS *S = h_new(src); decl(S); h_out(S, "o"); h_out(S, "og"); h_gint(S, "v", v); h_gfn(S, "echo_", h_nop, 0);
  int rc = h_run(S); VP_CHECK(rc == YASL_TYPE_ERROR, "rejected as a key"); h_is_int(S, "q", 0, "stops there");
  YASL_loadglobal(S, "o"); int seen = 0; YASL_pushundef(S); while (YASL_tablenext(S)) { HV e = h_top(S), k; YASL_duptop(S); k = h_top(S); VP_CHECK(e.t == TI, "table unchanged"); if (k.t == TI) { VP_CHECK(k.i == 3 && e.i == 4, "table unchanged"); seen += 10; } else { VP_CHECK(k.t == TS && k.n == 1 && k.s[0] == 'a' && e.i == v, "table unchanged"); seen++; } h_free(k); }
  VP_CHECK(seen == 11, "table unchanged"); YASL_pop(S);
  vp_reach("rejected"); h_end(S);
}
