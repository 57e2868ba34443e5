// vp: shards=28 quick=70 thorough=1200 opts="--noite"
// bounds: lists of 0..4 numbers (thorough 5; any ints, any floats but NaN, mixtures; in mixtures of 3 the floats are 9 boundary values) or of 0..3 strs of 0..2 bytes (thorough 4), every sequence of pivot choices with at most 4 pivots drawn (thorough 6); lists of numbers and one element of another kind at any place
// outside: NaN elements (unordered)
#include "h.h"
static bool le(Any a, Any b) { // a <= b
  if (a.k == KI && b.k == KI) return a.i <= b.i;
  double x = a.k == KI ? (double)a.i : a.f, y = b.k == KI ? (double)b.i : b.f; return x <= y;
}
static int scmp(Any a, Any b) { size_t m = a.n < b.n ? a.n : b.n; int c = memcmp(a.s, b.s, m); return c ? c : a.n < b.n ? -1 : a.n > b.n; }
static bool same(Any a, Any b) { if (a.k != b.k) return false; if (a.k == KI) return a.i == b.i; if (a.k == KF) return h_bits(a.f) == h_bits(b.f); if (a.k == KS) return a.n == b.n && memcmp(a.s, b.s, a.n) == 0; return true; }
void vp_main(void) {
  unsigned k = vp_shard(28), kind = k / 7, c = k % 7; // kind 0 ints 1 floats/mixed 2 strs 3 invalid
  int maxn = kind == 0 ? (VP_TIER == 1 ? 4 : 5) : kind == 1 ? (VP_TIER == 1 ? 3 : 4) : kind == 2 ? (VP_TIER == 1 ? 3 : 4) : 3, n, bad = -1;
  if (kind == 0 || kind == 2) { n = (int)c; if (n > maxn) vp_skip(); } else n = kind == 1 ? 2 + (int)(c & 1) : 3; if (kind == 1 && VP_TIER == 1 && n == 3 && c > 3) vp_skip();
  vp_rand_budget(VP_TIER == 1 ? 4 : 6, n ? n : 1); // n pivot choices cover every index of every shorter part
  static Any e[6]; static const char *names[] = {"a0", "a1", "a2", "a3", "a4", "a5"}; static char src[200]; char *d = put(src, "l = ["); for (int i = 0; i < n; i++) { if (i) d = put(d, ", "); d = put(d, names[i]); } put(d, "]; l->sort(); q = 1;");
  YS *S = h_new(src); h_out(S, "l"); h_gint(S, "q", 0);
  if (kind == 3) bad = (int)vp_choose(3);
  for (int i = 0; i < n; i++) {
    int kk = kind == 0 ? KI : kind == 2 ? KS : kind == 1 ? ((c >> 1) == 3 ? KI : (c >> 1) == 0 ? KF : (i == (int)(c >> 1) - 1 ? KF : KI)) : i == bad ? (int[]){KU, KB, KS, KL, KT, KC, KS}[c] : c == 6 ? KI : KF;
    if (kind == 3 && c == 6 && i != bad) kk = KS; if (kind == 3 && c == 6 && i == bad) kk = KI;
    if (kk == KF && kind == 1 && n == 3 && (c >> 1)) { static const double fl[] = {0.0, -0.0, 0.5, -1.5, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 1e300 * 1e300, -1e300 * 1e300}; memset(&e[i], 0, sizeof e[i]); e[i].k = KF; e[i].f = fl[vp_choose(LEN(fl))]; h_gflt(S, names[i], e[i].f); continue; }
    e[i] = h_any(S, names[i], kk); if (kk == KF) vp_assume(!h_isnan(e[i].f)); if (kind == 3 && kk == KS) vp_assume(e[i].n < 2); }
  int rc = h_run(S); bool err = kind == 3;
  VP_CHECK(rc == (err ? YASL_VALUE_ERROR : 0), "numbers or strs sort, anything else is an error"); h_is_int(S, "q", !err, "an error stops");
  Any g[6]; memset(g, 0, sizeof g); YASL_loadglobal(S, "l"); YASL_duptop(S); YASL_len(S); HV len = h_top(S); VP_CHECK(len.t == TI && len.i == n, "length kept");
  for (int i = 0; i < n; i++) { YASL_listget(S, i); HV v = h_top(S); static const int kk[] = {KU, KI, KF, KB, KS, KL, KT, KC}; g[i].k = kk[v.t]; g[i].i = v.i; g[i].f = v.f; if (v.t == TS) { g[i].n = v.n; memcpy(g[i].s, v.s, v.n); h_free(v); } }
  YASL_pop(S);
  for (int i = 0; i + 1 < n && !err; i++) { if (kind == 2) VP_CHECK(scmp(g[i], g[i + 1]) <= 0, "ascending"); else VP_CHECK(le(g[i], g[i + 1]), "ascending"); }
  // permutation: every element occurs as often as before
  if (kind == 0) { for (int i = 0; i < n; i++) { int a = 0, b = 0; for (int j = 0; j < n; j++) { a += e[j].i == e[i].i; b += g[j].i == e[i].i; } VP_CHECK(a == b, "permutation"); } }
  else for (int i = 0; i < n; i++) { int a = 0, b = 0; for (int j = 0; j < n; j++) { a += same(e[j], e[i]); b += same(g[j], e[i]); } VP_CHECK(a == b, "permutation"); }
  vp_reach(err ? "rejected" : "sorted"); h_end(S);
}
