// vp: shards=56 quick=60 thorough=600 shards2=56
// bounds: strs of 0..3 bytes (thorough 4) spelled in 7 ways (host str, literal, slice of either, slice of a slice, concatenation, split piece); every slice bound and index is any int (the indexing operator itself: -6..5 and 7 extreme ints, because it hashes its operand); host spellings use any byte values, literal spellings fixed distinct letters
// outside: longer strs; the memory limit
#include "sv.h"
static int64_t norm(int64_t i, int64_t n) { if (i < 0) i += n; return i < 0 ? 0 : i > n ? n : i; }
static int sgn(int c) { return c < 0 ? -1 : c > 0; }
void vp_main(void) {
  unsigned k = vp_shard(56), var = k % 7, op = k / 7; size_t n = vp_choose(VP_TIER == 1 ? 4 : 5); static char src[700]; SV v;
  char *d = sv_src(src, "s", &v, var, n, op == 5);
  int form = 0, m = 0; char o[6]; SV w;
  switch (op) {
  case 0: form = vp_choose(2); put(d, form ? "r = s->__get(i); q = 1;" : "r = s[i]; q = 1;"); break; // the operator hashes the index first: chosen indices; the method it calls: any
  case 1: put(d, "r = s[i:j]; q = 1;"); break;
  case 2: form = vp_choose(3); put(d, form == 0 ? "r = s[:j]; q = 1;" : form == 1 ? "r = s[i:]; q = 1;" : "r = s[:]; q = 1;"); break;
  case 3: put(d, "r = ''; c = 0; for x <- s { r = r ~ '.' ~ x; c += len x; }; q = 1;"); break;
  case 4: case 5: m = op == 5 ? (int)n : (int)vp_choose(4); if (op == 4) { vp_sym_bytes(o, m); put(d, "r = [s == o, o == s, s != o, s < o, s <= o, s > o, s >= o, o == s, o < s]; c = len s; q = 1;"); }
    else { for (int i = 0; i < m; i++) o[i] = vp_choose(2) ? 'b' : 'a'; put(d, "let t = {}; t[s] = 5; r = [t[o]]; let u = {}; u[o] = 6; r->push(u[s]); t[o] = 7; r->push(len t); for x <- t { r->push(x == s); }; q = 1;"); } break;
  case 6: form = vp_choose(8); m = 1; static const char *f[] = {"r = s ~ 'x';", "r = 'x' ~ s;", "r = s->rep(2);", "r = s->toupper();", "r = ('k' ~ s)->replace(s ~ 'z', 'y');", "r = \"<#{s}>\";", "r = [s, s]->join('-');", "r = ('k' ~ s ~ 'k')->search(s);"}; d = put(d, f[form]); put(d, " q = 1;"); break;
  default: put(d, "r = s[i:][:j]; q = 1;"); }
  YS *S = h_new(src); sv_glob(S, "s", &v); int64_t i = vp_i64(), j = vp_i64(); static const int64_t far[] = {INT64_MIN, INT64_MAX, INT64_MAX - 1, 1ll << 32, -(1ll << 32), 255, -256}; if (op == 0 && !form) { int c = (int)vp_choose(12 + 7); i = c < 12 ? c - 6 : far[c - 12]; } h_gint(S, "i", i); h_gint(S, "j", j); h_gstr(S, "o", o, m); h_gint(S, "c", 0); h_gint(S, "q", 0); h_gundef(S, "r");
  int rc = h_run(S); int64_t N = (int64_t)n;
  if (op == 0) {
    bool in = i >= -N && i < N; VP_CHECK(rc == (in ? 0 : YASL_VALUE_ERROR), "index inside succeeds, outside is a value error");
    if (in) h_is_str(S, "r", v.e + (i < 0 ? i + N : i), 1, "s[i] is the byte at i"); else { h_is_undef(S, "r", "failing index assigns nothing"); h_is_int(S, "q", 0, "stops"); } vp_reach(in ? "inside" : "outside");
  } else {
    VP_CHECK(rc == 0, "no error"); h_is_int(S, "q", 1, "completes");
    if (op == 1 || op == 2 || op == 7) {
      int64_t a = op == 2 && form != 1 ? 0 : norm(i, N), b = (op == 2 && form != 0) ? N : norm(j, N);
      if (op == 7) { int64_t M = N - a; b = a + norm(j, M); }
      if (b < a) b = a; h_is_str(S, "r", v.e + a, (size_t)(b - a), "slice selects the addressed bytes"); vp_reach(b > a ? "slice" : "empty");
    } else if (op == 3) { char x[16]; for (size_t p = 0; p < n; p++) { x[2 * p] = '.'; x[2 * p + 1] = v.e[p]; } h_is_str(S, "r", x, 2 * n, "iteration yields the bytes in order"); h_is_int(S, "c", N, "each element has length 1"); vp_reach("iterated"); }
    else if (op == 4 || op == 5) {
      YASL_loadglobal(S, "r"); bool eq = (size_t)m == n; if (eq) eq = memcmp(v.e, o, n) == 0;
      if (op == 4) { h_is_int(S, "c", N, "length"); int c = sgn(memcmp(v.e, o, n < (size_t)m ? n : (size_t)m)); if (c == 0) c = sgn((int)n - m);
        bool want[] = {eq, eq, !eq, c < 0, c <= 0, c > 0, c >= 0, eq, c > 0};
        for (int p = 0; p < 9; p++) { YASL_listget(S, p); HV x = h_top(S); VP_CHECK(x.t == TB, "comparison gives a bool"); VP_CHECK(x.b == want[p], "comparison follows the bytes"); vp_observe(x.b); } vp_reach(eq ? "equal" : "different"); }
      else { int64_t want[] = {eq ? 5 : -1, eq ? 6 : -1, eq ? 1 : 2};
        for (int p = 0; p < 3; p++) { YASL_listget(S, p); HV x = h_top(S); VP_CHECK(want[p] == -1 ? x.t == TU : x.t == TI && x.i == want[p], "equal strs are one key"); }
        int seen = 0; for (int p = 3; p < 3 + want[2]; p++) { YASL_listget(S, p); HV x = h_top(S); VP_CHECK(x.t == TB, "iterated key"); seen += x.b; } VP_CHECK(seen == 1, "the key iterates as an equal str"); vp_reach(eq ? "same key" : "other key"); }
      YASL_pop(S);
    } else {
      char x[40]; size_t l = 0;
      switch (form) { case 0: memcpy(x, v.e, n); x[n] = 'x'; l = n + 1; break; case 1: x[0] = 'x'; memcpy(x + 1, v.e, n); l = n + 1; break; case 2: memcpy(x, v.e, n); memcpy(x + n, v.e, n); l = 2 * n; break;
      case 3: for (size_t p = 0; p < n; p++) { unsigned char c = v.e[p]; x[p] = c - (((c >= 'a') & (c <= 'z')) ? 32 : 0); } l = n; break; case 4: x[0] = 'k'; memcpy(x + 1, v.e, n); l = n + 1; break;
      case 5: x[0] = '<'; memcpy(x + 1, v.e, n); x[n + 1] = '>'; l = n + 2; break; case 6: memcpy(x, v.e, n); x[n] = '-'; memcpy(x + n + 1, v.e, n); l = 2 * n + 1; break; default: break; }
      if (form == 7) { bool z = true; for (size_t p = 0; p < n; p++) z &= (p == 0 ? v.e[0] == 'k' : v.e[p] == v.e[p - 1]); if (n == 0) z = true; h_is_int(S, "r", z ? 0 : 1, "found where it is"); }
      else if (form == 4) { HV r = h_get(S, "r"); VP_CHECK(r.t == TS, "str"); bool zz = true; (void)zz; VP_CHECK(r.n == l, "no match, no change"); VP_CHECK(memcmp(r.s, x, l) == 0, "no match, no change"); h_free(r); }
      else h_is_str(S, "r", x, l, "operation sees the same bytes"); vp_reach("operation");
    }
  }
  if (op != 5) h_is_str(S, "s", v.e, n, "operand unchanged"); h_end(S);
}
