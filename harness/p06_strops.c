// vp: shards=45 quick=60 thorough=900 shards2=45
// bounds: search, count, replace (with and without limit), split, startswith, endswith, ltrim, rtrim, trim (given text and whitespace); haystack 0..5 bytes (thorough 6), needle 0..3, replacement 0..2; host strs with any bytes, and slices of literals over two letters (haystack 0..3); any limit
#include "sv.h"
enum { SEARCH, COUNT, REPL, REPLN, SPLIT, STARTS, ENDS, LTRIM, RTRIM, TRIM, LTRIM0, RTRIM0, TRIM0, SPLIT0, PRED };
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\v') | (c == '\r'); }
static bool at(const char *h, size_t hn, size_t i, const char *n, size_t nn) { if (i + nn > hn) return false; bool e = true; for (size_t k = 0; k < nn; k++) e &= h[i + k] == n[k]; return e; }
static void is_piece(YS *S, int idx, const char *p, size_t n) { YASL_listget(S, idx); HV v = h_top(S); VP_CHECK(v.t == TS, "pieces are strs"); VP_CHECK(v.n == n, "piece length"); VP_CHECK(memcmp(v.s, p, n) == 0, "piece bytes"); h_obs(v); h_free(v); }
void vp_main(void) {
  unsigned k = vp_shard(45), op = k / 3, sp = k % 3; // sp: 0 host strs, 1 slice of a literal, 2 slice of a slice
  int hi = VP_TIER == 1 ? 6 : 7, ni = 4;
  size_t hn = vp_choose(sp ? 4 : hi), nn = 0, rn = 0; static char src[600]; SV h, n, r; memset(&n, 0, sizeof n); memset(&r, 0, sizeof r);
  unsigned var = sp == 0 ? 0 : sp == 1 ? 3 : 5;
  char *d = sv_src(src, "h", &h, var, hn, sp); bool two = op < LTRIM0, rep = op == REPL || op == REPLN;
  if (two) { nn = vp_choose(ni); d = sv_src(d, "n", &n, var, nn, sp); }
  if (rep) { rn = vp_choose(sp ? 2 : 3); d = sv_src(d, "x", &r, sp == 2 ? 5 : 0, rn, sp == 2); }
  unsigned pr = 0;
  switch (op) { case SEARCH: d = put(d, "r = h->search(n);"); break; case COUNT: d = put(d, "r = h->count(n);"); break; case REPL: d = put(d, "r = h->replace(n, x);"); break; case REPLN: d = put(d, "r = h->replace(n, x, m);"); break;
  case SPLIT: d = put(d, "r = h->split(n);"); break; case STARTS: d = put(d, "r = h->startswith(n);"); break; case ENDS: d = put(d, "r = h->endswith(n);"); break; case LTRIM: d = put(d, "r = h->ltrim(n);"); break; case RTRIM: d = put(d, "r = h->rtrim(n);"); break; case TRIM: d = put(d, "r = h->trim(n);"); break;
  case LTRIM0: d = put(d, "r = h->ltrim();"); break; case RTRIM0: d = put(d, "r = h->rtrim();"); break; case TRIM0: d = put(d, "r = h->trim();"); break; case SPLIT0: d = put(d, "r = h->split();"); break; default: pr = vp_choose(2); d = put(d, pr ? "r = h ~ h == h->rep(2) && h->startswith(h) && h->endswith(h) && h->search(h) == 0;" : "r = h->replace('x', 'x') == h && h->split('x')->join('x') == h;"); }
  put(d, " q = 1;");
  YS *S = h_new(src); sv_glob(S, "h", &h); if (two) sv_glob(S, "n", &n); if (rep) sv_glob(S, "x", &r); int64_t m = op == REPLN ? vp_i64() : INT64_MAX; h_gint(S, "m", m); h_gint(S, "q", 0); h_gundef(S, "r");
  int rc = h_run(S); const char *H = h.e, *N = n.e; char out[40]; size_t o = 0;
  if ((op == COUNT || rep || op == SPLIT) && nn == 0) { VP_CHECK(rc == YASL_VALUE_ERROR, "an empty str cannot be counted, replaced or split by"); h_is_undef(S, "r", "no result"); h_is_int(S, "q", 0, "stops"); vp_reach("empty needle"); goto end; }
  VP_CHECK(rc == 0, "no error"); h_is_int(S, "q", 1, "completes");
  switch (op) {
  case SEARCH: { int f = -1; for (size_t i = 0; i + nn <= hn && f < 0; i++) if (at(H, hn, i, N, nn)) f = (int)i; if (f < 0) h_is_undef(S, "r", "absent: undef"); else h_is_int(S, "r", f, "first position"); vp_reach(f < 0 ? "absent" : "found"); break; }
  case COUNT: { int c = 0; for (size_t i = 0; i + nn <= hn;) if (at(H, hn, i, N, nn)) { c++; i += nn; } else i++; h_is_int(S, "r", c, "non-overlapping occurrences"); vp_reach(c ? "some" : "none"); break; }
  case REPL: case REPLN: { int64_t left = m; for (size_t i = 0; i < hn;) if (left > 0 && at(H, hn, i, N, nn)) { memcpy(out + o, r.e, rn); o += rn; i += nn; left--; } else out[o++] = H[i++]; h_is_str(S, "r", out, o, "occurrences replaced left to right up to the limit"); vp_reach(left == m ? "unchanged" : "replaced"); break; }
  case STARTS: h_is_bool(S, "r", at(H, hn, 0, N, nn), "prefix"); vp_reach("prefix"); break;
  case ENDS: h_is_bool(S, "r", nn <= hn && at(H, hn, hn - (nn <= hn ? nn : 0), N, nn), "suffix"); vp_reach("suffix"); break;
  case LTRIM: case RTRIM: case TRIM: { size_t a = 0, b = hn; if (nn) { if (op != RTRIM) while (a + nn <= b && at(H, b, a, N, nn)) a += nn; if (op != LTRIM) while (b - a >= nn && at(H, b, b - nn, N, nn)) b -= nn; } h_is_str(S, "r", H + a, b - a, "trimmed"); vp_reach(b - a < hn ? "trimmed" : "kept"); break; }
  case LTRIM0: case RTRIM0: case TRIM0: { size_t a = 0, b = hn; if (op != RTRIM0) while (a < b && ws(H[a])) a++; if (op != LTRIM0) while (b > a && ws(H[b - 1])) b--; h_is_str(S, "r", H + a, b - a, "whitespace trimmed"); vp_reach(b - a < hn ? "trimmed" : "kept"); break; }
  case SPLIT: case SPLIT0: {
    YASL_loadglobal(S, "r"); VP_CHECK(YASL_islist(S), "split gives a list"); int c = 0; size_t i = 0, st = 0;
    if (op == SPLIT) { while (i + nn <= hn) if (at(H, hn, i, N, nn)) { is_piece(S, c++, H + st, i - st); i += nn; st = i; } else i++; is_piece(S, c++, H + st, hn - st); }
    else for (;;) { while (i < hn && ws(H[i])) i++; if (i >= hn) break; st = i; while (i < hn && !ws(H[i])) i++; is_piece(S, c++, H + st, i - st); }
    YASL_duptop(S); YASL_len(S); HV l = h_top(S); VP_CHECK(l.t == TI && l.i == c, "exactly these pieces"); YASL_pop(S); vp_reach(c > 1 ? "split" : "whole"); break; }
  default: h_is_bool(S, "r", true, "algebraic laws"); vp_reach("laws"); }
end:
  h_is_str(S, "h", H, hn, "haystack unchanged"); if (two) h_is_str(S, "n", N, nn, "argument unchanged"); h_end(S);
}
