// Shared helpers for the harnesses: everything goes through the public C API and scripts.
#ifndef H_H
#define H_H
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include "vp.h"
#include "yasl.h"
#include "yasl_aux.h"
typedef struct YASL_State YS;
#include <stdio.h>
static YS *h_newn(const char *src, size_t n) { if (!vp_is_engine() && getenv("VP_SHOW")) { fwrite("--- source:\n", 1, 12, stderr); fwrite(src, 1, n, stderr); fwrite("\n", 1, 1, stderr); }
  YS *S = YASL_newstate_bb(src, n); if (!S) vp_skip(); YASL_setprintout_tostr(S); YASL_setprinterr_tostr(S); return S; }
static YS *h_new(const char *src) { return h_newn(src, strlen(src)); }
static void h_gint(YS *S, const char *n, int64_t v) { YASL_declglobal(S, n); YASL_pushint(S, v); YASL_setglobal(S, n); }
static void h_gflt(YS *S, const char *n, double v) { YASL_declglobal(S, n); YASL_pushfloat(S, v); YASL_setglobal(S, n); }
static void h_gbool(YS *S, const char *n, bool v) { YASL_declglobal(S, n); YASL_pushbool(S, v); YASL_setglobal(S, n); }
static void h_gundef(YS *S, const char *n) { YASL_declglobal(S, n); YASL_pushundef(S); YASL_setglobal(S, n); }
static void h_gstr(YS *S, const char *n, const char *p, size_t l) { YASL_declglobal(S, n); YASL_pushlstr(S, p, l); YASL_setglobal(S, n); }
#define h_out h_gundef
static void h_gfn(YS *S, const char *n, YASL_cfn f, int na) { YASL_declglobal(S, n); YASL_pushcfunction(S, f, na); YASL_setglobal(S, n); }
static int h_rc; // status of the last run
static int h_run(YS *S) { h_rc = YASL_execute(S); if (!vp_is_engine() && getenv("VP_SHOW")) { YASL_loadprinterr(S); char *e = YASL_peekcstr(S); fprintf(stderr, "status %d, errors: %s\n", h_rc, e ? e : ""); free(e); YASL_pop(S); } return h_rc; }

// value of a global
enum { TU, TI, TF, TB, TS, TL, TT, TX };
typedef struct { int t; int64_t i; double f; bool b; char *s; size_t n; } HV;
static HV h_top(YS *S) { // describes the top of the stack and pops it
  HV v; memset(&v, 0, sizeof v);
  if (YASL_isundef(S)) v.t = TU; else if (YASL_isint(S)) { v.t = TI; v.i = YASL_peekint(S); } else if (YASL_isfloat(S)) { v.t = TF; v.f = YASL_peekfloat(S); } else if (YASL_isbool(S)) { v.t = TB; v.b = YASL_peekbool(S); }
  else if (YASL_isstr(S)) { v.t = TS; v.s = YASL_peekcstr(S); YASL_duptop(S); YASL_len(S); v.n = (size_t)YASL_popint(S); }
  else if (YASL_islist(S)) v.t = TL; else if (YASL_istable(S)) v.t = TT; else v.t = TX;
  YASL_pop(S); return v;
}
static HV h_get(YS *S, const char *n) { int rc = YASL_loadglobal(S, n); VP_CHECK(rc == YASL_SUCCESS, "global readable after the run"); return h_top(S); }
static uint64_t h_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static bool h_isnan(double d) { return (h_bits(d) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static bool h_feq(double a, double b) { return (h_isnan(a) & h_isnan(b)) | (h_bits(a) == h_bits(b)); }
static void h_obsf(double d) { uint64_t m = 0 - (uint64_t)h_isnan(d); vp_observe((h_bits(d) & ~m) | (1 & m)); } // no branch on the symbolic value
static void h_obs(HV v) { vp_observe(v.t); if (v.t == TI) vp_observe(v.i); else if (v.t == TF) h_obsf(v.f); else if (v.t == TB) vp_observe(v.b); else if (v.t == TS) for (size_t i = 0; i < v.n; i++) vp_observe((unsigned char)v.s[i]); }
static void h_free(HV v) { if (v.t == TS) free(v.s); }
// end of life: after deleting the state no block may stay allocated
// (a text rejected by the compiler may leak names: finding, see p21_syntaxleak)
static void h_end(YS *S) { YASL_delstate(S); if (h_rc != YASL_SYNTAX_ERROR) VP_CHECK(vp_heap_live() == 0, "everything freed after YASL_delstate"); }
static void h_is_int(YS *S, const char *n, int64_t e, const char *msg) { HV v = h_get(S, n); VP_CHECK(v.t == TI, msg); VP_CHECK(v.i == e, msg); h_obs(v); }
static void h_is_flt(YS *S, const char *n, double e, const char *msg) { HV v = h_get(S, n); VP_CHECK(v.t == TF, msg); VP_CHECK(h_feq(v.f, e), msg); h_obs(v); }
static void h_is_bool(YS *S, const char *n, bool e, const char *msg) { HV v = h_get(S, n); VP_CHECK(v.t == TB, msg); VP_CHECK(v.b == e, msg); h_obs(v); }
static void h_is_undef(YS *S, const char *n, const char *msg) { HV v = h_get(S, n); VP_CHECK(v.t == TU, msg); }
static void h_is_str(YS *S, const char *n, const void *p, size_t len, const char *msg) { HV v = h_get(S, n); VP_CHECK(v.t == TS, msg); VP_CHECK(v.n == len, msg); VP_CHECK(memcmp(v.s, p, len) == 0, msg); h_obs(v); h_free(v); }
// captured print output
static void h_is_out(YS *S, const char *p, size_t len, const char *msg) { YASL_loadprintout(S); HV v = h_top(S); VP_CHECK(v.t == TS && v.n == len, msg); VP_CHECK(memcmp(v.s, p, len) == 0, msg); h_obs(v); h_free(v); }
// a global holding an arbitrary value of the given kind (concrete choice): 0 undef 1 int 2 float 3 bool 4 str of 0..2 bytes 5 list 6 table 7 native function
enum { KU, KI, KF, KB, KS, KL, KT, KC, NKIND };
static int h_nop(YS *S) { YASL_pushundef(S); return 1; }
typedef struct { int k; int64_t i; double f; bool b; char s[4]; size_t n; } Any;
static Any h_any(YS *S, const char *n, int k) {
  Any a; memset(&a, 0, sizeof a); a.k = k;
  switch (k) {
  case KU: h_gundef(S, n); break; case KI: a.i = vp_i64(); h_gint(S, n, a.i); break; case KF: a.f = vp_f64(); h_gflt(S, n, a.f); break; case KB: a.b = vp_u8() & 1; h_gbool(S, n, a.b); break;
  case KS: a.n = vp_choose(3); vp_sym_bytes(a.s, a.n); h_gstr(S, n, a.s, a.n); break;
  case KL: YASL_declglobal(S, n); YASL_pushlist(S); YASL_setglobal(S, n); break; case KT: YASL_declglobal(S, n); YASL_pushtable(S); YASL_setglobal(S, n); break;
  default: h_gfn(S, n, h_nop, 0); }
  return a;
}
static bool h_truthy(Any a) { return a.k == KU ? false : a.k == KB ? a.b : a.k == KS ? a.n > 0 : a.k == KF ? !h_isnan(a.f) : true; }
// the global still holds that very value
static void h_is_any(YS *S, const char *n, Any a, const char *msg) {
  HV v = h_get(S, n); static const int tt[] = {TU, TI, TF, TB, TS, TL, TT, TX}; VP_CHECK(v.t == tt[a.k], msg);
  if (a.k == KI) VP_CHECK(v.i == a.i, msg); else if (a.k == KF) VP_CHECK(h_feq(v.f, a.f), msg); else if (a.k == KB) VP_CHECK(v.b == a.b, msg); else if (a.k == KS) { VP_CHECK(v.n == a.n, msg); VP_CHECK(memcmp(v.s, a.s, a.n) == 0, msg); }
  h_obs(v); h_free(v);
}
// source text builders
static char *put(char *d, const char *s) { while (*s) *d++ = *s++; *d = 0; return d; }
// a parenthesised literal for any int: 63 binary digits, with a minus sign if `neg` (a concrete choice); v must have that sign
static char *h_lit(char *d, int64_t v, bool neg) { uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; d = put(d, neg ? "(-0b" : "(0b"); for (int i = 62; i >= 0; i--) *d++ = '0' | ((u >> i) & 1); *d++ = ')'; *d = 0; return d; }
#define LEN(a) ((int)(sizeof(a) / sizeof((a)[0])))
#endif
