// vp: shards=26 shards2=26 quick=60 thorough=900
// bounds: match statements of up to 3 arms over int, float, str, bool, undef literals, type names, let/const bindings, lists and tables (exact and variadic), alternatives and wildcards, nested 3 deep, with and without guards, with and without 130 other constants, at top level, in functions, loops and nested matches; matched values: every int, float and bool, strs of up to 1 byte, lists and tables of up to 3 such elements nested twice
// outside: patterns of more than 3 elements; callable values; the two listed findings (a failing guard of an arm with bindings, a match without a taken arm)
#include "h.h"
enum { VI, VF, VB, VS, VU, VL, VT };
typedef struct V { int k; int64_t i; double f; bool b; char s[2]; int n; struct V *e[3]; int key[3]; } V;
enum { PLIT, PTYPE, PLET, PCONST, PANY, PLS, PVLS, PTB, PVTB, PALT };
typedef struct Q { int k; int lit; int n; struct Q *e[3]; int key[3]; char name[3]; } Q;
static unsigned hs; static unsigned ch(unsigned n) { unsigned c = vp_choose(n); hs = hs * 7 + c + (hs >> 3); return c; }
static V vs[40]; static int nv; static Q qs[60]; static int nq; static int nname;
static char src[8000], *w; static void P(const char *s) { w = put(w, s); }
// keys 0: 1, 1: .a, 2: true
static const char *keytext[] = {"1", ".a", "true"};
static const char *lits[] = {"0", "-3", "0x7fffffffffffffff", "2.5", "-1.0", "'a'", "\"\"", ".k", "true", "false", "undef"};
static const char *types[] = {"int", "float", "str", "bool", "list", "table"};
static V *leaf(int k) { V *v = &vs[nv++]; memset(v, 0, sizeof *v); v->k = k; switch (k) { case VI: v->i = vp_i64(); break; case VF: v->f = vp_f64(); break; case VB: v->b = vp_u8() & 1; break; case VS: v->n = 1; vp_sym_bytes(v->s, 1); break; } return v; }
static V *anyleaf(void) { unsigned c = ch(6); if (c == 5) { V *v = leaf(VU); v->k = VS; v->n = 0; return v; } return leaf(c); }
static V *coll(int k, int n) { V *v = &vs[nv++]; memset(v, 0, sizeof *v); v->k = k; v->n = n; for (int i = 0; i < n; i++) v->key[i] = i; return v; }
// giving a key the value undef removes it
static void norm(V *v) { int n = 0; for (int i = 0; i < v->n && v->k >= VL; i++) { norm(v->e[i]); if (v->k == VL || v->e[i]->k != VU) { v->key[n] = v->key[i]; v->e[n++] = v->e[i]; } } if (v->k >= VL) v->n = n; }
static void pushv(YS *S, V *v) { switch (v->k) { case VI: YASL_pushint(S, v->i); break; case VF: YASL_pushfloat(S, v->f); break; case VB: YASL_pushbool(S, v->b); break; case VS: YASL_pushlstr(S, v->s, v->n); break; case VU: YASL_pushundef(S); break;
  case VL: YASL_pushlist(S); for (int i = 0; i < v->n; i++) { pushv(S, v->e[i]); YASL_listpush(S); } break;
  default: YASL_pushtable(S); for (int i = 0; i < v->n; i++) { if (v->key[i] == 0) YASL_pushint(S, 1); else if (v->key[i] == 1) YASL_pushlstr(S, "a", 1); else YASL_pushbool(S, true); pushv(S, v->e[i]); YASL_tableset(S); } } }
// a value as a sequence of ints
typedef struct { int64_t v[60]; int n; } Ser; static Ser got, exps;
static void sv(Ser *s, V *v) { s->v[s->n++] = 1000 + v->k; switch (v->k) { case VI: s->v[s->n++] = v->i; break; case VF: { uint64_t m = 0 - (uint64_t)h_isnan(v->f); s->v[s->n++] = (int64_t)((h_bits(v->f) & ~m) | (1 & m)); break; } case VB: s->v[s->n++] = v->b; break; case VS: s->v[s->n++] = v->n; if (v->n) s->v[s->n++] = (unsigned char)v->s[0]; break; case VL: case VT: s->v[s->n++] = v->n; break; } }
static int lg(YS *S) { V v; memset(&v, 0, sizeof v); v.k = VU; if (YASL_isint(S)) { v.k = VI; v.i = YASL_peekint(S); } else if (YASL_isfloat(S)) { v.k = VF; v.f = YASL_peekfloat(S); } else if (YASL_isbool(S)) { v.k = VB; v.b = YASL_peekbool(S); }
  else { bool st = YASL_isstr(S), li = YASL_islist(S), ta = YASL_istable(S); if (st | li | ta) { v.k = st ? VS : li ? VL : VT; YASL_duptop(S); YASL_len(S); v.n = (int)YASL_popint(S); if (st && v.n) { char *c = YASL_peekcstr(S); v.s[0] = c[0]; free(c); } } }
  VP_CHECK(got.n < 50, "terminates"); sv(&got, &v); YASL_pushundef(S); return 1; }
static Q *pat(int k) { Q *q = &qs[nq++]; memset(q, 0, sizeof *q); q->k = k; if (k == PLET || k == PCONST) { q->name[0] = 'x'; q->name[1] = '0' + nname++; } return q; }
static Q *plit(int i) { Q *q = pat(PLIT); q->lit = i; return q; }
static Q *p2_(int k, Q *a, Q *b) { Q *q = pat(k); if (a) q->e[q->n++] = a; if (b) q->e[q->n++] = b; q->key[1] = 1; q->key[2] = 2; return q; }
#define p2(k_, a_, b_) ({ int kk_ = (k_); Q *aa_ = (a_); Q *bb_ = (b_); p2_(kk_, aa_, bb_); })
static Q *samename(Q *a, Q *b) { strcpy(b->name, a->name); nname--; return b; }
static int NL = 11;
static Q *pleaf(int lo) { // any small pattern
  unsigned c = ch(lo ? 5 : 13); if (lo) { switch (c) { case 0: return plit(0); case 1: return plit(5); case 2: { Q *q = pat(PTYPE); q->lit = 1; return q; } case 3: return pat(PLET); default: return p2(PALT, plit(8), p2(PVLS, plit(10), NULL)); } }
  if (c < 4) { static const int l[] = {0, 2, 4, 3}; return plit(l[c]); } if (c < 6) return plit(c == 4 ? 5 : 6); if (c == 6) return plit(9); if (c == 7) return plit(10);
  if (c == 8) { unsigned t = ch(6); Q *q = pat(PTYPE); q->lit = (int)t; return q; } if (c == 9) return pat(PLET); if (c == 10) return pat(PCONST); if (c == 11) return pat(PANY); return p2(PALT, plit(1), p2(PALT, p2(PLS, plit(0), p2(PVTB, plit(10), NULL)), plit(7)));
}
static void show(Q *q) { switch (q->k) { case PLIT: P(lits[q->lit]); break; case PTYPE: P(types[q->lit]); break; case PLET: P("let "); P(q->name); break; case PCONST: P("const "); P(q->name); break; case PANY: P("*"); break;
  case PLS: case PVLS: P("["); for (int i = 0; i < q->n; i++) { if (i) P(", "); show(q->e[i]); } if (q->k == PVLS) P(q->n ? ", ..." : "..."); P("]"); break;
  case PTB: case PVTB: P("{"); for (int i = 0; i < q->n; i++) { if (i) P(", "); P(keytext[q->key[i]]); P(": "); show(q->e[i]); } if (q->k == PVTB) P(q->n ? ", ..." : "..."); P("}"); break;
  default: P("("); show(q->e[0]); P(" | "); show(q->e[1]); P(")"); } }
static V *bound[10]; static V undefv = {VU};
static bool mlit(int l, V *v) { double d = v->f; int64_t i = v->i; switch (l) {
  case 0: return v->k == VI ? i == 0 : v->k == VF ? d == 0 : false; case 1: return v->k == VI ? i == -3 : v->k == VF ? d == -3 : false; case 2: return v->k == VI ? i == INT64_MAX : v->k == VF ? d == (double)INT64_MAX : false;
  case 3: return v->k == VF && d == 2.5; case 4: return v->k == VF ? d == -1.0 : v->k == VI ? i == -1 : false; case 5: return v->k == VS && v->n == 1 && v->s[0] == 'a'; case 6: return v->k == VS && v->n == 0; case 7: return v->k == VS && v->n == 1 && v->s[0] == 'k';
  case 8: return v->k == VB && v->b; case 9: return v->k == VB && !v->b; default: return v->k == VU; } }
static bool matches(Q *q, V *v) { switch (q->k) { case PLIT: return mlit(q->lit, v); case PTYPE: { static const int t[] = {VI, VF, VS, VB, VL, VT}; return v->k == t[q->lit]; } case PLET: case PCONST: bound[q->name[1] - '0'] = v; return true; case PANY: return true;
  case PLS: case PVLS: if (v->k != VL || (q->k == PLS ? v->n != q->n : v->n < q->n)) return false; for (int i = 0; i < q->n; i++) if (!matches(q->e[i], v->e[i])) return false; return true;
  case PTB: case PVTB: if (v->k != VT || (q->k == PTB && v->n != q->n)) return false; for (int i = 0; i < q->n; i++) { V *x = NULL; for (int j = 0; j < v->n; j++) if (v->key[j] == q->key[i]) x = v->e[j]; if (!x || !matches(q->e[i], x)) return false; } return true;
  default: return matches(q->e[0], v) || matches(q->e[1], v); } }
static int names(Q *q) { int n = 0; if (q->k == PLET || q->k == PCONST) return 1 << (q->name[1] - '0'); for (int i = 0; i < q->n; i++) n |= names(q->e[i]); return n; }
static Q *arm[4]; static int guard[4]; static int na; static bool gv[4];
static void showmatch(const char *e) { P("match "); P(e); P(" {\n"); for (int a = 0; a < na; a++) { show(arm[a]); if (guard[a]) { P(" if l2("); char t[2] = {(char)('0' + a), 0}; P(t); P(") && g"); P(t); } P(" { let z = "); char t[2] = {(char)('0' + a), 0}; P(t); P("; l(z); "); for (int i = 0; i < 10; i++) if (names(arm[a]) >> i & 1) { P("l(x"); char u[2] = {(char)('0' + i), 0}; P(u); P("); "); } P("}\n"); } P("* { l(9); }\n}; "); }
static Q *lastbind(void) { return pat(ch(2) ? PLET : PCONST); }
static void logi(int64_t i) { exps.v[exps.n++] = 1000 + VI; exps.v[exps.n++] = i; }
static bool stop; // a guard failed in an arm with bindings (finding)
static void expmatch(V *v) { for (int a = 0; a < na; a++) { memset(bound, 0, sizeof bound); if (!matches(arm[a], v)) continue; if (guard[a]) { logi(50 + a); if (!gv[a]) { if (names(arm[a])) { stop = true; return; } continue; } } logi(a); for (int i = 0; i < 10; i++) if (names(arm[a]) >> i & 1) sv(&exps, bound[i] ? bound[i] : &undefv); return; } logi(9); }
static int l2(YS *S) { V v; memset(&v, 0, sizeof v); v.k = VI; v.i = 50 + YASL_peekint(S); VP_CHECK(got.n < 50, "terminates"); sv(&got, &v); YASL_pushbool(S, true); return 1; }
static V *listof(int n) { V *v = coll(VL, n); for (int i = 0; i < n; i++) v->e[i] = anyleaf(); return v; }
static V *tableof(unsigned mask) { V *v = coll(VT, 0); for (int i = 0; i < 3; i++) if (mask >> i & 1) { v->key[v->n] = i; v->e[v->n++] = anyleaf(); } return v; }
static void finding(int k) { // the two listed findings
  int64_t a = vp_i64(), b = vp_i64(); V *v = coll(VL, 2); v->e[0] = leaf(VI); v->e[1] = leaf(VI); bool g = vp_u8() & 1; bool one = k && (vp_u8() & 1);
  YS *S = h_new(k ? "const f = fn(x, y) { match x {\n[let a, let b] if g0 { l(a); l(b); }\n1 { l(1); }\n}; let e0 = 42; l(y); l(e0); return y; }; l(f(v, 5)); let z = 6; l(z); q = 1;"
                  : "const f = fn(x, y) { match x {\n[let a, let b] if g0 { l(a); l(b); }\n[let a, let b] { l(b); l(a); }\n* { l(9); }\n}; let e0 = 42; l(y); l(e0); return y; }; l(f(v, 5)); q = 1;");
  (void)a; (void)b; h_gfn(S, "l", lg, 1); h_gint(S, "q", 0); YASL_declglobal(S, "v"); if (one) YASL_pushint(S, 1); else pushv(S, v); YASL_setglobal(S, "v"); h_gbool(S, "g0", g); int rc = h_run(S);
  if (one) logi(1); else if (g) { sv(&exps, v->e[0]); sv(&exps, v->e[1]); } else if (!k) { sv(&exps, v->e[1]); sv(&exps, v->e[0]); } logi(5); logi(42); logi(5); if (k) logi(6);
  bool ok = rc == 0 && got.n == exps.n; for (int i = 0; i < exps.n && i < got.n; i++) ok &= got.v[i] == exps.v[i];
  if (k) VP_CHECK(ok, "a match without a taken arm changes nothing else"); else VP_CHECK(ok, "a failing guard leaves the value to the next arm"); vp_reach("taken"); h_end(S);
}
void vp_main(void) {
  unsigned sh = vp_shard(26); if (sh >= 24) { finding(sh - 24); return; } int T = sh % 12; int ctx = 0; bool many = sh >= 12; V *v, *v2 = NULL;
  switch (T) {
  case 0: arm[na++] = pleaf(0); arm[na++] = pleaf(0); v = anyleaf(); break;
  case 1: arm[na++] = p2(ch(2) ? PLS : PVLS, pleaf(0), pleaf(1)); arm[na++] = p2(PLS, pleaf(1), NULL); { unsigned n = ch(4); v = n == 3 ? anyleaf() : coll(VL, n); if (n < 3) for (unsigned i = 0; i < n; i++) v->e[i] = i ? leaf(ch(2) ? VI : VS) : anyleaf(); } break;
  case 2: { arm[na++] = p2(ch(2) ? PTB : PVTB, pleaf(0), pleaf(1)); Q *q = p2(ch(2) ? PTB : PVTB, pleaf(1), NULL); q->key[0] = ch(3); arm[na++] = q; unsigned m = ch(9); v = m == 8 ? anyleaf() : coll(VT, 0); if (m < 8) for (int i = 0; i < 3; i++) if (m >> i & 1) { v->key[v->n] = i; v->e[v->n++] = i ? leaf(i == 1 ? VI : VU) : anyleaf(); } break; }
  case 3: { Q *o = pleaf(1); if (names(o)) vp_skip(); Q *a = lastbind(); Q *b = samename(a, pat(a->k)); arm[na++] = p2(PALT, p2(PLS, a, o), p2(PVLS, plit(0), b)); arm[na++] = p2(PALT, pleaf(1), plit(3)); if (names(arm[1])) arm[1] = p2(PALT, plit(5), plit(3)); unsigned n = ch(4); v = n == 3 ? anyleaf() : listof(n); break; }
  case 4: { Q *in = p2(PLS, pleaf(1), lastbind()); Q *t = p2(PVTB, p2(PVLS, pleaf(1), NULL), NULL); t->key[0] = 1; arm[na++] = p2(PLS, in, t); arm[na++] = p2(PVLS, pat(PANY), lastbind()); unsigned n = ch(3); v = coll(VL, 2); V *ls = n == 0 ? listof(1) : n == 1 ? leaf(VI) : coll(VL, 2); if (n == 2) { ls->e[0] = leaf(VI); ls->e[1] = anyleaf(); } v->e[0] = ls; unsigned m = ch(3); V *tb = coll(VT, m == 1 ? 0 : 1); if (m != 1) { tb->key[0] = m == 0; tb->e[0] = coll(VL, 1); tb->e[0]->e[0] = leaf(VB); } v->e[1] = tb; break; }
  case 5: { arm[na] = p2(PLS, lastbind(), p2(PLS, lastbind(), NULL)); arm[na]->e[arm[na]->n++] = lastbind(); na++; arm[na++] = lastbind(); unsigned n = ch(3); v = coll(VL, 3); v->e[0] = leaf(VI); v->e[1] = n == 0 ? leaf(VF) : coll(VL, n - 1); if (n == 2) v->e[1]->e[0] = leaf(VB); v->e[2] = anyleaf(); ctx = ch(2); break; }
  case 6: { arm[na++] = pleaf(0); guard[0] = 1; arm[na++] = pleaf(1); guard[1] = ch(2); arm[na++] = p2(PVLS, NULL, NULL); v = ch(4) ? anyleaf() : listof(1); break; }
  case 7: { arm[na++] = p2(PVLS, pleaf(0), NULL); guard[0] = 1; arm[na++] = p2(PTB, pleaf(1), NULL); guard[1] = ch(2); unsigned n = ch(3); v = n == 0 ? listof(1) : n == 1 ? tableof(1) : listof(0); ctx = 1; break; }
  case 8: { Q *a = lastbind(), *b = lastbind(); Q *a2 = samename(a, pat(a->k)), *b2 = pat(b->k); strcpy(b2->name, b->name); Q *l = p2(PLS, a, b), *r = p2(PTB, b2, a2); strcpy(a2->name, a->name); arm[na++] = p2(PALT, l, r); arm[na++] = p2(PALT, p2(PLS, plit(8), plit(9)), p2(PALT, p2(PVLS, plit(9), NULL), pleaf(1))); if (names(arm[1])) vp_skip(); unsigned n = ch(5); v = n < 3 ? listof(n) : n == 3 ? tableof(3) : tableof(5); break; }
  case 9: arm[na++] = pleaf(1); arm[na++] = p2(PVLS, pleaf(1), NULL); ctx = 2 + ch(3); v = ch(2) ? anyleaf() : listof(1); v2 = ch(2) ? leaf(VI) : listof(1); break;
  case 10: arm[na++] = p2(PLS, pleaf(1), lastbind()); arm[na++] = p2(PLS, lastbind(), NULL); ctx = 2 + ch(3); v = listof(1 + ch(2)); v2 = listof(1); break;
  default: { Q *q = p2(PTB, pleaf(1), p2(PTB, pleaf(1), NULL)); q->key[0] = 2; q->key[1] = 0; arm[na++] = q; arm[na++] = p2(PVTB, NULL, NULL); v = coll(VT, 2); v->key[0] = 0; v->key[1] = ch(2) + 1; v->e[1] = anyleaf(); v->e[0] = ch(2) ? tableof(1) : leaf(VI); ctx = ch(2); break; }
  }
  if (VP_TIER == 1) { static const int red[] = {1, 8, 97, 2, 3, 1, 1, 1, 1, 3, 4, 1}; unsigned m = red[T] * (many ? 3 : 1); if (hs % m) vp_skip(); }
  norm(v); if (v2) norm(v2);
  w = src; if (many) { P("let c = [0"); for (int i = 0; i < 130; i++) { char b[8] = {',', ' ', (char)('1' + i / 100), (char)('0' + i / 10 % 10), (char)('0' + i % 10), '.', '5', 0}; P(b); } P("]; "); }
  for (int i = 0; i < 4; i++) gv[i] = vp_u8() & 1;
  switch (ctx) {
  case 0: P("let b0 = 41; let b1 = 43; "); showmatch("v"); P("let e0 = 42; l(b0); l(e0); l(b1); "); break;
  case 1: P("const f = fn(a, b) { let c = 44; "); showmatch("a"); P("let e0 = 42; l(b); l(e0); l(c); return c; }; l(f(v, 41)); "); break;
  case 2: P("for y <- [v, v2] { let b0 = 41; "); showmatch("y"); P("let e0 = 42; l(b0); l(e0); }; "); break;
  case 3: P("let b0 = 41; match v2 {\nlet yy { let b1 = 43; "); showmatch("v"); P("let e0 = 42; l(yy); l(b0); l(b1); l(e0); }\n}; l(b0); "); break;
  default: P("const f = fn(a, b) { "); showmatch("a"); P("return b; }; for let i = 0; i < 2; i += 1 { l(f(i == 0 ? v : v2, i)); }; "); break;
  }
  P("q = 1;");
  YS *S = h_new(src); h_gfn(S, "l", lg, 1); h_gfn(S, "l2", l2, 1); h_gint(S, "q", 0); YASL_declglobal(S, "v"); pushv(S, v); YASL_setglobal(S, "v"); YASL_declglobal(S, "v2"); if (v2) pushv(S, v2); else YASL_pushundef(S); YASL_setglobal(S, "v2");
  static const char *gn[] = {"g0", "g1", "g2", "g3"}; for (int i = 0; i < 4; i++) h_gbool(S, gn[i], gv[i]);
  int rc = h_run(S);
  switch (ctx) {
  case 0: expmatch(v); logi(41); logi(42); logi(43); break;
  case 1: expmatch(v); logi(41); logi(42); logi(44); logi(44); break;
  case 2: expmatch(v); logi(41); logi(42); expmatch(v2); logi(41); logi(42); break;
  case 3: expmatch(v); logi(42); sv(&exps, v2); break;
  default: expmatch(v); logi(0); expmatch(v2); logi(1); break;
  }
  if (ctx == 3) { exps.n -= 0; exps.n = 0; expmatch(v); sv(&exps, v2); logi(41); logi(43); logi(42); logi(41); }
  if (stop) { vp_reach("guard of an arm with bindings fails"); int64_t n = 0; exps.n = 0; stop = false; expmatch(v); for (int i = 0; i < exps.n; i++) n += exps.v[i] != got.v[i]; if (stop) VP_CHECK(n == 0, "nothing but the guard runs"); VP_CHECK(!(got.n > exps.n + 1 && got.v[exps.n + 1] == 0), "the body of the arm does not run"); YASL_delstate(S); return; }
  VP_CHECK(rc == 0, "no error"); h_is_int(S, "q", 1, "runs to the end");
  bool ok = got.n == exps.n; VP_CHECK(ok, "the expected arm runs"); for (int i = 0; i < exps.n && i < got.n; i++) { ok &= got.v[i] == exps.v[i]; vp_observe(got.v[i]); } VP_CHECK(ok, "the first matching arm runs with its names bound to the matching parts, other variables untouched");
  vp_reach("matched"); h_end(S);
}
