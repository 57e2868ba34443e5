// vp: shards=26 quick=60 thorough=900
// bounds: every sequence of 3 (thorough 4) of 26 texts (quick tier: a quarter of the sequences) fed to one state in REPL mode (declarations of variables, constants, functions and closures, assignments, expressions of every kind, loops and blocks, several statements in one text, empty texts, texts rejected by the compiler, texts that fail at run time in the middle, over several frames, or with values on the stack), before and after a first declaration, compared with a model that keeps the variables; ints are symbolic
// outside: names declared by a text that is rejected (they stay declared and read as undef); the text of the echoed values (P30); reading standard input
#include "h.h"
static YS *S; static char txt[8][160]; static int64_t a, b, g0;
static int64_t lg[40]; static int nlg; static int f_log(YS *S2) { if (nlg >= 40) vp_skip(); if (YASL_isint(S2)) lg[nlg++] = YASL_peekint(S2); else if (YASL_isundef(S2)) lg[nlg++] = -77; else lg[nlg++] = -78; YASL_pushlit(S2, "ok"); return 1; }
static int64_t el[40]; static int nel; static char out[400], *o; static void O(const char *s) { o = put(o, s); } static void L(int64_t v) { if (nel >= 40) vp_skip(); el[nel++] = v; }
// model: k 0 undeclared, 1 undef, 2 int, 3 unknown (declared by a rejected text)
typedef struct { int k; int64_t v; bool c; } Var; static Var x, y, f, c, g, t, m; static int64_t gn;
static bool useint(Var *v, int *st) { if (v->k == 0) { *st = YASL_SYNTAX_ERROR; return false; } if (v->k == 1) { *st = YASL_TYPE_ERROR; return false; } return true; }
static int64_t add(int64_t p, int64_t q) { return (int64_t)((uint64_t)p + (uint64_t)q); }
static void see(Var *v) { L(v->k == 2 ? v->v : -77); }
// runs one text on the model; returns the status
static int model(int k, const char **text) {
  int st = YASL_SUCCESS;
  switch (k) {
  case 0: *text = "let x = a"; if (x.k) return YASL_SYNTAX_ERROR; x.k = 2; x.v = a; return st;
  case 1: *text = "let y = x + b"; if (y.k) return YASL_SYNTAX_ERROR; if (!x.k) { y.k = 3; return YASL_SYNTAX_ERROR; } y.k = 1; if (!useint(&x, &st)) return st; y.k = 2; y.v = add(x.v, b); return st;
  case 2: *text = "x = b"; if (!x.k) return YASL_SYNTAX_ERROR; x.k = 2; x.v = b; return st;
  case 3: *text = "lg(x)"; if (!x.k) return YASL_SYNTAX_ERROR; see(&x); O("ok\n"); return st;
  case 4: *text = "lg(y); 'seen'"; if (!y.k) return YASL_SYNTAX_ERROR; see(&y); O("seen\n"); return st;
  case 5: *text = "fn f(p) { return p + x; }"; if (f.k) return YASL_SYNTAX_ERROR; if (!x.k) { f.k = 3; return YASL_SYNTAX_ERROR; } f.k = 2; return st;
  case 6: *text = "lg(f(b)); lg(f(1)) ~ '!'"; if (!f.k) return YASL_SYNTAX_ERROR; if (!useint(&x, &st)) return st; L(add(b, x.v)); L(add(1, x.v)); O("ok!\n"); return st;
  case 7: *text = "const c = 'text'"; if (c.k) return YASL_SYNTAX_ERROR; c.k = 2; return st;
  case 8: *text = "c = b"; return YASL_SYNTAX_ERROR;
  case 9: *text = "c"; if (!c.k) return YASL_SYNTAX_ERROR; O("text\n"); return st;
  case 10: *text = "let t = x // 0"; if (t.k) return YASL_SYNTAX_ERROR; if (!x.k) { t.k = 3; return YASL_SYNTAX_ERROR; } t.k = 1; return x.k == 2 ? YASL_DIVIDE_BY_ZERO_ERROR : YASL_TYPE_ERROR;
  case 11: *text = "lg(t)"; if (!t.k) return YASL_SYNTAX_ERROR; see(&t); O("ok\n"); return st;
  case 12: *text = "echo 'one'; x += 1; lg(x); 'two'; 2.5"; if (!x.k) return YASL_SYNTAX_ERROR; O("one\n"); if (!useint(&x, &st)) return st; x.v = add(x.v, 1); L(x.v); O("2.5\n"); return st;
  case 13: *text = "for v <- [a, b] { let w = v; x = w; echo 'in'; lg(w); }"; if (!x.k) return YASL_SYNTAX_ERROR; O("in\nin\n"); L(a); L(b); x.k = 2; x.v = b; return st;
  case 14: *text = "let g = fn() { let n = a; return fn() { n += 1; return n; }; }()"; if (g.k) return YASL_SYNTAX_ERROR; g.k = 2; gn = a; return st;
  case 15: *text = "lg(g()); g() == undef"; if (!g.k) return YASL_SYNTAX_ERROR; gn = add(gn, 1); L(gn); gn = add(gn, 1); O("false\n"); return st;
  case 16: *text = "[c, 'q', [undef, true]]"; if (!c.k) return YASL_SYNTAX_ERROR; O("[text, q, [undef, true]]\n"); return st;
  case 17: *text = "lg(a); [1, 'x' ~ a, fn(q) { for z <- [q] { assert q == undef; }; }(5)]"; L(a); return YASL_ASSERT_ERROR;
  case 18: *text = ""; return st;
  case 19: *text = "echo 'never'; let u = ;"; return YASL_SYNTAX_ERROR;
  case 20: *text = "let m, let n = a, b; lg(m); lg(n)"; if (m.k) return YASL_SYNTAX_ERROR; m.k = 2; L(a); L(b); O("ok\nok\n" + 3); return st;
  case 21: *text = "while true { let z = 'late'; if true { let k = z; g9 = fn() { return k; }; }; break; }; g9()"; O("late\n"); return st;
  case 22: *text = "x = fn(p) { return p.q; }(b); echo 'not reached'"; if (!x.k) return YASL_SYNTAX_ERROR; return YASL_VALUE_ERROR;
  case 23: *text = "a += 1; b = a; lg(b)"; a = add(a, 1); b = a; L(a); O("ok\n"); return st;
  case 24: *text = "echo 'open\nnext'; 'ab'"; return YASL_SYNTAX_ERROR;
  default: *text = "let l0 = [1, 2]; { let q = l0; l0 = 3; }; lg(l0"; return YASL_SYNTAX_ERROR;
  }
}
void vp_main(void) {
  int first = (int)vp_shard(26), n = VP_TIER == 1 ? 3 : 4, pre = (int)vp_choose(4); a = vp_i64(); b = vp_i64(); g0 = 0; S = 0; int seq[8], ns = 0;
  if (pre) seq[ns++] = 0; if (pre >= 2) seq[ns++] = 5; if (pre == 3) { seq[ns++] = 7; seq[ns++] = 14; }
  for (int i = 0; i < n; i++) { seq[ns] = i ? (int)vp_choose(26) : first; ns++; }
  int r = 0; for (int i = 0; i < ns; i++) r = r * 5 + seq[i]; if (VP_TIER == 1 && (r + first) % 4) vp_skip();
  o = out; *o = 0; int64_t sa = a, sb = b; bool syn = false;
  for (int i = 0; i < ns; i++) {
    const char *text; int want = model(seq[i], &text); if (x.k == 3 || y.k == 3 || f.k == 3 || t.k == 3) { if (i + 1 < ns) vp_skip(); }
    strcpy(txt[i], text); size_t l = strlen(txt[i]); txt[i][l++] = '\n'; txt[i][l] = 0; int st;
    if (i == 0) { S = h_newn(txt[i], l); h_gint(S, "a", sa); h_gint(S, "b", sb); h_out(S, "g9"); h_gfn(S, "lg", f_log, 1); } else VP_CHECK(YASL_resetstate_bb(S, txt[i], l) == YASL_SUCCESS, "reset");
    st = YASL_execute_REPL(S); if (!vp_is_engine() && getenv("VP_SHOW")) fprintf(stderr, "> %s -> %d (expected %d)\n", txt[i], st, want);
    VP_CHECK(st == want, "status of each text"); VP_CHECK(nlg == nel, "effects of each text"); for (int j = 0; j < nel; j++) VP_CHECK(lg[j] == el[j], "values across texts"); nlg = nel = 0; if (want == YASL_SYNTAX_ERROR) syn = true;
  }
  h_is_out(S, out, (size_t)(o - out), "each text that ends in an expression echoes it, and only those"); h_is_int(S, "a", a, "globals"); h_is_int(S, "b", b, "globals");
  vp_reach("all texts"); YASL_delstate(S); if (!syn) VP_CHECK(vp_heap_live() == 0, "everything freed after YASL_delstate");
}
