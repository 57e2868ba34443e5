// vp: shards=16 quick=70 thorough=1200
// bounds: every sequence of 3 (thorough 4) of 16 list operations (push, pop, set, get, concatenation both ways, slice, copy with mutation of the copy, reverse, clear, insert, search and count, equality, iteration, self concatenation, aliasing) starting from lists of 0 and 3 (thorough 0..4) elements (growth happens at 4 and 8); indices -3, -1, 0, 2, 4 (thorough -3..3), 16 (thorough 36) pairs of slice bounds; elements are any ints
#include "h.h"
#define MAX 40
static int64_t V[4]; static YS *S; static char *d;
typedef struct { int64_t e[MAX]; int n; } L;
static L l, m; static bool dead; static int status; static int64_t r; static int rk; // rk: 0 undef 1 int 2 bool
static int idx(int first, int n) { static const int few[] = {-3, -1, 0, 2, 4}, a[] = {-2, 0, 1, 3}; return VP_TIER > 1 ? (int)vp_choose(n) + first : n == 7 ? few[vp_choose(5)] : a[vp_choose(4)] + (first == -1 ? 1 : 0); }
static void num(int v) { if (v < 0) { *d++ = '-'; v = -v; } if (v > 9) *d++ = '0' + v / 10; *d++ = '0' + v % 10; *d = 0; }
static void P(const char *s) { d = put(d, s); }
static void step(unsigned op) {
  if (dead) { // after an error nothing runs: the text is irrelevant
    P("r = 99;\n"); return; }
  int v = 1, i, j;
  switch (op) {
  case 0: P("l->push(v1);\n"); l.e[l.n++] = V[1]; break;
  case 1: P("r = l->pop();\n"); if (!l.n) { dead = true; status = YASL_VALUE_ERROR; } else { r = l.e[--l.n]; rk = 1; } break;
  case 2: case 3: i = idx(-3, 7); P(op == 2 ? "l[" : "r = l["); num(i); P(op == 2 ? "] = v2;\n" : "];\n"); if (i < -l.n || i >= l.n) { dead = true; status = YASL_VALUE_ERROR; } else { if (i < 0) i += l.n; if (op == 2) l.e[i] = V[2]; else { r = l.e[i]; rk = 1; } } break;
  case 4: P("l = l + m;\n"); for (int k = 0; k < m.n; k++) l.e[l.n++] = m.e[k]; break;
  case 5: { P("l = m + l;\n"); L t = m; for (int k = 0; k < l.n; k++) t.e[t.n++] = l.e[k]; l = t; break; }
  case 6: { i = idx(-2, 6); j = idx(-1, 6); P("m = l; l = l["); num(i); P(":"); num(j); P("];\n"); m = l; int a = i < 0 ? i + l.n : i, b = j < 0 ? j + l.n : j; if (a < 0) a = 0; if (b > l.n) b = l.n; L t; t.n = 0; for (int k = a; k < b; k++) t.e[t.n++] = l.e[k]; l = t; break; }
  case 7: P("m = l->copy(); m->push(v3);\n"); m = l; m.e[m.n++] = V[3]; break;
  case 8: P("l->reverse();\n"); for (int k = 0; k < l.n / 2; k++) { int64_t t = l.e[k]; l.e[k] = l.e[l.n - 1 - k]; l.e[l.n - 1 - k] = t; } break;
  case 9: P("l->clear();\n"); l.n = 0; break;
  case 10: i = idx(-3, 7); P("l->insert("); num(i); P(", v3);\n"); if (i < -l.n || i > l.n) { dead = true; status = YASL_VALUE_ERROR; } else { if (i < 0) i += l.n; for (int k = l.n; k > i; k--) l.e[k] = l.e[k - 1]; l.e[i] = V[3]; l.n++; } break;
  case 11: { P("r = l->search(v0); c = l->count(v0);\n"); int64_t c = 0; int f = -1; for (int k = l.n - 1; k >= 0; k--) { bool e = l.e[k] == V[0]; c += e; if (e) f = k; } rk = f < 0 ? 0 : 1; r = f; (void)c; break; }
  case 12: { P("r = l == m;\n"); bool e = l.n == m.n; if (e) for (int k = 0; k < l.n; k++) e &= l.e[k] == m.e[k]; rk = 2; r = e; break; }
  case 13: { P("r = 0; for x <- l { r = r * 3 + x; };\n"); uint64_t t = 0; for (int k = 0; k < l.n; k++) t = t * 3 + (uint64_t)l.e[k]; r = (int64_t)t; rk = 1; break; }
  case 14: { P("l = l + l;\n"); int n = l.n; for (int k = 0; k < n; k++) l.e[l.n++] = l.e[k]; break; }
  default: P("r = len l; m = [v0]; m[0] = r;\n"); m.n = 1; m.e[0] = l.n; r = l.n; rk = 1; }
  (void)v;
}
static void same(const char *n, L *x) {
  YASL_loadglobal(S, n); VP_CHECK(YASL_islist(S), "still a list"); YASL_duptop(S); YASL_len(S); HV c = h_top(S); VP_CHECK(c.t == TI && c.i == x->n, "list length");
  for (int k = 0; k < x->n; k++) { YASL_listget(S, k); HV v = h_top(S); VP_CHECK(v.t == TI, "element type"); VP_CHECK(v.i == x->e[k], "list element"); vp_observe(v.i); } YASL_pop(S);
}
void vp_main(void) {
  unsigned op = vp_shard(16); static char src[1500]; d = src; int n0 = VP_TIER == 1 ? 3 * (int)vp_choose(2) : (int)vp_choose(5), steps = VP_TIER == 1 ? 3 : 4;
  for (int k = 0; k < 4; k++) V[k] = vp_i64();
  P("l = ["); l.n = 0; for (int k = 0; k < n0; k++) { if (k) P(", "); P(k == 0 ? "v0" : k == 1 ? "v1" : k == 2 ? "v2" : "v0"); l.e[l.n++] = V[k == 3 ? 0 : k]; } P("]; m = [v2];\n"); m.n = 1; m.e[0] = V[2]; rk = 0;
  step(op); for (int k = 1; k < steps; k++) step(dead ? 0 : vp_choose(16)); P("q = 1;");
  S = h_new(src); h_out(S, "l"); h_out(S, "m"); h_out(S, "r"); h_out(S, "c"); h_gint(S, "q", 0); h_gint(S, "v0", V[0]); h_gint(S, "v1", V[1]); h_gint(S, "v2", V[2]); h_gint(S, "v3", V[3]);
  int rc = h_run(S); VP_CHECK(rc == status, "status"); h_is_int(S, "q", !dead, "runs to the end unless an access is out of range");
  same("l", &l); same("m", &m);
  if (rk == 0) h_is_undef(S, "r", "result"); else if (rk == 1) h_is_int(S, "r", r, "result"); else h_is_bool(S, "r", r, "result");
  vp_reach(dead ? "value error" : "completed"); h_end(S);
}
