// vp: shards=52 shards2=52 quick=60 thorough=1500
// bounds: tables holding 0 or 22 other entries (one short of growing), 40 inserted and removed (a grown table full of tombstones), or 21 tombstones, then every sequence of 3 (thorough 4) operations out of 13: storing any int at one of 4 colliding keys, removing one of 3 (by undef or by remove), copy then mutation of the copy, merge, clear, overwriting while iterating, storing undef at an absent key, growth by 3; keys are any 4 different ints 5+31*s (0 <= s < 256), which have the same hashes in a table of 31 buckets, or 5+1891*s (s < 8), which have in tables of 31 and of 61 buckets
// outside: NaN as a key
#include "h.h"
enum { NK = 4, NOP = 13, FILL = 100000 };
static YS *S; static char *d; static int64_t K[NK], V[6]; static bool in[NK]; static int64_t at[NK]; static int lo, hi; // fillers lo..hi-1 are present
static void P(const char *s) { d = put(d, s); }
static void num(int v) { char b[12]; int n = 0; if (!v) b[n++] = '0'; while (v) { b[n++] = '0' + v % 10; v /= 10; } while (n) *d++ = b[--n]; *d = 0; }
static void key(int i) { P("k"); num(i); }
static void step(unsigned op, int n) {
  switch (op) {
  case 0: case 1: case 2: case 3: P("t["); key(op); P("] = v"); num(n); P(";\n"); in[op] = true; at[op] = V[n]; break;
  case 4: case 5: P("t["); key(op - 4); P("] = undef;\n"); in[op - 4] = false; break;
  case 6: P("t->remove(k2);\n"); in[2] = false; break;
  case 7: P("u = t->copy(); u[k0] = 7; u[k1] = undef; u['x'] = 1; assert u->copy() == u;\n"); break;
  case 8: P("t = t | {.x: 5, k1: v"); num(n); P(", k3: v0};\n"); P("t.x = undef;\n"); in[1] = in[3] = true; at[1] = V[n]; at[3] = V[0]; break;
  case 9: P("t->clear();\n"); memset(in, 0, sizeof in); lo = hi = 0; break;
  case 10: P("for x <- t { t[x] = 3; };\n"); for (int i = 0; i < NK; i++) if (in[i]) at[i] = 3; break;
  case 11: P("t['none'] = undef; t->remove(-5); t[1.5] = undef; t['copy'] = 5; assert t.copy + t['copy'] == 10; t.len = 7; assert t->copy()['len'] == 7; t['copy'] = undef; t->remove('len');\n"); break;
  default: if (hi) { P("t["); num(FILL + hi); P("] = 1; t["); num(FILL + hi + 1); P("] = 1; t["); num(FILL + hi + 2); P("] = 1;\n"); hi += 3; } }
}
void vp_main(void) {
  unsigned sh = vp_shard(52), pre = sh / 13, op = sh % 13; static char src[2500]; d = src; memset(in, 0, sizeof in); lo = hi = 0;
  for (int i = 0; i < NK; i++) { uint8_t b = vp_u8(); K[i] = pre == 1 || pre == 2 ? 5 + 31 * 61 * (int64_t)(b & 7) : 5 + 31 * (int64_t)b; for (int j = 0; j < i; j++) vp_assume(K[j] != K[i]); }
  for (int i = 0; i < 6; i++) V[i] = vp_i64();
  P("t = {}; for let i = 0; i < n; i += 1 { t[100000 + i] = i; };\n");
  int fill = pre == 0 ? 0 : pre == 1 ? 22 : pre == 2 ? 40 : 21; if (pre >= 2) P("for let i = 0; i < n; i += 1 { t[100000 + i] = undef; };\n"); else hi = fill;
  step(op, 0); for (int k = 1; k < (VP_TIER == 1 ? 3 : 4); k++) step(vp_choose(NOP), k);
  P("n = len t; r0 = t[k0]; r1 = t[k1]; r2 = t[k2]; r3 = t[k3]; ra = t[-7]; rb = t['k']; c = 0; f = 0; for x <- t { c += 1; if x == k0 { c0 += 1; }; if x == k1 { c1 += 1; }; if x == k2 { c2 += 1; }; if x == k3 { c3 += 1; }; if x >= 100000 { f += x; }; };\n"
    "ks = len t->keys(); vs = len t->values(); ok = true; for let i = lo; i < hi; i += 1 { if t[100000 + i] == undef { ok = false; }; };\nfor x <- t->keys() { if t[x] === undef { ok = false; }; c -= 1; }; z = t == t->copy(); q = 1;");
  S = h_new(src); static const char *outs[] = {"t", "u", "n", "r0", "r1", "r2", "r3", "ra", "rb", "c", "f", "ks", "vs", "ok", "z"}; for (int i = 0; i < LEN(outs); i++) h_out(S, outs[i]);
  static const char *kn[] = {"k0", "k1", "k2", "k3"}, *vn[] = {"v0", "v1", "v2", "v3", "v4", "v5"}, *cn[] = {"c0", "c1", "c2", "c3"}, *rn[] = {"r0", "r1", "r2", "r3"};
  for (int i = 0; i < NK; i++) { h_gint(S, kn[i], K[i]); h_gint(S, cn[i], 0); } for (int i = 0; i < 6; i++) h_gint(S, vn[i], V[i]);
  YASL_pushint(S, fill); YASL_setglobal(S, "n"); h_gint(S, "lo", lo); h_gint(S, "hi", hi); h_gint(S, "q", 0);
  VP_CHECK(h_run(S) == 0, "no error"); h_is_int(S, "q", 1, "runs to the end");
  int n = hi - lo; int64_t fs = 0; for (int i = lo; i < hi; i++) fs += FILL + i;
  for (int i = 0; i < NK; i++) { n += in[i]; if (in[i]) h_is_int(S, rn[i], at[i], "a stored key gives its value"); else h_is_undef(S, rn[i], "a removed key is absent"); h_is_int(S, cn[i], in[i], "iteration yields a present key once"); }
  h_is_undef(S, "ra", "absent"); h_is_undef(S, "rb", "absent"); h_is_int(S, "n", n, "length"); h_is_int(S, "ks", n, "number of keys"); h_is_int(S, "vs", n, "number of values"); h_is_int(S, "c", 0, "iteration and keys agree"); h_is_int(S, "f", fs, "iteration over the other keys"); h_is_bool(S, "ok", true, "keys are present"); h_is_bool(S, "z", true, "a copy is equal");
  vp_reach("checked"); h_end(S);
}
