// vp: shards=48 shards2=48 quick=60 thorough=1500
// bounds: pairs of sets over 4 elements (ints 5+31*s or 5+1891*s with equal hashes, or an int, one of two strs with the same hash, a float and a bool), holding besides none, 22 (one short of growing) or 40 added and removed other elements, then every sequence of 3 (thorough 4) of 16 operations (constructors from arguments and lists, add, remove, copy, clear, | & ^ &^ in either order, adding a list)
// outside: NaN as an element
#include "h.h"
#include "std/yasl-std-collections.h"
enum { NK = 4, NOP = 16, FILL = 100000 };
static YS *S; static char *d; static unsigned A, B; static int lo, hi; static bool err; // A, B: elements as bit masks
static void P(const char *s) { d = put(d, s); }
static void num(int v) { char b[12]; int n = 0; if (!v) b[n++] = '0'; while (v) { b[n++] = '0' + v % 10; v /= 10; } while (n) *d++ = b[--n]; *d = 0; }
static void step(unsigned op) {
  if (err) return;
  switch (op) {
  case 0: case 1: case 2: case 3: P("a->add(k"); num(op); P(");\n"); A |= 1u << op; break;
  case 4: case 5: P("a->remove(k"); num(op - 4); P(");\n"); A &= ~(1u << (op - 4)); break;
  case 6: P("c = a->copy(); c->add(k0); c->remove(k1); c->clear(); assert len c == 0 && a->copy() == a;\n"); break;
  case 7: P("c = a; a = a | b; assert len c->tolist() == len c;\n"); A |= B; break;
  case 8: P("a = b & a;\n"); A &= B; lo = hi = 0; break;
  case 9: P("c = a; a = a ^ b; c->remove(k1);\n"); A ^= B; break;
  case 10: P("a = a &^ b;\n"); A &= ~B; break;
  case 11: P("a = b &^ a;\n"); A = B & ~A; lo = hi = 0; break;
  case 12: P("a->clear();\n"); A = 0; lo = hi = 0; break;
  case 13: P("b = collections.set(k3, k0, k3);\n"); B = 9; break;
  case 14: P("b = collections.set([k1, k2, k2, k1]);\n"); B = 6; break;
  default: P("e = 1; a->add([]);\n"); err = true; }
}
void vp_main(void) {
  unsigned sh = vp_shard(48), pre = sh / 16, op = sh % 16; static char src[3000]; d = src; lo = hi = 0; err = false; A = 3; B = 6; int64_t K[NK]; char s2[2];
  for (int i = 0; i < NK; i++) { uint8_t b = vp_u8(); K[i] = pre ? 5 + 31 * 61 * (int64_t)(b & 7) : 5 + 31 * (int64_t)b; for (int j = 0; j < i; j++) vp_assume(K[j] != K[i]); }
  P("a = collections.set(k0, k1); b = collections.set([k2, k1]); for let i = 0; i < n; i += 1 { a->add(100000 + i); };\n");
  int fill = pre == 1 ? 22 : pre == 2 ? 40 : 0; if (pre == 2) P("for let i = 0; i < n; i += 1 { a->remove(100000 + i); };\n"); else hi = fill;
  step(op); for (int k = 1; k < (VP_TIER == 1 ? 3 : 4); k++) step(vp_choose(NOP));
  P("n = len a; nb = len b; r0 = a[k0]; r1 = a[k1]; r2 = a[k2]; r3 = a[k3]; q0 = b[k0]; q1 = b[k1]; q2 = b[k2]; q3 = b[k3]; f = 0; g = 0; for x <- a->tolist() { g += 1; if x === k0 { c0 += 1; } elseif x === k1 { c1 += 1; } elseif x === k2 { c2 += 1; } elseif x === k3 { c3 += 1; } else { f += x; }; };\n"
    "nl = len a->tolist(); for x <- a->tolist() { if !a[x] { nl = -1; }; };\neq = a == b; gt = a > b; ge = a >= b; lt = a < b; le = a <= b; z = a == a->copy() && a->copy() >= a && !(a < a->copy()) && !a[undef] && !a['zz'] && !a[2.5];\nq = 1;");
  S = h_new(src); VP_CHECK(YASL_decllib_collections(S) == YASL_SUCCESS, "library");
  static const char *outs[] = {"a", "b", "c", "n", "nb", "r0", "r1", "r2", "r3", "q0", "q1", "q2", "q3", "f", "g", "nl", "eq", "gt", "ge", "lt", "le", "z"}; for (int i = 0; i < LEN(outs); i++) h_out(S, outs[i]);
  static const char *kn[] = {"k0", "k1", "k2", "k3"}, *cn[] = {"c0", "c1", "c2", "c3"};
  for (int i = 0; i < NK; i++) { h_gint(S, cn[i], 0); if (pre == 2 && i == 1) { s2[0] = (char)(30 + 31 * (vp_u8() & 1)); h_gstr(S, kn[i], s2, 1); } else if (pre == 2 && i == 2) h_gflt(S, kn[i], 1.5); else if (pre == 2 && i == 3) h_gbool(S, kn[i], K[0] & 1); else h_gint(S, kn[i], K[i]); }
  h_gint(S, "n", fill); h_gint(S, "q", 0); h_gint(S, "e", 0);
  int rc = h_run(S);
  if (err) { VP_CHECK(rc == YASL_TYPE_ERROR, "a list is no element"); h_is_int(S, "e", 1, "stops there"); h_is_int(S, "q", 0, "stops there"); vp_reach("rejected"); h_end(S); return; }
  VP_CHECK(rc == 0, "no error"); h_is_int(S, "q", 1, "runs to the end");
  int na = __builtin_popcount(A) + hi - lo, nb = __builtin_popcount(B); int64_t fs = 0; for (int i = lo; i < hi; i++) fs += FILL + i; bool big = hi > lo;
  for (int i = 0; i < NK; i++) { bool a = A >> i & 1; h_is_bool(S, outs[5 + i], a, "membership"); h_is_bool(S, outs[9 + i], B >> i & 1, "membership in the other operand"); h_is_int(S, cn[i], a, "the list holds each element once"); }
  h_is_int(S, "n", na, "length"); h_is_int(S, "nb", nb, "length of the other operand"); h_is_int(S, "g", na, "elements of the list"); h_is_int(S, "f", fs, "other elements"); h_is_int(S, "nl", na, "to list");
  bool sup = (A & B) == B, sub = (A & B) == A && !big, eq = A == B && !big; h_is_bool(S, "eq", eq, "=="); h_is_bool(S, "ge", sup, ">="); h_is_bool(S, "gt", sup && !eq, ">"); h_is_bool(S, "le", sub, "<="); h_is_bool(S, "lt", sub && !eq, "<"); h_is_bool(S, "z", true, "a copy is equal, absent elements are absent");
  vp_reach("checked"); h_end(S);
}
