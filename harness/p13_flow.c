// vp: shards=44 shards2=44 quick=60 thorough=900
// bounds: every nesting of 3 statements (thorough: 4) out of if, if-else, if-elseif(-else), while, stepped for, for over a list, str or table, around break, continue, return, a call or nothing, in 4 surroundings (top level; a function; a function whose blocks are captured by closures; a function called inside an expression inside a loop), for every outcome of the first 5 (thorough 6) evaluations of a condition
// outside: deeper nestings; loops longer than their bound
#include "h.h"
#define NB (VP_TIER == 1 ? 5 : 6)
typedef struct { int k, d, b[3], var; } N;
static N nodes[60]; static int nn; static unsigned char bits[8]; static int bp; static int64_t logv[4000], elog[4000]; static int nl, ne; static bool fnctx, clos; static char src[6000], *w;
enum { LOG, IF, IFE, IFEE, IFEL, WHILE, FOR, FORL, FORS, FORT, BRK, CONT, RET, NOP };
static int c_(YS *S) { bool b = bp < NB ? bits[bp] & 1 : false; bp++; YASL_pushbool(S, b); return 1; }
static int m_(YS *S) { VP_CHECK(nl < 4000, "terminates"); if (YASL_isint(S)) logv[nl++] = YASL_peekint(S); else if (YASL_isstr(S)) { char *c = YASL_peekcstr(S); logv[nl++] = 5000 + c[0]; free(c); } else logv[nl++] = -1; YASL_pushundef(S); return 1; }
static void num(int v) { char t[8]; int n = 0; if (v == 0) t[n++] = '0'; while (v) { t[n++] = '0' + v % 10; v /= 10; } while (n) *w++ = t[--n]; *w = 0; }
static void P(const char *s) { w = put(w, s); }
static void P1(const char *a, int v, const char *b) { P(a); num(v); P(b); }
static int stmt(int depth, int inloop, int k);
// one block: { let aD = ..; stmt; m(aD); }
static int leaf(int inloop) { unsigned n = 2 + (inloop ? 2 : 0) + (fnctx ? 1 : 0), c = vp_choose(n); if (c < 2) return c ? NOP : LOG; if (inloop && c < 4) return c == 2 ? BRK : CONT; return RET; }
static int block(int depth, int inloop, int max) {
  P1("{ let a", depth, ""); P1(" = ", 100 * depth, ""); if (clos) { P1("; let g", depth, " = fn() { return "); P1("a", depth, " + 1; }; "); P1("fs->push(g", depth, ")"); }
  P("; ");
  int k; if (max == 0) k = leaf(inloop); else { static const int kk[] = {IFE, IFEL, WHILE, FOR, FORL, FORS, FORT, IF, LOG}; const unsigned lim = 9; unsigned c = vp_choose(lim + 1); k = c == lim ? leaf(inloop) : kk[c]; if (k == LOG) k = leaf(inloop); }
  int id = stmt(depth, inloop, k * 16 + max); if (clos) P1(" m(g", depth, "());"); else P1(" m(a", depth, ");"); P1(" a", depth, " += 7; }"); return id;
}
static int nop(int depth, int inloop) { // a short block with a leaf
  P1("{ let b", depth, " = "); num(50 + depth); P("; "); int id = stmt(depth, inloop, leaf(inloop) * 16); P1(" m(b", depth, "); }"); return id;
}
static int stmt(int depth, int inloop, int km) {
  int id = nn++, k = km / 16, max = km % 16; N *n = &nodes[id]; n->k = k; n->d = depth; int sub = max - 1;
  switch (k) {
  case LOG: P1("m(", depth + 1, ");"); break;
  case NOP: break;
  case BRK: P("break;"); break;
  case CONT: P("continue;"); break;
  case RET: P1("return ", depth + 40, ";"); break;
  case IF: P("if c() "); n->b[0] = block(depth + 1, inloop, sub); P(";"); break;
  case IFE: P("if c() "); n->b[0] = nop(depth + 1, inloop); P(" else "); n->b[1] = block(depth + 1, inloop, sub); P(";"); break;
  case IFEE: P("if c() "); n->b[0] = nop(depth + 1, inloop); P(" elseif c() "); n->b[1] = block(depth + 1, inloop, sub); P(";"); n->b[2] = -1; break;
  case IFEL: P("if c() "); n->b[0] = nop(depth + 1, inloop); P(" elseif c() "); n->b[1] = block(depth + 1, inloop, sub); P(" else { m(77); };"); break;
  case WHILE: P("while c() "); n->b[0] = block(depth + 1, 1, sub); P(";"); break;
  case FOR: P1("for let i", depth, " = 0; "); P1("i", depth, " < 3 && c(); "); P1("i", depth, " += 1 "); n->b[0] = block(depth + 1, 1, sub); P(";"); break;
  case FORL: P1("for x", depth, " <- [11, 12, 13] "); n->b[0] = block(depth + 1, 1, sub); P(";"); break;
  case FORS: P1("for x", depth, " <- 'pq' "); n->b[0] = block(depth + 1, 1, sub); P(";"); break;
  default: P1("for x", depth, " <- {21: 1} "); n->b[0] = block(depth + 1, 1, sub); P(";"); break;
  }
  return id;
}
// reference semantics
static int64_t retv; static int ebp; enum { GO, SBRK, SCONT, SRET };
static bool C(void) { bool b = ebp < NB ? vp_concrete(bits[ebp] & 1) : false; ebp++; return b; }
static void L(int64_t v) { VP_CHECK(ne < 4000, "model terminates"); elog[ne++] = v; }
static int ex(int id);
static int64_t fsv[4000]; static int nfs;
static int xb(int id) { int slot = 0; if (clos) slot = nfs++; int64_t a = 100 * nodes[id].d; if (clos) fsv[slot] = a + 1; int r = ex(id); if (r != GO) return r; L(a + (clos ? 1 : 0)); if (clos) fsv[slot] += 7; return GO; }
static int xn(int id) { int r = ex(id); if (r != GO) return r; L(50 + nodes[id].d); return GO; }
static int ex(int id) {
  N *n = &nodes[id]; int r;
  switch (n->k) {
  case LOG: L(n->d + 1); return GO;
  case NOP: return GO;
  case BRK: return SBRK;
  case CONT: return SCONT;
  case RET: retv = n->d + 40; return SRET;
  case IF: return C() ? xb(n->b[0]) : GO;
  case IFE: return C() ? xn(n->b[0]) : xb(n->b[1]);
  case IFEE: if (C()) return xn(n->b[0]); return C() ? xb(n->b[1]) : GO;
  case IFEL: if (C()) return xn(n->b[0]); if (C()) return xb(n->b[1]); L(77); return GO;
  case WHILE: while (C()) { r = xb(n->b[0]); if (r == SBRK) break; if (r == SRET) return r; } return GO;
  case FOR: for (int i = 0; i < 3 && C(); i++) { r = xb(n->b[0]); if (r == SBRK) break; if (r == SRET) return r; } return GO;
  default: for (int i = 0; i < (n->k == FORL ? 3 : n->k == FORS ? 2 : 1); i++) { r = xb(n->b[0]); if (r == SBRK) break; if (r == SRET) return r; } return GO;
  }
}
void vp_main(void) {
  unsigned sh = vp_shard(44), ctx = sh % 4, k0 = sh / 4; static const int kk[] = {IF, IFE, IFEE, IFEL, WHILE, FOR, FORL, FORS, FORT, WHILE, FORL};
  fnctx = ctx != 0; clos = ctx == 2; w = src; P("let o1 = 31; let o2 = 32; ");
  if (fnctx) P("let f = fn(p) { let q = 5; ");
  int outer = -1; if (k0 >= 9) { outer = k0; P(k0 == 9 ? "for z <- [1, 2] { let h = 9; " : "for let z = 1; z < 3; z += 1 { "); }
  int root = stmt(0, k0 >= 9, kk[k0] * 16 + (VP_TIER == 1 ? 2 : 3)); if (outer == 9) P(" m(z); m(h); }; "); if (outer == 10) P(" m(z); }; ");
  if (fnctx) { P(" m(q); m(p); return 3; }; "); if (ctx == 3) P("for y <- [61, 62] { r = 1000 + [1, 2, f(8)][2] * 2; m(y); m(r); }; "); else P("r = f(8); "); }
  P("m(o1); m(o2); let o3 = 33; m(o3); "); if (clos) P("for g <- fs { m(g()); }; "); P("q = 1;");
  YS *S = h_new(src); for (int i = 0; i < NB; i++) bits[i] = vp_u8() & 1; h_gfn(S, "c", c_, 0); h_gfn(S, "m", m_, 1); h_out(S, "r"); h_gint(S, "q", 0); YASL_declglobal(S, "fs"); YASL_pushlist(S); YASL_setglobal(S, "fs");
  VP_CHECK(h_run(S) == 0, "runs without error"); h_is_int(S, "q", 1, "runs to the end");
  int64_t lastr = 0;
  for (int t = 0; t < (ctx == 3 ? 2 : 1); t++) {
    int r = GO; for (int z = 1; z <= (outer < 0 ? 1 : 2); z++) { r = ex(root); if (r == SRET) break; if (outer >= 0 && r == SBRK) { r = GO; break; } if (outer >= 0 && r == SCONT) continue; if (outer >= 0) L(z); if (outer == 9) L(9); }
    if (fnctx) { if (r != SRET) { L(5); L(8); retv = 3; } lastr = retv; if (ctx == 3) { lastr = 1000 + 2 * retv; L(61 + t); L(lastr); } }
  }
  L(31); L(32); L(33); if (clos) for (int i = 0; i < nfs; i++) L(fsv[i]);
  if (fnctx) h_is_int(S, "r", lastr, "returned value");
  VP_CHECK(bp == ebp, "conditions evaluated as often as prescribed"); VP_CHECK(nl == ne, "statements executed as often as prescribed"); bool same = true; for (int i = 0; i < ne && i < nl; i++) { same &= logv[i] == elog[i]; vp_observe(logv[i]); } VP_CHECK(same, "statements executed in the prescribed order with the right values");
  vp_reach("ran"); h_end(S);
}
