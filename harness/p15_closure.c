// vp: shards=30 shards2=60 quick=60 thorough=900
// bounds: every sequence of 4 (thorough 6) declarations, assignments, creations of closures (6 kinds: reading and writing one or two captured variables, nested once or twice, capturing through a function that does not use the variable, capturing the creating closure's own local or parameter), calls of the newest closure and nested scopes (block, loop over a list, while loop left by break, function called twice, recursive function), at top level and within a function, starting inside one such scope; afterwards every closure is called twice; the values are arbitrary ints
// outside: more than 5 variables; deeper nesting
#include "h.h"
#define K (VP_TIER == 1 ? 4 : 6)
enum { DECL, ASG, CLO, CALL, SC, USE };
typedef struct { int k, x, y, kind, next, body, s; } St;
static St st[64]; static int nst; static int64_t sv[24]; static int ns; static char sn[24][4]; static char src[8000], *w;
typedef struct Env { int name; int64_t *cell; struct Env *up; } Env;
static Env envs[600]; static int nenv; static int64_t cells[600]; static int ncell; typedef struct { int kind; int x, y; Env *e; int64_t z; int64_t *zc; } Clo; static Clo clos[300]; static int nclo, ninit;
static int64_t elog[600], logv[600]; static int ne, nl, dead;
static int m_(YS *S) { VP_CHECK(nl < 600, "terminates"); logv[nl++] = YASL_isint(S) ? YASL_peekint(S) : -77; YASL_pushundef(S); return 1; }
static void P(const char *s) { w = put(w, s); }
static void V(int n) { char t[3] = {'x', (char)('0' + n), 0}; P(t); }
static void F(const char *f, int x, int y) { for (; *f; f++) { if (*f == 'X') V(x); else if (*f == 'Y') V(y); else { *w++ = *f; *w = 0; } } }
static int fresh(void) { int i = ns++; sn[i][0] = 's'; sn[i][1] = 'a' + i; return i; }
static const char *CL[] = {"fn() { X += 3; m(X); }", "fn() { X += 5; Y += X; m(Y); }", "fn() { X += 1; fs->push(fn() { X += 10; m(X); }); }", "fn() { fs->push(fn() { X += 100; m(X); m(Y); }); }", "fn() { let z = X; fs->push(fn() { z += 1; m(z); X = z; }); z += 2; X += 2; }", "fn(z) { fs->push(fn() { z = 7; m(X); m(z); }); fs->push(fn() { m(z); z = Y; }); }"};
static Env *bind(Env *up, int name, int64_t v) { Env *e = &envs[nenv++]; e->name = name; e->cell = &cells[ncell++]; *e->cell = v; e->up = up; return e; }
static int64_t *cell(Env *e, int n) { while (e->name != n) e = e->up; return e->cell; }
static void addz(int64_t *c, int64_t v) { *c = (int64_t)((uint64_t)*c + (uint64_t)v); }
static void mk(int kind, int x, int y, Env *e, int64_t *zc) { VP_CHECK(nclo < 300, "model bound"); Clo c = {kind, x, y, e, 0, zc}; clos[nclo++] = c; }
static void L(int64_t v) { elog[ne++] = v; }
static void callc(int i) {
  Clo c = clos[i]; if (c.kind == 0) { addz(cell(c.e, c.x), 3); L(*cell(c.e, c.x)); } else if (c.kind == 1) { addz(cell(c.e, c.x), 5); addz(cell(c.e, c.y), *cell(c.e, c.x)); L(*cell(c.e, c.y)); } else if (c.kind == 2) { addz(cell(c.e, c.x), 1); mk(12, c.x, c.y, c.e, 0); }
  else if (c.kind == 3) mk(13, c.x, c.y, c.e, 0); else if (c.kind == 4) { int64_t *z = &cells[ncell++]; *z = *cell(c.e, c.x); mk(14, c.x, c.y, c.e, z); addz(z, 2); addz(cell(c.e, c.x), 2); } else if (c.kind == 5) { int64_t *z = &cells[ncell++]; *z = 50; mk(15, c.x, c.y, c.e, z); mk(16, c.x, c.y, c.e, z); }
  else if (c.kind == 12) { addz(cell(c.e, c.x), 10); L(*cell(c.e, c.x)); } else if (c.kind == 13) { addz(cell(c.e, c.x), 100); L(*cell(c.e, c.x)); L(*cell(c.e, c.y)); } else if (c.kind == 14) { addz(c.zc, 1); L(*c.zc); *cell(c.e, c.x) = *c.zc; }
  else if (c.kind == 15) { *c.zc = 7; L(*cell(c.e, c.x)); L(7); } else if (c.kind == 16) { L(*c.zc); *c.zc = *cell(c.e, c.y); }
}
static Env *run(int i, Env *e);
static void block(int i, Env *e) { run(i, e); }
static Env *run(int i, Env *e) {
  for (; i >= 0; i = st[i].next) { St *s = &st[i]; switch (s->k) {
    case DECL: e = bind(e, s->x, sv[s->s]); break;
    case ASG: *cell(e, s->x) = sv[s->s]; break;
    case USE: L(*cell(e, s->x)); break;
    case CLO: mk(s->kind, s->x, s->y, e, 0); break;
    case CALL: if (nclo) callc(nclo - 1); break;
    default:
      if (s->kind == 0) block(s->body, e);
      else if (s->kind == 1) { Env *b = bind(e, s->x, sv[s->s]); block(s->body, b); *b->cell = 21; block(s->body, b); }
      else if (s->kind == 2) { Env *o = e; for (int t = 0; t < 2; t++) { o = bind(e, s->x, sv[s->s]); run(s->body, o); } }
      else if (s->kind == 3) { block(s->body, bind(e, s->x, sv[s->s])); block(s->body, bind(e, s->x, 22)); }
      else { Env *a = bind(e, s->x, sv[s->s]); block(s->body, a); Env *b = bind(e, s->x, (int64_t)((uint64_t)*a->cell + 1)); block(s->body, b); L(*b->cell); L(*a->cell); }
    } }
  return e;
}
static int vis[8], nvis, nname; static int ostack[6], onv[6], depth; static int *tail, *tails[6];
static int add(int k, int x, int y, int kind, int s) { int i = nst++; st[i].k = k; st[i].x = x; st[i].y = y; st[i].kind = kind; st[i].s = s; st[i].next = -1; st[i].body = -1; *tail = i; tail = &st[i].next; return i; }
static int nm(int i) { return vis[nvis - 1 - i]; }
static void declv(void) { int n = nname++, s = fresh(); F("let X = ", n, 0); P(sn[s]); P("; "); add(DECL, n, 0, 0, s); vis[nvis++] = n; }
static bool cyc; // a recursive function holds itself: a reference cycle
static void open(int kind) {
  int n = nname++, s = kind == 0 ? 0 : fresh(); int i = add(SC, n, 0, kind, s); onv[depth] = nvis; ostack[depth] = i; tails[depth] = tail; tail = &st[i].body; depth++;
  switch (kind) {
  case 0: P("if true { "); break;
  case 1: F("for X <- [", n, 0); P(sn[s]); P(", 21] { "); vis[nvis++] = n; break;
  case 2: F("for let c = 0; c < 5; c += 1 { let X = ", n, 0); P(sn[s]); P("; "); vis[nvis++] = n; break;
  case 3: { char f[3] = {'f', (char)('a' + i), 0}; P("let "); P(f); F(" = fn(X) { ", n, 0); vis[nvis++] = n; break; }
  default: { cyc = true; char f[3] = {'g', (char)('a' + i), 0}; P("fn "); P(f); F("(X, n) { ", n, 0); vis[nvis++] = n; break; }
  }
}
static void close_(void) {
  depth--; int i = ostack[depth]; St *s = &st[i]; nvis = onv[depth]; tail = tails[depth]; char f[3] = {s->kind == 3 ? 'f' : 'g', (char)('a' + i), 0};
  switch (s->kind) {
  case 2: P("if c == 1 { break; }; }; "); break;
  case 3: P("}; "); P(f); P("("); P(sn[s->s]); P("); "); P(f); P("(22); "); break;
  case 4: P("if n > 0 { "); P(f); F("(X + 1, n - 1); }; m(X); }; ", s->x, 0); P(f); P("("); P(sn[s->s]); P(", 1); "); break;
  default: P("}; "); }
}
void vp_main(void) {
  unsigned sh = vp_shard(VP_TIER == 1 ? 30 : 60); int A = sh % 5, B = sh / 5 % 6, C = (B + 1 + (A & 1)) % 6; bool infn = VP_TIER == 1 ? (A + B) & 1 : sh >= 30; for (int i = 0; i < 24; i++) sv[i] = vp_i64(); int root = -1; tail = &root; w = src;
  if (infn) P("const main = fn() { let dummy = 1; "); declv(); open(A); if (A == 0) declv();
  for (int k = 0; k < K; k++) {
    unsigned op = vp_choose(8);
    switch (op) {
    case 0: if (nname >= 5 || k == K - 1) vp_skip(); declv(); break;
    case 1: case 2: { if (k == 0 || nvis < 2 || (VP_TIER == 1 && (op & 1) != (k & 1))) vp_skip(); int s = fresh(), n = nm(op - 1); F("X = ", n, 0); P(sn[s]); P("; "); add(ASG, n, 0, 0, s); break; }
    case 3: case 4: { int kind = op == 3 ? B : C, x = nm(0), y = nvis > 1 ? nm(1) : x; P("fs->push("); F(CL[kind], x, y); P("); "); add(CLO, x, y, kind, 0); break; }
    case 5: if (k == 0) vp_skip(); P("if len fs > 0 { fs[-1](50); }; "); add(CALL, 0, 0, 0, 0); break;
    case 6: if (depth >= 3 || nname >= 5 || k == K - 1) vp_skip(); open(VP_TIER == 1 ? (A + k) % 5 : A); break;
    default: if (depth < 1 || k == K - 1) vp_skip(); close_(); break;
    }
  }
  while (depth) { F("m(X); ", nm(0), 0); add(USE, nm(0), 0, 0, 0); close_(); }
  F("m(X); ", nm(0), 0); add(USE, nm(0), 0, 0, 0); if (infn) P("return 1; }; main(); "); P("let n = len fs; for let i = 0; i < n; i += 1 { fs[i](50); }; for let i = 0; i < n; i += 1 { fs[i](50); }; n = len fs; for let i = 0; i < n; i += 1 { fs[i](50); }; q = 1;");
  YS *S = h_new(src); h_gfn(S, "m", m_, 1); h_gint(S, "q", 0); for (int i = 0; i < ns; i++) h_gint(S, sn[i], sv[i]); YASL_declglobal(S, "fs"); YASL_pushlist(S); YASL_setglobal(S, "fs");
  VP_CHECK(h_run(S) == 0, "runs without error"); h_is_int(S, "q", 1, "runs to the end");
  run(root, 0); int n = nclo; for (int t = 0; t < 3; t++) { if (t == 2) n = nclo; for (int i = 0; i < n; i++) callc(i); }
  VP_CHECK(nl == ne, "the expected number of uses"); bool same = true; for (int i = 0; i < ne && i < nl; i++) { same &= logv[i] == elog[i]; vp_observe(logv[i]); } VP_CHECK(same, "a closure reads and writes the very variable it captured"); vp_reach("ran"); if (cyc) YASL_delstate(S); else h_end(S);
}
