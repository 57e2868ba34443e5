// vp: shards=42 shards2=72 quick=60 thorough=900
// bounds: every sequence of 4 (thorough 6) declarations (let or const, one or two at once, initialised from an outer variable of that name where there is one), assignments, uses and nested scopes (if, while, for over a list, stepped for, function with a parameter, match arm with a binding, comprehension) over two names, one of which may also be a global of the host; the values are arbitrary ints
// outside: deeper nestings and longer programs
#include "h.h"
#define K (VP_TIER == 1 ? 4 : 6)
typedef struct { int name, lvl; bool cst; int64_t v; } V;
static V vars[40]; static int nv, lvl; static int64_t sv[12], gval; static int ns; static int64_t gstart; static bool glob, bad; static char src[4000], *w; static int64_t elog[80], logv[80]; static int ne, nl; static char snames[12][4];
static const char *NM[] = {"a", "b"};
static int m_(YS *S) { if (nl < 80) logv[nl] = YASL_isint(S) ? YASL_peekint(S) : -1; nl++; YASL_pushundef(S); return 1; }
static void P(const char *s) { w = put(w, s); }
static void S3(const char *a, const char *b, const char *c) { P(a); P(b); P(c); }
static int find(int n) { for (int i = nv - 1; i >= 0; i--) if (vars[i].name == n) return i; return -1; }
static bool inscope(int n) { for (int i = nv - 1; i >= 0 && vars[i].lvl == lvl; i--) if (vars[i].name == n) return true; return false; }
static int fresh(void) { snames[ns][0] = 's'; snames[ns][1] = '0' + ns; return ns++; }
static void decl(int n, bool c, int64_t v) { if (inscope(n)) { bad = true; return; } V x = {n, lvl, c, v}; vars[nv++] = x; }
static bool value(int n, int64_t *v) { int i = find(n); if (i >= 0) *v = vars[i].v; else if (n == 0 && glob) *v = gval; else return false; return true; }
static void use(int n) { S3("m(", NM[n], "); "); int64_t v; if (value(n, &v)) elog[ne++] = v; else bad = true; }
static void useall(void) { for (int n = 0; n < 2; n++) { int64_t v; if (value(n, &v)) use(n); } }
typedef struct { int kind, base; char name[3]; int arg; } Sc;
static Sc st[8]; static int depth; static int fid;
static void open(int kind, int n) {
  Sc *s = &st[depth++]; s->kind = kind; s->base = nv; int i = fresh(); s->arg = i; lvl++;
  switch (kind) {
  case 0: P("if true { "); break;
  case 1: S3("while tick(", snames[i] + 1, ") { "); break;
  case 2: S3("for ", NM[n], " <- ["); S3(snames[i], "", "] { "); decl(n, false, sv[i]); lvl++; break;
  case 3: S3("for let ", NM[n], " = "); S3(snames[i], "; tick(", snames[i] + 1); P("); undef_() { "); decl(n, false, sv[i]); lvl++; break;
  case 4: s->name[0] = 'f'; s->name[1] = '0' + fid++; S3("let ", s->name, " = fn("); S3(depth % 2 ? "" : "const ", NM[n], ") { "); decl(n, depth % 2 ? false : true, sv[i]); break;
  default: S3("match ", snames[i], " {\n"); S3(depth % 2 ? "let " : "const ", NM[n], " { "); decl(n, depth % 2 ? false : true, sv[i]); break;
  }
  if (depth <= 2 && nv > s->base) use(n);
}
static void close_(void) {
  if (depth <= 2) useall(); Sc *s = &st[--depth]; nv = s->base;
  switch (s->kind) { case 2: case 3: lvl--; P("}; "); break; case 4: P("}; "); S3(s->name, "(", snames[s->arg]); P("); "); break; case 5: P("}\n}; "); break; default: P("}; "); }
  lvl--;
}
static int ticks[12]; static int tick(YS *S) { int i = (int)YASL_peekint(S); if (i == 12) i = 10; YASL_pushbool(S, ticks[i]++ == 0); return 1; }
void vp_main(void) {
  unsigned sh = vp_shard(VP_TIER == 1 ? 42 : 72); int kinds[2] = {(int)(sh % 6), (int)(VP_TIER == 1 && sh >= 36 ? sh - 36 : sh / 6 % 6)}; glob = sh >= 36; w = src; P("m(0 - 1); "); elog[ne++] = -1; for (int i = 0; i < 12; i++) sv[i] = vp_i64(); gstart = gval = vp_i64(); lvl = 1;
  for (int k = 0; k < K && !bad; k++) {
    unsigned op = vp_choose(depth ? 12 : 11);
    if (k == K - 1 && op >= 8 && op <= 9) vp_skip(); // an empty scope
    if (op < 4) { int n = op & 1; bool c = op >= 2; int i = fresh(); int64_t o; bool vis = value(n, &o); S3(c ? "const " : "let ", NM[n], " = "); if (vis) S3(NM[n], " + ", ""); S3(snames[i], "; ", ""); decl(n, c, vis ? (int64_t)((uint64_t)sv[i] + (uint64_t)o) : sv[i]); }
    else if (op < 6) { int n = op - 4; int i = fresh(); S3(NM[n], " = ", snames[i]); P("; "); int x = find(n); if (x >= 0) { if (vars[x].cst) bad = true; else vars[x].v = sv[i]; } else if (n == 0 && glob) gval = sv[i]; else bad = true; if (!bad) use(n); }
    else if (op < 8) { int64_t v; if (value(op - 6, &v)) vp_skip(); use(op - 6); }
    else if (op < 10) { if (depth >= 3 || (op == 9 && kinds[depth & 1] < 2)) vp_skip(); open(kinds[depth & 1], op - 8); }
    else if (op == 10) { int i = fresh(), j = fresh(); P("let a, const b = "); S3(snames[i], ", ", snames[j]); P("; "); decl(0, false, sv[i]); decl(1, true, sv[j]); }
    else close_();
  }
  while (depth) close_(); useall(); P("[m(a) for a <- [7]]; "); elog[ne++] = 7; useall(); P("q = 1;");
  YS *S = h_new(src); h_gfn(S, "m", m_, 1); h_gfn(S, "tick", tick, 1); h_gfn(S, "undef_", h_nop, 0); h_gint(S, "q", 0);
  for (int i = 0; i < ns; i++) h_gint(S, snames[i], sv[i]); if (glob) h_gint(S, "a", gstart);
  h_run(S);
  if (bad) { VP_CHECK(h_rc == YASL_SYNTAX_ERROR, "redeclaration, assignment to a constant or unknown name is a syntax error"); VP_CHECK(nl == 0, "a rejected program runs nothing"); h_is_int(S, "q", 0, "a rejected program runs nothing"); vp_reach("rejected"); }
  else { VP_CHECK(h_rc == 0, "a valid program runs"); h_is_int(S, "q", 1, "runs to the end"); VP_CHECK(nl == ne, "uses executed"); bool same = true; for (int i = 0; i < ne; i++) { same &= logv[i] == elog[i]; vp_observe(logv[i]); } VP_CHECK(same, "a name denotes the innermost variable of that name"); if (glob) h_is_int(S, "a", gval, "the global keeps its own value"); vp_reach("ran"); }
  h_end(S);
}
