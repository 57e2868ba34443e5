// vp: shards=26 quick=50 thorough=900
// bounds: every sequence of 3 (thorough 4) of 26 API operations (each push, pop, typed pop, duptop, len, list get and push, table set and iteration, globals, named metatables, calls) on a stack that starts with a table, a list and any of the ten kinds of value, compared with a model of the stack; afterwards every predicate, peek and conversion is asked about each value from the top down; ints, floats, bools, str bytes and user pointers are symbolic
// outside: operations the documentation gives no meaning on the value they meet (len of an int, list get out of range: an error thrown outside a run), more than 1024 values
#include "h.h"
void *YASL_peekuserdata(YS *); void *YASL_peekuserptr(YS *); bool YASL_isuserptr(YS *);
enum { MU, MI, MF, MB, MS, ML, MT, MC, MD, MP, NM };
typedef struct { int k; int64_t i; double f; char s[4]; int n; int obj; } MV;
typedef struct { MV e[8], key[8]; int n; bool own; } MO;
static MV st[24]; static int sp; static MO ob[12]; static int nob; static MV glob; static bool hasglob, hasmt; static MV mt;
static YS *S; static const char tagA[] = "tag A", tagB[] = "tag B"; static int del; static int data[16]; static int ndata;
static void destroy(void *p) { (void)p; del++; }
static MV val(int k) { MV v; memset(&v, 0, sizeof v); v.k = k; return v; }
static int two(YS *T) { YASL_pushint(T, 11); YASL_pushint(T, 22); return 2; }
static int diff(YS *T) { yasl_int b = YASL_popint(T); yasl_int a = YASL_popint(T); YASL_pushint(T, (int64_t)((uint64_t)a - (uint64_t)b)); return 1; }
static void push(MV v) { st[sp++] = v; }
static MV fresh(int k) { // pushes a value of kind k on both stacks
  MV v = val(k); static char z[4];
  switch (k) {
  case MU: YASL_pushundef(S); break; case MI: v.i = vp_i64(); YASL_pushint(S, v.i); break; case MF: v.f = vp_f64(); YASL_pushfloat(S, v.f); break; case MB: v.i = vp_u8() & 1; YASL_pushbool(S, v.i); break;
  case MS: v.n = vp_choose(3); vp_sym_bytes(v.s, v.n); memcpy(z, v.s, 4); YASL_pushlstr(S, z, v.n); memset(z, '!', 4); break;
  case ML: YASL_pushlist(S); v.obj = nob++; ob[v.obj].n = 0; ob[v.obj].own = false; break; case MT: YASL_pushtable(S); v.obj = nob++; ob[v.obj].n = 0; ob[v.obj].own = false; break; case MC: YASL_pushcfunction(S, two, 0); break;
  case MD: v.i = ndata++; v.n = (int)vp_choose(2); YASL_pushuserdata(S, data + v.i, v.n ? tagB : tagA, destroy); break; default: v.i = vp_i64(); YASL_pushuserptr(S, (void *)v.i); }
  push(v); return v;
}
static void verify(MV v, int depth) { // the value on top of the stack is v; it stays there
  static const char *const tn[] = {"undef", "int", "float", "bool", "str", "list", "table", "fn"};
  VP_CHECK(YASL_isundef(S) == (v.k == MU), "isundef"); VP_CHECK(YASL_isint(S) == (v.k == MI), "isint"); VP_CHECK(YASL_isfloat(S) == (v.k == MF), "isfloat"); VP_CHECK(YASL_isbool(S) == (v.k == MB), "isbool"); VP_CHECK(YASL_isstr(S) == (v.k == MS), "isstr");
  VP_CHECK(YASL_islist(S) == (v.k == ML), "islist"); VP_CHECK(YASL_istable(S) == (v.k == MT), "istable"); VP_CHECK(YASL_isuserptr(S) == (v.k == MP), "isuserptr"); VP_CHECK(YASL_isuserdata(S, tagA) == (v.k == MD && !v.n), "isuserdata"); VP_CHECK(YASL_isuserdata(S, tagB) == (v.k == MD && v.n), "isuserdata");
  VP_CHECK(YASL_peekint(S) == (v.k == MI ? v.i : 0), "peekint"); VP_CHECK(h_feq(YASL_peekfloat(S), v.k == MF ? v.f : 0.0), "peekfloat"); VP_CHECK(YASL_peekbool(S) == (v.k == MB && v.i), "peekbool");
  VP_CHECK(YASL_peekuserdata(S) == (v.k == MD ? (void *)(data + v.i) : NULL), "peekuserdata"); VP_CHECK(YASL_peekuserptr(S) == (v.k == MP ? (void *)v.i : NULL), "peekuserptr");
  VP_CHECK(strcmp(YASL_peektypename(S), v.k == MD ? v.n ? "tag B" : "tag A" : v.k == MP ? "userptr" : tn[v.k]) == 0, "peektypename");
  char *c = YASL_peekcstr(S); VP_CHECK((c != NULL) == (v.k == MS), "peekcstr"); if (c) { VP_CHECK(memcmp(c, v.s, v.n) == 0 && c[v.n] == 0, "the bytes of a str"); free(c); }
  vp_observe(v.k); if (v.k == MI) vp_observe(v.i);
  if (v.k == MS || ((v.k == ML || v.k == MT) && !ob[v.obj].own)) { YASL_duptop(S); YASL_len(S); VP_CHECK(YASL_isint(S), "len is an int"); VP_CHECK(YASL_popint(S) == (v.k == MS ? v.n : ob[v.obj].n), "len"); }
  if (depth > 2) return;
  if (v.k == ML) for (int j = 0; j < ob[v.obj].n; j++) { VP_CHECK(YASL_listget(S, j) == YASL_SUCCESS, "list get"); verify(ob[v.obj].e[j], depth + 1); YASL_pop(S); }
  if (v.k == MT) { int cnt = 0; YASL_pushundef(S); while (YASL_tablenext(S)) { VP_CHECK(++cnt <= ob[v.obj].n, "no more pairs than the table has"); YASL_duptop(S); YASL_pop(S);
      MV kv = val(MU), *w = NULL; YASL_pop(S); if (YASL_isint(S)) { kv.k = MI; kv.i = YASL_peekint(S); } else if (YASL_isbool(S)) { kv.k = MB; kv.i = YASL_peekbool(S); } else { VP_CHECK(YASL_isuserptr(S), "kind of key"); kv.k = MP; }
      for (int j = 0; j < ob[v.obj].n; j++) if (ob[v.obj].key[j].k == kv.k && ob[v.obj].key[j].i == kv.i) w = &ob[v.obj].e[j];
      VP_CHECK(w != NULL, "the key is one of the table's"); (void)w; }
    VP_CHECK(cnt == ob[v.obj].n, "every pair is visited"); }
}
static void skip_unless(bool c) { if (!c) vp_skip(); }
static void step(int op) {
  MV v, w;
  switch (op) {
  case 10: skip_unless(sp > 1); YASL_pop(S); sp--; break;
  case 11: skip_unless(sp > 1); v = st[--sp]; VP_CHECK(YASL_popint(S) == (v.k == MI ? v.i : 0), "popint"); break;
  case 12: skip_unless(sp > 1); v = st[--sp]; VP_CHECK(h_feq(YASL_popfloat(S), v.k == MF ? v.f : 0.0), "popfloat"); break;
  case 13: skip_unless(sp > 1); v = st[--sp]; VP_CHECK(YASL_popbool(S) == (v.k == MB && v.i), "popbool"); break;
  case 14: { skip_unless(sp > 1); v = st[--sp]; char *c = YASL_popcstr(S); VP_CHECK((c != NULL) == (v.k == MS), "popcstr"); if (c) VP_CHECK(memcmp(c, v.s, v.n) == 0 && !c[v.n], "popcstr"); free(c); break; }
  case 15: YASL_duptop(S); push(st[sp - 1]); break;
  case 16: skip_unless(st[sp - 1].k == MS || st[sp - 1].k == ML || st[sp - 1].k == MT); v = st[sp - 1]; skip_unless(v.k == MS || !ob[v.obj].own); YASL_len(S); v = st[--sp]; w = val(MI); w.i = v.k == MS ? v.n : ob[v.obj].n; push(w); break;
  case 17: v = st[sp - 1]; if (v.k == ML) { skip_unless(ob[v.obj].n > 0); int j = (int)vp_choose(ob[v.obj].n), neg = (int)vp_choose(2); VP_CHECK(YASL_listget(S, neg ? j - ob[v.obj].n : j) == YASL_SUCCESS, "list get"); push(ob[v.obj].e[j]); } else VP_CHECK(YASL_listget(S, 0) != YASL_SUCCESS, "list get of something else"); break;
  case 18: { skip_unless(sp > 2); v = st[--sp]; w = st[sp - 1]; skip_unless(!(v.k == ML || v.k == MT) || v.obj > w.obj); int rc = YASL_listpush(S); if (w.k == ML) { VP_CHECK(rc == YASL_SUCCESS, "list push"); ob[w.obj].e[ob[w.obj].n++] = v; } else VP_CHECK(rc != YASL_SUCCESS, "list push onto something else"); break; }
  case 19: { // table set with a concrete key
    static const int keys[] = {0, 1, 5}; skip_unless(sp > 1); v = st[--sp]; w = st[sp - 1]; skip_unless(w.k == MT && (!(v.k == ML || v.k == MT) || v.obj > w.obj)); MV key = val(vp_choose(2) ? MB : MI); if (key.k == MI) key.i = keys[vp_choose(3)]; else key.i = 1;
    YASL_pop(S); // put the key below the value
    if (key.k == MI) YASL_pushint(S, key.i); else YASL_pushbool(S, key.i);
    switch (v.k) { case MU: YASL_pushundef(S); break; case MI: YASL_pushint(S, v.i); break; case MF: YASL_pushfloat(S, v.f); break; case MB: YASL_pushbool(S, v.i); break; case MS: YASL_pushlstr(S, v.s, v.n); break; default: vp_skip(); }
    VP_CHECK(YASL_tableset(S) == YASL_SUCCESS, "table set"); MO *o = &ob[w.obj]; int j = 0; while (j < o->n && !(o->key[j].k == key.k && o->key[j].i == key.i)) j++;
    if (v.k == MU) { if (j < o->n) { o->n--; o->key[j] = o->key[o->n]; o->e[j] = o->e[o->n]; } } else { o->key[j] = key; o->e[j] = v; if (j == o->n) o->n++; } break; }
  case 20: { // a value of a table: the pair comes back key below value
    v = st[sp - 1]; skip_unless(v.k == MT && ob[v.obj].n == 1); YASL_pushundef(S); VP_CHECK(YASL_tablenext(S), "there is a pair"); push(ob[v.obj].key[0]); push(ob[v.obj].e[0]); break; }
  case 21: skip_unless(sp > 1); VP_CHECK(YASL_setglobal(S, "g") == YASL_SUCCESS, "set global"); glob = st[--sp]; hasglob = true; break;
  case 22: skip_unless(hasglob); VP_CHECK(YASL_loadglobal(S, "g") == YASL_SUCCESS, "load global"); push(glob); VP_CHECK(YASL_loadglobal(S, "no such global") != YASL_SUCCESS, "load of an unknown global fails and pushes nothing"); VP_CHECK(YASL_setglobal(S, "no such global") != YASL_SUCCESS, "set of an undeclared global fails and pops nothing"); break;
  case 23: { // metatables by name, set on the value below
    skip_unless(sp > 1); v = st[--sp]; w = st[sp - 1]; bool can = w.k == ML || w.k == MT || w.k == MD; skip_unless(!(can && v.k == MT && w.k != MD && v.obj <= w.obj)); // no cycles
    if (v.k == MT) { YASL_registermt(S, "my mt"); VP_CHECK(YASL_loadmt(S, "my mt") == YASL_SUCCESS, "load a registered metatable"); VP_CHECK(YASL_istable(S), "it is the table"); VP_CHECK((YASL_setmt(S) == YASL_SUCCESS) == can, "metatables can be set on lists, tables and userdata"); if (can && w.k != MD) ob[w.obj].own = true; }
    else if (v.k == MU) { VP_CHECK((YASL_setmt(S) == YASL_SUCCESS) == can, "undef removes the metatable"); if (can && w.k != MD) ob[w.obj].own = true; }
    else { VP_CHECK(YASL_setmt(S) == YASL_TYPE_ERROR, "only a table is a metatable"); YASL_pop(S); VP_CHECK(YASL_loadmt(S, "another") != YASL_SUCCESS, "an unknown metatable"); } break; }
  case 24: { // call with arguments below the result
    YASL_pushcfunction(S, diff, 2); int64_t a = vp_i64(), b = vp_i64(); YASL_pushint(S, a); YASL_pushint(S, b); int n = YASL_functioncall(S, 2); VP_CHECK(n == 1, "one result"); w = val(MI); w.i = (int64_t)((uint64_t)a - (uint64_t)b); push(w); break; }
  case 25: { YASL_pushcfunction(S, two, 0); int n = YASL_functioncall(S, 0); VP_CHECK(n == 2, "two results"); w = val(MI); w.i = 11; push(w); w.i = 22; push(w); break; }
  default: fresh(op); }
}
void vp_main(void) {
  int op = (int)vp_shard(26); S = h_new("x = 1;"); nob = sp = ndata = del = 0; hasglob = false; YASL_declglobal(S, "g"); h_out(S, "x");
  YASL_pushint(S, 4711); MV v = val(MI); v.i = 4711; push(v); fresh(MT); fresh(ML); int k = (int)vp_choose(NM); fresh(k);
  step(op); for (int i = 1; i < (VP_TIER > 1 ? 4 : 3); i++) step((int)vp_choose(26));
  while (sp > 0) { verify(st[sp - 1], 0); YASL_pop(S); sp--; }
  h_run(S); VP_CHECK(h_rc == YASL_SUCCESS, "a program still runs"); h_is_int(S, "x", 1, "and has its effect"); vp_reach("stack operations"); h_end(S); VP_CHECK(del == ndata, "every userdata is destroyed once");
}
