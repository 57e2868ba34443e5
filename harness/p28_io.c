// vp: shards=51 quick=60 thorough=900
// bounds: one file, absent or with 5 bytes (one line end, one symbolic byte), opened in each of the 6 modes, then every sequence of 3 (thorough: 4) operations out of write (empty, two bytes, a line, a NUL byte and a symbolic byte, 40 bytes), read whole, read a line, flush, seek to 6 places, close, close and reopen in each mode, dropping the last reference; the file is then read back whole; wrong arguments of every method; the standard files by name
// outside: reading right after writing and writing right after reading without a seek, flush or whole read between (undefined in C); two open files with the same name; files of more than 100 bytes; failures of the disk
#include "h.h"
static YS *S; static char src[3000], *d; static void P(const char *s) { d = put(d, s); }
static uint8_t b0, b1; static char B0[2], B1[2];
static const char *const modes[] = {"r", "w", "a", "r+", "w+", "a+"};
static const char *const rn[] = {"r0", "r1", "r2", "r3", "r4", "r5"};
typedef struct { int k; int64_t i; uint8_t s[120]; size_t n; } Res; // k: 0 not reached 1 int 2 str 3 bool 4 undef
static Res res[6]; static int nres; static int fail; // status of the failing operation
static uint8_t con[200]; static size_t len, pos; static bool exists, isopen, everopen; static int mode, last; // last: 0 neutral 1 read 2 written
static bool canr(void) { return mode != 1 && mode != 2; } static bool canw(void) { return mode != 0; }
static void wr(const uint8_t *p, size_t n) { if (mode % 3 == 2) pos = len; for (size_t i = 0; i < n; i++) { while (len < pos) con[len++] = 0; con[pos++] = p[i]; if (pos > len) len = pos; } }
static void op_open(int m, Res *r) { mode = m; if (m % 3 == 0 && !exists) { isopen = false; r->k = 4; return; } if (m % 3 == 1) len = 0; exists = true; isopen = everopen = true; pos = 0; last = m == 5 ? 3 : 0; r->k = 3; r->i = 1; } // a+: the first position is up to the system
static void step(int i, int op, bool lastop) {
  Res *r = &res[i]; r->k = 0; P(rn[i]); P(" = "); bool ok = isopen; bool und = !isopen && mode < 0; // und: f is undef
  switch (op) {
  case 0: P("f->write('ab');"); if (ok) { if (last == 1) vp_skip(); r->k = 1; r->i = canw() ? 2 : 0; if (canw()) { wr((uint8_t *)"ab", 2); last = 2; } } break;
  case 1: P("f->write('x\\nyz\\n');"); if (ok) { if (last == 1) vp_skip(); r->k = 1; r->i = canw() ? 5 : 0; if (canw()) { wr((uint8_t *)"x\nyz\n", 5); last = 2; } } break;
  case 2: { P("f->write('\\x00' ~ b1);"); uint8_t t[2] = {0, b1}; if (ok) { if (last == 1) vp_skip(); r->k = 1; r->i = canw() ? 2 : 0; if (canw()) { wr(t, 2); last = 2; } } break; }
  case 3: P("f->write('0123456789012345678901234567890123456789');"); if (ok) { if (last == 1) vp_skip(); r->k = 1; r->i = canw() ? 40 : 0; if (canw()) { wr((uint8_t *)"0123456789012345678901234567890123456789", 40); last = 2; } } break;
  case 4: P("f->read('a');"); if (ok) { r->k = 2; r->n = 0; if (canr()) { for (size_t j = 0; j < len; j++) r->s[j] = con[j]; r->n = len; pos = len; } else pos = 0; last = 0; } break;
  case 5: case 6: P(op == 5 ? "f->read('l');" : "f->read();"); if (ok) { if (last >= 2) vp_skip(); r->k = 2; r->n = 0; bool eof = true; if (canr()) { while (pos < len) { uint8_t c = con[pos++]; if (c == '\n') { eof = false; break; } r->s[r->n++] = c; } last = eof ? 0 : 1; } } break;
  case 7: P("f->flush();"); if (ok) { r->k = 3; r->i = 1; if (last == 2) last = 0; } break;
  case 8: case 9: case 10: case 11: case 12: case 13: { static const char *const t[] = {"f->seek('set', 2);", "f->seek('cur', -1);", "f->seek('end', 0);", "f->seek('end', 3);", "f->seek('set', -1);", "f->seek();"}; P(t[op - 8]); if (ok) { if (last == 3 && op == 9) vp_skip(); int64_t np = op == 8 ? 2 : op == 9 ? (int64_t)pos - 1 : op == 10 ? (int64_t)len : op == 11 ? (int64_t)len + 3 : op == 12 ? -1 : 0; r->k = 3; r->i = np >= 0; if (np >= 0) { pos = np; last = 0; } else if (last == 2 || last == 1) last = last; } break; }
  case 14: P("f->close();"); if (ok) { r->k = 3; r->i = 1; isopen = false; } break;
  case 15: P("len [f]; f = undef;"); if (fail) break; r->k = 1; r->i = 1; isopen = false; mode = -1; return;
  default: { int m = op - 16; d = src + strlen(src); char *q = d; d -= strlen(rn[i]) + 3; P("f = undef; f = io.open('vpfile', '"); P(modes[m]); P("'); "); P(rn[i]); P(" = f != undef || undef;"); (void)q; isopen = false; if (fail) break; op_open(m, r); if (!isopen) mode = -1; return; } }
  if (!ok && !fail) fail = und ? YASL_VALUE_ERROR + 100 : YASL_VALUE_ERROR;
}
static void globals(void) { B0[0] = b0; B1[0] = b1; for (int i = 0; i < 6; i++) h_out(S, rn[i]); h_out(S, "f"); h_out(S, "all"); h_out(S, "q"); h_gstr(S, "b0", B0, 1); h_gstr(S, "b1", B1, 1); }
static void seq(int m, bool pre, int half) {
  int n = VP_TIER == 1 ? 3 : 4; d = src; *d = 0; len = pos = 0; exists = pre; isopen = false; mode = -1; last = 0; fail = 0; b0 = vp_u8(); b1 = vp_u8(); for (int i = 0; i < 6; i++) res[i].k = 0;
  if (pre) { P("let z = io.open('vpfile', 'w'); z->write('p\\n' ~ b0 ~ 'q\\n'); z->close(); "); uint8_t t[5] = {'p', '\n', b0, 'q', '\n'}; for (int i = 0; i < 5; i++) con[i] = t[i]; len = 5; }
  P("f = io.open('vpfile', '"); P(modes[m]); P("'); q = f == undef;"); Res r0; op_open(m, &r0); if (!isopen) mode = -1; bool opened = isopen;
  for (int i = 0; i < n && !fail; i++) { int op = (int)vp_choose(22); if (i == 0 && op % 4 != half) vp_skip(); if (VP_TIER == 1 && i == 1 && op >= 16 && op != 16 + (m + 2) % 6) vp_skip(); step(i, op, i == n - 1); if (fail) { res[i].k = 0; } }
  P(" f = undef; f = io.open('vpfile'); all = f == undef ? undef : f->read('a'); f = undef;");
  S = h_new(src); YASL_decllib_io(S); globals(); int st = h_run(S);
  h_is_bool(S, "q", !opened, "a file that cannot be opened is undef");
  for (int i = 0; i < n; i++) { Res *r = &res[i]; if (r->k == 1) h_is_int(S, rn[i], r->i, "bytes written"); else if (r->k == 2) h_is_str(S, rn[i], (char *)r->s, r->n, "the bytes of the file"); else if (r->k == 3) h_is_bool(S, rn[i], r->i, "success"); else if (r->k == 4) h_is_undef(S, rn[i], "undef for a missing file"); }
  if (fail) { VP_CHECK(fail > 100 ? st != YASL_SUCCESS : st == YASL_VALUE_ERROR, "a closed file is an error"); vp_reach("closed"); }
  else { VP_CHECK(st == YASL_SUCCESS, "runs to the end"); if (exists) h_is_str(S, "all", (char *)con, len, "what was written is read back"); else h_is_undef(S, "all", "no file"); VP_CHECK(vp_open_files() == 0, "unreferenced files are closed"); vp_reach("read back"); }
  h_end(S); VP_CHECK(vp_open_files() == 0, "every file is closed by the end of the state"); remove("vpfile");
}
static void args(int k) { // wrong arguments
  static const char *const t[] = {"f->write(1)", "f->write()", "f->write([])", "f->read(1)", "f->read('zz')", "f->read('')", "f->read('x')", "f->seek(1)", "f->seek('nowhere')", "f->seek('set', 'a')", "f->seek('set', 1.5)", "io.open('vpfile', 'rw')", "io.open('vpfile', '')", "io.open('vpfile', 'z')", "io.open('vpfile', 'z+')", "io.open('vpfile', 5)", "io.open(5)", "io.open('vpfile', '+r')", "m.write(5, 'a')", "m.read([], 'a')", "m.close({})", "m.flush('a')", "m.seek(undef)", "m.close(undef)"};
  static const char e[] = "ttttVVVtVttVVVVttVtttttt"; int i = (int)vp_choose(24); int ctx = (int)vp_choose(3); d = src; *d = 0;
  P("f = io.open('vpfile', 'w+'); f->write('keep'); const m = f; let g = {'h': f}; q = 1; "); const char *x = t[i]; char buf[80]; char *save = d; d = buf; P(x); d = save; 
  if (x[0] == 'm') { static char c2[80]; save = d; d = c2; P("f"); P(x + 1); d = save; x = c2; }
  P(ctx == 0 ? "r0 = " : ctx == 1 ? "let z = [1, " : "fn w(a) { return "); P(x); P(ctx == 0 ? ";" : ctx == 1 ? ", 2];" : "; }; w(1);"); P(" q = 2;"); b0 = b1 = 'x'; S = h_new(src); YASL_decllib_io(S); globals(); int st = h_run(S); VP_CHECK(st == (e[i] == 't' ? YASL_TYPE_ERROR : YASL_VALUE_ERROR), "wrong argument"); h_is_int(S, "q", 1, "stops there"); (void)k; h_end(S); VP_CHECK(vp_open_files() == 0, "every file is closed by the end of the state"); remove("vpfile"); }
static void misc(int k) { static const char *const t[] = {"r0 = io.stdin == undef; r1 = io.stdout->flush(); r2 = io.stderr->write('');", "let a = [io.open('vpfile', 'w'), io.open('vpother', 'w')]; a[0]->write('A'); a[1]->write('B'); a = undef; r0 = io.open('vpfile')->read('a'); r1 = io.open('vpother')->read('a');", "let o = io.open('vpfile', 'w'); let g = fn() { return o->write('closed over'); }; r0 = g(); o = undef; g = undef; r1 = io.open('vpfile')->read();", "for i <- [1, 2, 3] { let h = io.open('vpfile', 'a'); h->write('ab'); }; r0 = io.open('vpfile')->read('a');", "io.open('vpfile', 'w')->write('a'); r0 = io.open('vpfile')->read('a'); let h = io.open('vpfile'); h->close(); q = 7; h->close(); q = 8;", "let h = io.open('vpfile', 'w'); let c = h; c->close(); q = 7; h->write('a'); q = 8;"};
  d = src; *d = 0; P(t[k]); b0 = b1 = 'x'; S = h_new(src); YASL_decllib_io(S); globals(); int st = h_run(S); VP_CHECK(st == (k < 4 ? YASL_SUCCESS : YASL_VALUE_ERROR), "status");
  switch (k) { case 0: h_is_bool(S, "r0", false, "stdin"); h_is_bool(S, "r1", true, "stdout"); h_is_int(S, "r2", 0, "stderr"); break; case 1: h_is_str(S, "r0", "A", 1, "two files"); h_is_str(S, "r1", "B", 1, "two files"); break; case 2: h_is_int(S, "r0", 11, "written"); h_is_str(S, "r1", "closed over", 11, "closed with the closure"); break; case 3: h_is_str(S, "r0", "ababab", 6, "appended"); break; default: h_is_int(S, "q", 7, "a second close is an error"); }
  h_end(S); VP_CHECK(vp_open_files() == 0, "every file is closed by the end of the state"); remove("vpfile"); remove("vpother"); }
void vp_main(void) { int k = (int)vp_shard(51); if (k < 48) seq(k / 4 % 6, k / 24, k % 4); else if (k == 48) args(0); else if (k == 49) misc((int)vp_choose(3)); else misc(3 + (int)vp_choose(3)); }
