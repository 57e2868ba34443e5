// strs with the same bytes spelled in different ways (own storage, literals, slices of own storage and of static storage, slices of slices, concatenations, split pieces)
#ifndef SV_H
#define SV_H
#include "h.h"
enum { NSV = 7 };
typedef struct { unsigned var; size_t n, hn, kn; char e[16], h[24], k[16]; } SV;
static char *put_n(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) *d++ = s[i]; *d = 0; return d; }
// appends "name = <expression>; " for a str of n bytes; e holds the bytes. alpha: 0 any byte (fixed letters where a literal is needed), 1 two letters, one path each, 2 bytes @ A and also 0 1 20 21 60 61 where not a literal, 3 one path each of @ A (0 and c1 where not a literal)
static char *sv_src(char *d, const char *name, SV *v, unsigned var, size_t n, int alpha) {
  static const char num[] = "0123456789"; memset(v, 0, sizeof *v); v->var = var; v->n = n; bool lit = var == 1 || var == 6 || (alpha && (var == 3 || var == 5));
  for (size_t i = 0; i < n; i++) v->e[i] = alpha == 1 ? (vp_choose(2) ? 'b' : 'a') : alpha == 3 ? (lit ? "@A"[vp_choose(2)] : "A\0\xc1"[vp_choose(3)]) : alpha == 2 && lit ? "A@AA"[i] : lit ? "pqrstuvw"[i] : (char)(alpha ? vp_u8() & 0x61 : vp_u8());
  if (!lit && (var == 3 || var == 5)) for (size_t i = 0; i < n; i++) vp_assume(v->e[i] != 0); // the host's texts end at their first NUL
  d = put(d, name); d = put(d, " = ");
  switch (var) {
  case 0: memcpy(v->h, v->e, v->hn = n); d = put(d, name); d = put(d, "_h"); break;
  case 1: *d++ = '\''; d = put_n(d, v->e, n); d = put(d, "'"); break;
  case 2: v->h[0] = (char)vp_u8(); memcpy(v->h + 1, v->e, n); v->h[n + 1] = (char)vp_u8(); v->hn = n + 2; d = put(d, name); d = put(d, "_h[1:"); *d++ = num[n + 1]; d = put(d, "]"); break;
  case 3: v->h[0] = 'k'; memcpy(v->h + 1, v->e, n); v->h[n + 1] = v->h[n + 2] = 'm'; v->hn = n + 3; d = put(d, name); d = put(d, "_h[1:"); *d++ = num[n + 1]; d = put(d, "]"); break;
  case 4: v->hn = n / 2; v->kn = n - n / 2; memcpy(v->h, v->e, v->hn); memcpy(v->k, v->e + v->hn, v->kn); d = put(d, name); d = put(d, "_h ~ "); d = put(d, name); d = put(d, "_k"); break;
  case 5: v->h[0] = v->h[1] = 'k'; v->h[2] = 'm'; memcpy(v->h + 3, v->e, n); v->h[n + 3] = 'm'; v->hn = n + 4; d = put(d, name); d = put(d, "_h[2:][1:-1]"); break;
  default: v->h[0] = v->h[1] = 'k'; v->h[2] = ' '; memcpy(v->h + 3, v->e, n); v->h[n + 3] = ' '; v->h[n + 4] = 'm'; v->hn = n + 5; d = put(d, name); d = put(d, "_h->split(' ')[1]"); }
  return put(d, "; ");
}
static void sv_glob(YS *S, const char *name, SV *v) {
  static char pool[16][8]; static int used; char *a = pool[used++], *b = pool[used++]; put(put(a, name), "_h"); put(put(b, name), "_k"); // the API keeps the names
  h_out(S, name);
  if (v->var == 3 || v->var >= 5) { // a str of the host's static storage, which its slices share
    static char text[16][25]; static int nt; if (nt >= 16) vp_skip(); memcpy(text[nt], v->h, v->hn); YASL_declglobal(S, a); YASL_pushlit(S, text[nt++]); YASL_setglobal(S, a);
  } else h_gstr(S, a, v->h, v->hn);
  h_gstr(S, b, v->k, v->kn);
}
#endif
