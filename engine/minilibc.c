// Models of the C library functions the interpreter uses (executed symbolically like the rest).
// Part of every claim: string/number/stdio functions behave as these definitions do ("C" locale).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "vp.h"
#include "include/ctype.h"
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t); void *memset(void *, int, size_t);
double vp_strtod(const char *, char **); int vp_fmt_double(char *, size_t, const char *, double);

int isdigit(int c) { return c >= '0' & c <= '9'; }
int islower(int c) { return c >= 'a' & c <= 'z'; }
int isupper(int c) { return c >= 'A' & c <= 'Z'; }
int isalpha(int c) { return (c >= 'a' & c <= 'z') | (c >= 'A' & c <= 'Z'); }
int isalnum(int c) { return (c >= 'a' & c <= 'z') | (c >= 'A' & c <= 'Z') | (c >= '0' & c <= '9'); }
int isspace(int c) { return (c == ' ') | (c >= 9 & c <= 13); }
int isprint(int c) { return c >= 32 & c < 127; }
int isgraph(int c) { return c > 32 & c < 127; }
int iscntrl(int c) { return (c >= 0 & c < 32) | c == 127; }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isxdigit(int c) { return (c >= '0' & c <= '9') | (c >= 'a' & c <= 'f') | (c >= 'A' & c <= 'F'); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
// bytewise difference of the first mismatch, computed without forking when lengths are concrete
int memcmp(const void *x, const void *y, size_t n) {
  const unsigned char *a = x, *b = y; int r = 0;
  for (size_t i = n; i-- > 0;) { int d = (int)a[i] - (int)b[i]; r = d != 0 ? d : r; }
  return r;
}
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const unsigned char *p = h; if (nl > hl) return 0; for (size_t i = 0; i + nl <= hl; i++) if (!memcmp(p + i, n, nl)) return (void *)(p + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *__strdup(const char *s) { return strdup(s); }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
static int vp_errno; int *__errno_location(void) { return &vp_errno; }

long long strtoll(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0; unsigned long long v = 0; int over = 0;
  while (isspace((unsigned char)*p)) p++;
  if (vp_concrete(*p == '-')) { neg = 1; p++; } else if (vp_concrete(*p == '+')) p++; // no symbolic pointer
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long lim = neg ? 9223372036854775808ull : 9223372036854775807ull;
  if (base == 2) { // same result, written without branches on the value so that symbolic digits stay one expression
    for (; (((unsigned char)*p) & 0xfe) == '0'; p++) { any = 1; over |= v >> 62 & 1; v = (v << 1) | (*p & 1); } // lim is 2^63-1 unless negative, where only -2^63 differs
    if (neg && over) { p = s; v = 0; over = 0; any = 0; while (isspace((unsigned char)*p)) p++; p++; goto general; }
    goto done;
  }
general:
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = toupper(c) - 'A' + 10; else break;
    if (d >= base) break;
    any++;
    // up to 15 digits cannot overflow in any base up to 16; beyond, fork on the test so that the value stays one expression
    if (any > (base <= 10 ? 18 : base <= 16 ? 15 : 12) && vp_concrete(v > lim / base | (v == lim / base & (unsigned)d > lim % base))) over = 1;
    if (!over) v = v * base + d;
  }
done:
  if (end) *end = (char *)(any ? p : s);
  if (over) { vp_errno = 34; return neg ? INT64_MIN : INT64_MAX; }
  return neg ? -(long long)v : (long long)v;
}
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
// up to 15 digits and a power of ten up to 22 are exact in one rounding; anything else is left to the host's strtod
double strtod(const char *s, char **e) {
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  const char *p = s; long long m = 0; int nd = 0, ex = 0, dot = 0, neg = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (!isdigit((unsigned char)*p) || (*p == '0' && (p[1] == 'x' || p[1] == 'X'))) return vp_strtod(s, e);
  for (;; p++) { if (isdigit((unsigned char)*p)) { if (nd < 17) m = m * 10 + ((unsigned char)*p - '0'); nd++; ex -= dot; } else if (*p == '.' && !dot) dot = 1; else break; }
  if (*p == 'e' || *p == 'E') { const char *t = p + 1; int en = 0, ev = 0; if (*t == '-') { en = 1; t++; } else if (*t == '+') t++; if (isdigit((unsigned char)*t)) { for (; isdigit((unsigned char)*t); t++) if (ev < 9999) ev = ev * 10 + ((unsigned char)*t - '0'); p = t; ex += en ? -ev : ev; } }
  if (nd > 15) return vp_strtod(s, e); int big = vp_concrete(ex > 22 | ex < -22); if (big) return vp_strtod(s, e);
  double r = (double)m; if (ex < 0) r /= p10[-ex]; else if (ex > 0) r *= p10[ex]; if (neg) r = -r; if (e) *e = (char *)p; return r;
}
double atof(const char *s) { return strtod(s, 0); }

// ---- formatted output
struct sink { char *b; size_t cap, n; };
static void put(struct sink *s, char c) { if (s->n + 1 < s->cap) s->b[s->n] = c; s->n++; }
static void pad(struct sink *s, int n, char c) { while (n-- > 0) put(s, c); }
static void fmtstr(struct sink *s, const char *p, size_t l, int width, int left) { if (!left) pad(s, width - (int)l, ' '); for (size_t i = 0; i < l; i++) put(s, p[i]); if (left) pad(s, width - (int)l, ' '); }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  struct sink s = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&s, *f); continue; }
    const char *start = f; f++;
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0, alt = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng++; f++; }
    while (*f == 'h') f++;
    switch (*f) {
    case '%': put(&s, '%'); break;
    case 'c': { char c = (char)va_arg(ap, int); fmtstr(&s, &c, 1, width, left); break; }
    case 's': { const char *p = va_arg(ap, const char *); if (!p) p = "(null)"; size_t l = prec >= 0 ? strnlen(p, prec) : strlen(p); fmtstr(&s, p, l, width, left); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long long u; int neg = 0; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'p') u = (unsigned long long)va_arg(ap, void *);
      else if (*f == 'd' || *f == 'i') { long long v = lng ? va_arg(ap, long long) : va_arg(ap, int); neg = v < 0; u = neg ? 0 - (unsigned long long)v : v; }
      else u = lng ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
      char tmp[72]; int n = 0; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      if (base == 10 && vp_is_symbolic(u)) { // the number of digits by comparison, the digits without branching
        unsigned long long p10 = 1; int nd = 1; while (nd < 20 && u / 1 >= p10 * 10) { nd++; p10 *= 10; if (nd == 20) break; }
        p10 = 1; for (int i = 0; i < nd; i++, p10 *= 10) tmp[n++] = '0' + (char)(u / p10 % 10);
      } else
      do { unsigned d = u % base; tmp[n++] = base == 10 ? '0' + d : dg[d]; u /= base; } while (u);
      while (n < prec) tmp[n++] = '0';
      if (zero && !left && prec < 0) while (n < width - (neg || plus) && n < 64) tmp[n++] = '0';
      if (*f == 'p' || (alt && base == 16)) { tmp[n++] = 'x'; tmp[n++] = '0'; }
      if (neg) tmp[n++] = '-'; else if (plus) tmp[n++] = '+';
      char out[72]; for (int i = 0; i < n; i++) out[i] = tmp[n - 1 - i]; fmtstr(&s, out, n, width, left); break; }
    case 'g': case 'f': case 'e': case 'G': case 'a': {
      char ff[24], out[400]; double d = va_arg(ap, double); int k = 0; union { double d; uint64_t u; } du = {d};
      if (*f == 'f' && prec < 0 && !width && !alt && !plus && vp_is_symbolic(du.u) && d < 1e9 && d > -1e9) { // exact when there are at most 6 binary places
        long long q = (long long)(d * 64.0); if ((double)q == d * 64.0 && !(q == 0 && du.u)) { int neg = q < 0; unsigned long long a = neg ? -q : q, ip = a >> 6, fr = (a & 63) * 15625, p10 = 1; int nd = 1; while (nd < 10 && ip >= p10 * 10) { nd++; p10 *= 10; } char o[24]; int n = 0; if (neg) o[n++] = '-'; for (; p10; p10 /= 10) o[n++] = '0' + (char)(ip / p10 % 10); o[n++] = '.'; for (p10 = 100000; p10; p10 /= 10) o[n++] = '0' + (char)(fr / p10 % 10); fmtstr(&s, o, n, 0, 0); break; } } ff[k++] = '%'; (void)start; if (alt) ff[k++] = '#'; if (plus) ff[k++] = '+';
      if (prec >= 0) { ff[k++] = '.'; if (prec >= 100) ff[k++] = '0' + prec / 100; if (prec >= 10) ff[k++] = '0' + prec / 10 % 10; ff[k++] = '0' + prec % 10; }
      ff[k++] = *f; ff[k] = 0; int n = vp_fmt_double(out, sizeof out, ff, d); fmtstr(&s, out, n, width, left); break; }
    default: vp_fail("minilibc: unsupported printf conversion");
    }
  }
  if (cap) buf[s.n < cap ? s.n : cap - 1] = 0;
  return (int)s.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list a) { return vsnprintf(b, (size_t)1 << 30, f, a); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, (size_t)1 << 30, f, a); va_end(a); return r; }

// ---- stdio: an in-memory file system with a few named files
typedef struct vp_file { int used, node, can_r, can_w, app, eof, err; size_t pos; } FILE_;
static struct { char name[32]; unsigned char *data; size_t len, cap; int used; } nodes[8];
static FILE_ files[16]; static FILE_ f_in, f_out, f_err;
FILE_ *stdin = &f_in, *stdout = &f_out, *stderr = &f_err;
static int findnode(const char *n) { for (int i = 0; i < 8; i++) if (nodes[i].used && !strcmp(nodes[i].name, n)) return i; return -1; }
FILE_ *fopen(const char *name, const char *mode) {
  while (name[0] == 46 && name[1] == 47) name += 2;
  int n = findnode(name); int plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
  if (n < 0) { if (mode[0] == 'r') return 0; for (int i = 0; i < 8; i++) if (!nodes[i].used) { n = i; break; } if (n < 0 || strlen(name) > 31) vp_skip(); nodes[n].used = 1; strcpy(nodes[n].name, name); nodes[n].data = 0; nodes[n].len = nodes[n].cap = 0; }
  if (mode[0] == 'w') nodes[n].len = 0;
  for (int i = 0; i < 16; i++) if (!files[i].used) { FILE_ *f = &files[i]; f->used = 1; f->node = n; f->can_r = mode[0] == 'r' || plus; f->can_w = mode[0] != 'r' || plus; f->app = mode[0] == 'a'; f->eof = f->err = 0; f->pos = 0; return f; }
  vp_skip();
}
int fclose(FILE_ *f) { if (!f->used) vp_fail("fclose of a closed stream"); f->used = 0; return 0; }
int vp_open_files(void) { int n = 0; for (int i = 0; i < 16; i++) n += files[i].used; return n; }
static int is_std(FILE_ *f) { return f == &f_in || f == &f_out || f == &f_err; }
int fgetc(FILE_ *f) { if (f == &f_in) return -1; if (!f->used) vp_fail("read from a closed stream"); if (!f->can_r) { f->err = 1; return -1; } if (f->pos >= nodes[f->node].len) { f->eof = 1; return -1; } return nodes[f->node].data[f->pos++]; }
int getc(FILE_ *f) { return fgetc(f); }
int getchar(void) { return -1; }
int ungetc(int c, FILE_ *f) { if (c == -1) return -1; f->pos--; f->eof = 0; return c; }
int fputc(int c, FILE_ *f) {
  if (is_std(f)) return (unsigned char)c;
  if (!f->used) vp_fail("write to a closed stream"); if (!f->can_w) { f->err = 1; return -1; }
  int n = f->node; if (f->app) f->pos = nodes[n].len;
  if (f->pos >= nodes[n].cap) { size_t nc = f->pos * 2 + 64; static unsigned char pool[8][4096]; if (nc > 4096) nc = 4096; if (f->pos >= 4096) vp_skip(); nodes[n].data = pool[n]; nodes[n].cap = nc; }
  while (nodes[n].len < f->pos) nodes[n].data[nodes[n].len++] = 0;
  nodes[n].data[f->pos++] = c; if (f->pos > nodes[n].len) nodes[n].len = f->pos; return (unsigned char)c;
}
int putc(int c, FILE_ *f) { return fputc(c, f); }
int putchar(int c) { return c; }
size_t fwrite(const void *p, size_t s, size_t n, FILE_ *f) { const unsigned char *b = p; if (is_std(f)) return n; for (size_t i = 0; i < s * n; i++) if (fputc(b[i], f) < 0) return i / s; return n; }
size_t fread(void *p, size_t s, size_t n, FILE_ *f) { unsigned char *b = p; if (!s || !n) return 0; for (size_t i = 0; i < s * n; i++) { int c = fgetc(f); if (c < 0) return i / s; b[i] = c; } return n; }
int fseek(FILE_ *f, long off, int wh) { if (is_std(f)) return -1; if (!f->used) vp_fail("seek on a closed stream"); long b = wh == 0 ? 0 : wh == 1 ? (long)f->pos : (long)nodes[f->node].len; if ((off < 0 && b + off < 0) || (off > 0 && b + off < b)) return -1; f->pos = b + off; f->eof = 0; return 0; }
long ftell(FILE_ *f) { return (long)f->pos; }
void rewind(FILE_ *f) { f->pos = 0; f->eof = 0; }
int feof(FILE_ *f) { return f->eof; }
int ferror(FILE_ *f) { return f->err; }
int fflush(FILE_ *f) { return 0; }
int vfprintf(FILE_ *f, const char *fmt, va_list ap) { if (is_std(f)) return 0; static char buf[512]; int n = vsnprintf(buf, sizeof buf, fmt, ap); fwrite(buf, 1, n, f); return n; }
int fprintf(FILE_ *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int vprintf(const char *fmt, va_list ap) { return 0; }
int printf(const char *fmt, ...) { return 0; }
int puts(const char *s) { return 0; }
int fputs(const char *s, FILE_ *f) { fwrite(s, 1, strlen(s), f); return 0; }
void perror(const char *s) {}
int remove(const char *n) { while (n[0] == 46 && n[1] == 47) n += 2; int k = findnode(n); if (k < 0) return -1; nodes[k].used = 0; return 0; }

// rand(): any value below the span the harness sets (one path each)
static int rand_left = -1, rand_span = 1;
void vp_rand_budget(int n, int span) { rand_left = n; rand_span = span; }
int rand(void) { if (rand_left == 0) vp_skip(); rand_left--; return (int)vp_choose((unsigned)rand_span); }
void srand(unsigned s) {}
long time(long *t) { return 0; }
void *dlopen(const char *n, int f) { return 0; }
void *dlsym(void *h, const char *n) { return 0; }
char *dlerror(void) { return "dl unavailable"; }
double copysign(double a, double b) { union { double d; uint64_t u; } x = {a}, y = {b}; x.u = (x.u & 0x7fffffffffffffffull) | (y.u & 0x8000000000000000ull); return x.d; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
int abs(int v) { return v < 0 ? -v : v; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base; char t[256]; if (sz > sizeof t) vp_skip();
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) { memcpy(t, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, t, sz); }
}
