// Native side of the harness interface: reads the input bytes from a file, runs the harness, prints the observation hash.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"
static unsigned char *in; static size_t inlen, pos; static uint64_t h = 0xcbf29ce484222325ull;
void __lsan_do_leak_check(void) __attribute__((weak));
static void done(int rc) { fflush(NULL); if (getenv("VP_LSAN") && __lsan_do_leak_check) __lsan_do_leak_check(); _exit(rc); }
void vp_sym_bytes(void *p, size_t n) { unsigned char *b = p; for (size_t i = 0; i < n; i++) { b[i] = pos < inlen ? in[pos] : 0; pos++; } }
void vp_fix_arg(uint8_t *p, unsigned n) { (void)n; vp_sym_bytes(p, 1); }
void vp_assume(int c) { if (!c) { printf("VP_ASSUME_FAIL\n"); done(77); } }
void vp_check(int c, const char *m) { if (!c) vp_fail(m); }
void vp_fail(const char *m) { printf("VP_FAIL: %s\n", m); done(66); __builtin_unreachable(); }
void vp_skip(void) { printf("VP_SKIP\n"); done(77); __builtin_unreachable(); }
void vp_observe(uint64_t x) { if (getenv("VP_TRACE")) printf("OBS %llx\n", (unsigned long long)x); for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 0xff; h *= 0x100000001b3ull; } }
void vp_reach(const char *l) { (void)l; }
uint64_t vp_concrete(uint64_t v) { return v; }
int vp_is_engine(void) { return 0; }
int vp_is_symbolic(uint64_t v) { (void)v; return 0; }
void vp_debug(const char *s, uint64_t v) { printf("[debug] %s %lld\n", s, (long long)v); }
long vp_live_count; // maintained by the allocation wrappers
long vp_heap_live(void) { return vp_live_count; }
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void *, size_t); extern void __real_free(void *); extern char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { if (n > (1u << 27)) return NULL; void *p = __real_malloc(n); if (p) { vp_live_count++; memset(p, 0xbe, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) vp_live_count++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (n > (1u << 27)) return NULL; if (!q) vp_live_count++; if (q && n == 0) { vp_live_count--; __real_free(q); return NULL; } return __real_realloc(q, n); }
void __wrap_free(void *p) { if (p) vp_live_count--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
static int rand_left = -1, rand_span = 1;
void vp_rand_budget(int n, int span) { rand_left = n; rand_span = span; }
int __wrap_rand(void) { if (rand_left == 0) vp_skip(); rand_left--; return (int)vp_choose((unsigned)rand_span); }
#include <fcntl.h>
int vp_open_files(void) { int n = 0; for (int i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int main(int argc, char **argv) {
  if (argc > 1) { FILE *f = fopen(argv[1], "rb"); if (!f) return 2; in = __real_malloc(1 << 16); inlen = fread(in, 1, 1 << 16, f); fclose(f); }
  vp_main();
  printf("VP_OK %016llx\n", (unsigned long long)h); done(0);
}
