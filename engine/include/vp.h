// Harness interface: the same harness runs under the symbolic executor and natively (replay).
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_sym_bytes(void *p, size_t n);          // n fresh symbolic input bytes
void vp_fix_arg(uint8_t *p, unsigned n);       // shard selector: a symbolic byte, fixed per shard by the runner
void vp_assume(int c);                         // restrict to inputs with c
void vp_check(int c, const char *msg);         // the assertion
void vp_fail(const char *msg) __attribute__((noreturn));
void vp_skip(void) __attribute__((noreturn));  // input outside the harness' domain
void vp_observe(uint64_t v);                   // value compared between executor and native run
void vp_reach(const char *label);              // vacuity witness
long vp_heap_live(void);                       // live heap blocks
uint64_t vp_concrete(uint64_t v);              // fork over every feasible value
void vp_rand_budget(int n, int span);          // rand() gives any value in [0, span); more than n calls are outside the bounds
int vp_open_files(void);                        // open streams other than the standard ones
int vp_is_engine(void);
int vp_is_symbolic(uint64_t v);
void vp_debug(const char *s, uint64_t v);
void vp_main(void);

static inline uint8_t vp_u8(void) { uint8_t v; vp_sym_bytes(&v, 1); return v; }
static inline uint16_t vp_u16(void) { uint16_t v; vp_sym_bytes(&v, 2); return v; }
static inline int64_t vp_i64(void) { int64_t v; vp_sym_bytes(&v, 8); return v; }
static inline double vp_f64(void) { double v; vp_sym_bytes(&v, 8); return v; }
// symbolic byte in [0, n)
static inline unsigned vp_below(unsigned n) { uint8_t v = vp_u8(); vp_assume(v < n); return v; }
// as above, one path per value
static inline unsigned vp_choose(unsigned n) { return (unsigned)vp_concrete(vp_below(n)); }
static inline unsigned vp_shard(unsigned n) { uint8_t v; vp_fix_arg(&v, n); vp_assume(v < n); return (unsigned)vp_concrete(v); }
#define VP_CHECK(c, msg) vp_check((c) ? 1 : 0, msg)
#ifdef __cplusplus
}
#endif
#endif
