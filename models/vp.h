/* Harness API shared by the symbolic executor (where these are built in) and
 * the native replay build (vp_native.c). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
/* make n bytes at p symbolic (every value) */
void     vp_symbolic(void *p, size_t n, const char *name);
void     vp_assume(int c);
void     vp_assert_(int c, const char *msg);
#define vp_assert(c, msg) vp_assert_(!!(c), msg)
/* reachability label: the run must reach it, otherwise the check is vacuous */
void     vp_reach(const char *label);
/* a concrete value in [0,n), all explored */
unsigned vp_choice(unsigned n, const char *name);
uint64_t vp_concretize(uint64_t v);
uint64_t vp_log_bits(uint64_t v); /* the real log() of a concrete double, as bits */
int64_t  vp_heap_live(void);
int64_t  vp_alloc_count(void);
/* the k-th allocation from now on fails (k = 0: the next one); -1 disarms */
void     vp_fail_alloc(int64_t k);
int64_t  vp_param(const char *name, int64_t dflt);
void     vp_kill(void);
void     vp_print(const char *s, uint64_t v);
int      vp_is_init(const void *p, size_t n);

static inline int64_t  vp_i64(const char *n) { int64_t v; vp_symbolic(&v, 8, n); return v; }
static inline uint64_t vp_u64(const char *n) { uint64_t v; vp_symbolic(&v, 8, n); return v; }
static inline int32_t  vp_i32(const char *n) { int32_t v; vp_symbolic(&v, 4, n); return v; }
static inline uint32_t vp_u32(const char *n) { uint32_t v; vp_symbolic(&v, 4, n); return v; }
static inline uint8_t  vp_u8(const char *n) { uint8_t v; vp_symbolic(&v, 1, n); return v; }
static inline int      vp_bool(const char *n) { uint8_t v; vp_symbolic(&v, 1, n); vp_assume(v < 2); return v; }
static inline double   vp_f64(const char *n) { double v; vp_symbolic(&v, 8, n); return v; }
/* any finite double */
static inline double   vp_fin(const char *n)
{
	uint64_t b; double v;
	vp_symbolic(&b, 8, n);
	vp_assume((b & 0x7ff0000000000000ULL) != 0x7ff0000000000000ULL);
	memcpy(&v, &b, 8);
	return v;
}
/* any double but NaN */
static inline double   vp_num(const char *n)
{
	uint64_t b; double v;
	vp_symbolic(&b, 8, n);
	vp_assume((b & 0x7fffffffffffffffULL) <= 0x7ff0000000000000ULL);
	memcpy(&v, &b, 8);
	return v;
}
static inline int64_t  vp_range(int64_t lo, int64_t hi, const char *n)
{
	uint64_t span = (uint64_t)hi - (uint64_t)lo, m = span, v = vp_u64(n);
	for (int i = 1; i < 64; i *= 2)
		m |= m >> i;
	v &= m;
	if (span != m)
		vp_assume(v <= span);
	return (int64_t)((uint64_t)lo + v);
}
void vp_main(void);
#endif
