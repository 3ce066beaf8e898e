/* force-included in every translation unit: replaces environment functions by
 * the models of libc_model.c */
#ifndef VP_REDEF_H
#define VP_REDEF_H
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
extern unsigned vp_draw_limit, vp_gauss_grid, vp_exp_grid, vp_exp_exact, vp_log_real;
extern unsigned vp_hash_mask; /* 0: every key collides; 1: one-bit hash */
static inline unsigned vp_weak_hash(const void *p, size_t n)
{
	unsigned x = 0;
	if (!vp_hash_mask)
		return 0;
	if (vp_hash_mask >= 2) { /* order-sensitive fold of all bytes */
		for (size_t i = 0; i < n; i++)
			x = ((x << 5) | (x >> 27)) ^ ((const unsigned char *)p)[i];
		return x;
	}
	for (size_t i = 0; i < n; i++)
		x ^= ((const unsigned char *)p)[i];
	x ^= x >> 4;
	x ^= x >> 2;
	return (x ^ (x >> 1)) & 1;
}
#ifndef VP_MODEL
double  vp_exp(double), vp_log(double), vp_fmod(double, double);
int     vp_vsnprintf(char *, size_t, const char *, va_list);
void    vp_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
ssize_t vp_read(int, void *, size_t), vp_write(int, const void *, size_t);
int     vp_fstat(int, struct stat *), vp_open(const char *, int, ...), vp_close(int), vp_ftruncate(int, off_t), vp_msync(void *, size_t, int), vp_munmap(void *, size_t);
void   *vp_mmap(void *, size_t, int, int, int, off_t);
double  vp_nextafter(double, double), vp_fmin(double, double), vp_fmax(double, double), vp_pow(double, double);
int     vp_snprintf(char *, size_t, const char *, ...);
void   *vp_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *));
#define pow(x, y) vp_pow(x, y)
#define nextafter(x, y) vp_nextafter(x, y)
#define fmin(x, y) vp_fmin(x, y)
#define fmax(x, y) vp_fmax(x, y)
#define snprintf vp_snprintf
#define sprintf(b, ...) vp_snprintf(b, (size_t)-1 >> 1, __VA_ARGS__)
#define bsearch(a, b, c, d, e) vp_bsearch(a, b, c, d, e)
#define exp(x) vp_exp(x)
#define log(x) vp_log(x)
#define fmod(x, y) vp_fmod(x, y)
#define vsnprintf(a, b, c, d) vp_vsnprintf(a, b, c, d)
#define qsort(a, b, c, d) vp_qsort(a, b, c, d)
#define read(a, b, c) vp_read(a, b, c)
#define write(a, b, c) vp_write(a, b, c)
#define fstat(a, b) vp_fstat(a, b)
#define open(...) vp_open(__VA_ARGS__)
#define close(a) vp_close(a)
#define ftruncate(a, b) vp_ftruncate(a, b)
#define mmap(a, b, c, d, e, f) vp_mmap(a, b, c, d, e, f)
#define msync(a, b, c) vp_msync(a, b, c)
#define munmap(a, b) vp_munmap(a, b)
#endif
#endif
