/* libc functions used by the library and the harnesses, as plain C. */
#define VP_MODEL
#include "vp.h"
#include <errno.h>
#include <math.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/types.h>
unsigned vp_hash_mask;
#ifndef VP_NATIVE
size_t strlen(const char *s)
{
	size_t n = 0;
	while (s[n])
		n++;
	return n;
}
int strcmp(const char *a, const char *b)
{
	for (;; a++, b++) {
		unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
		if (x != y)
			return x < y ? -1 : 1;
		if (!x)
			return 0;
	}
}
int strncmp(const char *a, const char *b, size_t n)
{
	for (; n; a++, b++, n--) {
		unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
		if (x != y)
			return x < y ? -1 : 1;
		if (!x)
			return 0;
	}
	return 0;
}
char *strcpy(char *d, const char *s)
{
	char *r = d;
	while ((*d++ = *s++)) {}
	return r;
}
char *strncpy(char *d, const char *s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = 0;
	return d;
}
size_t strnlen(const char *s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i])
		i++;
	return i;
}
char *strchr(const char *s, int c)
{
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return NULL;
	}
}
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char  *p = malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}
void *memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	for (; n; n--, p++)
		if (*p == (unsigned char)c)
			return (void *)p;
	return NULL;
}
char *strrchr(const char *s, int c)
{
	const char *r = NULL;
	for (;; s++) {
		if (*s == (char)c)
			r = s;
		if (!*s)
			return (char *)r;
	}
}
char *strcat(char *d, const char *s)
{
	strcpy(d + strlen(d), s);
	return d;
}
char *strncat(char *d, const char *s, size_t n)
{
	char *p = d + strlen(d);
	while (n-- && *s)
		*p++ = *s++;
	*p = 0;
	return d;
}
char *stpcpy(char *d, const char *s)
{
	while ((*d = *s++))
		d++;
	return d;
}
char *strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char  *p = malloc(l + 1);
	if (p) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return p;
}
int  abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
#endif
/* message text is not modelled: the format string itself is the message */
int vp_vsnprintf(char *b, size_t n, const char *fmt, va_list ap)
{
	(void)ap;
	size_t i = 0;
	for (; fmt[i]; i++)
		if (b && i + 1 < n)
			b[i] = fmt[i];
	if (b && n)
		b[i < n ? i : n - 1] = 0;
	return (int)i;
}
/* insertion sort, exact qsort contract */
void vp_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	char *p = base, tmp[64];
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) {
			memcpy(tmp, p + j * sz, sz);
			memcpy(p + j * sz, p + (j - 1) * sz, sz);
			memcpy(p + (j - 1) * sz, tmp, sz);
		}
}
/* exp, log, fmod: arbitrary functions of their arguments within their
 * mathematical ranges (same arguments, same result) */
static struct { double x, y, r; int f; } uf[64];
static unsigned nuf;
static double vp_uf(int f, double x, double y, const char *name)
{
	for (unsigned i = 0; i < nuf; i++)
		if (uf[i].f == f && !memcmp(&uf[i].x, &x, 8) && !memcmp(&uf[i].y, &y, 8))
			return uf[i].r;
	vp_assert(nuf < 64, "harness: too many libm calls");
	double r;
	extern unsigned vp_exp_grid;
	if (f == 0 && vp_exp_grid)
		r = (double)vp_range(1, 1LL << 40, name) * 0x1p-16;
	else
		r = vp_num(name);
	uf[nuf].f = f; uf[nuf].x = x; uf[nuf].y = y; uf[nuf].r = r;
	nuf++;
	return r;
}
/* exp is monotone around, and accurate to 2^-40 at, every logarithm taken before */
unsigned vp_exp_grid;  /* results of exp are multiples of 2^-16 */
unsigned vp_exp_exact; /* exp is exact at every logarithm taken before */
unsigned vp_log_real;  /* the real logarithm (of concrete arguments only) */
double vp_exp(double x)
{
	const double eps = vp_exp_exact ? 0 : 0x1p-40;
	double r = vp_uf(0, x, 0, "exp");
	vp_assume(r >= 0);
	vp_assume(!(x <= 0) | (r <= 1));
	vp_assume(!(x >= 0) | (r >= 1));
	vp_assume(!(x <= 43) | (r <= 4727839468229346304.0));
	vp_assume(!(x >= 43) | (r >= 4727839468229345000.0));
	for (unsigned i = 0; i < nuf; i++)
		if (uf[i].f == 1) {
			vp_assume(!(x >= uf[i].r) | (r >= uf[i].x * (1 - eps)));
			vp_assume(!(x <= uf[i].r) | (r <= uf[i].x * (1 + eps)));
		}
	return r;
}
double vp_log(double x)
{
	if (!(x > 0))
		return x == 0 ? -INFINITY : NAN;
	double   r;
	if (vp_log_real) {
		uint64_t b;
		memcpy(&b, &x, 8);
		b = vp_log_bits(b);
		memcpy(&r, &b, 8);
		for (unsigned i = 0; i < nuf; i++)
			if (uf[i].f == 1 && !memcmp(&uf[i].x, &x, 8))
				return r;
		vp_assert(nuf < 64, "harness: too many libm calls");
		uf[nuf].f = 1; uf[nuf].x = x; uf[nuf].y = 0; uf[nuf].r = r;
		nuf++;
		return r;
	}
	r = vp_uf(1, x, 0, "log");
	vp_assume(r > -746 && (r < 710 || x == INFINITY));
	for (unsigned i = 0; i < nuf; i++)
		if (uf[i].f == 1) {
			vp_assume(!(x <= uf[i].x) | (r <= uf[i].r));
			vp_assume(!(x >= uf[i].x) | (r >= uf[i].r));
		}
	return r;
}
double vp_pow(double x, double y) { return vp_uf(3, x, y, "pow"); }
double vp_nextafter(double x, double y)
{
	int64_t b;
	double  r;
	if (x != x || y != y)
		return x + y;
	if (x == y)
		return y;
	if (x == 0)
		return y > 0 ? 0x1p-1074 : -0x1p-1074;
	memcpy(&b, &x, 8);
	b += ((x < y) == (x > 0)) ? 1 : -1;
	memcpy(&r, &b, 8);
	return r;
}
double vp_fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double vp_fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
int vp_snprintf(char *b, size_t n, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = vp_vsnprintf(b, n, fmt, ap);
	va_end(ap);
	return r;
}
void *vp_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t      m = lo + (hi - lo) / 2;
		const char *p = (const char *)base + m * sz;
		int         c = cmp(key, p);
		if (!c)
			return (void *)p;
		if (c < 0)
			hi = m;
		else
			lo = m + 1;
	}
	return NULL;
}
double vp_fmod(double x, double y) { return vp_uf(2, x, y, "fmod"); }
/* file descriptors: in-memory streams. A harness grants budgets of short
 * transfers (of any length), of transfers that would block, of interrupted
 * ones and of failures, that may happen at any call. */
#include <fcntl.h>
#include <sys/mman.h>
typedef struct { char data[4096]; size_t size, rpos; int open, eof; } vp_stream_t;
vp_stream_t vp_io[3];
unsigned    vp_io_short, vp_io_again, vp_io_intr, vp_io_fail;
unsigned    vp_io_calls, vp_io_blocked, vp_io_failed;
static vp_stream_t *vp_io_of(int fd)
{
	vp_assert(fd >= 3 && fd < 6 && vp_io[fd - 3].open, "transfers use an open descriptor");
	return &vp_io[fd - 3];
}
/* the length of this transfer (of n bytes at most), 0 if errno is set */
static size_t vp_io_step(size_t n, const char *name)
{
	unsigned f = 1, c;
	unsigned s = f; f += vp_io_short && n > 1 ? 1 : 0;
	unsigned a = f; f += vp_io_again ? 1 : 0;
	unsigned i = f; f += vp_io_intr ? 1 : 0;
	unsigned e = f; f += vp_io_fail ? 1 : 0;
	vp_io_calls++;
	if (f == 1)
		return n;
	c = vp_choice(f, name);
	if (c < s)
		return n;
	if (c < a) {
		vp_io_short--;
		return (size_t)vp_concretize((uint64_t)vp_range(1, (int64_t)n - 1, "length"));
	}
	if (c < i) {
		vp_io_again--;
		vp_io_blocked++;
		errno = EAGAIN;
	} else if (c < e) {
		vp_io_intr--;
		errno = EINTR;
	} else {
		vp_io_fail--;
		vp_io_failed++;
		errno = EIO;
	}
	return 0;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
	vp_stream_t *f = vp_io_of(fd);
	size_t       m = f->size - f->rpos;
	if (!n || !m)
		return 0; /* end of file */
	if (n > m)
		n = m;
	m = vp_io_step(n, "read");
	if (!m)
		return -1;
	memcpy(b, f->data + f->rpos, m);
	f->rpos += m;
	return (ssize_t)m;
}
ssize_t vp_write(int fd, const void *b, size_t n)
{
	vp_stream_t *f = vp_io_of(fd);
	size_t       m;
	if (!n)
		return 0;
	m = vp_io_step(n, "write");
	if (!m)
		return -1;
	vp_assert(f->size + m <= sizeof(f->data), "harness: model file large enough");
	memcpy(f->data + f->size, b, m);
	f->size += m;
	return (ssize_t)m;
}
/* one file, "f", whose content is that of stream 2 */
int      vp_fs_exists, vp_fs_open, vp_fs_mapped, vp_fs_ro;
unsigned vp_fs_fail; /* which call fails: 1 open 2 fstat 3 mmap 4 ftruncate 5 msync */
int      vp_fs_errno, vp_fs_failed;
static struct { char *p; size_t n; int shared; } vp_map;
static int vp_fs_step(unsigned w)
{
	if (vp_fs_fail != w)
		return 0;
	vp_fs_failed = 1;
	errno        = vp_fs_errno;
	return 1;
}
int vp_open(const char *path, int flags, ...)
{
	if (strcmp(path, "f") || vp_fs_step(1) || (!vp_fs_exists && !(flags & O_CREAT))) {
		if (!vp_fs_failed)
			errno = ENOENT;
		return -1;
	}
	vp_assert(!vp_fs_open, "harness: one open file");
	vp_fs_open = vp_fs_exists = 1;
	vp_fs_ro = (flags & O_ACCMODE) == O_RDONLY;
	if (flags & O_TRUNC)
		vp_io[2].size = 0;
	vp_io[2].rpos = 0;
	vp_io[2].open = 1;
	return 5;
}
int vp_close(int fd)
{
	vp_assert(fd == 5 && vp_fs_open, "only an open file is closed, once");
	vp_fs_open = vp_io[2].open = 0;
	return 0;
}
int vp_fstat(int fd, struct stat *st)
{
	vp_stream_t *f = vp_io_of(fd);
	if (vp_fs_step(2))
		return -1;
	memset(st, 0, sizeof(*st));
	st->st_size = (off_t)f->size;
	return 0;
}
int vp_ftruncate(int fd, off_t n)
{
	vp_stream_t *f = vp_io_of(fd);
	if (vp_fs_step(4))
		return -1;
	vp_assert(!vp_fs_ro && n >= 0 && (size_t)n <= sizeof(f->data), "harness: model file large enough");
	/* what was written in the map beyond the end of the file is lost */
	for (size_t i = f->size; i < (size_t)n; i++) {
		f->data[i] = 0;
		if (vp_map.p && i < vp_map.n)
			vp_map.p[i] = 0;
	}
	f->size = (size_t)n;
	return 0;
}
void *vp_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	vp_stream_t *f = vp_io_of(fd);
	(void)a; (void)off;
	if (vp_fs_step(3))
		return MAP_FAILED;
	if (!n) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	vp_assert(!vp_map.p, "harness: one mapping");
	vp_assert(!(vp_fs_ro && (prot & PROT_WRITE) && (flags & MAP_SHARED)), "a read-only file is not mapped for writing");
	vp_map.p = malloc(n);
	vp_map.n = n;
	vp_map.shared = !!(flags & MAP_SHARED);
	for (size_t i = 0; i < n && i < f->size; i++)
		vp_map.p[i] = f->data[i];
	return vp_map.p;
}
static void vp_map_sync(void)
{
	if (vp_map.shared)
		for (size_t i = 0; i < vp_map.n && i < vp_io[2].size; i++)
			vp_io[2].data[i] = vp_map.p[i];
}
int vp_msync(void *p, size_t n, int flags)
{
	(void)n; (void)flags;
	vp_assert(p == vp_map.p && p, "what is mapped is written back");
	if (vp_fs_step(5))
		return -1;
	vp_map_sync();
	return 0;
}
int vp_munmap(void *p, size_t n)
{
	vp_assert(p == vp_map.p && p && n == vp_map.n, "what was mapped is unmapped, once");
	vp_map_sync();
	free(vp_map.p);
	vp_map.p = NULL;
	return 0;
}
int vp_fs_idle(void) { return !vp_fs_open && !vp_map.p; }
