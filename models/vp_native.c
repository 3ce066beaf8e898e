/* Native implementation of vp.h: replays one recorded input sequence. */
#undef snprintf
#undef sprintf
#include "vp.h"
#include <stdio.h>
#include <unistd.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
static FILE   *in;
static int64_t live, fail = -1, count;
static int     diverged;
static void next(const char *name, uint8_t *buf, size_t n)
{
	char nm[256], hex[8192];
	if (!in || fscanf(in, "%255s %8191s", nm, hex) != 2) {
		if (!diverged) fprintf(stderr, "VP-DIVERGED: no recorded input for %s\n", name);
		diverged = 1;
		memset(buf, 0, n);
		return;
	}
	if (!strcmp(hex, "-")) hex[0] = 0;
	char want[256];
	snprintf(want, sizeof(want), "%s", name);
	for (char *c = want; *c; c++)
		if (*c == ' ')
			*c = '_';
	if (strcmp(nm, want) || strlen(hex) != 2 * n) {
		fprintf(stderr, "VP-DIVERGED: recorded %s (%zu) requested %s (%zu)\n", nm, strlen(hex) / 2, name, n);
		diverged = 1;
	}
	for (size_t i = 0; i < n; i++) {
		unsigned v = 0;
		if (2 * i + 1 < strlen(hex)) sscanf(hex + 2 * i, "%2x", &v);
		buf[i] = (uint8_t)v;
	}
}
void vp_symbolic(void *p, size_t n, const char *name) { next(name, p, n); }
void vp_assume(int c)
{
	if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); fflush(stderr); _exit(42); }
}
void vp_assert_(int c, const char *msg)
{
	if (!c) { fprintf(stderr, "VP-ASSERT-FAILED: %s\n", msg); fflush(stderr); _exit(41); }
}
void     vp_reach(const char *l) { if (getenv("VP_TRACE")) fprintf(stderr, "VP-REACH %s\n", l); }
unsigned vp_choice(unsigned n, const char *name)
{
	uint8_t b[4];
	(void)n;
	next(name, b, 4);
	return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24;
}
#undef log
uint64_t vp_concretize(uint64_t v) { return v; }
uint64_t vp_log_bits(uint64_t v)
{
	double d;
	memcpy(&d, &v, 8);
	d = log(d);
	memcpy(&v, &d, 8);
	return v;
}
int64_t  vp_heap_live(void) { return live; }
int64_t  vp_alloc_count(void) { return count; }
void     vp_fail_alloc(int64_t k) { fail = k; }
int64_t  vp_param(const char *name, int64_t d)
{
	char b[128];
	snprintf(b, sizeof b, "VP_PARAM_%s", name);
	char *e = getenv(b);
	return e ? atoll(e) : d;
}
void vp_kill(void) { fprintf(stderr, "VP-KILL\n"); _exit(0); }
void vp_print(const char *s, uint64_t v) { fprintf(stderr, "[vp] %s 0x%llx\n", s, (unsigned long long)v); }
int  vp_is_init(const void *p, size_t n) { (void)p; (void)n; return 1; }
static int fails(void)
{
	count++;
	if (fail < 0) return 0;
	if (fail == 0) { fail = -1; return 1; }
	fail--;
	return 0;
}
void *vp_malloc(size_t n)
{
	if (fails() || n > (1u << 22)) return NULL;
	void *p = malloc(n);
	if (p) live++;
	return p;
}
void *vp_calloc(size_t a, size_t b)
{
	if (fails()) return NULL;
	unsigned __int128 t = (unsigned __int128)a * b;
	if (t > (1u << 22)) return NULL;
	void *p = calloc(a, b);
	if (p) live++;
	return p;
}
void *vp_realloc(void *q, size_t n)
{
	if (fails() || n > (1u << 22)) return NULL;
	void *p = realloc(q, n);
	if (p && !q) live++;
	return p;
}
void vp_free(void *p) { if (p) live--; free(p); }
int  main(int argc, char **argv)
{
	if (argc > 1) in = fopen(argv[1], "r");
	alarm(60);
	vp_main();
	if (diverged) { fprintf(stderr, "VP-DONE-DIVERGED\n"); return 43; }
	fprintf(stderr, "VP-DONE\n");
	return 0;
}
