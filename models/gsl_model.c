/* GSL random number generation as a deterministic but arbitrary function of
 * (seed, position): each draw is a fresh symbolic value, memoised so that the
 * same generator state always produces the same draw. */
#include <gsl/gsl_rng.h>
#include <gsl/gsl_randist.h>
#include "vp.h"
struct vp_rng { uint64_t seed, ctr; };
#define VP_DRAWS 256
static struct { uint64_t seed, ctr; uint32_t v; } draws[VP_DRAWS];
static struct { uint64_t seed, ctr; double v; } gauss[VP_DRAWS];
static unsigned ndraws, ngauss;
unsigned vp_draw_limit; /* more draws from one generator are not explored (0: no limit) */
unsigned vp_gauss_grid; /* only multiples of 2^-20 as normal deviates */
#define LIMIT(c) do { if (vp_draw_limit && (c) >= vp_draw_limit) vp_kill(); } while (0)

static void          m_set(void *s, unsigned long int seed) { ((struct vp_rng *)s)->seed = seed; ((struct vp_rng *)s)->ctr = 0; }
static unsigned long m_get(void *s)
{
	struct vp_rng *r = s;
	uint64_t seed = r->seed, c = r->ctr++;
	LIMIT(c);
	for (unsigned i = 0; i < ndraws; i++)
		if (draws[i].seed == seed && draws[i].ctr == c) return draws[i].v;
	if (ndraws >= VP_DRAWS) { vp_assert(0, "harness: too many draws"); return 0; }
	draws[ndraws].seed = seed; draws[ndraws].ctr = c;
	draws[ndraws].v = vp_u32("rng_draw");
	return draws[ndraws++].v;
}
static double m_get_double(void *s) { return m_get(s) * (1.0 / 4294967296.0); }
static const gsl_rng_type t_mt = {"mt19937", 0xffffffffUL, 0, sizeof(struct vp_rng), m_set, m_get, m_get_double};
static const gsl_rng_type t_b = {"ranlxs0", 0x00ffffffUL, 0, sizeof(struct vp_rng) + 8, m_set, m_get, m_get_double};
static const gsl_rng_type *types[] = {&t_b, &t_mt, NULL};
const gsl_rng_type *gsl_rng_default = &t_mt;
unsigned long gsl_rng_default_seed;
const gsl_rng_type **gsl_rng_types_setup(void) { return types; }
const gsl_rng_type  *gsl_rng_env_setup(void) { return gsl_rng_default; }
gsl_rng *gsl_rng_alloc(const gsl_rng_type *T)
{
	gsl_rng *r = malloc(sizeof(*r));
	if (!r) return NULL;
	r->state = calloc(1, T->size);
	if (!r->state) { free(r); return NULL; }
	r->type = T;
	T->set(r->state, 0);
	return r;
}
void  gsl_rng_free(gsl_rng *r) { if (!r) return; free(r->state); free(r); }
void  gsl_rng_set(const gsl_rng *r, unsigned long s) { r->type->set(r->state, s); }
const char *gsl_rng_name(const gsl_rng *r) { return r->type->name; }
size_t gsl_rng_size(const gsl_rng *r) { return r->type->size; }
void  *gsl_rng_state(const gsl_rng *r) { return r->state; }
unsigned long gsl_rng_max(const gsl_rng *r) { return r->type->max; }
unsigned long gsl_rng_min(const gsl_rng *r) { return r->type->min; }
unsigned long gsl_rng_get(const gsl_rng *r) { return m_get(r->state); }
double        gsl_rng_uniform(const gsl_rng *r) { return m_get_double(r->state); }
unsigned long gsl_rng_uniform_int(const gsl_rng *r, unsigned long n)
{
	/* GSL's contract: an error (default handler: abort) unless 0 < n <= max - min */
	if (n == 0 || n > r->type->max - r->type->min) abort();
	unsigned long v = m_get(r->state);
	vp_assume(v < n); /* rejection sampling yields every value below n */
	return v;
}
/* a + (b - a) * u; between bounds of which none is zero: any value of [a, b]
 * (a function of the state and the bounds) */
static struct { uint64_t seed, ctr; double a, b, v; } flats[VP_DRAWS];
static unsigned nflats;
double gsl_ran_flat(const gsl_rng *r, const double a, const double b)
{
	if (a == 0 || b == 0) {
		double u = gsl_rng_uniform(r);
		return a * (1 - u) + b * u;
	}
	struct vp_rng *s = r->state;
	uint64_t seed = s->seed, c = s->ctr++;
	LIMIT(c);
	for (unsigned i = 0; i < nflats; i++)
		if (flats[i].seed == seed && flats[i].ctr == c && !memcmp(&flats[i].a, &a, 8) && !memcmp(&flats[i].b, &b, 8)) return flats[i].v;
	if (nflats >= VP_DRAWS) { vp_assert(0, "harness: too many draws"); return 0; }
	flats[nflats].seed = seed; flats[nflats].ctr = c; flats[nflats].a = a; flats[nflats].b = b;
	double v = vp_fin("rng_flat");
	vp_assume((v >= a && v <= b) || (v >= b && v <= a));
	flats[nflats].v = v;
	return flats[nflats++].v;
}
static double m_gauss(const gsl_rng *r)
{
	struct vp_rng *s = r->state;
	uint64_t seed = s->seed, c = s->ctr++;
	LIMIT(c);
	for (unsigned i = 0; i < ngauss; i++)
		if (gauss[i].seed == seed && gauss[i].ctr == c) return gauss[i].v;
	if (ngauss >= VP_DRAWS) { vp_assert(0, "harness: too many draws"); return 0; }
	gauss[ngauss].seed = seed; gauss[ngauss].ctr = c;
	double v;
	if (vp_gauss_grid)
		v = (double)vp_range(-(40 << 20), 40 << 20, "rng_gauss_grid") * 0x1p-20;
	else {
		v = vp_fin("rng_gauss");
		vp_assume(v >= -40.0 && v <= 40.0);
	}
	gauss[ngauss].v = v;
	return gauss[ngauss++].v;
}
double gsl_ran_gaussian(const gsl_rng *r, const double sigma) { return sigma * m_gauss(r); }
double gsl_ran_gaussian_tail(const gsl_rng *r, const double a, const double sigma)
{
	double v = sigma * m_gauss(r);
	vp_assume(v >= a);
	return v;
}
/* the rest of the generator interface, for sources that come to use it */
double gsl_rng_uniform_pos(const gsl_rng *r)
{
	double u = gsl_rng_uniform(r);
	vp_assume(u > 0);
	return u;
}
double gsl_ran_ugaussian(const gsl_rng *r) { return m_gauss(r); }
double gsl_ran_gaussian_ziggurat(const gsl_rng *r, const double sigma) { return sigma * m_gauss(r); }
double gsl_ran_gaussian_ratio_method(const gsl_rng *r, const double sigma) { return sigma * m_gauss(r); }
double gsl_ran_ugaussian_tail(const gsl_rng *r, const double a) { return gsl_ran_gaussian_tail(r, a, 1.0); }
int gsl_rng_memcpy(gsl_rng *d, const gsl_rng *s)
{
	if (d->type != s->type) abort();
	memcpy(d->state, s->state, s->type->size);
	return 0;
}
gsl_rng *gsl_rng_clone(const gsl_rng *s)
{
	gsl_rng *d = gsl_rng_alloc(s->type);
	if (d) memcpy(d->state, s->state, s->type->size);
	return d;
}
