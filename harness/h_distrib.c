#include "ccsh.h"
#include <gsl/gsl_rng.h>
/* P06: distributions stay within their bounds and all sampling forms agree. */
#define MAXD 3
static ccs_rng_t mk_rng(void)
{
	ccs_rng_t r = NULL;
	OK(ccs_create_rng(&r));
	OK(ccs_rng_set_seed(r, 5));
	return r;
}
static double u_of(ccs_rng_t r)
{
	gsl_rng *g = NULL;
	OK(ccs_rng_get_gsl_rng(r, &g));
	return gsl_rng_uniform(g);
}
/* branch-free membership */
static int inside(ccs_interval_t *b, ccs_numeric_t v)
{
	if (b->type == CCS_NUMERIC_TYPE_INT)
		return ((v.i > b->lower.i) | ((b->lower_included != 0) & (v.i == b->lower.i))) & ((v.i < b->upper.i) | ((b->upper_included != 0) & (v.i == b->upper.i)));
	return (v.f > b->lower.f || (b->lower_included && v.f == b->lower.f)) & (v.f < b->upper.f || (b->upper_included && v.f == b->upper.f));
}
static ccs_distribution_t mk_ui(int64_t l, int64_t u, int64_t q)
{
	ccs_distribution_t d = NULL;
	OK(ccs_create_uniform_int_distribution(l, u, CCS_SCALE_TYPE_LINEAR, q, &d));
	return d;
}
static ccs_distribution_t mk_roulette(unsigned n, double *w)
{
	ccs_distribution_t d = NULL;
	OK(ccs_create_roulette_distribution(n, w, &d));
	return d;
}
static void bounds_of(ccs_distribution_t d, size_t dim, ccs_interval_t *b)
{
	size_t             got = 0;
	ccs_numeric_type_t t[MAXD];
	OK(ccs_distribution_get_dimension(d, &got));
	vp_assert(got == dim, "a distribution has its dimension");
	OK(ccs_distribution_get_data_types(d, t));
	OK(ccs_distribution_get_bounds(d, b));
	for (size_t i = 0; i < dim; i++)
		vp_assert(t[i] == b[i].type, "bounds have the data type of the distribution");
}
/* every form from the same state; v receives two values (dim numerics each) */
static void forms(ccs_distribution_t d, size_t dim, unsigned n, ccs_numeric_t *v)
{
	ccs_interval_t b[MAXD];
	bounds_of(d, dim, b);
	ccs_rng_t r = mk_rng();
	OK(ccs_distribution_samples(d, r, n, v));
	int bad = 0;
	for (size_t i = 0; i < n * dim; i++)
		bad |= !inside(b + i % dim, v[i]);
	vp_assert(!bad, "samples lie within the bounds");
	rel(r);
	r = mk_rng();
	size_t        stride = dim + CH(2, "pad");
	ccs_numeric_t s[2 * (MAXD + 1)];
	for (size_t i = 0; i < 2 * (MAXD + 1); i++)
		s[i].i = 424242;
	OK(ccs_distribution_strided_samples(d, r, n, stride, s));
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < stride; j++)
			bad |= j < dim ? s[i * stride + j].i != v[i * dim + j].i : s[i * stride + j].i != 424242;
	for (size_t i = n * stride; i < 2 * (MAXD + 1); i++)
		bad |= s[i].i != 424242;
	vp_assert(!bad, "strided samples are the same values, and nothing else is written");
	rel(r);
	r = mk_rng();
	ccs_numeric_t c[MAXD][3], *p[MAXD];
	for (size_t j = 0; j < dim; j++) {
		p[j]      = c[j];
		c[j][n].i = 424242;
	}
	OK(ccs_distribution_soa_samples(d, r, n, p));
	for (size_t j = 0; j < dim; j++) {
		for (size_t i = 0; i < n; i++)
			bad |= c[j][i].i != v[i * dim + j].i;
		bad |= c[j][n].i != 424242;
	}
	vp_assert(!bad, "structure-of-arrays samples are the same values, and nothing else is written");
	rel(r);
	if (dim == 1 || n == 1) {
		r = mk_rng();
		for (size_t i = 0; i < n; i++) {
			ccs_numeric_t x[MAXD];
			OK(ccs_distribution_sample(d, r, x));
			for (size_t j = 0; j < dim; j++)
				bad |= x[j].i != v[i * dim + j].i;
		}
		vp_assert(!bad, "values sampled one by one are the same values");
		rel(r);
	}
	if (dim > 1) {
		/* a missing column is skipped */
		unsigned skip = CH(2, "skip");
		r = mk_rng();
		for (size_t j = 0; j < dim; j++)
			for (size_t i = 0; i <= n; i++)
				c[j][i].i = 424242;
		p[skip] = NULL;
		OK(ccs_distribution_soa_samples(d, r, n, p));
		for (size_t j = 0; j < dim; j++) {
			for (size_t i = 0; i < n; i++)
				bad |= j == skip ? c[j][i].i != 424242 : !inside(b + j, c[j][i]);
			bad |= c[j][n].i != 424242;
		}
		vp_assert(!bad, "a missing column is skipped");
		rel(r);
		vp_reach("missing column");
	}
	vp_reach("forms");
}
static int refd(ccs_result_t r)
{
	if (r == CCS_RESULT_SUCCESS)
		return 0;
	drop_error();
	return 1;
}
/* uniform over any integer interval, concrete quantization */
static const int64_t qs[] = {0, 1, 3, 1000};
static void uniform_int(void)
{
	static const int64_t wiv[3][2] = {{-(1LL << 62), (1LL << 62) - 1}, {7, (1LL << 33) * 1000}, {INT64_MIN, -1}};
	unsigned           wide = CH(4, "wide"); /* 0: any lower bound and width */
	int64_t            l, u, q = qs[CH(4, "q")];
	if (wide) {
		l = wiv[wide - 1][0];
		u = wiv[wide - 1][1];
		vp_draw_limit = 4;
	} else {
		l = vp_i64("lower");
		u = q > 1 ? l + vp_range(-1, 5000, "width") : vp_i64("upper");
		vp_assume(q <= 1 || l < INT64_MAX - 10000);
	}
	ccs_distribution_t d = NULL;
	ccs_numeric_t      lo, up, qq, v[2];
	ccs_scale_type_t   sc = 9;
	vp_assume(l >= u || (uint64_t)u - (uint64_t)l <= INT64_MAX);
	int bad = l >= u || q > u - l;
	int r = refd(ccs_create_uniform_int_distribution(l, u, CCS_SCALE_TYPE_LINEAR, q, &d));
	vp_assert(r == bad, "a uniform distribution is accepted exactly when its interval and quantization are coherent");
	if (r) {
		vp_assert(d == NULL, "nothing is created when refused");
		vp_reach("refused uniform");
		return;
	}
	OK(ccs_uniform_distribution_get_properties(d, &lo, &up, &sc, &qq));
	vp_assert(lo.i == l && up.i == u && qq.i == q && sc == CCS_SCALE_TYPE_LINEAR, "a uniform distribution keeps its declaration");
	ccs_interval_t b;
	bounds_of(d, 1, &b);
	vp_assert(b.lower.i == l && b.lower_included && b.upper.i == u && !b.upper_included, "uniform bounds are the declared interval");
	/* one draw covers small intervals, two a wide one (more: the same with rejected draws) */
	if (!wide)
		vp_assume((uint64_t)(u - l) <= 0xffffffffULL);
	if (wide) {
		ccs_rng_t x = mk_rng();
		OK(ccs_distribution_samples(d, x, 1, v));
		vp_assert(inside(&b, v[0]), "a sample of a wide interval lies within the bounds");
		rel(x);
		vp_reach("wide interval");
	} else {
		forms(d, 1, 1, v);
		vp_assert(q <= 1 || (uint64_t)(v[0].i - l) % (uint64_t)q == 0, "a sample is a multiple of the quantization away from the lower bound");
	}
	rel(d);
}
/* uniform over float intervals: any interval (in bounds), then fixed intervals (all forms) */
static void uniform_float(void)
{
	static const double iv[][3] = {{0, 1, 0}, {-2, 2, 0}, {1, 1 + 0x1p-52, 0}, {-1, 3, 0.5}, {5, 7, 2}, {0x1p53, 0x1p53 + 4, 1}};
	ccs_distribution_t d = NULL;
	ccs_numeric_t      v[2];
	unsigned           k = CH(7, "interval");
	double             l, u, q;
	if (k == 6) {
		l = vp_fin("lower");
		u = vp_fin("upper");
		q = 0;
	} else {
		l = iv[k][0];
		u = iv[k][1];
		q = iv[k][2];
	}
	int bad = l >= u, r = refd(ccs_create_uniform_float_distribution(l, u, CCS_SCALE_TYPE_LINEAR, q, &d));
	vp_assert(r == bad, "a uniform distribution is accepted exactly when its interval is not empty");
	if (r)
		return;
	ccs_interval_t b;
	bounds_of(d, 1, &b);
	vp_assert(b.lower.f == l && b.lower_included && b.upper.f == u && !b.upper_included, "uniform float bounds are the declared interval");
	if (k == 6) {
		ccs_rng_t x = mk_rng();
		OK(ccs_distribution_samples(d, x, 1, v));
		vp_assert(inside(&b, v[0]), "a sample of any float interval lies within the bounds");
		rel(x);
		vp_reach("any float interval");
	} else {
		forms(d, 1, 2, v);
		ccs_rng_t x = mk_rng();
		double    y = u_of(x);
		if (k < 2)
			vp_assert(v[0].f == l + y * (u - l), "a uniform sample is proportional to the draw");
		if (q > 0 && k < 5) {
			double m = (v[0].f - l) / q;
			vp_assert(m == floor(m), "a float sample is a multiple of the quantization away from the lower bound");
			vp_assert(v[0].f <= l + y * (u - l) && v[0].f + q > l + y * (u - l), "a quantized sample is proportional to the draw");
		}
		rel(x);
	}
	rel(d);
}
static void uniform_log(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      v[2];
	unsigned           k = CH(4, "case");
	static const double  fl[2][3] = {{0.25, 8, 0}, {3, 11, 2}};
	static const int64_t il[2][3] = {{3, 1000, 0}, {5, 500, 7}};
	vp_exp_grid = (unsigned)vp_param("grid", 1);
	vp_log_real = 1;
	ERR(ccs_create_uniform_int_distribution(0, 5, CCS_SCALE_TYPE_LOGARITHMIC, 0, &d));
	ERR(ccs_create_uniform_float_distribution(0, 5, CCS_SCALE_TYPE_LOGARITHMIC, 0, &d));
	vp_assert(d == NULL, "no logarithmic distribution over non-positive values");
	if (k < 2)
		OK(ccs_create_uniform_float_distribution(fl[k][0], fl[k][1], CCS_SCALE_TYPE_LOGARITHMIC, fl[k][2], &d));
	else
		OK(ccs_create_uniform_int_distribution(il[k - 2][0], il[k - 2][1], CCS_SCALE_TYPE_LOGARITHMIC, il[k - 2][2], &d));
	forms(d, 1, 1, v);
	if (k == 3)
		vp_assert((v[0].i - 5) % 7 == 0, "a logarithmic sample is quantized");
	rel(d);
	vp_reach("logarithmic");
}
static void normal(void)
{
	ccs_distribution_t d = NULL;
	ccs_numeric_t      v[2];
	ccs_interval_t     b;
	unsigned           k = CH(8, "case");
	int64_t            bad = vp_i64("badq");
	vp_assume(bad < 0);
	ERR(ccs_create_normal_int_distribution(0., 1., CCS_SCALE_TYPE_LINEAR, bad, &d));
	vp_assert(d == NULL, "no normal distribution with a negative quantization");
	vp_draw_limit = 3;
	vp_exp_exact = vp_log_real = 1;
	vp_exp_grid = vp_gauss_grid = k & 1;
	unsigned log_ = k & 1, quant = (k >> 1) & 1, isf = (k >> 2) & 1;
	double   mu = log_ ? 2. : 8., sigma = log_ ? 0.5 : 4.;
	if (isf)
		OK(ccs_create_normal_float_distribution(mu, sigma, log_ ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, quant ? 4. : 0., &d));
	else
		OK(ccs_create_normal_int_distribution(mu, sigma, log_ ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, quant ? 4 : 0, &d));
	bounds_of(d, 1, &b);
	vp_assert(b.type == (isf ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT), "a normal distribution has the declared type");
	forms(d, 1, 1, v);
	if (quant) {
		if (isf)
			vp_assert(v[0].f * 0.25 == floor(v[0].f * 0.25), "a float normal sample is a multiple of the quantization");
		else
			vp_assert(v[0].i % 4 == 0, "a normal sample is a multiple of the quantization");
	}
	rel(d);
	vp_reach("normal");
}
static const double wv[] = {0., 1., 3., 0.25};
static unsigned     nw;
static double       w[3], ws;
static void         pick_weights(unsigned n)
{
	ws = 0;
	nw = n;
	for (unsigned i = 0; i < n; i++)
		ws += w[i] = wv[vp_choice(4, "weight")];
}
static void check_pick(int64_t got, double y, const char *what)
{
	double lo = 0;
	vp_assert_(got >= 0 && got < (int64_t)nw, what);
	for (int64_t i = 0; i < got; i++)
		lo += w[i];
	vp_assert(w[got] > 0, "a choice of weight zero is never drawn");
	vp_assert(y >= lo / ws - 1e-9 && y <= (lo + w[got]) / ws + 1e-9, "draws follow the weights");
}
static void roulette(void)
{
	ccs_distribution_t d = NULL;
	unsigned           n = 1 + CH(3, "n1");
	pick_weights(n);
	if (ws == 0.) {
		ERR(ccs_create_roulette_distribution(n, w, &d));
		vp_assert(d == NULL, "no roulette without weight");
		vp_reach("weightless roulette");
		return;
	}
	double neg[3] = {1, 1, vp_num("neg")};
	vp_assume(neg[2] < 0);
	ERR(ccs_create_roulette_distribution(3, neg, &d));
	ERR(ccs_create_roulette_distribution(0, w, &d));
	d = mk_roulette(n, w);
	double a[4];
	size_t cnt = 0;
	OK(ccs_roulette_distribution_get_areas(d, 4, a, &cnt));
	vp_assert(cnt == n, "a roulette has as many areas as declared");
	for (unsigned i = 0; i < n; i++)
		vp_assert(a[i] >= w[i] / ws - 1e-9 && a[i] <= w[i] / ws + 1e-9, "areas are the normalized weights");
	ccs_numeric_t v[2];
	forms(d, 1, 1, v);
	ccs_rng_t x = mk_rng();
	check_pick((int64_t)vp_concretize((uint64_t)v[0].i), u_of(x), "a roulette draws one of its areas");
	rel(x);
	rel(d);
}
static void mixture(void)
{
	ccs_distribution_t d = NULL, c[3], out[4];
	unsigned           n = 2 + CH(2, "n2");
	pick_weights(n);
	for (unsigned i = 0; i < n; i++)
		c[i] = mk_ui(10 * i, 10 * i + 8, 0);
	if (ws == 0.) {
		ERR(ccs_create_mixture_distribution(n, c, w, &d));
		vp_reach("weightless mixture");
	} else {
		double a[4];
		size_t cnt = 0;
		OK(ccs_create_mixture_distribution(n, c, w, &d));
		OK(ccs_mixture_distribution_get_distributions(d, 4, out, &cnt));
		vp_assert(cnt == n, "a mixture has as many distributions as declared");
		OK(ccs_mixture_distribution_get_weights(d, 4, a, &cnt));
		for (unsigned i = 0; i < n; i++)
			vp_assert(out[i] == c[i] && a[i] >= w[i] / ws - 1e-9 && a[i] <= w[i] / ws + 1e-9, "a mixture keeps its distributions and normalized weights");
		ccs_interval_t b;
		bounds_of(d, 1, &b);
		vp_assert(b.lower.i == 0 && b.lower_included && b.upper.i == 10 * (int64_t)n - 2 && !b.upper_included, "mixture bounds cover its distributions");
		ccs_numeric_t v[2], y;
		forms(d, 1, 1, v);
		ccs_rng_t x = mk_rng();
		double    u = u_of(x);
		int64_t   got = v[0].i >= 20 ? 2 : v[0].i >= 10 ? 1 : 0;
		check_pick(got, u, "a mixture draws from one of its distributions");
		OK(ccs_distribution_sample(c[got], x, &y));
		vp_assert(y.i == v[0].i, "a mixture sample is a sample of the chosen distribution");
		rel(x);
		rel(d);
	}
	for (unsigned i = 0; i < n; i++)
		rel(c[i]);
}
/* multivariate [uniform, mixture of 2 two-dimensional multivariates] and friends */
static void multivariate(void)
{
	ccs_distribution_t c[3], m[2], d = NULL, out[3];
	double             ww[2] = {1, 3}, one[2] = {1, 1};
	unsigned           k = CH(4, "case"), n = (unsigned)vp_param("n", 2);
	ccs_numeric_t      v[2 * MAXD];
	size_t             cnt = 0;
	c[0] = mk_ui(0, 8, 0);
	c[1] = mk_roulette(2, ww);
	c[2] = mk_ui(100, 108, 0);
	OK(ccs_create_multivariate_distribution(2, c, m));
	if (k == 0) {
		forms(m[0], 2, n, v);
		OK(ccs_multivariate_distribution_get_distributions(m[0], 3, out, &cnt));
		vp_assert(cnt == 2 && out[0] == c[0] && out[1] == c[1], "a multivariate distribution keeps its components");
		/* one component after the other */
		ccs_rng_t     x = mk_rng();
		ccs_numeric_t a[2], b[2];
		OK(ccs_distribution_samples(c[0], x, n, a));
		OK(ccs_distribution_samples(c[1], x, n, b));
		int bad = 0;
		for (unsigned i = 0; i < n; i++)
			bad |= a[i].i != v[2 * i].i || b[i].i != v[2 * i + 1].i;
		vp_assert(!bad, "multivariate samples are the samples of the components");
		rel(x);
	} else {
		OK(ccs_create_multivariate_distribution(2, c + 1, m + 1)); /* roulette, uniform */
		if (k == 1) {
			/* a mixture of two-dimensional distributions, more dimensions than distributions in k == 2 */
			OK(ccs_create_mixture_distribution(2, m, one, &d));
			forms(d, 2, 1, v);
			ccs_interval_t b[2];
			bounds_of(d, 2, b);
			vp_assert(b[0].lower.i == 0 && b[0].upper.i == 8 && b[1].lower.i == 0 && b[1].upper.i == 108, "mixture bounds cover each dimension");
			vp_reach("multivariate mixture");
		} else if (k == 2) {
			OK(ccs_create_mixture_distribution(1, m, one, &d));
			forms(d, 2, 1, v);
		} else {
			ccs_distribution_t nest[2] = {m[1], c[0]};
			OK(ccs_create_multivariate_distribution(2, nest, &d));
			forms(d, 3, 1, v);
			ccs_interval_t b[3];
			bounds_of(d, 3, b);
			vp_assert(b[0].upper.i == 2 && b[1].lower.i == 100 && b[2].upper.i == 8, "multivariate bounds are those of the components in order");
			ccs_distribution_t mix[2] = {m[0], c[0]}, e = NULL;
			ERR(ccs_create_mixture_distribution(2, mix, one, &e));
			vp_assert(e == NULL, "a mixture of different dimensions is refused");
		}
		rel(d);
		rel(m[1]);
	}
	rel(m[0]);
	for (int i = 0; i < 3; i++)
		rel(c[i]);
}
static void oversampling(void)
{
	ccs_distribution_t d = NULL;
	ccs_interval_t     b, iv;
	ccs_bool_t         o = 7;
	int                fl = CH(2, "float");
	iv.lower_included = vp_bool("li") ? CCS_TRUE : CCS_FALSE;
	iv.upper_included = vp_bool("ui") ? CCS_TRUE : CCS_FALSE;
	if (fl) {
		OK(ccs_create_uniform_float_distribution(-1.5, 4., CCS_SCALE_TYPE_LINEAR, 0., &d));
		iv.type    = CCS_NUMERIC_TYPE_FLOAT;
		iv.lower.f = vp_num("l");
		iv.upper.f = vp_num("u");
	} else {
		d          = mk_ui(-3, 9, 0);
		iv.type    = CCS_NUMERIC_TYPE_INT;
		iv.lower.i = vp_i64("l");
		iv.upper.i = vp_i64("u");
	}
	OK(ccs_distribution_get_bounds(d, &b));
	OK(ccs_distribution_check_oversampling(d, &iv, &o));
	int in;
	if (fl)
		in = (iv.lower.f < -1.5 || (iv.lower_included && iv.lower.f == -1.5)) && (iv.upper.f >= 4.);
	else
		in = (iv.lower.i < -3 || (iv.lower_included && iv.lower.i == -3)) && (iv.upper.i > 8 || (iv.upper_included && iv.upper.i == 8));
	vp_assert(o == (in ? CCS_FALSE : CCS_TRUE), "oversampling is reported exactly when the bounds exceed the interval");
	rel(d);
}
/* sampling parameters through a multivariate distribution yields values of their domains */
static void parameters(void)
{
	ccs_parameter_t    p[2];
	ccs_distribution_t c[2], d = NULL;
	ccs_datum_t        v[2];
	double             ww[2] = {1, 1};
	ccs_bool_t         a = 7, b = 7;
	int64_t            lim = -20;
	unsigned           never = CH(2, "never");
	if (!never) {
		lim = vp_range(-49, 50, "limit");
		vp_draw_limit = (unsigned)vp_param("draws", 6);
	}
	p[0] = mk_int("a", -50, lim, -50);
	if (never)
		p[1] = mk_int("b", 0, 2, 0);
	else
		OK(ccs_create_categorical_parameter("b", 2, (ccs_datum_t[2]){ccs_int(4), ccs_string("x")}, 0, p + 1));
	c[0] = mk_ui(-10, 30, 0);
	c[1] = never ? mk_ui(0, 2, 0) : mk_roulette(2, ww);
	OK(ccs_create_multivariate_distribution(2, c, &d));
	ccs_rng_t    r = mk_rng();
	ccs_result_t e = ccs_distribution_parameters_sample(d, r, p, v);
	if (e == CCS_RESULT_SUCCESS) {
		OK(ccs_parameter_check_value(p[0], v[0], &a));
		OK(ccs_parameter_check_value(p[1], v[1], &b));
		vp_assert(a == CCS_TRUE && b == CCS_TRUE, "values sampled for parameters belong to their domains");
		vp_reach("parameters sampled");
	} else {
		drop_error();
		vp_reach("parameters not sampled");
	}
	rel(r);
	rel(d);
	for (int i = 0; i < 2; i++) {
		rel(c[i]);
		rel(p[i]);
	}
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	switch (CH(9, "what")) {
	case 0: uniform_int(); break;
	case 1: uniform_float(); break;
	case 2: uniform_log(); break;
	case 3: normal(); break;
	case 4: roulette(); break;
	case 5: mixture(); break;
	case 6: multivariate(); break;
	case 7: oversampling(); break;
	default: parameters();
	}
	vp_assert(vp_heap_live() == live, "everything is released");
}
