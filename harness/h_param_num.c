#include "ccsh.h"
/* P05: numerical parameters accept exactly their declared domain. */
static int leq(int fl, ccs_numeric_t a, ccs_numeric_t b) { return fl ? a.f <= b.f : a.i <= b.i; }
static int lt(int fl, ccs_numeric_t a, ccs_numeric_t b) { return fl ? a.f < b.f : a.i < b.i; }
static ccs_numeric_t num(int fl, const char *n) { return fl ? CCSF(vp_num(n)) : CCSI(vp_i64(n)); }
void vp_main(void)
{
	ccs_init();
	int64_t            live = vp_heap_live();
	int                fl = vp_choice(2, "float");
	ccs_numeric_type_t type = fl ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	ccs_numeric_t      lo = num(fl, "lower"), up = num(fl, "upper"), q = num(fl, "quantization"), d = num(fl, "default");
	ccs_parameter_t    p = NULL;
	int                deep = vp_choice(2, "quantized");
	if (!deep)
		q.i = 0; /* also 0.0 */
	/* reference: a coherent declaration */
	int ok = lt(fl, lo, up) & leq(fl, lo, d) & lt(fl, d, up);
	if (deep) {
		if (fl)
			ok &= (q.f >= 0.0) & (q.f <= up.f - lo.f);
		else
			ok &= (q.i >= 0) & ((uint64_t)q.i <= (uint64_t)up.i - (uint64_t)lo.i);
	}
	if (!fl) /* the width of the range has to be an integer too */
		ok &= ((uint64_t)up.i - (uint64_t)lo.i) <= (uint64_t)INT64_MAX;
	ccs_result_t r = ccs_create_numerical_parameter("p", type, lo, up, q, d, &p);
	vp_assert((r == CCS_RESULT_SUCCESS) == ok, "creation succeeds exactly for a coherent declaration");
	if (r != CCS_RESULT_SUCCESS) {
		vp_assert(p == NULL, "a refused creation returns no parameter");
		drop_error();
		vp_assert(vp_heap_live() == live, "a refused creation leaks nothing");
		vp_reach("refused");
		return;
	}
	vp_reach("created");
	unsigned part = vp_choice(4, "part");
	if (part == 0) {
		ccs_numeric_type_t   t2;
		ccs_numeric_t        l2, u2, q2;
		ccs_parameter_type_t pt;
		ccs_datum_t          dv;
		const char          *nm;
		ccs_interval_t       it;
		OK(ccs_numerical_parameter_get_properties(p, &t2, &l2, &u2, &q2));
		vp_assert((t2 == type) & (l2.i == lo.i) & (u2.i == up.i) & (q2.i == q.i), "properties are those declared");
		OK(ccs_parameter_get_type(p, &pt));
		OK(ccs_parameter_get_default_value(p, &dv));
		OK(ccs_parameter_get_name(p, &nm));
		vp_assert(pt == CCS_PARAMETER_TYPE_NUMERICAL && !strcmp(nm, "p"), "type and name are those declared");
		vp_assert((dv.type == (fl ? CCS_DATA_TYPE_FLOAT : CCS_DATA_TYPE_INT)) & (dv.value.i == d.i), "default is the declared one");
		OK(ccs_parameter_sampling_interval(p, &it));
		vp_assert((it.type == type) & (it.lower.i == lo.i) & (it.upper.i == up.i) & (it.lower_included == CCS_TRUE) & (it.upper_included == CCS_FALSE),
			  "the sampling interval is [lower, upper[");
	} else if (part == 1) {
		/* membership, one value and arrays, of every type */
		ccs_datum_t v[2], w[2] = {ccs_none, ccs_none}, w1 = ccs_none;
		ccs_bool_t  b = 7, bs[2] = {7, 7}, vb = 7, vbs[2] = {7, 7};
		unsigned    kind = vp_choice(6, "kind");
		v[0] = kind == 5 ? ccs_string("x") : sym_datum_of(kind, "value");
		v[1] = fl ? ccs_float(vp_num("value2")) : ccs_int(vp_i64("value2"));
		ccs_numeric_t x, y;
		x.i = v[0].value.i;
		y.i = v[1].value.i;
		int e0 = (v[0].type == (fl ? CCS_DATA_TYPE_FLOAT : CCS_DATA_TYPE_INT)) ? (leq(fl, lo, x) & lt(fl, x, up)) : 0;
		int e1 = leq(fl, lo, y) & lt(fl, y, up);
		OK(ccs_parameter_check_value(p, v[0], &b));
		vp_assert(b == (e0 ? CCS_TRUE : CCS_FALSE), "a value is valid exactly when in the domain");
		OK(ccs_parameter_check_values(p, 2, v, bs));
		vp_assert((bs[0] == (e0 ? CCS_TRUE : CCS_FALSE)) & (bs[1] == (e1 ? CCS_TRUE : CCS_FALSE)), "array check agrees with the domain");
		OK(ccs_parameter_validate_value(p, v[0], &w1, &vb));
		vp_assert(vb == (e0 ? CCS_TRUE : CCS_FALSE), "validation agrees with the domain");
		OK(ccs_parameter_validate_values(p, 2, v, w, vbs));
		vp_assert((vbs[0] == (e0 ? CCS_TRUE : CCS_FALSE)) & (vbs[1] == (e1 ? CCS_TRUE : CCS_FALSE)), "array validation agrees with the domain");
		vp_assert(w1.type == (e0 ? v[0].type : CCS_DATA_TYPE_INACTIVE), "validated value type");
		vp_assert((w[0].type == (e0 ? v[0].type : CCS_DATA_TYPE_INACTIVE)) & (w[1].type == (e1 ? v[1].type : CCS_DATA_TYPE_INACTIVE)), "validated types");
		vp_assert((w1.value.i == (e0 ? v[0].value.i : 0)) & (w[0].value.i == (e0 ? v[0].value.i : 0)) & (w[1].value.i == (e1 ? v[1].value.i : 0)), "validated values are kept");
		vp_reach("membership");
	} else if (part == 2) {
		ccs_numeric_t s[2] = {num(fl, "s0"), num(fl, "s1")};
		ccs_datum_t   o[2] = {ccs_none, ccs_none};
		int           e0 = leq(fl, lo, s[0]) & lt(fl, s[0], up), e1 = leq(fl, lo, s[1]) & lt(fl, s[1], up);
		int           over = vp_choice(2, "oversampling");
		if (!over)
			vp_assume(e0 & e1);
		OK(ccs_parameter_convert_samples(p, over ? CCS_TRUE : CCS_FALSE, 2, s, o));
		ccs_data_type_t t = fl ? CCS_DATA_TYPE_FLOAT : CCS_DATA_TYPE_INT;
		vp_assert((o[0].type == (e0 ? t : CCS_DATA_TYPE_INACTIVE)) & (o[1].type == (e1 ? t : CCS_DATA_TYPE_INACTIVE)), "converted samples are values of the domain or inactive");
		vp_assert((o[0].value.i == (e0 ? s[0].i : 0)) & (o[1].value.i == (e1 ? s[1].i : 0)), "converted samples keep their value");
		vp_reach("convert");
	} else {
		/* the default distribution covers exactly the domain */
		ccs_distribution_t dist = NULL;
		ccs_interval_t     it;
		ccs_numeric_type_t dt;
		OK(ccs_parameter_get_default_distribution(p, &dist));
		OK(ccs_distribution_get_bounds(dist, &it));
		OK(ccs_distribution_get_data_types(dist, &dt));
		vp_assert((dt == type) & (it.lower.i == lo.i) & (it.upper.i == up.i) & (it.lower_included == CCS_TRUE) & (it.upper_included == CCS_FALSE), "the default distribution covers the domain");
		ccs_scale_type_t sc;
		ccs_numeric_t    l2, u2, q2;
		OK(ccs_uniform_distribution_get_properties(dist, &l2, &u2, &sc, &q2));
		vp_assert((sc == CCS_SCALE_TYPE_LINEAR) & (q2.i == q.i), "the default distribution has the quantization of the parameter");
		rel(dist);
	}
	rel(p);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
