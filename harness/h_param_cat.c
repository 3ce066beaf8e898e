#include "ccsh.h"
/* P05: categorical, ordinal and discrete parameters accept exactly their
 * possible values. */
#define N 3
static char str[N + 2][2];
static ccs_datum_t val(unsigned k, unsigned i, const char *n)
{
	/* 0 int, 1 float, 2 bool, 3 none, 4 inactive, 5 string of one (any) character */
	if (k == 5) {
		str[i][0] = (char)vp_u8(n);
		str[i][1] = 0;
		return ccs_string(str[i]);
	}
	ccs_datum_t d = sym_datum_of(k, n);
	if (i == N) /* flags carry no meaning */
		d.flags = vp_u32("flags");
	return d;
}
typedef ccs_result_t (*create_t)(const char *, size_t, ccs_datum_t *, size_t, ccs_parameter_t *);
typedef ccs_result_t (*get_t)(ccs_parameter_t, size_t, ccs_datum_t *, size_t *);
static const create_t creates[] = {ccs_create_categorical_parameter, ccs_create_ordinal_parameter, ccs_create_discrete_parameter};
static const get_t    gets[] = {ccs_categorical_parameter_get_values, ccs_ordinal_parameter_get_values, ccs_discrete_parameter_get_values};
static const ccs_parameter_type_t ptypes[] = {CCS_PARAMETER_TYPE_CATEGORICAL, CCS_PARAMETER_TYPE_ORDINAL, CCS_PARAMETER_TYPE_DISCRETE};
static int tri(int a, int b) { return a < b ? -1 : a > b; }
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t         live = vp_heap_live();
	unsigned        kind = CH(3, "kind"), n = (unsigned)vp_param("n", 2);
	int             mixed = (int)vp_param("mixed", 1);
	ccs_datum_t     v[N], copy[N];
	ccs_parameter_t p = NULL;
	int             types_ok = 1, dup = 0;
	for (unsigned i = 0; i < n; i++) {
		v[i] = val(mixed ? vp_choice(6, "type") : i == 1 && kind != 2 ? 5 : 0, i, "v");
		copy[i] = v[i];
		types_ok &= kind == 2 ? (v[i].type == CCS_DATA_TYPE_INT || v[i].type == CCS_DATA_TYPE_FLOAT) : v[i].type != CCS_DATA_TYPE_INACTIVE;
		for (unsigned j = 0; j < i; j++)
			dup |= same_datum(v[i], v[j]);
	}
	unsigned     part = CH(4, "part");
	size_t       def = part == 0 ? vp_u64("default") : 0;
	int          ok = types_ok & !dup & (n > 0) & (def < n);
	ccs_result_t r = creates[kind]("name", n, n ? v : NULL, def, &p);
	vp_assert((r == CCS_RESULT_SUCCESS) == ok, "creation succeeds exactly for distinct values of allowed types and a default among them");
	if (r != CCS_RESULT_SUCCESS) {
		drop_error();
		vp_assert(p == NULL && vp_heap_live() == live, "a refused creation returns and leaks nothing");
		vp_reach("refused");
		return;
	}
	/* the parameter keeps its own strings: keep a copy of the characters, scribble over ours */
	static char keep[N][2];
	for (unsigned i = 0; i < n; i++)
		if (v[i].type == CCS_DATA_TYPE_STRING) {
			keep[i][0] = str[i][0];
			copy[i] = ccs_string(keep[i]);
			str[i][0] = 'Z';
		}
	def = vp_concretize(def);
	if (part == 0) {
		ccs_parameter_type_t pt;
		const char          *nm;
		ccs_datum_t          d = ccs_none, o[N + 1];
		size_t               cnt = 99;
		ccs_interval_t       it;
		OK(ccs_parameter_get_type(p, &pt));
		OK(ccs_parameter_get_name(p, &nm));
		OK(ccs_parameter_get_default_value(p, &d));
		vp_assert(pt == ptypes[kind] && !strcmp(nm, "name"), "type and name are those declared");
		vp_assert(same_datum(d, copy[def]), "default is the declared one");
		OK(gets[kind](p, n, o, &cnt));
		vp_assert(cnt == n, "all values are listed");
		for (unsigned i = 0; i < n; i++)
			vp_assert(same_datum(o[i], copy[i]), "values are listed in declaration order");
		OK(ccs_parameter_sampling_interval(p, &it));
		vp_assert(it.type == CCS_NUMERIC_TYPE_INT && it.lower.i == 0 && it.upper.i == (int64_t)n && it.lower_included == CCS_TRUE && it.upper_included == CCS_FALSE,
			  "the sampling interval is the range of positions");
		for (unsigned k = 0; k < 3; k++)
			if (k != kind)
				ERR(gets[k](p, n, o, &cnt));
	} else if (part == 1) {
		ccs_datum_t x[2], y[2] = {ccs_none, ccs_none}, y1 = ccs_none;
		ccs_bool_t  b = 7, bs[2] = {7, 7}, vb = 7, vbs[2] = {7, 7};
		x[0] = val(vp_choice(6, "xtype"), N, "x");
		x[1] = copy[n - 1];
		int e = 0;
		for (unsigned i = 0; i < n; i++)
			e |= same_datum(x[0], copy[i]);
		OK(ccs_parameter_check_value(p, x[0], &b));
		vp_assert(b == (e ? CCS_TRUE : CCS_FALSE), "a value is valid exactly when it is a possible value");
		OK(ccs_parameter_check_values(p, 2, x, bs));
		vp_assert(bs[0] == b && bs[1] == CCS_TRUE, "array check agrees");
		OK(ccs_parameter_validate_value(p, x[0], &y1, &vb));
		OK(ccs_parameter_validate_values(p, 2, x, y, vbs));
		vp_assert(vb == b && vbs[0] == b && vbs[1] == CCS_TRUE, "validation agrees");
		if (e)
			vp_assert(same_datum(y1, x[0]) && same_datum(y[0], x[0]), "a valid value is returned");
		else
			vp_assert(y1.type == CCS_DATA_TYPE_INACTIVE && y[0].type == CCS_DATA_TYPE_INACTIVE, "an invalid value becomes inactive");
		vp_assert(same_datum(y[1], copy[n - 1]), "the second value is returned");
		if (y1.type == CCS_DATA_TYPE_STRING)
			vp_assert(y1.value.s != x[0].value.s, "the returned string belongs to the parameter");
		vp_reach("membership");
	} else if (part == 2) {
		ccs_numeric_t s[2];
		ccs_datum_t   o[2] = {ccs_none, ccs_none};
		int           over = vp_choice(2, "oversampling");
		s[0].i = vp_i64("s0");
		s[1].i = vp_i64("s1");
		if (!over) {
			vp_assume(s[0].i >= 0 && s[0].i < (int64_t)n);
			vp_assume(s[1].i >= 0 && s[1].i < (int64_t)n);
		}
		OK(ccs_parameter_convert_samples(p, over ? CCS_TRUE : CCS_FALSE, 2, s, o));
		for (int i = 0; i < 2; i++)
			if (s[i].i >= 0 && s[i].i < (int64_t)n)
				vp_assert(same_datum(o[i], copy[vp_concretize(s[i].i)]), "a sample is converted to the value at its position");
			else
				vp_assert(o[i].type == CCS_DATA_TYPE_INACTIVE, "a sample out of range is inactive");
		ccs_distribution_t dist = NULL;
		ccs_interval_t     it;
		OK(ccs_parameter_get_default_distribution(p, &dist));
		OK(ccs_distribution_get_bounds(dist, &it));
		vp_assert(it.type == CCS_NUMERIC_TYPE_INT && it.lower.i == 0 && it.upper.i == (int64_t)n && it.lower_included == CCS_TRUE && it.upper_included == CCS_FALSE,
			  "the default distribution covers the positions");
		rel(dist);
	} else {
		ccs_datum_t a = val(vp_choice(6, "atype"), N, "a"), b = copy[vp_choice(n, "bpos")];
		ccs_int_t   c = 42;
		int         ia = -1, ib = -1;
		for (unsigned i = 0; i < n; i++) {
			if (same_datum(a, copy[i])) ia = i;
			if (same_datum(b, copy[i])) ib = i;
		}
		r = ccs_ordinal_parameter_compare_values(p, a, b, &c);
		vp_assert((r == CCS_RESULT_SUCCESS) == (kind == 1 && ia >= 0), "only values of an ordinal parameter compare");
		if (r == CCS_RESULT_SUCCESS) {
			vp_assert(c == tri(ia, ib), "ordinal comparison follows declaration order");
			ccs_int_t c2 = 42;
			OK(ccs_ordinal_parameter_compare_values(p, b, a, &c2));
			vp_assert(c2 == -c, "ordinal comparison is antisymmetric");
		} else
			drop_error();
	}
	rel(p);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
