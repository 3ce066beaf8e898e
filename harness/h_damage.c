#include "zoo.h"
/* P03: damaged or truncated data are read safely. */
static ccs_result_t cb(ccs_object_t o, size_t size, const void *data, void *ud)
{
	(void)o;
	(void)ud;
	unsigned char s = 0;
	for (size_t i = 0; i < size; i++)
		s ^= ((const unsigned char *)data)[i];
	if (!(s & 1))
		return CCS_RESULT_SUCCESS;
	z_refused = 1;
	return CCS_RESULT_ERROR_INVALID_VALUE;
}
static ccs_result_t scb(ccs_object_t o, size_t size, void *data, size_t *size_ret, void *ud)
{
	(void)o;
	(void)ud;
	if (data)
		memset(data, 'u', size);
	if (size_ret)
		*size_ret = 2;
	return CCS_RESULT_SUCCESS;
}
static char *freeze(ccs_object_t o, size_t *sz)
{
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, sz, CCS_SERIALIZE_OPTION_CALLBACK, &scb, NULL, CCS_SERIALIZE_OPTION_END));
	char *b = malloc(*sz);
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, *sz, b, CCS_SERIALIZE_OPTION_CALLBACK, &scb, NULL, CCS_SERIALIZE_OPTION_END));
	return b;
}
/* errors are fine, memory accesses are judged by the engine */
static void may(ccs_result_t r)
{
	if (r < 0)
		ccs_clear_thread_error();
}
static void kinds(ccs_object_t *e, size_t n, ccs_object_type_t t)
{
	int ok = 1;
	for (size_t i = 0; i < n && i < 4; i++) {
		ccs_object_type_t u;
		OK(ccs_object_get_type(e[i], &u));
		ok &= u == t;
	}
	vp_assert(ok, "the optima are evaluations");
}
static void use(ccs_object_t o)
{
	ccs_object_type_t t;
	size_t            n = 0;
	OK(ccs_object_get_type(o, &t));
	switch (t) {
	case CCS_OBJECT_TYPE_EXPRESSION: {
		ccs_datum_t      d;
		ccs_expression_t e[4];
		may(ccs_expression_eval((ccs_expression_t)o, NULL, NULL, &d));
		may(ccs_expression_get_nodes((ccs_expression_t)o, 4, e, &n));
		break;
	}
	case CCS_OBJECT_TYPE_PARAMETER: {
		ccs_datum_t d;
		const char *s = NULL;
		OK(ccs_parameter_get_default_value((ccs_parameter_t)o, &d));
		OK(ccs_parameter_get_name((ccs_parameter_t)o, &s));
		n = strlen(s);
		break;
	}
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		ccs_configuration_t c = NULL;
		ccs_bool_t          v;
		may(ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)o, &c));
		if (c) {
			may(ccs_configuration_check(c, &v));
			rel(c);
		}
		break;
	}
	case CCS_OBJECT_TYPE_MAP: {
		ccs_datum_t k[4], v[4];
		OK(ccs_map_get_pairs((ccs_map_t)o, 0, NULL, NULL, &n));
		if (n <= 4)
			OK(ccs_map_get_pairs((ccs_map_t)o, 4, k, v, &n));
		break;
	}
	case CCS_OBJECT_TYPE_TREE: {
		ccs_tree_t c[4];
		OK(ccs_tree_get_children((ccs_tree_t)o, 0, NULL, &n));
		if (n <= 4)
			OK(ccs_tree_get_children((ccs_tree_t)o, 4, c, &n));
		break;
	}
	case CCS_OBJECT_TYPE_TUNER: {
		ccs_evaluation_t e[4] = {NULL, NULL, NULL, NULL};
		OK(ccs_tuner_get_optima((ccs_tuner_t)o, 0, NULL, &n));
		if (n <= 4) {
			OK(ccs_tuner_get_optima((ccs_tuner_t)o, 4, e, &n));
			kinds((ccs_object_t *)e, n, CCS_OBJECT_TYPE_EVALUATION);
		}
		break;
	}
	case CCS_OBJECT_TYPE_FEATURES_TUNER: {
		ccs_features_evaluation_t e[4] = {NULL, NULL, NULL, NULL};
		may(ccs_features_tuner_get_optima((ccs_features_tuner_t)o, NULL, 0, NULL, &n));
		if (n <= 4) {
			may(ccs_features_tuner_get_optima((ccs_features_tuner_t)o, NULL, 4, e, &n));
			kinds((ccs_object_t *)e, n, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
		}
		break;
	}
	case CCS_OBJECT_TYPE_TREE_TUNER: {
		ccs_tree_evaluation_t e[4] = {NULL, NULL, NULL, NULL};
		OK(ccs_tree_tuner_get_optima((ccs_tree_tuner_t)o, 0, NULL, &n));
		if (n <= 4) {
			OK(ccs_tree_tuner_get_optima((ccs_tree_tuner_t)o, 4, e, &n));
			kinds((ccs_object_t *)e, n, CCS_OBJECT_TYPE_TREE_EVALUATION);
		}
		break;
	}
	case CCS_OBJECT_TYPE_RNG: {
		unsigned long x = 0;
		OK(ccs_rng_get((ccs_rng_t)o, &x));
		break;
	}
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		size_t dim = 0;
		OK(ccs_distribution_get_dimension((ccs_distribution_t)o, &dim));
		break;
	}
	case CCS_OBJECT_TYPE_EVALUATION: {
		ccs_bool_t v;
		may(ccs_evaluation_check((ccs_evaluation_t)o, &v));
		break;
	}
	default: break;
	}
	may(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
}
static ccs_result_t thaw(zoo_t *z, ccs_map_t m, size_t n, const char *d, ccs_object_t *o)
{
	if (m && z->vector)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, z->vector, CCS_DESERIALIZE_OPTION_DATA, z->data2, CCS_DESERIALIZE_OPTION_CALLBACK, &cb, NULL, CCS_DESERIALIZE_OPTION_END);
	if (m)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_CALLBACK, &cb, NULL, CCS_DESERIALIZE_OPTION_END);
	if (z->vector)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_VECTOR, z->vector, CCS_DESERIALIZE_OPTION_DATA, z->data2, CCS_DESERIALIZE_OPTION_CALLBACK, &cb, NULL, CCS_DESERIALIZE_OPTION_END);
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_CALLBACK, &cb, NULL, CCS_DESERIALIZE_OPTION_END);
}
/* the position of the first handle of o at or after 'from', or sz */
static size_t handle_at(const char *b, size_t sz, ccs_object_t o, size_t from)
{
	for (size_t i = from; i < sz; i++) {
		uint64_t v = 0;
		size_t   j = i;
		do
			v |= (uint64_t)((unsigned char)b[j] & 0x7f) << (7 * (j - i));
		while (((unsigned char)b[j++] & 0x80) && j < sz && j < i + 9);
		if (v == (uint64_t)(uintptr_t)o)
			return i;
	}
	return sz;
}
void vp_main(void)
{
	ccs_init();
	unsigned what = (unsigned)vp_param("what", 0), kind = CH(Z_KINDS, "kind"), width = (unsigned)vp_param("width", 1);
	int64_t  live = vp_heap_live();
	zoo_t    z;
	zoo_make(&z, kind);
	if (CH(2, "ud"))
		OK(ccs_object_set_user_data(z.o, &z));
	ccs_object_t dep2[3] = {NULL, NULL, NULL}, o2 = NULL;
	ccs_map_t    m = NULL;
	OK(ccs_create_map(&m));
	for (unsigned i = 0; i < z.ndep; i++) {
		size_t sz = 0;
		char  *b = freeze(z.dep[i], &sz);
		OK(ccs_object_deserialize(&dep2[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
		free(b);
	}
	size_t sz = 0, n, w;
	char  *b = freeze(z.o, &sz), *d;
	int    mapped = z.ndep || vp_param("map", 1);
	/* intact data are accepted */
	ccs_map_t m0 = NULL;
	ccs_object_t d0[3] = {NULL, NULL, NULL};
	OK(ccs_create_map(&m0));
	for (unsigned i = 0; i < z.ndep; i++) {
		size_t s = 0;
		char  *t = freeze(z.dep[i], &s);
		OK(ccs_object_deserialize(&d0[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, s, t, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m0, CCS_DESERIALIZE_OPTION_END));
		free(t);
	}
	OK(thaw(&z, mapped ? m0 : NULL, sz, b, &o2));
	rel(o2);
	o2 = NULL;
	rel(m0);
	for (unsigned i = z.ndep; i; i--)
		rel(d0[i - 1]);
	if (z.data2)
		memset(z.data2, 0, sizeof(ut_t));
	if (what == 0) {
		n = w = vp_choice((unsigned)sz, "length");
		d = malloc(n ? n : 1);
		memcpy(d, b, n);
	} else if (what == 2) { /* two handles are exchanged or made the same */
		ccs_object_t all[26];
		size_t       at[26], len[26], na = 0, x, y;
		for (unsigned i = 0; i <= z.n && i < 26; i++) {
			ccs_object_t o = i < z.n ? z.own[i] : z.o;
			size_t       p = 13;
			while (na < 26 && (p = handle_at(b, sz, o, p)) < sz) {
				all[na] = o;
				at[na] = p;
				for (len[na] = 1; (unsigned char)b[p + len[na] - 1] & 0x80; len[na]++)
					;
				p += len[na++];
			}
		}
		(void)all;
		vp_assert(na > 0, "handles are found");
		x = vp_choice((unsigned)na, "from");
		y = vp_choice((unsigned)na, "to");
		if (x == y || len[x] != len[y])
			vp_kill();
		n = sz;
		d = malloc(n);
		memcpy(d, b, n);
		memcpy(d + at[y], b + at[x], len[x]);
		if (vp_choice(2, "both"))
			memcpy(d + at[x], b + at[y], len[x]);
		vp_reach("handles are mixed up");
	} else {
		unsigned part = (unsigned)vp_param("part", 0), parts = (unsigned)vp_param("parts", 1);
		n = sz;
		w = width;
		size_t lo = sz * part / parts, hi = sz * (part + 1) / parts;
		size_t at = vp_param("at", -1) >= 0 ? (size_t)vp_param("at", -1) : lo + vp_choice((unsigned)(hi - lo), "offset");
		if (at + w > sz)
			vp_kill();
		d = malloc(n);
		memcpy(d, b, n);
		vp_symbolic(d + at, w, "bytes");
	}
	ccs_clear_thread_error();
	ccs_result_t r = thaw(&z, mapped ? m : NULL, n, d, &o2);
	free(d);
	free(b);
	vp_assert(r == CCS_RESULT_SUCCESS || r < 0, "success or an error is returned");
	if (what == 0) {
		vp_assert(r < 0, "truncated data are refused");
		vp_reach("truncated data");
	}
	if (r < 0) {
		if (z_refused) /* by a callback, that records nothing */
			ccs_clear_thread_error();
		else
			drop_error();
		vp_reach("damaged data are refused");
	} else {
		vp_assert(o2 != NULL, "an object is returned");
		use(o2);
		rel(o2);
		vp_reach("altered data are accepted");
	}
	rel(m);
	for (unsigned i = z.ndep; i; i--)
		rel(dep2[i - 1]);
	zoo_free(&z);
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
