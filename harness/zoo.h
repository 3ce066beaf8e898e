/* One builder per kind of object, with selectable symbolic fields, and a
 * comparison of two objects through the public getters. */
#ifndef ZOO_H
#define ZOO_H
#include "worlds.h"
enum {
	Z_INT, Z_FLOAT, Z_CATEGORICAL, Z_ORDINAL, Z_DISCRETE, Z_STRING,
	Z_UNIFORM_INT, Z_UNIFORM_FLOAT, Z_NORMAL_INT, Z_NORMAL_FLOAT, Z_ROULETTE, Z_MIXTURE, Z_MULTIVARIATE,
	Z_LITERAL, Z_EXPRESSION, Z_LIST, Z_VARIABLE, Z_MAP, Z_RNG,
	Z_FSPACE, Z_CSPACE, Z_OSPACE, Z_CONFIGURATION, Z_FEATURES, Z_EVALUATION, Z_FEVALUATION,
	Z_TREE, Z_STATIC_TS, Z_DYNAMIC_TS, Z_TCONFIGURATION, Z_TEVALUATION,
	Z_RANDOM_TUNER, Z_RANDOM_FTUNER, Z_RANDOM_TTUNER, Z_USER_TUNER, Z_USER_FTUNER, Z_USER_TTUNER, Z_KINDS
};
#define SAME(c) vp_assert_(!!(c), "the rebuilt object is the same: " #c)
/* ---- fields: number z_f and z_g are symbolic (any value), the others fixed */
static int z_next, z_f = -1, z_g = -1;
static int z_used;
static inline int zsel(void)
{
	int i = z_next++;
	z_used |= i == z_f || i == z_g;
	return i == z_f || i == z_g;
}
static inline int64_t ZI(int64_t d) { return zsel() ? vp_i64("int") : d; }
static inline double ZF(double d) { return zsel() ? vp_num("float") : d; }
/* a choice of one of n variants */
static inline unsigned ZC(unsigned n, unsigned d) { return zsel() ? vp_choice(n, "variant") : d; }
/* what a built object owns */
typedef struct {
	ccs_object_t o;               /* the object */
	ccs_object_t own[24];         /* other references, released in reverse */
	unsigned     n;
	ccs_object_t dep[3];          /* objects to be read first, in that order */
	unsigned     ndep;
	char        *str[24];
	unsigned     ns;
	void        *vector, *data, *data2; /* callbacks, data of the object and of its copy */
} zoo_t;
static inline void *zown(zoo_t *z, void *o) { z->own[z->n++] = (ccs_object_t)o; return o; }
static inline const char *zstr(zoo_t *z)
{
	static const unsigned longs[9] = {126, 127, 128, 129, 254, 255, 256, 16383, 16384};
	unsigned              lg = (unsigned)vp_param("long", 0);
	if (lg) { /* long ones, whose last character is any */
		unsigned l = longs[vp_choice(lg, "len")];
		char    *s = malloc(l + 1);
		memset(s, 'x', l);
		vp_symbolic(s + l - 1, 1, "str");
		vp_assume(s[l - 1] != 0);
		s[l] = 0;
		z->str[z->ns++] = s;
		return s;
	}
	unsigned l = vp_choice(4, "len");
	if (l == 3) /* no string at all */
		return NULL;
	char *s = malloc(3);
	vp_symbolic(s, 3, "str");
	for (unsigned i = 0; i < l; i++)
		vp_assume(s[i] != 0);
	s[l] = 0;
	z->str[z->ns++] = s;
	return s;
}
static inline const char *ZS(zoo_t *z, const char *d) { return zsel() ? zstr(z) : d; }
static inline ccs_datum_t ZD(zoo_t *z, ccs_datum_t d)
{
	if (!zsel())
		return d;
	unsigned t = vp_choice(6, "type");
	return t == 5 ? ccs_string(zstr(z)) : sym_datum_of(t, "datum");
}
/* a value that is not a string */
static inline ccs_datum_t ZV(ccs_datum_t d) { return zsel() ? sym_datum_of(vp_choice(5, "type"), "datum") : d; }
/* the declaration may be invalid for some values of the symbolic fields */
#define ZMK(e)                                                                                                         \
	do {                                                                                                           \
		if ((e) != CCS_RESULT_SUCCESS) {                                                                       \
			if (!z_used)                                                                                   \
				vp_assert_(0, "builds: " #e);                                                          \
			vp_kill();                                                                                     \
		}                                                                                                      \
	} while (0)
/* ---- user defined callbacks: a history of at most 4 evaluations, the first
 * one is the optimum, and two bytes of state */
static int z_refused;
typedef struct { ccs_object_t h[4]; size_t n, no; unsigned char state[2]; int deleted; } ut_t;
static inline ut_t *ut_of(ccs_object_t t, unsigned k)
{
	void *d = NULL;
	OK(k == 0 ? ccs_user_defined_tuner_get_tuner_data((ccs_tuner_t)t, &d) : k == 1 ? ccs_user_defined_features_tuner_get_tuner_data((ccs_features_tuner_t)t, &d) : ccs_user_defined_tree_tuner_get_tuner_data((ccs_tree_tuner_t)t, &d));
	return d;
}
static inline ccs_result_t ut_del(ccs_object_t t, unsigned k)
{
	ut_t *u = ut_of(t, k);
	for (size_t i = 0; i < u->n; i++)
		rel(u->h[i]);
	u->n = 0;
	u->deleted++;
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t ut_tell(ccs_object_t t, unsigned k, size_t n, ccs_object_t *e)
{
	ut_t *u = ut_of(t, k);
	for (size_t i = 0; i < n; i++) {
		ccs_evaluation_result_t x;
		ccs_result_t            r = k == 0 ? ccs_evaluation_get_result((ccs_evaluation_t)e[i], &x) : k == 1 ? ccs_features_evaluation_get_result((ccs_features_evaluation_t)e[i], &x) : ccs_tree_evaluation_get_result((ccs_tree_evaluation_t)e[i], &x);
		if (r)
			return r;
		if (u->n >= 4) {
			ccs_create_thread_error(CCS_RESULT_ERROR_OUT_OF_MEMORY, "full");
			return CCS_RESULT_ERROR_OUT_OF_MEMORY;
		}
		OK(ccs_retain_object(e[i]));
		u->h[u->n++] = e[i];
	}
	u->no = u->n ? 1 : 0;
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t ut_get(ut_t *u, size_t have, size_t n, ccs_object_t *e, size_t *r)
{
	if (e)
		for (size_t i = 0; i < have && i < n; i++)
			e[i] = u->h[i];
	if (r)
		*r = have;
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t ut_ser(ut_t *u, size_t n, void *s, size_t *r)
{
	if (s)
		memcpy(s, u->state, n < 2 ? n : 2);
	if (r)
		*r = 2;
	return CCS_RESULT_SUCCESS;
}
static inline ccs_result_t ut_deser(ccs_object_t t, unsigned k, size_t n, ccs_object_t *h, size_t no, ccs_object_t *o, size_t ss, const void *s)
{
	ut_t *u = ut_of(t, k);
	if (n > 4 || no > n || ss != 2)
		return z_refused = 1, CCS_RESULT_ERROR_INVALID_VALUE;
	for (size_t i = 0; i < n; i++) {
		OK(ccs_retain_object(h[i]));
		u->h[u->n++] = h[i];
	}
	u->no = no;
	if (no && o[0] != h[0])
		return z_refused = 1, CCS_RESULT_ERROR_INVALID_VALUE;
	memcpy(u->state, s, 2);
	return CCS_RESULT_SUCCESS;
}
#define UT(K, T, E, C, FA)                                                                                             \
	static ccs_result_t ut_del_##K(T t) { return ut_del((ccs_object_t)t, K); }                                     \
	static ccs_result_t ut_tell_##K(T t, size_t n, E *e) { return ut_tell((ccs_object_t)t, K, n, (ccs_object_t *)e); } \
	static ccs_result_t ut_ser_##K(T t, size_t n, void *s, size_t *r) { return ut_ser(ut_of((ccs_object_t)t, K), n, s, r); } \
	static ccs_result_t ut_deser_##K(T t, size_t n, E *h, size_t no, E *o, size_t ss, const void *s) { return ut_deser((ccs_object_t)t, K, n, (ccs_object_t *)h, no, (ccs_object_t *)o, ss, s); }
#define UTG(K, T, E, C)                                                                                                \
	static ccs_result_t ut_ask_##K(T t, size_t n, C *c, size_t *r) { (void)t; (void)n; (void)c; if (r) *r = 0; return CCS_RESULT_SUCCESS; } \
	static ccs_result_t ut_opt_##K(T t, size_t n, E *e, size_t *r) { ut_t *u = ut_of((ccs_object_t)t, K); return ut_get(u, u->no, n, (ccs_object_t *)e, r); } \
	static ccs_result_t ut_his_##K(T t, size_t n, E *e, size_t *r) { ut_t *u = ut_of((ccs_object_t)t, K); return ut_get(u, u->n, n, (ccs_object_t *)e, r); }
UT(0, ccs_tuner_t, ccs_evaluation_t, ccs_configuration_t, )
UT(1, ccs_features_tuner_t, ccs_features_evaluation_t, ccs_configuration_t, )
UT(2, ccs_tree_tuner_t, ccs_tree_evaluation_t, ccs_tree_configuration_t, )
UTG(0, ccs_tuner_t, ccs_evaluation_t, ccs_configuration_t)
UTG(2, ccs_tree_tuner_t, ccs_tree_evaluation_t, ccs_tree_configuration_t)
static ccs_result_t ut_ask_1(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_configuration_t *c, size_t *r) { (void)t; (void)f; (void)n; (void)c; if (r) *r = 0; return CCS_RESULT_SUCCESS; }
static ccs_result_t ut_opt_1(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_features_evaluation_t *e, size_t *r) { (void)f; ut_t *u = ut_of((ccs_object_t)t, 1); return ut_get(u, u->no, n, (ccs_object_t *)e, r); }
static ccs_result_t ut_his_1(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_features_evaluation_t *e, size_t *r) { (void)f; ut_t *u = ut_of((ccs_object_t)t, 1); return ut_get(u, u->n, n, (ccs_object_t *)e, r); }
static ccs_user_defined_tuner_vector_t          utv0 = {ut_del_0, ut_ask_0, ut_tell_0, ut_opt_0, ut_his_0, NULL, ut_ser_0, ut_deser_0};
static ccs_user_defined_features_tuner_vector_t utv1 = {ut_del_1, ut_ask_1, ut_tell_1, ut_opt_1, ut_his_1, NULL, ut_ser_1, ut_deser_1};
static ccs_user_defined_tree_tuner_vector_t     utv2 = {ut_del_2, ut_ask_2, ut_tell_2, ut_opt_2, ut_his_2, NULL, ut_ser_2, ut_deser_2};
/* dynamic tree spaces: children (of arity 1) are made on demand */
static inline ut_t *dt_of(ccs_tree_space_t t)
{
	void *d = NULL;
	OK(ccs_dynamic_tree_space_get_tree_space_data(t, &d));
	return d;
}
static ccs_result_t dt_del(ccs_tree_space_t t) { dt_of(t)->deleted++; return CCS_RESULT_SUCCESS; }
static ccs_result_t dt_child(ccs_tree_space_t t, ccs_tree_t p, size_t i, ccs_tree_t *r)
{
	(void)t;
	(void)p;
	return ccs_create_tree(1, ccs_int((int64_t)i), r);
}
static ccs_result_t dt_ser(ccs_tree_space_t t, size_t n, void *s, size_t *r) { return ut_ser(dt_of(t), n, s, r); }
static ccs_result_t dt_deser(ccs_tree_space_t t, size_t n, const void *s)
{
	if (n != 2)
		return z_refused = 1, CCS_RESULT_ERROR_INVALID_VALUE;
	memcpy(dt_of(t)->state, s, 2);
	return CCS_RESULT_SUCCESS;
}
static ccs_dynamic_tree_space_vector_t dtv = {dt_del, dt_child, dt_ser, dt_deser};
/* ---- builders */
static inline ccs_parameter_t zparam(zoo_t *z, unsigned kind, const char *dname, int64_t base)
{
	ccs_parameter_t p = NULL;
	const char     *name = ZS(z, dname);
	ccs_datum_t     v[3];
	int64_t         i[4];
	double          f[4];
	switch (kind) {
	case Z_INT:
		i[0] = ZI(base - 5); i[1] = ZI(base + 20); i[2] = ZI(2); i[3] = ZI(base + 7);
		ZMK(ccs_create_int_numerical_parameter(name, i[0], i[1], i[2], i[3], &p));
		break;
	case Z_FLOAT:
		f[0] = ZF(-1.5); f[1] = ZF(2.25); f[2] = ZF(0.125); f[3] = ZF(1.0);
		ZMK(ccs_create_float_numerical_parameter(name, f[0], f[1], f[2], f[3], &p));
		break;
	case Z_STRING: ZMK(ccs_create_string_parameter(name, &p)); break;
	case Z_DISCRETE:
		if (ZC(2, 0)) {
			v[0] = ccs_float(ZF(-0.5)); v[1] = ccs_float(ZF(7.5)); v[2] = ccs_float(ZF(1e30));
		} else {
			v[0] = ccs_int(ZI(base + 3)); v[1] = ccs_int(ZI(base + 9)); v[2] = ccs_int(ZI(base + 1));
		}
		ZMK(ccs_create_discrete_parameter(name, 3, v, ZC(3, 2), &p));
		break;
	default:
		v[0] = ZD(z, ccs_int(base)); v[1] = ZD(z, ccs_string("x")); v[2] = ZD(z, ccs_float(0.5));
		if (kind == Z_CATEGORICAL)
			ZMK(ccs_create_categorical_parameter(name, 3, v, ZC(3, 1), &p));
		else
			ZMK(ccs_create_ordinal_parameter(name, 3, v, ZC(3, 1), &p));
	}
	return p;
}
static inline ccs_distribution_t zdist(zoo_t *z, unsigned kind)
{
	static double      tables[4][3] = {{1, 2, 1}, {0, 1, 3}, {0.25, 0, 0}, {1, 2, 4}};
	ccs_distribution_t d = NULL, s[3] = {NULL, NULL, NULL};
	int64_t            i[3];
	double             f[3];
	ccs_scale_type_t   sc;
	switch (kind) {
	case Z_UNIFORM_INT:
		i[0] = ZI(1); i[1] = ZI(30); sc = (ccs_scale_type_t)ZC(2, 0); i[2] = ZI(3);
		ZMK(ccs_create_uniform_int_distribution(i[0], i[1], sc, i[2], &d));
		break;
	case Z_UNIFORM_FLOAT:
		f[0] = ZF(0.5); f[1] = ZF(4.0); sc = (ccs_scale_type_t)ZC(2, 0); f[2] = ZF(0.25);
		ZMK(ccs_create_uniform_float_distribution(f[0], f[1], sc, f[2], &d));
		break;
	case Z_NORMAL_INT:
		f[0] = ZF(0.5); f[1] = ZF(4.0); sc = (ccs_scale_type_t)ZC(2, 0); i[2] = ZI(2);
		ZMK(ccs_create_normal_int_distribution(f[0], f[1], sc, i[2], &d));
		break;
	case Z_NORMAL_FLOAT:
		f[0] = ZF(0.5); f[1] = ZF(4.0); sc = (ccs_scale_type_t)ZC(2, 0); f[2] = ZF(0.25);
		ZMK(ccs_create_normal_float_distribution(f[0], f[1], sc, f[2], &d));
		break;
	case Z_ROULETTE: ZMK(ccs_create_roulette_distribution(3, tables[ZC(4, 0)], &d)); break;
	case Z_MIXTURE:
		s[0] = zown(z, zdist(z, Z_UNIFORM_INT));
		s[1] = zown(z, zdist(z, Z_UNIFORM_INT));
		s[2] = zown(z, zdist(z, Z_ROULETTE));
		ZMK(ccs_create_mixture_distribution(ZC(2, 1) ? 3 : 2, s, tables[ZC(4, 0)], &d));
		break;
	default:
		s[0] = zown(z, zdist(z, Z_UNIFORM_FLOAT));
		s[1] = zown(z, zdist(z, Z_ROULETTE));
		ZMK(ccs_create_multivariate_distribution(2, s, s + 2));
		zown(z, s[2]);
		s[0] = s[2];
		s[1] = zown(z, zdist(z, Z_NORMAL_FLOAT));
		ZMK(ccs_create_multivariate_distribution(2, s, &d));
	}
	return d;
}
static inline ccs_expression_t zlit(zoo_t *z, ccs_datum_t v)
{
	ccs_expression_t e = NULL;
	ZMK(ccs_create_literal(ZD(z, v), &e));
	return zown(z, e);
}
static inline ccs_expression_t zexpr(zoo_t *z, ccs_parameter_t p)
{
	static const ccs_expression_type_t t[4] = {CCS_EXPRESSION_TYPE_EQUAL, CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_NOT_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL};
	ccs_expression_t e = NULL;
	ccs_datum_t      v = ccs_object(zown(z, mk_var(p)));
	ccs_datum_t      w = ZD(z, ccs_int(4));
	ZMK(ccs_create_binary_expression(t[ZC(4, 0)], v, w, &e));
	return e;
}
static inline void zoo_tree(zoo_t *z, ccs_tree_t *out)
{
	ccs_tree_t r = NULL, a = NULL, b = NULL;
	ZMK(ccs_create_tree(3, ZD(z, ccs_int(1)), &r));
	zown(z, r);
	ZMK(ccs_create_tree(ZC(3, 1), ZD(z, ccs_string("t")), &a));
	zown(z, a);
	ZMK(ccs_create_tree(0, ZD(z, ccs_none), &b));
	zown(z, b);
	ZMK(ccs_tree_set_weight(r, ZF(2.0)));
	ZMK(ccs_tree_set_bias(r, ZF(0.25)));
	ZMK(ccs_tree_set_weight(a, ZF(0.5)));
	ZMK(ccs_tree_set_bias(a, ZF(0.75)));
	ZMK(ccs_tree_set_child(r, ZC(3, 1), a));
	size_t ar = 0;
	ZMK(ccs_tree_get_arity(a, &ar));
	if (ar)
		ZMK(ccs_tree_set_child(a, ar - 1, b));
	*out = r;
}
static inline void zoo_rng(zoo_t *z, ccs_rng_t *r)
{
	unsigned long n = 0;
	(void)z;
	if (ZC(2, 0))
		ZMK(ccs_create_rng_with_type(gsl_rng_types_setup()[0], r));
	else
		ZMK(ccs_create_rng(r));
	ZMK(ccs_rng_set_seed(*r, (unsigned long)ZI(42)));
	for (unsigned k = ZC(3, 1); k; k--)
		ZMK(ccs_rng_get(*r, &n));
}
static inline ccs_configuration_space_t zoo_cspace(zoo_t *z, int rich)
{
	ccs_configuration_space_t cs = NULL;
	ccs_parameter_t           p[4];
	ZMK(ccs_create_configuration_space(ZS(z, "cs"), &cs));
	zown(z, cs);
	if (!rich) {
		p[0] = zown(z, mk_int("c", 0, 1000, 3));
		ccs_datum_t v[3] = {ccs_string("val"), ccs_string(""), ccs_string("w")};
		p[1] = NULL;
		OK(ccs_create_categorical_parameter("d", 3, v, 0, &p[1]));
		zown(z, p[1]);
		ZMK(ccs_configuration_space_add_parameters(cs, 2, p, NULL));
		return cs;
	}
	unsigned        order = ZC(2, 0);
	ccs_rng_t       r = NULL;
	p[0] = zown(z, zparam(z, Z_INT, "a", 0));
	p[1] = zown(z, mk_flt("b", 0.0, 1.0, 0.5));
	p[2] = zown(z, mk_int("c", 0, 10, 2));
	p[3] = zown(z, zparam(z, Z_CATEGORICAL, "d", 5));
	if (order)
		for (unsigned i = 0; i < 2; i++) {
			ccs_parameter_t t = p[i];
			p[i] = p[3 - i];
			p[3 - i] = t;
		}
	ZMK(ccs_configuration_space_add_parameters(cs, 4, p, NULL));
	/* positions of the parameters a, b, c and d */
	size_t at[4];
	for (unsigned i = 0; i < 4; i++)
		at[i] = order ? 3 - i : i;
	unsigned joint = ZC(3, 1);
	if (joint == 1) {
		ccs_distribution_t d[3] = {NULL, NULL, NULL};
		size_t             idx[2] = {at[2], at[1]};
		ZMK(ccs_create_uniform_int_distribution(2, 8, CCS_SCALE_TYPE_LINEAR, 0, d));
		zown(z, d[0]);
		ZMK(ccs_create_uniform_float_distribution(0.25, 0.5, CCS_SCALE_TYPE_LINEAR, 0., d + 1));
		zown(z, d[1]);
		ZMK(ccs_create_multivariate_distribution(2, d, d + 2));
		zown(z, d[2]);
		ZMK(ccs_configuration_space_set_distribution(cs, d[2], idx));
	} else if (joint == 2) {
		ccs_distribution_t d = zown(z, zdist(z, Z_ROULETTE));
		ZMK(ccs_configuration_space_set_distribution(cs, d, at + 3));
	}
	if (ZC(2, 1)) { /* c only when a matches */
		ccs_expression_t e = zown(z, zexpr(z, p[at[0]]));
		ZMK(ccs_configuration_space_set_condition(cs, at[2], e));
	}
	if (ZC(2, 1)) { /* d only when c is active and not 9 */
		ccs_expression_t e = zown(z, mk_bin(CCS_EXPRESSION_TYPE_NOT_EQUAL, ccs_object(zown(z, mk_var(p[at[2]]))), ccs_int(9)));
		ZMK(ccs_configuration_space_set_condition(cs, at[3], e));
	}
	for (unsigned i = ZC(3, 1); i; i--) {
		ccs_expression_t e = zown(z, mk_bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(zown(z, mk_var(p[at[1]]))), ccs_float(0.125 * i)));
		ZMK(ccs_configuration_space_add_forbidden_clause(cs, e));
	}
	zoo_rng(z, &r);
	zown(z, r);
	ZMK(ccs_configuration_space_set_rng(cs, r));
	return cs;
}
static inline ccs_features_space_t zoo_fspace(zoo_t *z, int rich)
{
	ccs_features_space_t fs = NULL;
	ccs_parameter_t      p[2];
	ZMK(ccs_create_features_space(rich ? ZS(z, "fs") : "fs", &fs));
	zown(z, fs);
	p[0] = zown(z, rich ? zparam(z, Z_ORDINAL, "e", 1) : mk_int("e", 0, 1000, 1));
	p[1] = zown(z, rich ? zparam(z, Z_STRING, "g", 0) : zparam(z, Z_STRING, "g", 0));
	ZMK(ccs_features_space_add_parameters(fs, 2, p));
	return fs;
}
static inline ccs_objective_space_t zoo_ospace(zoo_t *z, int rich)
{
	ccs_objective_space_t os = NULL;
	ccs_parameter_t       p[2];
	ccs_expression_t      e[2];
	ZMK(ccs_create_objective_space(rich ? ZS(z, "os") : "os", &os));
	zown(z, os);
	p[0] = zown(z, rich ? zparam(z, Z_INT, "u", 0) : mk_int("u", -1000, 1000, 0));
	p[1] = zown(z, mk_flt("v", -1000., 1000., 0.));
	ZMK(ccs_objective_space_add_parameters(os, 2, p));
	e[0] = zown(z, mk_var(p[rich ? ZC(2, 0) : 0]));
	e[1] = zown(z, mk_bin(CCS_EXPRESSION_TYPE_ADD, ccs_object(zown(z, mk_var(p[0]))), ccs_object(zown(z, mk_var(p[1])))));
	unsigned n = rich ? ZC(3, 2) : 1;
	for (unsigned i = 0; i < n; i++)
		ZMK(ccs_objective_space_add_objective(os, e[i], (ccs_objective_type_t)(rich ? ZC(2, i) : 0)));
	return os;
}
static inline ccs_object_t zoo_evaluation(zoo_t *z, unsigned kind, ccs_objective_space_t os, ccs_object_t config, ccs_object_t feat, int64_t base)
{
	ccs_datum_t  v[2];
	ccs_object_t e = NULL;
	v[0] = ZV(ccs_int(base));
	v[1] = ccs_float(ZF(0.5));
	int32_t r = (int32_t)ZI(0);
	if (kind == 0)
		ZMK(ccs_create_evaluation(os, (ccs_configuration_t)config, (ccs_evaluation_result_t)r, 2, v, (ccs_evaluation_t *)&e));
	else if (kind == 1)
		ZMK(ccs_create_features_evaluation(os, (ccs_configuration_t)config, (ccs_features_t)feat, (ccs_evaluation_result_t)r, 2, v, (ccs_features_evaluation_t *)&e));
	else
		ZMK(ccs_create_tree_evaluation(os, (ccs_tree_configuration_t)config, (ccs_evaluation_result_t)r, 2, v, (ccs_tree_evaluation_t *)&e));
	return e;
}
static inline ccs_object_t zoo_config(zoo_t *z, ccs_configuration_space_t cs, int64_t base)
{
	static const char *names[3] = {"val", "", "w"};
	ccs_datum_t        v[2];
	ccs_object_t c = NULL;
	v[0] = ZV(ccs_int(base));
	v[1] = ccs_string(names[ZC(3, 0)]);
	ZMK(ccs_create_configuration(cs, 2, v, (ccs_configuration_t *)&c));
	return c;
}
static inline ccs_object_t zoo_features(zoo_t *z, ccs_features_space_t fs, int64_t base)
{
	ccs_datum_t  v[2];
	ccs_object_t c = NULL;
	v[0] = ZV(ccs_int(base));
	v[1] = ccs_string(ZS(z, "val"));
	ZMK(ccs_create_features(fs, 2, v, (ccs_features_t *)&c));
	return c;
}
static inline ccs_tree_space_t zoo_tspace(zoo_t *z, int dynamic)
{
	ccs_tree_space_t ts = NULL;
	ccs_tree_t       t = NULL;
	ccs_rng_t        r = NULL;
	zoo_tree(z, &t);
	if (dynamic) {
		z->data = calloc(1, sizeof(ut_t));
		z->data2 = calloc(1, sizeof(ut_t));
		z->vector = &dtv;
		((ut_t *)z->data)->state[0] = (unsigned char)ZI(0x81);
		((ut_t *)z->data)->state[1] = 7;
		ZMK(ccs_create_dynamic_tree_space(ZS(z, "ts"), t, &dtv, z->data, &ts));
	} else
		ZMK(ccs_create_static_tree_space(ZS(z, "ts"), t, &ts));
	zown(z, ts);
	zoo_rng(z, &r);
	zown(z, r);
	ZMK(ccs_tree_space_set_rng(ts, r));
	return ts;
}
static inline ccs_object_t zoo_tconfig(zoo_t *z, ccs_tree_space_t ts)
{
	size_t       pos[2] = {1, 0};
	ccs_object_t c = NULL;
	unsigned     len = ZC(3, 2);
	ZMK(ccs_create_tree_configuration(ts, len, pos, (ccs_tree_configuration_t *)&c));
	return c;
}
static inline void zoo_make(zoo_t *z, unsigned kind)
{
	memset(z, 0, sizeof(*z));
	z_next = z_used = 0;
	ccs_object_t o = NULL;
	ccs_datum_t  v[3];
	if (kind <= Z_STRING)
		o = (ccs_object_t)zparam(z, kind, "param", 0);
	else if (kind <= Z_MULTIVARIATE)
		o = (ccs_object_t)zdist(z, kind);
	else
		switch (kind) {
		case Z_LITERAL: ZMK(ccs_create_literal(ZD(z, ccs_int(5)), (ccs_expression_t *)&o)); break;
		case Z_EXPRESSION:
			v[0] = ccs_object(zlit(z, ccs_int(5)));
			v[1] = ccs_object(zlit(z, ccs_float(0.5)));
			ZMK(ccs_create_binary_expression((ccs_expression_type_t)ZC(15, 11), v[0], v[1], (ccs_expression_t *)&v[2].value.o));
			zown(z, v[2].value.o);
			ZMK(ccs_create_unary_expression(ZC(2, 0) ? CCS_EXPRESSION_TYPE_NOT : CCS_EXPRESSION_TYPE_NEGATIVE, ccs_object(v[2].value.o), (ccs_expression_t *)&o));
			break;
		case Z_LIST:
			v[0] = ccs_object(zlit(z, ccs_int(5)));
			v[1] = ccs_object(zlit(z, ccs_string("l")));
			v[2] = ccs_object(zlit(z, ccs_true));
			ZMK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, ZC(4, 3), v, (ccs_expression_t *)&o));
			break;
		case Z_VARIABLE:
			z->dep[z->ndep++] = zown(z, zparam(z, Z_INT, "x", 0));
			o = (ccs_object_t)zexpr(z, (ccs_parameter_t)z->dep[0]);
			break;
		case Z_MAP: {
			ZMK(ccs_create_map((ccs_map_t *)&o));
			for (unsigned i = 0, n = ZC(3, 2); i < n; i++) {
				v[0] = ZD(z, ccs_int(7 + i));
				v[1] = ZD(z, ccs_float(0.5 + i));
				ZMK(ccs_map_set((ccs_map_t)o, v[0], v[1]));
			}
			break;
		}
		case Z_RNG: zoo_rng(z, (ccs_rng_t *)&o); break;
		case Z_FSPACE: o = (ccs_object_t)zoo_fspace(z, 1); break;
		case Z_CSPACE: o = (ccs_object_t)zoo_cspace(z, 1); break;
		case Z_OSPACE: o = (ccs_object_t)zoo_ospace(z, 1); break;
		case Z_CONFIGURATION:
			z->dep[z->ndep++] = (ccs_object_t)zoo_cspace(z, 0);
			o = zoo_config(z, (ccs_configuration_space_t)z->dep[0], 3);
			break;
		case Z_FEATURES:
			z->dep[z->ndep++] = (ccs_object_t)zoo_fspace(z, 0);
			o = zoo_features(z, (ccs_features_space_t)z->dep[0], 3);
			break;
		case Z_EVALUATION:
			z->dep[z->ndep++] = (ccs_object_t)zoo_cspace(z, 0);
			z->dep[z->ndep++] = (ccs_object_t)zoo_ospace(z, 0);
			v[0].value.o = zown(z, zoo_config(z, (ccs_configuration_space_t)z->dep[0], 3));
			o = zoo_evaluation(z, 0, (ccs_objective_space_t)z->dep[1], v[0].value.o, NULL, 9);
			break;
		case Z_FEVALUATION:
			z->dep[z->ndep++] = (ccs_object_t)zoo_cspace(z, 0);
			z->dep[z->ndep++] = (ccs_object_t)zoo_ospace(z, 0);
			z->dep[z->ndep++] = (ccs_object_t)zoo_fspace(z, 0);
			v[0].value.o = zown(z, zoo_config(z, (ccs_configuration_space_t)z->dep[0], 3));
			v[1].value.o = zown(z, zoo_features(z, (ccs_features_space_t)z->dep[2], 5));
			o = zoo_evaluation(z, 1, (ccs_objective_space_t)z->dep[1], v[0].value.o, v[1].value.o, 9);
			break;
		case Z_TREE: zoo_tree(z, (ccs_tree_t *)&o); break;
		case Z_STATIC_TS: o = (ccs_object_t)zoo_tspace(z, 0); break;
		case Z_DYNAMIC_TS: o = (ccs_object_t)zoo_tspace(z, 1); break;
		case Z_TCONFIGURATION:
			z->dep[z->ndep++] = (ccs_object_t)zoo_tspace(z, 0);
			o = zoo_tconfig(z, (ccs_tree_space_t)z->dep[0]);
			break;
		case Z_TEVALUATION:
			z->dep[z->ndep++] = (ccs_object_t)zoo_tspace(z, 0);
			z->dep[z->ndep++] = (ccs_object_t)zoo_ospace(z, 0);
			v[0].value.o = zown(z, zoo_tconfig(z, (ccs_tree_space_t)z->dep[0]));
			o = zoo_evaluation(z, 2, (ccs_objective_space_t)z->dep[1], v[0].value.o, NULL, 9);
			break;
		default: { /* tuners */
			unsigned              user = kind >= Z_USER_TUNER, k = (kind - Z_RANDOM_TUNER) % 3;
			ccs_object_t          sp = k == 2 ? (ccs_object_t)zoo_tspace(z, 0) : (ccs_object_t)zoo_cspace(z, 0);
			ccs_features_space_t  fs = k == 1 ? zoo_fspace(z, 0) : NULL;
			ccs_objective_space_t os = zoo_ospace(z, 0);
			const char           *name = ZS(z, "tuner");
			if (user) {
				z->data = calloc(1, sizeof(ut_t));
				z->data2 = calloc(1, sizeof(ut_t));
				((ut_t *)z->data)->state[0] = (unsigned char)ZI(0x81);
				((ut_t *)z->data)->state[1] = 7;
				z->vector = k == 0 ? (void *)&utv0 : k == 1 ? (void *)&utv1 : (void *)&utv2;
			}
			if (k == 0 && !user)
				ZMK(ccs_create_random_tuner(name, (ccs_configuration_space_t)sp, os, (ccs_tuner_t *)&o));
			else if (k == 0)
				ZMK(ccs_create_user_defined_tuner(name, (ccs_configuration_space_t)sp, os, &utv0, z->data, (ccs_tuner_t *)&o));
			else if (k == 1 && !user)
				ZMK(ccs_create_random_features_tuner(name, (ccs_configuration_space_t)sp, fs, os, (ccs_features_tuner_t *)&o));
			else if (k == 1)
				ZMK(ccs_create_user_defined_features_tuner(name, (ccs_configuration_space_t)sp, fs, os, &utv1, z->data, (ccs_features_tuner_t *)&o));
			else if (!user)
				ZMK(ccs_create_random_tree_tuner(name, (ccs_tree_space_t)sp, os, (ccs_tree_tuner_t *)&o));
			else
				ZMK(ccs_create_user_defined_tree_tuner(name, (ccs_tree_space_t)sp, os, &utv2, z->data, (ccs_tree_tuner_t *)&o));
			for (unsigned i = 0, n = ZC(3, 2); i < n; i++) {
				ccs_object_t c = zown(z, k == 2 ? zoo_tconfig(z, (ccs_tree_space_t)sp) : zoo_config(z, (ccs_configuration_space_t)sp, 3 + i));
				ccs_object_t f = k == 1 ? zown(z, zoo_features(z, fs, 5)) : NULL;
				ccs_object_t e = zown(z, zoo_evaluation(z, k, os, c, f, 9 - 2 * (int64_t)i));
				if (k == 0)
					ZMK(ccs_tuner_tell((ccs_tuner_t)o, 1, (ccs_evaluation_t *)&e));
				else if (k == 1)
					ZMK(ccs_features_tuner_tell((ccs_features_tuner_t)o, 1, (ccs_features_evaluation_t *)&e));
				else
					ZMK(ccs_tree_tuner_tell((ccs_tree_tuner_t)o, 1, (ccs_tree_evaluation_t *)&e));
			}
		}
		}
	z->o = o;
	/* spaces and trees already put their own reference among the owned ones */
	for (unsigned i = 0; i < z->n; i++)
		if (z->own[i] == o) {
			for (unsigned j = i + 1; j < z->n; j++)
				z->own[j - 1] = z->own[j];
			z->n--;
			break;
		}
	/* a field that does not exist */
	if (z_f > z_next || z_g > z_next)
		vp_kill();
}
static inline void zoo_free(zoo_t *z)
{
	if (z->o)
		rel(z->o);
	while (z->n)
		rel(z->own[--z->n]);
	while (z->ns)
		free(z->str[--z->ns]);
	free(z->data);
	free(z->data2);
}
/* ---- comparison */
static ccs_context_t z_ctx[2]; /* variables are compared by position in these */
#define GET2(type, call)                                                                                               \
	type x = 0, y = 0;                                                                                             \
	OK(call(a, &x));                                                                                               \
	OK(call(b, &y));
static inline void same_name(const char *x, const char *y) { SAME(x && y && x != y && !strcmp(x, y)); }
static inline void same_dat(ccs_datum_t x, ccs_datum_t y)
{
	vp_assert_(same_datum(x, y), "the rebuilt object holds the same value");
}
static inline void same_type(ccs_object_t a, ccs_object_t b)
{
	ccs_object_type_t x, y;
	OK(ccs_object_get_type(a, &x));
	OK(ccs_object_get_type(b, &y));
	SAME(x == y);
}
static inline void same_param(ccs_parameter_t a, ccs_parameter_t b)
{
	ccs_parameter_type_t t, u;
	const char          *n = NULL, *m = NULL;
	ccs_datum_t          v[4], w[4];
	size_t               c = 0, d = 0;
	SAME(a != b);
	OK(ccs_parameter_get_type(a, &t));
	OK(ccs_parameter_get_type(b, &u));
	SAME(t == u);
	OK(ccs_parameter_get_name(a, &n));
	OK(ccs_parameter_get_name(b, &m));
	same_name(n, m);
	OK(ccs_parameter_get_default_value(a, v));
	OK(ccs_parameter_get_default_value(b, w));
	same_dat(v[0], w[0]);
	switch (t) {
	case CCS_PARAMETER_TYPE_NUMERICAL: {
		ccs_numeric_type_t x, y;
		ccs_numeric_t      p[3], q[3];
		OK(ccs_numerical_parameter_get_properties(a, &x, p, p + 1, p + 2));
		OK(ccs_numerical_parameter_get_properties(b, &y, q, q + 1, q + 2));
		SAME(x == y);
		SAME(p[0].i == q[0].i);
		SAME(p[1].i == q[1].i);
		SAME(p[2].i == q[2].i);
		break;
	}
	case CCS_PARAMETER_TYPE_STRING: break;
	default:
		if (t == CCS_PARAMETER_TYPE_CATEGORICAL) {
			OK(ccs_categorical_parameter_get_values(a, 4, v, &c));
			OK(ccs_categorical_parameter_get_values(b, 4, w, &d));
		} else if (t == CCS_PARAMETER_TYPE_ORDINAL) {
			OK(ccs_ordinal_parameter_get_values(a, 4, v, &c));
			OK(ccs_ordinal_parameter_get_values(b, 4, w, &d));
		} else {
			OK(ccs_discrete_parameter_get_values(a, 4, v, &c));
			OK(ccs_discrete_parameter_get_values(b, 4, w, &d));
		}
		SAME(c == d);
		for (size_t i = 0; i < c; i++)
			same_dat(v[i], w[i]);
	}
}
static inline int near(double x, double y)
{
	if (x == y)
		return 1;
	double d = x - y;
	return d < 1e-12 && d > -1e-12;
}
static inline void same_dist(ccs_distribution_t a, ccs_distribution_t b)
{
	ccs_distribution_type_t t, u;
	size_t                  c = 0, d = 0;
	ccs_scale_type_t        s, r;
	ccs_numeric_t           p[3], q[3];
	ccs_distribution_t      e[4], f[4];
	double                  w[4], x[4];
	SAME(a != b);
	OK(ccs_distribution_get_type(a, &t));
	OK(ccs_distribution_get_type(b, &u));
	SAME(t == u);
	OK(ccs_distribution_get_dimension(a, &c));
	OK(ccs_distribution_get_dimension(b, &d));
	SAME(c == d && c <= 4);
	ccs_numeric_type_t nt[4], nu[4];
	OK(ccs_distribution_get_data_types(a, nt));
	OK(ccs_distribution_get_data_types(b, nu));
	for (size_t i = 0; i < c; i++)
		SAME(nt[i] == nu[i]);
	switch (t) {
	case CCS_DISTRIBUTION_TYPE_UNIFORM:
		OK(ccs_uniform_distribution_get_properties(a, p, p + 1, &s, p + 2));
		OK(ccs_uniform_distribution_get_properties(b, q, q + 1, &r, q + 2));
		SAME(p[0].i == q[0].i);
		SAME(p[1].i == q[1].i);
		SAME(p[2].i == q[2].i);
		SAME(s == r);
		break;
	case CCS_DISTRIBUTION_TYPE_NORMAL:
		OK(ccs_normal_distribution_get_properties(a, &p[0].f, &p[1].f, &s, p + 2));
		OK(ccs_normal_distribution_get_properties(b, &q[0].f, &q[1].f, &r, q + 2));
		SAME(p[0].i == q[0].i);
		SAME(p[1].i == q[1].i);
		SAME(p[2].i == q[2].i);
		SAME(s == r);
		break;
	case CCS_DISTRIBUTION_TYPE_ROULETTE:
		OK(ccs_roulette_distribution_get_areas(a, 4, w, &c));
		OK(ccs_roulette_distribution_get_areas(b, 4, x, &d));
		SAME(c == d);
		for (size_t i = 0; i < c; i++)
			SAME(near(w[i], x[i]));
		break;
	case CCS_DISTRIBUTION_TYPE_MIXTURE:
		OK(ccs_mixture_distribution_get_weights(a, 4, w, &c));
		OK(ccs_mixture_distribution_get_weights(b, 4, x, &d));
		SAME(c == d);
		for (size_t i = 0; i < c; i++)
			SAME(near(w[i], x[i]));
		OK(ccs_mixture_distribution_get_distributions(a, 4, e, &c));
		OK(ccs_mixture_distribution_get_distributions(b, 4, f, &d));
		SAME(c == d);
		for (size_t i = 0; i < c; i++)
			same_dist(e[i], f[i]);
		break;
	default:
		OK(ccs_multivariate_distribution_get_distributions(a, 4, e, &c));
		OK(ccs_multivariate_distribution_get_distributions(b, 4, f, &d));
		SAME(c == d);
		for (size_t i = 0; i < c; i++)
			same_dist(e[i], f[i]);
	}
}
static inline void same_expr(ccs_expression_t a, ccs_expression_t b)
{
	ccs_expression_type_t t, u;
	ccs_expression_t      e[4], f[4];
	size_t                c = 0, d = 0;
	SAME(a != b);
	OK(ccs_expression_get_type(a, &t));
	OK(ccs_expression_get_type(b, &u));
	SAME(t == u);
	if (t == CCS_EXPRESSION_TYPE_LITERAL) {
		ccs_datum_t v, w;
		OK(ccs_literal_get_value(a, &v));
		OK(ccs_literal_get_value(b, &w));
		same_dat(v, w);
		return;
	}
	if (t == CCS_EXPRESSION_TYPE_VARIABLE) {
		ccs_parameter_t p = NULL, q = NULL;
		OK(ccs_variable_get_parameter(a, &p));
		OK(ccs_variable_get_parameter(b, &q));
		if (z_ctx[0]) {
			OK(ccs_context_get_parameter_index(z_ctx[0], p, &c));
			OK(ccs_context_get_parameter_index(z_ctx[1], q, &d));
			SAME(c == d);
		} else
			same_param(p, q);
		return;
	}
	OK(ccs_expression_get_nodes(a, 4, e, &c));
	OK(ccs_expression_get_nodes(b, 4, f, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++)
		same_expr(e[i], f[i]);
}
static inline void same_map(ccs_map_t a, ccs_map_t b)
{
	ccs_datum_t k[4], v[4], w;
	size_t      c = 0, d = 0;
	SAME(a != b);
	OK(ccs_map_get_pairs(a, 4, k, v, &c));
	OK(ccs_map_get_keys(b, 0, NULL, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++) {
		ccs_bool_t ex = CCS_FALSE;
		OK(ccs_map_exist(b, k[i], &ex));
		SAME(ex == CCS_TRUE);
		OK(ccs_map_get(b, k[i], &w));
		same_dat(v[i], w);
	}
}
static inline void same_rng(ccs_rng_t a, ccs_rng_t b)
{
	const gsl_rng_type *t = NULL, *u = NULL;
	unsigned long       x = 0, y = 1;
	SAME(a != b);
	OK(ccs_rng_get_type(a, &t));
	OK(ccs_rng_get_type(b, &u));
	SAME(t == u);
	for (int i = 0; i < 2; i++) {
		OK(ccs_rng_get(a, &x));
		OK(ccs_rng_get(b, &y));
		SAME(x == y);
	}
}
static inline void same_context(ccs_context_t a, ccs_context_t b)
{
	const char     *n = NULL, *m = NULL;
	size_t          c = 0, d = 0;
	ccs_parameter_t p = NULL, q = NULL;
	SAME(a != b);
	same_type((ccs_object_t)a, (ccs_object_t)b);
	OK(ccs_context_get_name(a, &n));
	OK(ccs_context_get_name(b, &m));
	same_name(n, m);
	OK(ccs_context_get_num_parameters(a, &c));
	OK(ccs_context_get_num_parameters(b, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++) {
		size_t j = 99;
		OK(ccs_context_get_parameter(a, i, &p));
		OK(ccs_context_get_parameter(b, i, &q));
		same_param(p, q);
		OK(ccs_parameter_get_name(p, &n));
		OK(ccs_context_get_parameter_index_by_name(b, n, &j));
		SAME(i == j);
	}
}
static inline void same_cspace(ccs_configuration_space_t a, ccs_configuration_space_t b)
{
	size_t           c = 0, d = 0;
	ccs_expression_t e = NULL, f = NULL;
	ccs_rng_t        r = NULL, s = NULL;
	same_context((ccs_context_t)a, (ccs_context_t)b);
	z_ctx[0] = (ccs_context_t)a;
	z_ctx[1] = (ccs_context_t)b;
	OK(ccs_configuration_space_get_num_parameters(a, &c));
	ccs_distribution_t da[4] = {NULL, NULL, NULL, NULL}, db[4] = {NULL, NULL, NULL, NULL};
	for (size_t i = 0; i < c; i++) {
		size_t k = 77, l = 78;
		OK(ccs_configuration_space_get_parameter_distribution(a, i, &da[i], &k));
		OK(ccs_configuration_space_get_parameter_distribution(b, i, &db[i], &l));
		SAME(k == l);
		same_dist(da[i], db[i]);
		for (size_t j = 0; j < i; j++)
			SAME((da[i] == da[j]) == (db[i] == db[j]));
		OK(ccs_configuration_space_get_condition(a, i, &e));
		OK(ccs_configuration_space_get_condition(b, i, &f));
		SAME(!e == !f);
		if (e)
			same_expr(e, f);
	}
	OK(ccs_configuration_space_get_forbidden_clauses(a, 0, NULL, &c));
	OK(ccs_configuration_space_get_forbidden_clauses(b, 0, NULL, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++) {
		OK(ccs_configuration_space_get_forbidden_clause(a, i, &e));
		OK(ccs_configuration_space_get_forbidden_clause(b, i, &f));
		same_expr(e, f);
	}
	OK(ccs_configuration_space_get_rng(a, &r));
	OK(ccs_configuration_space_get_rng(b, &s));
	same_rng(r, s);
	ccs_configuration_t x = NULL, y = NULL;
	ccs_datum_t         v[4], w[4];
	OK(ccs_configuration_space_get_default_configuration(a, &x));
	OK(ccs_configuration_space_get_default_configuration(b, &y));
	OK(ccs_configuration_get_values(x, 4, v, &c));
	OK(ccs_configuration_get_values(y, 4, w, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++)
		same_dat(v[i], w[i]);
	rel(x);
	rel(y);
	z_ctx[0] = z_ctx[1] = NULL;
}
static inline void same_ospace(ccs_objective_space_t a, ccs_objective_space_t b)
{
	size_t c = 0, d = 0;
	same_context((ccs_context_t)a, (ccs_context_t)b);
	z_ctx[0] = (ccs_context_t)a;
	z_ctx[1] = (ccs_context_t)b;
	OK(ccs_objective_space_get_objectives(a, 0, NULL, NULL, &c));
	OK(ccs_objective_space_get_objectives(b, 0, NULL, NULL, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++) {
		ccs_expression_t     e = NULL, f = NULL;
		ccs_objective_type_t t, u;
		OK(ccs_objective_space_get_objective(a, i, &e, &t));
		OK(ccs_objective_space_get_objective(b, i, &f, &u));
		SAME(t == u);
		same_expr(e, f);
	}
	z_ctx[0] = z_ctx[1] = NULL;
}
static inline void same_binding(ccs_binding_t a, ccs_binding_t b)
{
	ccs_datum_t v[4], w[4];
	size_t      c = 0, d = 0;
	SAME(a != b);
	same_type((ccs_object_t)a, (ccs_object_t)b);
	OK(ccs_binding_get_values(a, 4, v, &c));
	OK(ccs_binding_get_values(b, 4, w, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++)
		same_dat(v[i], w[i]);
}
static inline ccs_context_t ctx_of(ccs_object_t a)
{
	ccs_context_t c = NULL;
	OK(ccs_binding_get_context((ccs_binding_t)a, &c));
	return c;
}
static inline void same_tree(ccs_tree_t a, ccs_tree_t b)
{
	ccs_datum_t v, w;
	size_t      c = 0, d = 0;
	double      x = 0, y = 1;
	ccs_tree_t  m[4], n[4];
	SAME(a != b);
	OK(ccs_tree_get_arity(a, &c));
	OK(ccs_tree_get_arity(b, &d));
	SAME(c == d);
	OK(ccs_tree_get_value(a, &v));
	OK(ccs_tree_get_value(b, &w));
	same_dat(v, w);
	OK(ccs_tree_get_weight(a, &x));
	OK(ccs_tree_get_weight(b, &y));
	SAME(f2i(x) == f2i(y));
	OK(ccs_tree_get_bias(a, &x));
	OK(ccs_tree_get_bias(b, &y));
	SAME(f2i(x) == f2i(y));
	OK(ccs_tree_get_children(a, 4, m, &c));
	OK(ccs_tree_get_children(b, 4, n, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++) {
		SAME(!m[i] == !n[i]);
		if (m[i]) {
			ccs_tree_t q = NULL;
			size_t     j = 99;
			same_tree(m[i], n[i]);
			OK(ccs_tree_get_parent(n[i], &q, &j));
			SAME(q == b && i == j);
		}
	}
}
static inline void same_tspace(ccs_tree_space_t a, ccs_tree_space_t b)
{
	const char           *n = NULL, *m = NULL;
	ccs_tree_space_type_t t, u;
	ccs_tree_t            x = NULL, y = NULL;
	ccs_rng_t             r = NULL, s = NULL;
	SAME(a != b);
	OK(ccs_tree_space_get_type(a, &t));
	OK(ccs_tree_space_get_type(b, &u));
	SAME(t == u);
	OK(ccs_tree_space_get_name(a, &n));
	OK(ccs_tree_space_get_name(b, &m));
	same_name(n, m);
	OK(ccs_tree_space_get_tree(a, &x));
	OK(ccs_tree_space_get_tree(b, &y));
	same_tree(x, y);
	OK(ccs_tree_space_get_rng(a, &r));
	OK(ccs_tree_space_get_rng(b, &s));
	same_rng(r, s);
	if (t == CCS_TREE_SPACE_TYPE_DYNAMIC) {
		ut_t *p = dt_of(a), *q = dt_of(b);
		SAME(p->state[0] == q->state[0] && p->state[1] == q->state[1]);
	}
}
static inline void same_tconfig(ccs_tree_configuration_t a, ccs_tree_configuration_t b)
{
	size_t p[4] = {0, 0, 0, 0}, q[4] = {0, 0, 0, 0}, c = 0, d = 0;
	SAME(a != b);
	OK(ccs_tree_configuration_get_position(a, 4, p, &c));
	OK(ccs_tree_configuration_get_position(b, 4, q, &d));
	SAME(c == d);
	for (size_t i = 0; i < c; i++)
		SAME(p[i] == q[i]);
}
static inline ccs_object_t ev_config(unsigned k, ccs_object_t a)
{
	ccs_object_t c = NULL;
	OK(k == 0 ? ccs_evaluation_get_configuration((ccs_evaluation_t)a, (ccs_configuration_t *)&c) :
	   k == 1 ? ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)a, (ccs_configuration_t *)&c) :
		    ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)a, (ccs_tree_configuration_t *)&c));
	return c;
}
static inline ccs_object_t conf_space(unsigned k, ccs_object_t c)
{
	ccs_object_t s = NULL;
	if (k == 2)
		OK(ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)c, (ccs_tree_space_t *)&s));
	else
		OK(ccs_configuration_get_configuration_space((ccs_configuration_t)c, (ccs_configuration_space_t *)&s));
	return s;
}
static inline void same_eval(unsigned k, ccs_object_t a, ccs_object_t b)
{
	ccs_evaluation_result_t r, s;
	same_binding((ccs_binding_t)a, (ccs_binding_t)b);
	OK(ev_result(k, a, &r));
	OK(ev_result(k, b, &s));
	SAME(r == s);
	ccs_object_t x = ev_config(k, a), y = ev_config(k, b);
	if (k == 2)
		same_tconfig((ccs_tree_configuration_t)x, (ccs_tree_configuration_t)y);
	else
		same_binding((ccs_binding_t)x, (ccs_binding_t)y);
	if (k == 1) {
		ccs_features_t f = NULL, g = NULL;
		OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)a, &f));
		OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)b, &g));
		same_binding((ccs_binding_t)f, (ccs_binding_t)g);
	}
}
static inline void same_tuner(unsigned kind, ccs_object_t a, ccs_object_t b)
{
	unsigned     user = kind >= Z_USER_TUNER, k = (kind - Z_RANDOM_TUNER) % 3;
	const char  *n = NULL, *m = NULL;
	ccs_object_t sp[2] = {NULL, NULL}, os[2] = {NULL, NULL}, fs[2] = {NULL, NULL}, h[2][4], o[2][4], t[2] = {a, b};
	size_t       nh[2] = {0, 0}, no[2] = {0, 0};
	int          ty[2];
	memset(h, 0, sizeof(h));
	memset(o, 0, sizeof(o));
	same_type(a, b);
	for (unsigned i = 0; i < 2; i++) {
		const char **nn = i ? &m : &n;
		if (k == 0) {
			ccs_tuner_t      x = (ccs_tuner_t)t[i];
			ccs_tuner_type_t y;
			OK(ccs_tuner_get_type(x, &y));
			ty[i] = (int)y;
			OK(ccs_tuner_get_name(x, nn));
			OK(ccs_tuner_get_configuration_space(x, (ccs_configuration_space_t *)&sp[i]));
			OK(ccs_tuner_get_objective_space(x, (ccs_objective_space_t *)&os[i]));
			OK(ccs_tuner_get_history(x, 4, (ccs_evaluation_t *)h[i], &nh[i]));
			OK(ccs_tuner_get_optima(x, 4, (ccs_evaluation_t *)o[i], &no[i]));
		} else if (k == 1) {
			ccs_features_tuner_t      x = (ccs_features_tuner_t)t[i];
			ccs_features_tuner_type_t y;
			OK(ccs_features_tuner_get_type(x, &y));
			ty[i] = (int)y;
			OK(ccs_features_tuner_get_name(x, nn));
			OK(ccs_features_tuner_get_configuration_space(x, (ccs_configuration_space_t *)&sp[i]));
			OK(ccs_features_tuner_get_objective_space(x, (ccs_objective_space_t *)&os[i]));
			OK(ccs_features_tuner_get_features_space(x, (ccs_features_space_t *)&fs[i]));
			OK(ccs_features_tuner_get_history(x, NULL, 4, (ccs_features_evaluation_t *)h[i], &nh[i]));
			OK(ccs_features_tuner_get_optima(x, NULL, 4, (ccs_features_evaluation_t *)o[i], &no[i]));
		} else {
			ccs_tree_tuner_t      x = (ccs_tree_tuner_t)t[i];
			ccs_tree_tuner_type_t y;
			OK(ccs_tree_tuner_get_type(x, &y));
			ty[i] = (int)y;
			OK(ccs_tree_tuner_get_name(x, nn));
			OK(ccs_tree_tuner_get_tree_space(x, (ccs_tree_space_t *)&sp[i]));
			OK(ccs_tree_tuner_get_objective_space(x, (ccs_objective_space_t *)&os[i]));
			OK(ccs_tree_tuner_get_history(x, 4, (ccs_tree_evaluation_t *)h[i], &nh[i]));
			OK(ccs_tree_tuner_get_optima(x, 4, (ccs_tree_evaluation_t *)o[i], &no[i]));
		}
	}
	SAME(ty[0] == ty[1]);
	same_name(n, m);
	if (k == 2)
		same_tspace((ccs_tree_space_t)sp[0], (ccs_tree_space_t)sp[1]);
	else
		same_cspace((ccs_configuration_space_t)sp[0], (ccs_configuration_space_t)sp[1]);
	same_ospace((ccs_objective_space_t)os[0], (ccs_objective_space_t)os[1]);
	if (k == 1)
		same_context((ccs_context_t)fs[0], (ccs_context_t)fs[1]);
	SAME(nh[0] == nh[1]);
	SAME(no[0] == no[1]);
	for (size_t i = 0; i < nh[0]; i++) {
		same_eval(k, h[0][i], h[1][i]);
		SAME((ccs_object_t)ctx_of(h[1][i]) == os[1]);
		SAME(conf_space(k, ev_config(k, h[1][i])) == sp[1]);
		if (k == 1) {
			ccs_features_t f = NULL;
			OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)h[1][i], &f));
			SAME((ccs_object_t)ctx_of((ccs_object_t)f) == fs[1]);
		}
	}
	/* an optimum is the same member of the history */
	for (size_t i = 0; i < no[0]; i++)
		for (size_t j = 0; j < nh[0]; j++)
			SAME((o[0][i] == h[0][j]) == (o[1][i] == h[1][j]));
	if (user) {
		ut_t *p = ut_of(a, k), *q = ut_of(b, k);
		SAME(p->state[0] == q->state[0] && p->state[1] == q->state[1]);
	}
}
/* dep2: the rebuilt dependencies */
static inline void zoo_same(zoo_t *z, unsigned kind, ccs_object_t b, ccs_object_t *dep2)
{
	ccs_object_t a = z->o;
	same_type(a, b);
	if (kind <= Z_STRING)
		same_param((ccs_parameter_t)a, (ccs_parameter_t)b);
	else if (kind <= Z_MULTIVARIATE)
		same_dist((ccs_distribution_t)a, (ccs_distribution_t)b);
	else
		switch (kind) {
		case Z_VARIABLE: {
			ccs_parameter_t p = NULL;
			size_t          n = 0;
			same_expr((ccs_expression_t)a, (ccs_expression_t)b);
			OK(ccs_expression_get_parameters((ccs_expression_t)b, 1, &p, &n));
			SAME(n == 1 && (ccs_object_t)p == dep2[0]);
			break;
		}
		case Z_LITERAL:
		case Z_EXPRESSION:
		case Z_LIST: same_expr((ccs_expression_t)a, (ccs_expression_t)b); break;
		case Z_MAP: same_map((ccs_map_t)a, (ccs_map_t)b); break;
		case Z_RNG: same_rng((ccs_rng_t)a, (ccs_rng_t)b); break;
		case Z_FSPACE: same_context((ccs_context_t)a, (ccs_context_t)b); break;
		case Z_CSPACE: same_cspace((ccs_configuration_space_t)a, (ccs_configuration_space_t)b); break;
		case Z_OSPACE: same_ospace((ccs_objective_space_t)a, (ccs_objective_space_t)b); break;
		case Z_CONFIGURATION:
		case Z_FEATURES:
			same_binding((ccs_binding_t)a, (ccs_binding_t)b);
			SAME((ccs_object_t)ctx_of(b) == dep2[0]);
			break;
		case Z_EVALUATION:
		case Z_FEVALUATION:
		case Z_TEVALUATION: {
			unsigned k = kind == Z_EVALUATION ? 0 : kind == Z_FEVALUATION ? 1 : 2;
			same_eval(k, a, b);
			SAME((ccs_object_t)ctx_of(b) == dep2[1]);
			SAME(conf_space(k, ev_config(k, b)) == dep2[0]);
			if (k == 1) {
				ccs_features_t f = NULL;
				OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)b, &f));
				SAME((ccs_object_t)ctx_of((ccs_object_t)f) == dep2[2]);
			}
			break;
		}
		case Z_TREE: same_tree((ccs_tree_t)a, (ccs_tree_t)b); break;
		case Z_STATIC_TS:
		case Z_DYNAMIC_TS: same_tspace((ccs_tree_space_t)a, (ccs_tree_space_t)b); break;
		case Z_TCONFIGURATION:
			same_tconfig((ccs_tree_configuration_t)a, (ccs_tree_configuration_t)b);
			SAME(conf_space(2, b) == dep2[0]);
			break;
		default: same_tuner(kind, a, b);
		}
}
#endif
