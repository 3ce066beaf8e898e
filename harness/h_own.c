#include "worlds.h"
/* P22: objects keep what they were given, whatever becomes of the caller's memory */
#define NB 8
static char    *B[NB];
static char     O[NB][3];
static void    *H[NB];
static size_t   HN[NB];
static unsigned nb, nh;
/* a string of 0 to 2 characters in memory that will be overwritten and freed */
static const char *str(void)
{
	char    *s = malloc(3);
	unsigned l = nb == 0 ? CH(3, "len") : 1 + nb % 2;
	vp_symbolic(s, 3, "str");
	for (unsigned i = 0; i < l; i++)
		vp_assume(s[i] != 0);
	for (unsigned i = l; i < 3; i++)
		s[i] = 0;
	memcpy(O[nb], s, 3);
	B[nb] = s;
	return B[nb++];
}
static void *heap(const void *p, size_t n)
{
	H[nh] = malloc(n);
	memcpy(H[nh], p, n);
	HN[nh] = n;
	return H[nh++];
}
#define HEAP(a) heap(a, sizeof(a))
static void scrub(void)
{
	for (unsigned i = 0; i < nb; i++) {
		memset(B[i], 'z', 3);
		free(B[i]);
	}
	for (unsigned i = 0; i < nh; i++) {
		memset(H[i], 0x5a, HN[i]);
		free(H[i]);
	}
	vp_reach("the caller's memory is gone");
}
static int is(const char *s, unsigned k)
{
	if (!s)
		return 0;
	unsigned l = O[k][0] ? (O[k][1] ? 2 : 1) : 0;
	int      ok = 1;
	for (unsigned i = 0; i <= l; i++)
		ok &= s[i] == O[k][i];
	return ok;
}
#define NAME(s, k) vp_assert(is(s, k), "the name is the one given at creation")
#define VALUE(d, k) vp_assert((d).type == CCS_DATA_TYPE_STRING && is((d).value.s, k), "the value is the one that was given")
static ccs_datum_t transient(void)
{
	ccs_datum_t d = ccs_string(str());
	d.flags |= CCS_DATUM_FLAG_TRANSIENT;
	return d;
}
static void parameters(void)
{
	ccs_parameter_t p = NULL;
	const char     *n = str(), *g = NULL;
	ccs_datum_t     v[3], w[3] = {ccs_none, ccs_none, ccs_none};
	unsigned        k = CH(5, "kind");
	size_t          c = 0;
	switch (k) {
	case 0: OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(5), CCSI(0), CCSI(1), &p)); break;
	case 1: OK(ccs_create_string_parameter(n, &p)); break;
	case 2:
		v[0] = ccs_int(vp_i64("v0")); v[1] = ccs_int(vp_i64("v1")); v[2] = ccs_int(vp_i64("v2"));
		vp_assume(v[0].value.i != v[1].value.i && v[1].value.i != v[2].value.i && v[0].value.i != v[2].value.i);
		memcpy(w, v, sizeof(v));
		OK(ccs_create_discrete_parameter(n, 3, HEAP(v), 1, &p));
		break;
	default:
		for (int i = 0; i < 3; i++)
			v[i] = ccs_string(str());
		vp_assume(strcmp(O[1], O[2]) && strcmp(O[2], O[3]) && strcmp(O[1], O[3]));
		if (k == 3)
			OK(ccs_create_categorical_parameter(n, 3, HEAP(v), 1, &p));
		else
			OK(ccs_create_ordinal_parameter(n, 3, HEAP(v), 1, &p));
	}
	scrub();
	OK(ccs_parameter_get_name(p, &g));
	NAME(g, 0);
	if (k >= 2) {
		if (k == 2)
			OK(ccs_discrete_parameter_get_values(p, 3, v, &c));
		else if (k == 3)
			OK(ccs_categorical_parameter_get_values(p, 3, v, &c));
		else
			OK(ccs_ordinal_parameter_get_values(p, 3, v, &c));
		for (unsigned i = 0; i < 3; i++)
			if (k == 2)
				vp_assert(same_datum(v[i], w[i]), "a parameter keeps its values");
			else
				VALUE(v[i], i + 1);
		ccs_datum_t d = ccs_none;
		OK(ccs_parameter_get_default_value(p, &d));
		vp_assert(same_datum(d, v[1]), "a parameter keeps its default value");
	}
	rel(p);
}
/* tuners whose functions are looked up after the table given at creation is gone */
static int deleted;
static ccs_result_t td(ccs_tuner_t t) { (void)t; deleted++; return CCS_RESULT_SUCCESS; }
static ccs_result_t ta(ccs_tuner_t t, size_t n, ccs_configuration_t *c, size_t *r) { (void)t; (void)n; (void)c; if (r) *r = 7; return CCS_RESULT_SUCCESS; }
static ccs_result_t tt(ccs_tuner_t t, size_t n, ccs_evaluation_t *e) { (void)t; (void)n; (void)e; return CCS_RESULT_SUCCESS; }
static ccs_result_t to(ccs_tuner_t t, size_t n, ccs_evaluation_t *e, size_t *r) { (void)t; (void)n; (void)e; if (r) *r = 8; return CCS_RESULT_SUCCESS; }
static ccs_result_t fd(ccs_features_tuner_t t) { (void)t; deleted++; return CCS_RESULT_SUCCESS; }
static ccs_result_t fa(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_configuration_t *c, size_t *r) { (void)t; (void)f; (void)n; (void)c; if (r) *r = 7; return CCS_RESULT_SUCCESS; }
static ccs_result_t ft(ccs_features_tuner_t t, size_t n, ccs_features_evaluation_t *e) { (void)t; (void)n; (void)e; return CCS_RESULT_SUCCESS; }
static ccs_result_t fo(ccs_features_tuner_t t, ccs_features_t f, size_t n, ccs_features_evaluation_t *e, size_t *r) { (void)t; (void)f; (void)n; (void)e; if (r) *r = 8; return CCS_RESULT_SUCCESS; }
static ccs_result_t rd(ccs_tree_tuner_t t) { (void)t; deleted++; return CCS_RESULT_SUCCESS; }
static ccs_result_t ra(ccs_tree_tuner_t t, size_t n, ccs_tree_configuration_t *c, size_t *r) { (void)t; (void)n; (void)c; if (r) *r = 7; return CCS_RESULT_SUCCESS; }
static ccs_result_t rt(ccs_tree_tuner_t t, size_t n, ccs_tree_evaluation_t *e) { (void)t; (void)n; (void)e; return CCS_RESULT_SUCCESS; }
static ccs_result_t ro(ccs_tree_tuner_t t, size_t n, ccs_tree_evaluation_t *e, size_t *r) { (void)t; (void)n; (void)e; if (r) *r = 8; return CCS_RESULT_SUCCESS; }
static ccs_result_t dd(ccs_tree_space_t t) { (void)t; deleted++; return CCS_RESULT_SUCCESS; }
static ccs_result_t dg(ccs_tree_space_t t, ccs_tree_t p, size_t i, ccs_tree_t *c) { (void)t; (void)p; return ccs_create_tree(0, ccs_int((int64_t)i + 40), c); }
static void names(void)
{
	const char  *n = str(), *g = NULL;
	ccs_object_t o = NULL;
	unsigned     k = CH(11, "kind");
	ccs_configuration_space_t cs = NULL;
	ccs_objective_space_t     os = NULL;
	ccs_features_space_t      fs = NULL;
	ccs_tree_t                t = NULL;
	ccs_tree_space_t          ts = NULL;
	size_t                    c = 0;
	if (k >= 5) {
		cs = mk_cspace("c", 0, NULL);
		os = mk_ospace("o", 0, NULL);
		fs = mk_fspace("f", 0, NULL);
	}
	if (k >= 3)
		t = mk_tree(2, 1);
	if (k >= 5)
		OK(ccs_create_static_tree_space("t", t, &ts));
	switch (k) {
	case 0: OK(ccs_create_configuration_space(n, (ccs_configuration_space_t *)&o)); break;
	case 1: OK(ccs_create_features_space(n, (ccs_features_space_t *)&o)); break;
	case 2: OK(ccs_create_objective_space(n, (ccs_objective_space_t *)&o)); break;
	case 3: OK(ccs_create_static_tree_space(n, t, (ccs_tree_space_t *)&o)); break;
	case 4: {
		ccs_dynamic_tree_space_vector_t v = {dd, dg, NULL, NULL};
		OK(ccs_create_dynamic_tree_space(n, t, heap(&v, sizeof(v)), NULL, (ccs_tree_space_t *)&o));
		break;
	}
	case 5: OK(ccs_create_random_tuner(n, cs, os, (ccs_tuner_t *)&o)); break;
	case 6: OK(ccs_create_random_features_tuner(n, cs, fs, os, (ccs_features_tuner_t *)&o)); break;
	case 7: OK(ccs_create_random_tree_tuner(n, ts, os, (ccs_tree_tuner_t *)&o)); break;
	case 8: {
		ccs_user_defined_tuner_vector_t v = {td, ta, tt, to, to, NULL, NULL, NULL};
		OK(ccs_create_user_defined_tuner(n, cs, os, heap(&v, sizeof(v)), NULL, (ccs_tuner_t *)&o));
		break;
	}
	case 9: {
		ccs_user_defined_features_tuner_vector_t v = {fd, fa, ft, fo, fo, NULL, NULL, NULL};
		OK(ccs_create_user_defined_features_tuner(n, cs, fs, os, heap(&v, sizeof(v)), NULL, (ccs_features_tuner_t *)&o));
		break;
	}
	default: {
		ccs_user_defined_tree_tuner_vector_t v = {rd, ra, rt, ro, ro, NULL, NULL, NULL};
		OK(ccs_create_user_defined_tree_tuner(n, ts, os, heap(&v, sizeof(v)), NULL, (ccs_tree_tuner_t *)&o));
	}
	}
	scrub();
	switch (k) {
	case 0: OK(ccs_configuration_space_get_name((ccs_configuration_space_t)o, &g)); break;
	case 1: OK(ccs_features_space_get_name((ccs_features_space_t)o, &g)); break;
	case 2: OK(ccs_objective_space_get_name((ccs_objective_space_t)o, &g)); break;
	case 3: OK(ccs_tree_space_get_name((ccs_tree_space_t)o, &g)); break;
	case 4: {
		size_t      p = 1;
		ccs_tree_t  x = NULL;
		ccs_datum_t v = ccs_none;
		OK(ccs_tree_space_get_name((ccs_tree_space_t)o, &g));
		OK(ccs_tree_space_get_node_at_position((ccs_tree_space_t)o, 1, &p, &x));
		OK(ccs_tree_get_value(x, &v));
		vp_assert(same_datum(v, ccs_int(41)), "the functions given at creation are the ones called");
		break;
	}
	case 5: OK(ccs_tuner_get_name((ccs_tuner_t)o, &g)); break;
	case 6: OK(ccs_features_tuner_get_name((ccs_features_tuner_t)o, &g)); break;
	case 7: OK(ccs_tree_tuner_get_name((ccs_tree_tuner_t)o, &g)); break;
	case 8:
		OK(ccs_tuner_get_name((ccs_tuner_t)o, &g));
		OK(ccs_tuner_ask((ccs_tuner_t)o, 0, NULL, &c));
		vp_assert(c == 7, "the functions given at creation are the ones called");
		OK(ccs_tuner_get_optima((ccs_tuner_t)o, 0, NULL, &c));
		break;
	case 9:
		OK(ccs_features_tuner_get_name((ccs_features_tuner_t)o, &g));
		OK(ccs_features_tuner_get_optima((ccs_features_tuner_t)o, NULL, 0, NULL, &c));
		break;
	default:
		OK(ccs_tree_tuner_get_name((ccs_tree_tuner_t)o, &g));
		OK(ccs_tree_tuner_ask((ccs_tree_tuner_t)o, 0, NULL, &c));
		vp_assert(c == 7, "the functions given at creation are the ones called");
		OK(ccs_tree_tuner_get_optima((ccs_tree_tuner_t)o, 0, NULL, &c));
	}
	if (k >= 8)
		vp_assert(c == 8, "the functions given at creation are the ones called");
	NAME(g, 0);
	rel(o);
	vp_assert(deleted == (k == 4 || k >= 8), "the deletion function given at creation is called once");
	if (ts)
		rel(ts);
	if (t)
		rel(t);
	if (fs)
		rel(fs);
	if (cs)
		rel(cs);
	if (os)
		rel(os);
}
static void distributions(void)
{
	ccs_distribution_t d = NULL, u[2], g[2] = {NULL, NULL};
	ccs_float_t        a[2] = {1.0, 3.0}, b[2] = {0, 0};
	size_t             n = 0;
	OK(ccs_create_uniform_int_distribution(0, 4, CCS_SCALE_TYPE_LINEAR, 0, u));
	OK(ccs_create_uniform_int_distribution(2, 9, CCS_SCALE_TYPE_LINEAR, 0, u + 1));
	unsigned k = CH(3, "kind");
	if (k == 0) {
		OK(ccs_create_roulette_distribution(2, HEAP(a), &d));
		scrub();
		OK(ccs_roulette_distribution_get_areas(d, 2, b, &n));
	} else if (k == 1) {
		OK(ccs_create_mixture_distribution(2, HEAP(u), HEAP(a), &d));
		scrub();
		OK(ccs_mixture_distribution_get_weights(d, 2, b, &n));
		OK(ccs_mixture_distribution_get_distributions(d, 2, g, &n));
	} else {
		OK(ccs_create_multivariate_distribution(2, HEAP(u), &d));
		scrub();
		OK(ccs_multivariate_distribution_get_distributions(d, 2, g, &n));
	}
	vp_assert(n == 2, "a distribution keeps its parts");
	if (k < 2)
		vp_assert(b[0] == 0.25 && b[1] == 0.75, "a distribution keeps its weights");
	if (k)
		vp_assert(g[0] == u[0] && g[1] == u[1], "a distribution keeps its components");
	rel(d);
	rel(u[0]);
	rel(u[1]);
}
static void expressions(void)
{
	ccs_expression_t e = NULL, l[2] = {NULL, NULL};
	ccs_datum_t      v[2], w = ccs_none;
	size_t           n = 0;
	if (CH(2, "kind")) {
		OK(ccs_create_literal(ccs_string(str()), &e));
		scrub();
		OK(ccs_literal_get_value(e, &w));
		VALUE(w, 0);
		OK(ccs_expression_eval(e, NULL, NULL, &w));
		VALUE(w, 0);
	} else {
		v[0] = ccs_string(str());
		v[1] = ccs_string(str());
		OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, HEAP(v), &e));
		scrub();
		OK(ccs_expression_get_nodes(e, 2, l, &n));
		vp_assert(n == 2, "an expression keeps its nodes");
		for (unsigned i = 0; i < 2; i++) {
			OK(ccs_literal_get_value(l[i], &w));
			VALUE(w, i);
			OK(ccs_expression_list_eval_node(e, NULL, NULL, i, &w));
			VALUE(w, i);
		}
	}
	rel(e);
}
static void contexts(void)
{
	ccs_parameter_t      p[2] = {mk_int("a", 0, 4, 1), mk_int("b", 0, 4, 2)}, q[2] = {NULL, NULL};
	ccs_expression_t     x[2], y[2] = {NULL, NULL};
	ccs_objective_type_t t[2] = {CCS_OBJECTIVE_TYPE_MAXIMIZE, CCS_OBJECTIVE_TYPE_MINIMIZE}, s[2] = {0, 0};
	ccs_distribution_t   d[2], g = NULL;
	size_t               n = 0, di = 9;
	ccs_object_t         o;
	unsigned             k = CH(3, "kind");
	if (k == 0) {
		ccs_configuration_space_t c = mk_cspace("c", 0, NULL);
		for (int i = 0; i < 2; i++)
			OK(ccs_create_uniform_int_distribution(i, 4, CCS_SCALE_TYPE_LINEAR, 0, d + i));
		OK(ccs_configuration_space_add_parameters(c, 2, HEAP(p), HEAP(d)));
		ccs_distribution_t m = NULL;
		size_t             at[2] = {1, 0};
		int                two = (int)CH(2, "two");
		OK(ccs_create_multivariate_distribution(2, d, &m));
		if (two)
			OK(ccs_configuration_space_set_distribution(c, m, HEAP(at)));
		scrub();
		OK(ccs_configuration_space_get_parameters(c, 2, q, &n));
		for (size_t i = 0; i < 2; i++) {
			OK(ccs_configuration_space_get_parameter_distribution(c, i, &g, &di));
			vp_assert(g == (two ? m : d[i]) && di == (two ? 1 - i : 0), "a space keeps its distributions");
		}
		rel(m);
		rel(d[0]);
		rel(d[1]);
		o = (ccs_object_t)c;
	} else if (k == 1) {
		ccs_features_space_t c = mk_fspace("c", 0, NULL);
		OK(ccs_features_space_add_parameters(c, 2, HEAP(p)));
		scrub();
		OK(ccs_features_space_get_parameters(c, 2, q, &n));
		o = (ccs_object_t)c;
	} else {
		ccs_objective_space_t c = mk_ospace("c", 0, NULL);
		OK(ccs_objective_space_add_parameters(c, 2, HEAP(p)));
		for (int i = 0; i < 2; i++)
			x[i] = mk_var(p[i]);
		OK(ccs_objective_space_add_objectives(c, 2, HEAP(x), HEAP(t)));
		scrub();
		OK(ccs_objective_space_get_parameters(c, 2, q, &n));
		OK(ccs_objective_space_get_objectives(c, 2, y, s, &n));
		vp_assert(y[0] == x[0] && y[1] == x[1] && s[0] == t[0] && s[1] == t[1], "a space keeps its objectives");
		rel(x[0]);
		rel(x[1]);
		o = (ccs_object_t)c;
	}
	vp_assert(n == 2 && q[0] == p[0] && q[1] == p[1], "a space keeps its parameters");
	rel(o);
	rel(p[0]);
	rel(p[1]);
}
/* values at either position, given at creation or later, in one of four ways */
static void bindings(void)
{
	unsigned        kind = CH(5, "kind"), how = CH(5, "how"), at = CH(2, "at"), nv = kind == 0 ? 1 : 2;
	ccs_parameter_t p[2] = {NULL, NULL};
	ccs_datum_t     pv[2], v[2] = {ccs_none, ccs_none}, w = ccs_none;
	world_t         W;
	ccs_object_t    o = NULL, ctx = NULL;
	ccs_features_t  f = NULL;
	memset(&W, 0, sizeof(W));
	(void)nv;
	if (kind == 0) { /* a configuration: the value is one of the possible ones */
		static char own[2][4];
		for (int i = 0; i < 2; i++) {
			vp_symbolic(own[i], 2, "own");
			vp_assume(own[i][0] != 0 && own[i][1] != 0);
			own[i][2] = 0;
			pv[i]     = ccs_string(own[i]);
		}
		vp_assume(strcmp(own[0], own[1]));
		OK(ccs_create_categorical_parameter("a", 2, pv, 0, p));
		OK(ccs_create_categorical_parameter("b", 2, pv, 1, p + 1));
		ctx = (ccs_object_t)mk_cspace("c", 2, p);
	} else {
		OK(ccs_create_string_parameter("a", p));
		OK(ccs_create_string_parameter("b", p + 1));
		if (kind == 1)
			ctx = (ccs_object_t)mk_fspace("f", 2, p);
		else {
			ctx = (ccs_object_t)mk_ospace("o", 2, p);
			world_open(&W, kind - 2);
			if (kind == 3) {
				ccs_datum_t fv = ccs_int(1);
				f              = mk_features(W.fs, 1, &fv);
			}
		}
	}
	/* both values, the one at `at` in memory that goes away */
	v[at] = transient();
	if (kind == 0) {
		char *s = B[0];
		memcpy(s, pv[1].value.s, 3);
		memcpy(O[0], s, 3);
	}
	v[1 - at]         = kind == 0 ? pv[0] : ccs_string("keep");
	ccs_datum_t *give = how == 0 ? HEAP(v) : NULL, d[2];
	d[0] = d[1] = kind == 0 ? pv[0] : ccs_string("keep");
	if (how)
		give = d;
	switch (kind) {
	case 0: o = (ccs_object_t)mk_config((ccs_configuration_space_t)ctx, 2, give); break;
	case 1: o = (ccs_object_t)mk_features((ccs_features_space_t)ctx, 2, give); break;
	default: o = ev_new(kind - 2, (ccs_objective_space_t)ctx, W.config, f, 0, 2, give);
	}
	ccs_binding_t b = (ccs_binding_t)o;
	switch (how) {
	case 0: break;
	case 1: OK(ccs_binding_set_value(b, at, v[at])); break;
	case 2: OK(ccs_binding_set_values(b, 2, HEAP(v))); break;
	case 3: OK(ccs_binding_set_value_by_name(b, at ? "b" : "a", v[at])); break;
	default: OK(ccs_binding_set_value_by_parameter(b, p[at], v[at]));
	}
	scrub();
	OK(ccs_binding_get_value(b, at, &w));
	VALUE(w, 0);
	vp_assert(!(w.flags & CCS_DATUM_FLAG_TRANSIENT), "a stored value lasts");
	OK(ccs_binding_get_value(b, 1 - at, &w));
	vp_assert(w.type == CCS_DATA_TYPE_STRING && w.value.s && !strcmp(w.value.s, kind == 0 ? pv[0].value.s : "keep"), "the other value stays");
	rel(o);
	if (f)
		rel(f);
	rel(ctx);
	rel(p[0]);
	rel(p[1]);
	if (kind >= 2)
		world_close(&W);
}
static void maps(void)
{
	ccs_map_t m = NULL;
	OK(ccs_create_map(&m));
	ccs_datum_t k = transient(), v = transient(), g = ccs_none, q[1] = {ccs_none}, r[1] = {ccs_none};
	size_t      n = 0;
	if (CH(2, "replace"))
		OK(ccs_map_set(m, k, ccs_int(3)));
	OK(ccs_map_set(m, k, v));
	scrub();
	OK(ccs_map_get(m, ccs_string(O[0]), &g));
	VALUE(g, 1);
	OK(ccs_map_get_pairs(m, 1, q, r, &n));
	vp_assert(n == 1, "one pair");
	VALUE(q[0], 0);
	VALUE(r[0], 1);
	rel(m);
}
static void trees(void)
{
	ccs_tree_t               t = NULL, c = NULL;
	ccs_tree_space_t         s = NULL;
	ccs_tree_configuration_t x = NULL;
	size_t                   pos[1] = {CH(2, "pos")}, got[1] = {9}, n = 0;
	ccs_datum_t              v[2] = {ccs_none, ccs_none};
	OK(ccs_create_tree(2, ccs_string(str()), &t));
	OK(ccs_create_tree(1, ccs_string(str()), &c));
	OK(ccs_tree_set_child(t, pos[0], c));
	OK(ccs_create_static_tree_space("s", t, &s));
	OK(ccs_create_tree_configuration(s, 1, HEAP(pos), &x));
	scrub();
	OK(ccs_tree_configuration_get_position(x, 1, got, &n));
	vp_assert(n == 1 && got[0] == pos[0], "a configuration keeps its position");
	OK(ccs_tree_configuration_get_values(x, 2, v, &n));
	vp_assert(n == 2, "a configuration has the values on its path");
	VALUE(v[0], 0);
	VALUE(v[1], 1);
	rel(x);
	rel(s);
	rel(c);
	rel(t);
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	switch (CH(8, "topic")) {
	case 0: parameters(); break;
	case 1: names(); break;
	case 2: distributions(); break;
	case 3: expressions(); break;
	case 4: contexts(); break;
	case 5: bindings(); break;
	case 6: maps(); break;
	default: trees();
	}
	vp_assert(vp_heap_live() == live, "everything is released");
}
