#include "zoo.h"
/* P17: one allocation fails, at any place. */
static char *freeze(ccs_object_t o, size_t *sz)
{
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, sz, CCS_SERIALIZE_OPTION_END));
	char *b = malloc(*sz);
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, *sz, b, CCS_SERIALIZE_OPTION_END));
	return b;
}
static ccs_result_t thaw(zoo_t *z, ccs_map_t m, size_t n, const char *d, ccs_object_t *o)
{
	if (z->vector)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, z->vector, CCS_DESERIALIZE_OPTION_DATA, z->data2, CCS_DESERIALIZE_OPTION_END);
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END);
}
/* the k-th allocation made by e fails; k any */
static int64_t oom_k, oom_at;
static void oom_arm(void)
{
	oom_k = vp_range(0, 4095, "failing allocation");
	oom_at = vp_alloc_count();
	vp_fail_alloc(oom_k);
}
/* did it happen? */
static int oom_disarm(void)
{
	vp_fail_alloc(-1);
	return vp_alloc_count() - oom_at > oom_k;
}
static void load_deps(zoo_t *z, ccs_map_t m, ccs_object_t *dep2)
{
	for (unsigned i = 0; i < z->ndep; i++) {
		size_t s = 0;
		char  *t = freeze(z->dep[i], &s);
		OK(ccs_object_deserialize(&dep2[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, s, t, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
		free(t);
	}
}
static void reading(unsigned kind)
{
	zoo_t        z;
	ccs_map_t    m = NULL;
	ccs_object_t dep2[3] = {NULL, NULL, NULL}, o2 = NULL;
	size_t       sz = 0;
	zoo_make(&z, kind);
	OK(ccs_create_map(&m));
	load_deps(&z, m, dep2);
	char        *b = freeze(z.o, &sz);
	int64_t      live = vp_heap_live();
	oom_arm();
	ccs_result_t r = thaw(&z, m, sz, b, &o2);
	if (!oom_disarm())
		vp_kill();
	if (r < 0) {
		vp_assert(o2 == NULL, "no object is returned on error");
		if (z_refused)
			ccs_clear_thread_error();
		else
			drop_error();
		/* (string parameters keep the strings that were looked up) */
		if (kind != Z_FEATURES && kind != Z_FEVALUATION && kind != Z_RANDOM_FTUNER && kind != Z_USER_FTUNER)
			vp_assert(vp_heap_live() == live, "a failed call leaks nothing");
		vp_reach("reading without memory fails");
		/* and the same call succeeds once there is memory */
		ccs_map_t    m2 = NULL;
		ccs_object_t dep3[3] = {NULL, NULL, NULL};
		z_refused = 0;
		if (z.data2)
			memset(z.data2, 0, sizeof(ut_t));
		OK(ccs_create_map(&m2));
		load_deps(&z, m2, dep3);
		OK(thaw(&z, m2, sz, b, &o2));
		zoo_same(&z, kind, o2, dep3);
		rel(o2);
		rel(m2);
		for (unsigned i = z.ndep; i; i--)
			rel(dep3[i - 1]);
	} else {
		vp_assert(r == CCS_RESULT_SUCCESS && o2 != NULL, "success or an error is returned");
		zoo_same(&z, kind, o2, dep2);
		rel(o2);
	}
	free(b);
	rel(m);
	for (unsigned i = z.ndep; i; i--)
		rel(dep2[i - 1]);
	zoo_free(&z);
}

/* ---- single calls on existing objects */
static zoo_t             z;
static unsigned          op;
static world_t           w;
static ccs_object_t      out[3];
static ccs_object_t      arg[4], tgt;
static ccs_datum_t       dat[4];
static size_t            idx[3];
static unsigned          called;
static void destroyed(ccs_object_t o, void *d) { (void)o; (void)d; called++; }
enum {
	O_CS_ADD, O_FS_ADD, O_OS_ADD, O_OS_OBJECTIVE, O_CS_DISTRIBUTION, O_CS_CONDITION, O_CS_FORBIDDEN, O_CS_DEFAULT, O_CS_SAMPLE, O_CS_SAMPLES,
	O_MAP_REPLACE, O_MAP_NEW, O_BINDING_SET, O_DESTROY_CB, O_TELL_0, O_TELL_1, O_TELL_2, O_ASK_0, O_ASK_1, O_ASK_2,
	O_TS_SAMPLE, O_TS_SAMPLES, O_DTS_NODE, O_DTS_VALUES, O_TCONFIG, O_EXPR_PARAMS, O_DIST_SAMPLES, O_PARAM_SAMPLES, O_MULTI_SAMPLES, O_MIXTURE_SAMPLES,
	O_REFUSED, O_SERIALIZE, O_CHECK, O_EVALUATION, O_COMPARE, O_OPTIMA_F, O_CS_VALIDATE, O_INIT, O_OPS
};
/* some parameter not in the space */
static ccs_parameter_t more[10];
static unsigned        nmore;
static void setup(void)
{
	static const char *nm[10] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"};
	unsigned fill = (unsigned)vp_param("fill", 8);
	memset(&w, 0, sizeof(w));
	memset(out, 0, sizeof(out));
	switch (op) {
	case O_CS_ADD: case O_FS_ADD: case O_OS_ADD:
		for (nmore = 0; nmore <= fill; nmore++)
			more[nmore] = mk_int(nm[nmore], 0, 10, 5);
		if (op == O_CS_ADD)
			tgt = (ccs_object_t)mk_cspace("s", fill, more);
		else if (op == O_FS_ADD)
			tgt = (ccs_object_t)mk_fspace("s", fill, more);
		else
			tgt = (ccs_object_t)mk_ospace("s", fill, more);
		break;
	case O_OS_OBJECTIVE: {
		more[0] = mk_int("p", 0, 10, 5);
		nmore = 1;
		tgt = (ccs_object_t)mk_ospace("s", 1, more);
		arg[0] = (ccs_object_t)mk_var(more[0]);
		for (unsigned i = 0; i < fill; i++)
			OK(ccs_objective_space_add_objective((ccs_objective_space_t)tgt, (ccs_expression_t)arg[0], CCS_OBJECTIVE_TYPE_MINIMIZE));
		break;
	}
	case O_MAP_REPLACE: case O_MAP_NEW:
		OK(ccs_create_map((ccs_map_t *)&tgt));
		for (unsigned i = 0; i < fill + (op == O_MAP_REPLACE); i++)
			OK(ccs_map_set((ccs_map_t)tgt, ccs_int(i), ccs_float(0.5)));
		arg[0] = (ccs_object_t)mk_int("o", 0, 1, 0);
		break;
	case O_TELL_0: case O_TELL_1: case O_TELL_2: case O_ASK_0: case O_ASK_1: case O_ASK_2: case O_OPTIMA_F:
		zoo_make(&z, op == O_TELL_0 || op == O_ASK_0 ? Z_RANDOM_TUNER : op == O_TELL_1 || op == O_ASK_1 || op == O_OPTIMA_F ? Z_RANDOM_FTUNER : Z_RANDOM_TTUNER);
		tgt = z.o;
		break;
	case O_TS_SAMPLE: case O_TS_SAMPLES: case O_TCONFIG:
		zoo_make(&z, Z_STATIC_TS);
		tgt = z.o;
		break;
	case O_DTS_NODE: case O_DTS_VALUES:
		zoo_make(&z, Z_DYNAMIC_TS);
		tgt = z.o;
		break;
	case O_EXPR_PARAMS:
		zoo_make(&z, Z_LIST);
		tgt = z.o;
		break;
	case O_DIST_SAMPLES: zoo_make(&z, Z_ROULETTE); tgt = z.o; break;
	case O_MULTI_SAMPLES: zoo_make(&z, Z_MULTIVARIATE); tgt = z.o; break;
	case O_MIXTURE_SAMPLES: zoo_make(&z, Z_MIXTURE); tgt = z.o; break;
	case O_PARAM_SAMPLES: zoo_make(&z, Z_CATEGORICAL); tgt = z.o; break;
	case O_EVALUATION: case O_COMPARE: zoo_make(&z, Z_EVALUATION); tgt = z.o; break;
	case O_BINDING_SET: zoo_make(&z, Z_FEATURES); tgt = z.o; break;
	case O_CHECK: zoo_make(&z, Z_CONFIGURATION); tgt = z.o; break;
	default:
		zoo_make(&z, Z_CSPACE);
		tgt = z.o;
	}
	if (op == O_DIST_SAMPLES || op == O_MULTI_SAMPLES || op == O_MIXTURE_SAMPLES || op == O_PARAM_SAMPLES)
		OK(ccs_create_rng((ccs_rng_t *)&arg[3]));
	if (op == O_CS_DISTRIBUTION)
		OK(ccs_create_uniform_int_distribution(3, 6, CCS_SCALE_TYPE_LINEAR, 0, (ccs_distribution_t *)&arg[0]));
	if (op == O_PARAM_SAMPLES)
		OK(ccs_parameter_get_default_distribution((ccs_parameter_t)tgt, (ccs_distribution_t *)&arg[0]));
	if (op == O_CS_CONDITION || op == O_CS_FORBIDDEN) {
		OK(ccs_configuration_space_get_parameter_index_by_name((ccs_configuration_space_t)tgt, "b", &idx[0]));
		ccs_parameter_t a = NULL;
		OK(ccs_configuration_space_get_parameter_by_name((ccs_configuration_space_t)tgt, "a", &a));
		ccs_expression_t v = mk_var(a);
		arg[0] = (ccs_object_t)mk_bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(v), ccs_int(11));
		rel(v);
		if (op == O_CS_FORBIDDEN)
			for (unsigned i = 1; i < fill; i++)
				OK(ccs_configuration_space_add_forbidden_clause((ccs_configuration_space_t)tgt, (ccs_expression_t)arg[0]));
	}
	if (op == O_TELL_0 || op == O_TELL_1 || op == O_TELL_2) { /* a better report */
		ccs_object_t h[4], e = NULL;
		size_t       c = 0;
		ccs_datum_t  v[2] = {ccs_int(-900), ccs_float(-900.)};
		ccs_objective_space_t os = NULL;
		if (op == O_TELL_0) {
			ccs_configuration_t g = NULL;
			OK(ccs_tuner_get_history((ccs_tuner_t)tgt, 4, (ccs_evaluation_t *)h, &c));
			OK(ccs_evaluation_get_configuration((ccs_evaluation_t)h[0], &g));
			OK(ccs_evaluation_get_objective_space((ccs_evaluation_t)h[0], &os));
			OK(ccs_create_evaluation(os, g, CCS_RESULT_SUCCESS, 2, v, (ccs_evaluation_t *)&e));
		} else if (op == O_TELL_1) {
			ccs_configuration_t g = NULL;
			ccs_features_t      f = NULL;
			OK(ccs_features_tuner_get_history((ccs_features_tuner_t)tgt, NULL, 4, (ccs_features_evaluation_t *)h, &c));
			OK(ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)h[0], &g));
			OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)h[0], &f));
			OK(ccs_features_evaluation_get_objective_space((ccs_features_evaluation_t)h[0], &os));
			OK(ccs_create_features_evaluation(os, g, f, CCS_RESULT_SUCCESS, 2, v, (ccs_features_evaluation_t *)&e));
		} else {
			ccs_tree_configuration_t g = NULL;
			OK(ccs_tree_tuner_get_history((ccs_tree_tuner_t)tgt, 4, (ccs_tree_evaluation_t *)h, &c));
			OK(ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)h[0], &g));
			OK(ccs_tree_evaluation_get_objective_space((ccs_tree_evaluation_t)h[0], &os));
			OK(ccs_create_tree_evaluation(os, g, CCS_RESULT_SUCCESS, 2, v, (ccs_tree_evaluation_t *)&e));
		}
		arg[0] = e;
		if (vp_param("fresh", 0)) { /* a tuner without reports, or with a worse one */
			ccs_object_t f = NULL;
			if (op == O_TELL_0) {
				ccs_configuration_space_t cs = NULL;
				OK(ccs_tuner_get_configuration_space((ccs_tuner_t)tgt, &cs));
				OK(ccs_create_random_tuner("f", cs, os, (ccs_tuner_t *)&f));
			} else if (op == O_TELL_1) {
				ccs_configuration_space_t cs = NULL;
				ccs_features_space_t      fs = NULL;
				OK(ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)tgt, &cs));
				OK(ccs_features_tuner_get_features_space((ccs_features_tuner_t)tgt, &fs));
				OK(ccs_create_random_features_tuner("f", cs, fs, os, (ccs_features_tuner_t *)&f));
			} else {
				ccs_tree_space_t ts = NULL;
				OK(ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)tgt, &ts));
				OK(ccs_create_random_tree_tuner("f", ts, os, (ccs_tree_tuner_t *)&f));
			}
			tgt = arg[1] = f;
			fill = (unsigned)vp_param("fresh", 0) - 1;
			c = 0;
		}
		/* until the arrays are full */
		for (unsigned i = (unsigned)c; i < fill; i++)
			OK(op == O_TELL_0 ? ccs_tuner_tell((ccs_tuner_t)tgt, 1, (ccs_evaluation_t *)h) : op == O_TELL_1 ? ccs_features_tuner_tell((ccs_features_tuner_t)tgt, 1, (ccs_features_evaluation_t *)h) : ccs_tree_tuner_tell((ccs_tree_tuner_t)tgt, 1, (ccs_tree_evaluation_t *)h));
	}
}
static ccs_numeric_t num[8];
static ccs_result_t call(void)
{
	size_t c = 0;
	ccs_bool_t b;
	ccs_configuration_space_t cs = (ccs_configuration_space_t)tgt;
	switch (op) {
	case O_CS_ADD: return ccs_configuration_space_add_parameter(cs, more[nmore - 1], NULL);
	case O_FS_ADD: return ccs_features_space_add_parameter((ccs_features_space_t)tgt, more[nmore - 1]);
	case O_OS_ADD: return ccs_objective_space_add_parameter((ccs_objective_space_t)tgt, more[nmore - 1]);
	case O_OS_OBJECTIVE: return ccs_objective_space_add_objective((ccs_objective_space_t)tgt, (ccs_expression_t)arg[0], CCS_OBJECTIVE_TYPE_MAXIMIZE);
	case O_CS_DISTRIBUTION: {
		size_t i;
		OK(ccs_configuration_space_get_parameter_index_by_name(cs, "c", &i));
		return ccs_configuration_space_set_distribution(cs, (ccs_distribution_t)arg[0], &i);
	}
	case O_CS_CONDITION: return ccs_configuration_space_set_condition(cs, idx[0], (ccs_expression_t)arg[0]);
	case O_CS_FORBIDDEN: return ccs_configuration_space_add_forbidden_clause(cs, (ccs_expression_t)arg[0]);
	case O_CS_DEFAULT: return ccs_configuration_space_get_default_configuration(cs, (ccs_configuration_t *)out);
	case O_CS_SAMPLE: return ccs_configuration_space_sample(cs, (ccs_configuration_t *)out);
	case O_CS_SAMPLES: return ccs_configuration_space_samples(cs, 2, (ccs_configuration_t *)out);
	case O_MAP_REPLACE: return ccs_map_set((ccs_map_t)tgt, ccs_int(0), ccs_object(arg[0]));
	case O_MAP_NEW: return ccs_map_set((ccs_map_t)tgt, ccs_object(arg[0]), ccs_int(1));
	case O_BINDING_SET: {
		ccs_datum_t d = ccs_string("new");
		d.flags = CCS_DATUM_FLAG_TRANSIENT;
		return ccs_binding_set_value((ccs_binding_t)tgt, 1, d);
	}
	case O_DESTROY_CB: return ccs_object_set_destroy_callback(tgt, &destroyed, NULL);
	case O_TELL_0: return ccs_tuner_tell((ccs_tuner_t)tgt, 1, (ccs_evaluation_t *)arg);
	case O_TELL_1: return ccs_features_tuner_tell((ccs_features_tuner_t)tgt, 1, (ccs_features_evaluation_t *)arg);
	case O_TELL_2: return ccs_tree_tuner_tell((ccs_tree_tuner_t)tgt, 1, (ccs_tree_evaluation_t *)arg);
	case O_ASK_0: return ccs_tuner_ask((ccs_tuner_t)tgt, 2, (ccs_configuration_t *)out, &c);
	case O_ASK_1: {
		ccs_features_evaluation_t h[4];
		ccs_features_t            f = NULL;
		ccs_features_tuner_t      t = (ccs_features_tuner_t)tgt;
		OK(ccs_features_tuner_get_history(t, NULL, 4, h, &c));
		OK(ccs_features_evaluation_get_features(h[0], &f));
		return ccs_features_tuner_ask(t, f, 2, (ccs_configuration_t *)out, &c);
	}
	case O_ASK_2: return ccs_tree_tuner_ask((ccs_tree_tuner_t)tgt, 2, (ccs_tree_configuration_t *)out, &c);
	case O_OPTIMA_F: {
		ccs_features_evaluation_t h[4], g[4];
		ccs_features_t            f = NULL;
		ccs_features_tuner_t      t = (ccs_features_tuner_t)tgt;
		OK(ccs_features_tuner_get_history(t, NULL, 4, h, &c));
		OK(ccs_features_evaluation_get_features(h[0], &f));
		return ccs_features_tuner_get_optima(t, f, 4, g, &c);
	}
	case O_TS_SAMPLE: return ccs_tree_space_sample((ccs_tree_space_t)tgt, (ccs_tree_configuration_t *)out);
	case O_TS_SAMPLES: return ccs_tree_space_samples((ccs_tree_space_t)tgt, 2, (ccs_tree_configuration_t *)out);
	case O_DTS_NODE: {
		size_t     p[2] = {1, 0};
		ccs_tree_t t = NULL;
		return ccs_tree_space_get_node_at_position((ccs_tree_space_t)tgt, 2, p, &t);
	}
	case O_DTS_VALUES: {
		size_t      p[2] = {0, 0};
		ccs_datum_t v[3];
		return ccs_tree_space_get_values_at_position((ccs_tree_space_t)tgt, 2, p, 3, v);
	}
	case O_TCONFIG: {
		size_t p[1] = {1};
		return ccs_create_tree_configuration((ccs_tree_space_t)tgt, 1, p, (ccs_tree_configuration_t *)out);
	}
	case O_EXPR_PARAMS: {
		ccs_parameter_t p[4];
		return ccs_expression_get_parameters((ccs_expression_t)tgt, 4, p, &c);
	}
	case O_DIST_SAMPLES: return ccs_distribution_samples((ccs_distribution_t)tgt, (ccs_rng_t)arg[3], 2, num);
	case O_MULTI_SAMPLES: return ccs_distribution_samples((ccs_distribution_t)tgt, (ccs_rng_t)arg[3], 2, num);
	case O_MIXTURE_SAMPLES: return ccs_distribution_samples((ccs_distribution_t)tgt, (ccs_rng_t)arg[3], 2, num);
	case O_PARAM_SAMPLES: return ccs_parameter_samples((ccs_parameter_t)tgt, (ccs_distribution_t)arg[0], (ccs_rng_t)arg[3], 2, dat);
	case O_REFUSED: return ccs_configuration_space_get_parameter(cs, 77, (ccs_parameter_t *)out);
	case O_SERIALIZE: {
		char tmp[1];
		return ccs_object_serialize(tgt, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, (size_t)1, tmp, CCS_SERIALIZE_OPTION_END);
	}
	case O_CHECK: return ccs_configuration_check((ccs_configuration_t)tgt, &b);
	case O_EVALUATION: {
		ccs_objective_space_t os = NULL;
		ccs_configuration_t   g = NULL;
		ccs_datum_t           v[2] = {ccs_int(1), ccs_float(1.)};
		OK(ccs_evaluation_get_objective_space((ccs_evaluation_t)tgt, &os));
		OK(ccs_evaluation_get_configuration((ccs_evaluation_t)tgt, &g));
		return ccs_create_evaluation(os, g, CCS_RESULT_SUCCESS, 2, v, (ccs_evaluation_t *)out);
	}
	case O_COMPARE: {
		ccs_comparison_t r;
		return ccs_evaluation_compare((ccs_evaluation_t)tgt, (ccs_evaluation_t)tgt, &r);
	}
	case O_CS_VALIDATE: {
		ccs_datum_t d = ccs_string("x"), r;
		size_t      i;
		d.flags = CCS_DATUM_FLAG_TRANSIENT;
		OK(ccs_configuration_space_get_parameter_index_by_name(cs, "d", &i));
		return ccs_configuration_space_validate_value(cs, i, d, &r);
	}
	case O_INIT: return ccs_create_rng((ccs_rng_t *)out);
	}
	return CCS_RESULT_SUCCESS;
}
/* what is already computed may stay: looked up strings, nodes of a dynamic tree space, the dependencies of the parameters */
static int grows(void) { return op == O_BINDING_SET || op == O_DTS_NODE || op == O_DTS_VALUES; }
static int keeps(void) { return grows() || op == O_CS_CONDITION || op == O_DESTROY_CB || vp_param("fill", 8) == 0 || vp_param("fresh", 0); }
static int batch(void) { return op == O_CS_SAMPLES || op == O_ASK_0 || op == O_ASK_1 || op == O_ASK_2 || op == O_TS_SAMPLES; }
static void calls(void)
{
	op = (unsigned)CH(O_OPS, "op");
	setup();
	size_t  s0 = 0, s1 = 0;
	char   *b0 = freeze(tgt, &s0), *b1;
	int64_t live = vp_heap_live();
	int     refusing = op == O_REFUSED || op == O_SERIALIZE;
	oom_arm();
	ccs_result_t r = call();
	if (!oom_disarm())
		vp_kill();
	vp_reach("an allocation of a call fails");
	if (refusing) {
		vp_assert(r < 0, "an invalid call is refused all the same");
		ccs_clear_thread_error();
		vp_assert(vp_heap_live() == live, "an invalid call leaks nothing");
	} else if (r < 0) {
		drop_error();
		if (batch()) /* (those that were found are the caller's) */
			for (unsigned i = 0; i < 2; i++) {
				if (out[i])
					OK(ccs_release_object(out[i]));
				out[i] = NULL;
			}
		vp_assert(out[0] == NULL && out[1] == NULL, "no object is returned on error");
		if (!keeps())
			vp_assert(vp_heap_live() == live, "a failed call leaks nothing");
		b1 = freeze(tgt, &s1);
		/* (generators may have advanced) */
		if (!grows() && op != O_CS_SAMPLE && op != O_CS_SAMPLES && op != O_ASK_0 && op != O_ASK_1 && op != O_ASK_2 && op != O_TS_SAMPLE && op != O_TS_SAMPLES)
			vp_assert(s0 == s1 && !memcmp(b0, b1, s0), "a failed call changes nothing");
		free(b1);
		if (op != O_ASK_2 && op != O_TS_SAMPLES) { /* (too many draws) */
			OK(call());
			vp_reach("a call succeeds after a failure");
		}
	} else
		// vp_opt: success or an error is returned
		vp_assert(r == CCS_RESULT_SUCCESS, "success or an error is returned");
	/* the result is the same as without failure */
	if (op == O_CS_ADD || op == O_FS_ADD || op == O_OS_ADD) {
		size_t i = 99, n = 0, fill = nmore;
		ccs_parameter_t p = NULL;
		if (op == O_CS_ADD) {
			OK(ccs_configuration_space_get_num_parameters((ccs_configuration_space_t)tgt, &n));
			OK(ccs_configuration_space_get_parameter_index((ccs_configuration_space_t)tgt, more[nmore - 1], &i));
			OK(ccs_configuration_space_get_parameter_by_name((ccs_configuration_space_t)tgt, fill == 9 ? "p8" : "p0", &p));
			OK(ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)tgt, (ccs_configuration_t *)out));
			size_t nv = 0;
			OK(ccs_configuration_get_values((ccs_configuration_t)out[0], 0, NULL, &nv));
			vp_assert(nv == n, "the default configuration has all parameters");
		} else if (op == O_FS_ADD) {
			OK(ccs_features_space_get_num_parameters((ccs_features_space_t)tgt, &n));
			OK(ccs_features_space_get_parameter_index((ccs_features_space_t)tgt, more[nmore - 1], &i));
			OK(ccs_features_space_get_parameter_by_name((ccs_features_space_t)tgt, fill == 9 ? "p8" : "p0", &p));
		} else {
			OK(ccs_objective_space_get_num_parameters((ccs_objective_space_t)tgt, &n));
			OK(ccs_objective_space_get_parameter_index((ccs_objective_space_t)tgt, more[nmore - 1], &i));
			OK(ccs_objective_space_get_parameter_by_name((ccs_objective_space_t)tgt, fill == 9 ? "p8" : "p0", &p));
		}
		vp_assert(n == fill && i == fill - 1 && (fill != 1 && fill != 9 ? 1 : p == more[nmore - 1]), "the parameter is added once");
	}
	if (op == O_CS_DISTRIBUTION || op == O_CS_CONDITION || op == O_CS_FORBIDDEN) {
		ccs_configuration_t g = NULL;
		OK(ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)tgt, &g));
		rel(g);
	}
	if (op == O_MAP_REPLACE || op == O_MAP_NEW) {
		ccs_datum_t d = ccs_none;
		OK(ccs_map_get((ccs_map_t)tgt, op == O_MAP_NEW ? ccs_object(arg[0]) : ccs_int(0), &d));
		vp_assert(same_datum(d, op == O_MAP_NEW ? ccs_int(1) : ccs_object(arg[0])), "the value is stored");
	}
	if (op == O_TELL_0) {
		ccs_evaluation_t e[12];
		size_t           n = 0;
		OK(ccs_tuner_get_optima((ccs_tuner_t)tgt, 12, e, &n));
		vp_assert(n == 1 && (ccs_object_t)e[0] == arg[0], "the better report is the optimum");
	}
	if (op == O_TELL_1) {
		ccs_features_evaluation_t e[12];
		size_t                    n = 0, has = 0;
		OK(ccs_features_tuner_get_optima((ccs_features_tuner_t)tgt, NULL, 12, e, &n));
		for (size_t i = 0; i < n; i++)
			has += (ccs_object_t)e[i] == arg[0];
		vp_assert(has == 1, "the better report is an optimum");
	}
	if (op == O_TELL_2) {
		ccs_tree_evaluation_t e[12];
		size_t                n = 0;
		OK(ccs_tree_tuner_get_optima((ccs_tree_tuner_t)tgt, 12, e, &n));
		vp_assert(n == 1 && (ccs_object_t)e[0] == arg[0], "the better report is the optimum");
	}
	if (op == O_TELL_0 || op == O_TELL_1 || op == O_TELL_2) {
		ccs_object_t e[16];
		size_t       n = 0, has = 0;
		OK(op == O_TELL_0 ? ccs_tuner_get_history((ccs_tuner_t)tgt, 16, (ccs_evaluation_t *)e, &n) : op == O_TELL_1 ? ccs_features_tuner_get_history((ccs_features_tuner_t)tgt, NULL, 16, (ccs_features_evaluation_t *)e, &n) : ccs_tree_tuner_get_history((ccs_tree_tuner_t)tgt, 16, (ccs_tree_evaluation_t *)e, &n));
		for (size_t i = 0; i < n; i++)
			has += e[i] == arg[0];
		vp_assert(has == 1, "the report is in the history once");
	}
	for (unsigned i = 0; i < 3; i++)
		if (out[i])
			rel(out[i]);
	for (unsigned i = 0; i < 4; i++)
		if (arg[i])
			rel(arg[i]);
	free(b0);
	if (z.o)
		zoo_free(&z);
	else
		rel(tgt);
	while (nmore)
		rel(more[--nmore]);
	if (op == O_DESTROY_CB)
		vp_assert(called == 1, "the destruction callback is called once");
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	switch (vp_param("what", 0)) {
	case 0: reading(CH(Z_KINDS, "kind")); break;
	case 1: calls(); break;
	}
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
