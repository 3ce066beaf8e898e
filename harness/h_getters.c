#include "worlds.h"
/* P18: every getter that fills a caller array follows the same size protocol. */
enum { E_PTR, E_SIZE, E_FLT, E_DATUM, E_INT };
static ccs_object_t O;      /* the object asked */
static ccs_object_t O2;
static unsigned     K;      /* sub-kind */
typedef ccs_result_t (*getter_t)(size_t n, void *a, size_t *r);
typedef struct { getter_t g; int e; size_t count; const void *want; int second; } g_t;

static size_t esize(int e) { return e == E_DATUM ? sizeof(ccs_datum_t) : e == E_INT ? sizeof(ccs_objective_type_t) : 8; }
static int    same_elem(int e, const void *a, const void *b)
{
	if (e == E_DATUM)
		return same_datum(*(const ccs_datum_t *)a, *(const ccs_datum_t *)b);
	if (e == E_INT)
		return *(const int *)a == *(const int *)b;
	return *(const uint64_t *)a == *(const uint64_t *)b;
}
static int empty_elem(int e, const void *a)
{
	if (e == E_DATUM)
		return ((const ccs_datum_t *)a)->type == CCS_DATA_TYPE_NONE;
	if (e == E_INT)
		return 1; /* value of a missing objective's direction is not promised */
	return *(const uint64_t *)a == 0;
}
static void protocol(getter_t g, int e, size_t count, const void *want)
{
	size_t es = esize(e), r = 0x5555, n;
	OK(g(0, NULL, &r));
	vp_assert(r == count, "the exact count is reported without an array");
	ERR(g(0, NULL, NULL));
	ERR(g(1, NULL, &r));
	/* any size up to two more than needed, in an array with room behind it */
	size_t room = count + 3;
	n = (size_t)vp_range(0, (int64_t)count + 2, "size");
	unsigned char *a = malloc(room * es), *b = malloc(room * es);
	memset(a, 0x5a, room * es);
	memcpy(b, a, room * es);
	r = 0x5555;
	if (n < count) {
		vp_reach("array too small");
		ERR(g(n, a, &r));
		vp_assert(!memcmp(a, b, room * es), "an array that is too small is left untouched");
	} else {
		vp_reach("array large enough");
		int bad = 0, pad = 0, past = 0;
		if (vp_choice(2, "with count")) {
			OK(g(n, a, &r));
			vp_assert(r == count, "the exact count is reported with the array");
		} else
			OK(g(n, a, NULL));
		for (size_t i = 0; i < count; i++)
			bad |= !same_elem(e, a + i * es, (const char *)want + i * es);
		vp_assert(!bad, "the items are returned in order");
		for (size_t i = count; i < room; i++) {
			pad |= (i < n) & !empty_elem(e, a + i * es);
			past |= (i >= n) & !!memcmp(a + i * es, b + i * es, es);
		}
		vp_assert(!pad, "extra slots are emptied");
		vp_assert(!past, "nothing is written past the given size");
	}
	free(a);
	free(b);
}
/* the getters */
static ccs_result_t g_bind(size_t n, void *a, size_t *r) { return ccs_binding_get_values((ccs_binding_t)O, n, a, r); }
static ccs_result_t g_conf(size_t n, void *a, size_t *r) { return ccs_configuration_get_values((ccs_configuration_t)O, n, a, r); }
static ccs_result_t g_feat(size_t n, void *a, size_t *r) { return ccs_features_get_values((ccs_features_t)O, n, a, r); }
static ccs_result_t g_eval(size_t n, void *a, size_t *r) { return ev_values(K, O, n, a, r); }
static ccs_result_t g_objv(size_t n, void *a, size_t *r) { return ev_objvals(K, O, n, a, r); }
static ccs_result_t g_ctx(size_t n, void *a, size_t *r) { return ccs_context_get_parameters((ccs_context_t)O, n, a, r); }
static ccs_result_t g_csp(size_t n, void *a, size_t *r) { return ccs_configuration_space_get_parameters((ccs_configuration_space_t)O, n, a, r); }
static ccs_result_t g_fsp(size_t n, void *a, size_t *r) { return ccs_features_space_get_parameters((ccs_features_space_t)O, n, a, r); }
static ccs_result_t g_osp(size_t n, void *a, size_t *r) { return ccs_objective_space_get_parameters((ccs_objective_space_t)O, n, a, r); }
static ccs_result_t g_cond(size_t n, void *a, size_t *r) { return ccs_configuration_space_get_conditions((ccs_configuration_space_t)O, n, a, r); }
static ccs_result_t g_forb(size_t n, void *a, size_t *r) { return ccs_configuration_space_get_forbidden_clauses((ccs_configuration_space_t)O, n, a, r); }
static ccs_objective_type_t otypes[8];
static ccs_result_t g_obj(size_t n, void *a, size_t *r)
{
	ccs_objective_type_t *t = a ? malloc(8 * sizeof(*t)) : NULL;
	ccs_result_t e = ccs_objective_space_get_objectives((ccs_objective_space_t)O, n, a, t, r);
	if (e == 0 && a)
		for (size_t i = 0; i < 2; i++)
			vp_assert(t[i] == otypes[i], "objective directions are returned in order");
	free(t);
	return e;
}
static ccs_result_t g_area(size_t n, void *a, size_t *r) { return ccs_roulette_distribution_get_areas((ccs_distribution_t)O, n, a, r); }
static ccs_result_t g_mixd(size_t n, void *a, size_t *r) { return ccs_mixture_distribution_get_distributions((ccs_distribution_t)O, n, a, r); }
static ccs_result_t g_mixw(size_t n, void *a, size_t *r) { return ccs_mixture_distribution_get_weights((ccs_distribution_t)O, n, a, r); }
static ccs_result_t g_muld(size_t n, void *a, size_t *r) { return ccs_multivariate_distribution_get_distributions((ccs_distribution_t)O, n, a, r); }
static ccs_result_t g_node(size_t n, void *a, size_t *r) { return ccs_expression_get_nodes((ccs_expression_t)O, n, a, r); }
static ccs_result_t g_expp(size_t n, void *a, size_t *r) { return ccs_expression_get_parameters((ccs_expression_t)O, n, a, r); }
static ccs_result_t g_mapk(size_t n, void *a, size_t *r) { return ccs_map_get_keys((ccs_map_t)O, n, a, r); }
static ccs_result_t g_mapv(size_t n, void *a, size_t *r) { return ccs_map_get_values((ccs_map_t)O, n, a, r); }
static ccs_result_t g_mappk(size_t n, void *a, size_t *r)
{
	ccs_datum_t *v = a ? malloc(8 * sizeof(*v)) : NULL;
	ccs_result_t e = ccs_map_get_pairs((ccs_map_t)O, n, a, v, r);
	free(v);
	return e;
}
static ccs_result_t g_mappv(size_t n, void *a, size_t *r)
{
	ccs_datum_t *v = a ? malloc(8 * sizeof(*v)) : NULL;
	ccs_result_t e = ccs_map_get_pairs((ccs_map_t)O, n, v, a, r);
	free(v);
	return e;
}
static ccs_result_t g_cat(size_t n, void *a, size_t *r)
{
	return K == 0 ? ccs_categorical_parameter_get_values((ccs_parameter_t)O, n, a, r) : K == 1 ? ccs_ordinal_parameter_get_values((ccs_parameter_t)O, n, a, r) : ccs_discrete_parameter_get_values((ccs_parameter_t)O, n, a, r);
}
static ccs_result_t g_kids(size_t n, void *a, size_t *r) { return ccs_tree_get_children((ccs_tree_t)O, n, a, r); }
static ccs_result_t g_tpos(size_t n, void *a, size_t *r) { return ccs_tree_get_position((ccs_tree_t)O, n, a, r); }
static ccs_result_t g_tval(size_t n, void *a, size_t *r) { return ccs_tree_get_values((ccs_tree_t)O, n, a, r); }
static ccs_result_t g_tcp(size_t n, void *a, size_t *r) { return ccs_tree_configuration_get_position((ccs_tree_configuration_t)O, n, a, r); }
static ccs_result_t g_tcv(size_t n, void *a, size_t *r) { return ccs_tree_configuration_get_values((ccs_tree_configuration_t)O, n, a, r); }
static ccs_result_t g_opt(size_t n, void *a, size_t *r)
{
	return K == 0 ? ccs_tuner_get_optima((ccs_tuner_t)O, n, a, r) : K == 1 ? ccs_features_tuner_get_optima((ccs_features_tuner_t)O, (ccs_features_t)O2, n, a, r) : ccs_tree_tuner_get_optima((ccs_tree_tuner_t)O, n, a, r);
}
static ccs_result_t g_hist(size_t n, void *a, size_t *r)
{
	return K == 0 ? ccs_tuner_get_history((ccs_tuner_t)O, n, a, r) : K == 1 ? ccs_features_tuner_get_history((ccs_features_tuner_t)O, (ccs_features_t)O2, n, a, r) : ccs_tree_tuner_get_history((ccs_tree_tuner_t)O, n, a, r);
}

void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t  live = vp_heap_live();
	unsigned topic = CH(8, "topic");
	ccs_parameter_t p[3];
	for (unsigned i = 0; i < 3; i++)
		p[i] = mk_int(i == 0 ? "a" : i == 1 ? "b" : "c", -10, 10, 0);
	ccs_datum_t v[3] = {ccs_int(vp_range(-10, 9, "v")), ccs_int(vp_range(-10, 9, "v")), ccs_int(vp_range(-10, 9, "v"))};
	switch (topic) {
	case 0: { /* values and parameters of configurations and features */
		unsigned m = vp_choice(3, "parameters");
		ccs_configuration_space_t cs = mk_cspace("cs", m, p);
		ccs_features_space_t fs = mk_fspace("fs", m, p);
		ccs_configuration_t c = mk_config(cs, m, m ? v : NULL);
		ccs_features_t f = mk_features(fs, m, m ? v : NULL);
		switch (vp_choice(6, "getter")) {
		case 0: O = (ccs_object_t)c; protocol(g_conf, E_DATUM, m, v); break;
		case 1: O = (ccs_object_t)c; protocol(g_bind, E_DATUM, m, v); break;
		case 2: O = (ccs_object_t)f; protocol(g_feat, E_DATUM, m, v); break;
		case 3: O = (ccs_object_t)cs; protocol(g_csp, E_PTR, m, p); break;
		case 4: O = (ccs_object_t)cs; protocol(g_ctx, E_PTR, m, p); break;
		default: O = (ccs_object_t)fs; protocol(g_fsp, E_PTR, m, p);
		}
		rel(c); rel(f); rel(cs); rel(fs);
		break;
	}
	case 1: { /* evaluations and objectives */
		world_t w;
		K = CH(3, "kind");
		world_open(&w, K);
		ccs_objective_space_t os = mk_ospace("os", 3, p);
		ccs_expression_t e[2] = {mk_var(p[2]), mk_var(p[0])};
		otypes[0] = CCS_OBJECTIVE_TYPE_MINIMIZE;
		otypes[1] = CCS_OBJECTIVE_TYPE_MAXIMIZE;
		OK(ccs_objective_space_add_objectives(os, 2, e, otypes));
		ccs_datum_t fv = ccs_int(3), ov[2] = {v[2], v[0]};
		ccs_features_t f = K == 1 ? mk_features(w.fs, 1, &fv) : NULL;
		ccs_object_t ev = ev_new(K, os, w.config, f, 0, 3, v);
		switch (vp_choice(5, "getter")) {
		case 0: O = ev; protocol(g_eval, E_DATUM, 3, v); break;
		case 1: O = ev; protocol(g_objv, E_DATUM, 2, ov); break;
		case 2: O = ev; protocol(g_bind, E_DATUM, 3, v); break;
		case 3: O = (ccs_object_t)os; protocol(g_osp, E_PTR, 3, p); break;
		default: O = (ccs_object_t)os; protocol(g_obj, E_PTR, 2, e);
		}
		rel(ev);
		if (f) rel(f);
		rel(e[0]); rel(e[1]); rel(os);
		world_close(&w);
		break;
	}
	case 2: { /* conditions and clauses, expressions */
		ccs_configuration_space_t cs = mk_cspace("cs", 3, p);
		ccs_expression_t va = mk_var(p[0]), vb = mk_var(p[1]);
		ccs_expression_t e = mk_bin(CCS_EXPRESSION_TYPE_LESS, ccs_object(va), ccs_object(vb)), e2 = mk_bin(CCS_EXPRESSION_TYPE_GREATER, ccs_object(vb), ccs_object(va)), e3 = mk_bin(CCS_EXPRESSION_TYPE_GREATER, ccs_object(vb), ccs_int(5));
		ccs_expression_t cond[3] = {NULL, NULL, e}, cl[2] = {e2, e3}, nodes[2] = {va, vb};
		ccs_parameter_t ps[2] = {p[0], p[1]};
		if (ps[0] > ps[1]) { ps[0] = p[1]; ps[1] = p[0]; } /* a set: told apart below */
		OK(ccs_configuration_space_set_condition(cs, 2, e));
		unsigned two = vp_choice(3, "clauses");
		if (two)
			OK(ccs_configuration_space_add_forbidden_clauses(cs, two, cl));
		switch (vp_choice(4, "getter")) {
		case 0: O = (ccs_object_t)cs; protocol(g_cond, E_PTR, 3, cond); break;
		case 1: O = (ccs_object_t)cs; protocol(g_forb, E_PTR, two, cl); break;
		case 2: O = (ccs_object_t)e; protocol(g_node, E_PTR, 2, nodes); break;
		default: {
			size_t r = 0;
			ccs_parameter_t got[2] = {NULL, NULL};
			OK(ccs_expression_get_parameters(e, 2, got, &r));
			vp_assert((got[0] == p[0] && got[1] == p[1]) || (got[0] == p[1] && got[1] == p[0]), "the parameters of an expression are listed once each");
			O = (ccs_object_t)e;
			protocol(g_expp, E_PTR, 2, got);
		}
		}
		rel(cs); rel(e); rel(e2); rel(e3); rel(va); rel(vb);
		break;
	}
	case 3: { /* distributions */
		ccs_float_t a[2] = {1., 3.}, wn[2] = {0.25, 0.75};
		ccs_distribution_t d[2], r = NULL, m = NULL, mu = NULL;
		OK(ccs_create_uniform_int_distribution(0, 10, CCS_SCALE_TYPE_LINEAR, 0, d));
		OK(ccs_create_normal_int_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, d + 1));
		OK(ccs_create_roulette_distribution(2, a, &r));
		OK(ccs_create_mixture_distribution(2, d, a, &m));
		OK(ccs_create_multivariate_distribution(2, d, &mu));
		switch (vp_choice(4, "getter")) {
		case 0: O = (ccs_object_t)r; protocol(g_area, E_FLT, 2, wn); break;
		case 1: O = (ccs_object_t)m; protocol(g_mixd, E_PTR, 2, d); break;
		case 2: O = (ccs_object_t)m; protocol(g_mixw, E_FLT, 2, wn); break;
		default: O = (ccs_object_t)mu; protocol(g_muld, E_PTR, 2, d);
		}
		rel(m); rel(mu); rel(r); rel(d[0]); rel(d[1]);
		break;
	}
	case 4: { /* maps */
		ccs_map_t m = NULL;
		OK(ccs_create_map(&m));
		unsigned k = vp_choice(3, "entries");
		ccs_datum_t keys[2] = {ccs_int(vp_i64("key")), ccs_float(vp_num("key"))};
		for (unsigned i = 0; i < k; i++)
			OK(ccs_map_set(m, keys[i], v[i]));
		O = (ccs_object_t)m;
		switch (vp_choice(4, "getter")) {
		case 0: protocol(g_mapk, E_DATUM, k, keys); break;
		case 1: protocol(g_mapv, E_DATUM, k, v); break;
		case 2: protocol(g_mappk, E_DATUM, k, keys); break;
		default: protocol(g_mappv, E_DATUM, k, v);
		}
		rel(m);
		break;
	}
	case 5: { /* possible values */
		ccs_parameter_t q = NULL;
		ccs_datum_t pv[2] = {ccs_int(vp_i64("value")), ccs_int(vp_i64("value"))};
		vp_assume(pv[0].value.i < pv[1].value.i);
		K = CH(3, "kind");
		unsigned k = 1 + vp_choice(2, "values");
		if (K == 0)
			OK(ccs_create_categorical_parameter("q", k, pv, 0, &q));
		else if (K == 1)
			OK(ccs_create_ordinal_parameter("q", k, pv, 0, &q));
		else
			OK(ccs_create_discrete_parameter("q", k, pv, 0, &q));
		O = (ccs_object_t)q;
		protocol(g_cat, E_DATUM, k, pv);
		rel(q);
		break;
	}
	case 6: { /* trees */
		ccs_tree_t root = mk_tree(2, 10), a = mk_tree(1, 20), b = mk_tree(0, 30);
		ccs_tree_space_t ts = NULL;
		ccs_tree_configuration_t c = NULL;
		size_t pos[2] = {1, 0};
		ccs_datum_t vals[3] = {ccs_int(10), ccs_int(20), ccs_int(30)};
		ccs_tree_t kids[2] = {NULL, a};
		OK(ccs_tree_set_child(root, 1, a));
		OK(ccs_tree_set_child(a, 0, b));
		OK(ccs_create_static_tree_space("ts", root, &ts));
		unsigned depth = vp_choice(3, "depth");
		OK(ccs_create_tree_configuration(ts, depth, depth ? pos : NULL, &c));
		ccs_tree_t node = depth == 0 ? root : depth == 1 ? a : b;
		switch (vp_choice(6, "getter")) {
		case 0: O = (ccs_object_t)node; protocol(g_tpos, E_SIZE, depth, pos); break;
		case 1: O = (ccs_object_t)node; protocol(g_tval, E_DATUM, depth + 1, vals); break;
		case 2: O = (ccs_object_t)root; protocol(g_kids, E_PTR, 2, kids); break;
		case 3: O = (ccs_object_t)c; protocol(g_tcp, E_SIZE, depth, pos); break;
		case 4: O = (ccs_object_t)c; protocol(g_tcv, E_DATUM, depth + 1, vals); break;
		default: { /* values at a position: the array must hold them all */
			unsigned n = vp_choice(6, "size");
			ccs_datum_t *x = malloc(n * sizeof(*x) + 1);
			int bad = 0;
			if (n < depth + 1) {
				ERR(ccs_tree_get_values_at_position(root, depth, pos, n, x));
				ERR(ccs_tree_space_get_values_at_position(ts, depth, pos, n, x));
			} else {
				for (int way = 0; way < 2; way++) {
					memset(x, 0x5a, n * sizeof(*x) + 1);
					OK(way ? ccs_tree_get_values_at_position(root, depth, pos, n, x) : ccs_tree_space_get_values_at_position(ts, depth, pos, n, x));
					for (unsigned i = 0; i < n; i++)
						bad |= !same_datum(x[i], i <= depth ? vals[i] : ccs_none);
				}
				vp_assert(!bad, "values at a position are returned in order, extra slots are emptied");
			}
			free(x);
		}
		}
		rel(c); rel(ts); rel(root); rel(a); rel(b);
		break;
	}
	default: { /* tuners */
		world_t w;
		K = CH(3, "kind");
		world_open(&w, K);
		ccs_objective_space_t os = mk_ospace("os", 1, p);
		ccs_expression_t e = mk_var(p[0]);
		OK(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE));
		ccs_datum_t fv = ccs_int(3), fv2 = ccs_int(4), x[2] = {ccs_int(3), ccs_int(2)};
		ccs_features_t f = K == 1 ? mk_features(w.fs, 1, &fv) : NULL, f2 = K == 1 ? mk_features(w.fs, 1, &fv2) : NULL;
		ccs_object_t ev[3] = {ev_new(K, os, w.config, f, 0, 1, x), ev_new(K, os, w.config, f, 0, 1, x + 1), NULL};
		ccs_object_t t = NULL;
		unsigned none = vp_choice(2, "no reports");
		if (K == 0) {
			OK(ccs_create_random_tuner("t", w.cs, os, (ccs_tuner_t *)&t));
			if (!none) OK(ccs_tuner_tell((ccs_tuner_t)t, 2, (ccs_evaluation_t *)ev));
		} else if (K == 1) {
			OK(ccs_create_random_features_tuner("t", w.cs, w.fs, os, (ccs_features_tuner_t *)&t));
			if (!none) OK(ccs_features_tuner_tell((ccs_features_tuner_t)t, 2, (ccs_features_evaluation_t *)ev));
			unsigned q = vp_choice(3, "features");
			O2 = q == 0 ? NULL : (ccs_object_t)(q == 1 ? f : f2);
			none |= q == 2;
		} else {
			OK(ccs_create_random_tree_tuner("t", w.ts, os, (ccs_tree_tuner_t *)&t));
			if (!none) OK(ccs_tree_tuner_tell((ccs_tree_tuner_t)t, 2, (ccs_tree_evaluation_t *)ev));
		}
		O = t;
		if (vp_choice(2, "getter"))
			protocol(g_opt, E_PTR, none ? 0 : 1, ev + 1);
		else
			protocol(g_hist, E_PTR, none ? 0 : 2, ev);
		rel(t);
		rel(ev[0]); rel(ev[1]);
		if (f) { rel(f); rel(f2); }
		rel(e); rel(os);
		world_close(&w);
	}
	}
	for (unsigned i = 0; i < 3; i++)
		rel(p[i]);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
