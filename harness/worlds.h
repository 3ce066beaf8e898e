/* builders shared by harnesses: small spaces, configurations, evaluations of
 * the three kinds (0 plain, 1 features, 2 tree) behind one interface */
#ifndef WORLDS_H
#define WORLDS_H
#include "ccsh.h"
static inline ccs_configuration_space_t mk_cspace(const char *name, unsigned n, ccs_parameter_t *p)
{
	ccs_configuration_space_t s = NULL;
	OK(ccs_create_configuration_space(name, &s));
	if (n)
		OK(ccs_configuration_space_add_parameters(s, n, p, NULL));
	return s;
}
static inline ccs_features_space_t mk_fspace(const char *name, unsigned n, ccs_parameter_t *p)
{
	ccs_features_space_t s = NULL;
	OK(ccs_create_features_space(name, &s));
	if (n)
		OK(ccs_features_space_add_parameters(s, n, p));
	return s;
}
static inline ccs_objective_space_t mk_ospace(const char *name, unsigned n, ccs_parameter_t *p)
{
	ccs_objective_space_t s = NULL;
	OK(ccs_create_objective_space(name, &s));
	if (n)
		OK(ccs_objective_space_add_parameters(s, n, p));
	return s;
}
static inline ccs_configuration_t mk_config(ccs_configuration_space_t s, unsigned n, ccs_datum_t *v)
{
	ccs_configuration_t c = NULL;
	OK(ccs_create_configuration(s, n, v, &c));
	return c;
}
static inline ccs_features_t mk_features(ccs_features_space_t s, unsigned n, ccs_datum_t *v)
{
	ccs_features_t c = NULL;
	OK(ccs_create_features(s, n, v, &c));
	return c;
}
static inline ccs_tree_t mk_tree(size_t arity, int64_t v)
{
	ccs_tree_t t = NULL;
	OK(ccs_create_tree(arity, ccs_int(v), &t));
	return t;
}
/* evaluations */
static inline ccs_object_t ev_new(unsigned kind, ccs_objective_space_t o, ccs_object_t config, ccs_features_t f, int result, unsigned n, ccs_datum_t *v)
{
	ccs_object_t e = NULL;
	switch (kind) {
	case 0: OK(ccs_create_evaluation(o, (ccs_configuration_t)config, (ccs_evaluation_result_t)result, n, v, (ccs_evaluation_t *)&e)); break;
	case 1: OK(ccs_create_features_evaluation(o, (ccs_configuration_t)config, f, (ccs_evaluation_result_t)result, n, v, (ccs_features_evaluation_t *)&e)); break;
	default: OK(ccs_create_tree_evaluation(o, (ccs_tree_configuration_t)config, (ccs_evaluation_result_t)result, n, v, (ccs_tree_evaluation_t *)&e));
	}
	return e;
}
static inline ccs_result_t ev_compare(unsigned kind, ccs_object_t a, ccs_object_t b, ccs_comparison_t *r)
{
	return kind == 0 ? ccs_evaluation_compare((ccs_evaluation_t)a, (ccs_evaluation_t)b, r) :
	       kind == 1 ? ccs_features_evaluation_compare((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, r) :
			   ccs_tree_evaluation_compare((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, r);
}
static inline ccs_result_t ev_cmp(unsigned kind, ccs_object_t a, ccs_object_t b, int *r)
{
	return kind == 0 ? ccs_evaluation_cmp((ccs_evaluation_t)a, (ccs_evaluation_t)b, r) :
	       kind == 1 ? ccs_features_evaluation_cmp((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, r) :
			   ccs_tree_evaluation_cmp((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, r);
}
static inline ccs_result_t ev_hash(unsigned kind, ccs_object_t a, ccs_hash_t *r)
{
	return kind == 0 ? ccs_evaluation_hash((ccs_evaluation_t)a, r) :
	       kind == 1 ? ccs_features_evaluation_hash((ccs_features_evaluation_t)a, r) :
			   ccs_tree_evaluation_hash((ccs_tree_evaluation_t)a, r);
}
static inline ccs_result_t ev_objval(unsigned kind, ccs_object_t a, size_t i, ccs_datum_t *r)
{
	return kind == 0 ? ccs_evaluation_get_objective_value((ccs_evaluation_t)a, i, r) :
	       kind == 1 ? ccs_features_evaluation_get_objective_value((ccs_features_evaluation_t)a, i, r) :
			   ccs_tree_evaluation_get_objective_value((ccs_tree_evaluation_t)a, i, r);
}
static inline ccs_result_t ev_objvals(unsigned kind, ccs_object_t a, size_t n, ccs_datum_t *v, size_t *r)
{
	return kind == 0 ? ccs_evaluation_get_objective_values((ccs_evaluation_t)a, n, v, r) :
	       kind == 1 ? ccs_features_evaluation_get_objective_values((ccs_features_evaluation_t)a, n, v, r) :
			   ccs_tree_evaluation_get_objective_values((ccs_tree_evaluation_t)a, n, v, r);
}
static inline ccs_result_t ev_values(unsigned kind, ccs_object_t a, size_t n, ccs_datum_t *v, size_t *r)
{
	return kind == 0 ? ccs_evaluation_get_values((ccs_evaluation_t)a, n, v, r) :
	       kind == 1 ? ccs_features_evaluation_get_values((ccs_features_evaluation_t)a, n, v, r) :
			   ccs_tree_evaluation_get_values((ccs_tree_evaluation_t)a, n, v, r);
}
static inline ccs_result_t ev_result(unsigned kind, ccs_object_t a, ccs_evaluation_result_t *r)
{
	return kind == 0 ? ccs_evaluation_get_result((ccs_evaluation_t)a, r) :
	       kind == 1 ? ccs_features_evaluation_get_result((ccs_features_evaluation_t)a, r) :
			   ccs_tree_evaluation_get_result((ccs_tree_evaluation_t)a, r);
}
static inline ccs_result_t ev_set_result(unsigned kind, ccs_object_t a, ccs_evaluation_result_t r)
{
	return kind == 0 ? ccs_evaluation_set_result((ccs_evaluation_t)a, r) :
	       kind == 1 ? ccs_features_evaluation_set_result((ccs_features_evaluation_t)a, r) :
			   ccs_tree_evaluation_set_result((ccs_tree_evaluation_t)a, r);
}
static inline ccs_result_t ev_check(unsigned kind, ccs_object_t a, ccs_bool_t *r)
{
	return kind == 0 ? ccs_evaluation_check((ccs_evaluation_t)a, r) :
	       kind == 1 ? ccs_features_evaluation_check((ccs_features_evaluation_t)a, r) :
			   ccs_tree_evaluation_check((ccs_tree_evaluation_t)a, r);
}
/* what evaluations of a kind refer to */
typedef struct {
	ccs_parameter_t           cp, fp;
	ccs_configuration_space_t cs;
	ccs_features_space_t      fs;
	ccs_tree_t                tree;
	ccs_tree_space_t          ts;
	ccs_object_t              config;
} world_t;
static inline void world_open(world_t *w, unsigned kind)
{
	memset(w, 0, sizeof(*w));
	if (kind == 2) {
		size_t pos = 0;
		w->tree = mk_tree(2, 1);
		OK(ccs_create_static_tree_space("ts", w->tree, &w->ts));
		OK(ccs_create_tree_configuration(w->ts, 1, &pos, (ccs_tree_configuration_t *)&w->config));
		return;
	}
	ccs_datum_t v = ccs_int(3);
	w->cp = mk_int("c", 0, 10, 0);
	w->cs = mk_cspace("cs", 1, &w->cp);
	w->config = (ccs_object_t)mk_config(w->cs, 1, &v);
	if (kind == 1) {
		w->fp = mk_int("f", 0, 1000, 0);
		w->fs = mk_fspace("fs", 1, &w->fp);
	}
}
static inline void world_close(world_t *w)
{
	rel(w->config);
	if (w->ts)
		rel(w->ts);
	if (w->tree)
		rel(w->tree);
	if (w->fs)
		rel(w->fs);
	if (w->fp)
		rel(w->fp);
	if (w->cs)
		rel(w->cs);
	if (w->cp)
		rel(w->cp);
}
#endif
