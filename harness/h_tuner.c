#include "worlds.h"
/* P13: a random tuner keeps the successful reports and their Pareto front. */
#define MAX 4
static unsigned kind, n, dirs, mix;
static world_t  w;
static ccs_object_t tuner;
static struct { ccs_object_t e, config; int64_t a, b, f; int num, ok; } ev[MAX];
static ccs_features_t feat[MAX];

static ccs_result_t t_tell(size_t c, ccs_object_t *e)
{
	return kind == 0 ? ccs_tuner_tell((ccs_tuner_t)tuner, c, (ccs_evaluation_t *)e) :
	       kind == 1 ? ccs_features_tuner_tell((ccs_features_tuner_t)tuner, c, (ccs_features_evaluation_t *)e) :
			   ccs_tree_tuner_tell((ccs_tree_tuner_t)tuner, c, (ccs_tree_evaluation_t *)e);
}
static ccs_result_t t_optima(ccs_features_t f, size_t c, ccs_object_t *e, size_t *r)
{
	return kind == 0 ? ccs_tuner_get_optima((ccs_tuner_t)tuner, c, (ccs_evaluation_t *)e, r) :
	       kind == 1 ? ccs_features_tuner_get_optima((ccs_features_tuner_t)tuner, f, c, (ccs_features_evaluation_t *)e, r) :
			   ccs_tree_tuner_get_optima((ccs_tree_tuner_t)tuner, c, (ccs_tree_evaluation_t *)e, r);
}
static ccs_result_t t_history(ccs_features_t f, size_t c, ccs_object_t *e, size_t *r)
{
	return kind == 0 ? ccs_tuner_get_history((ccs_tuner_t)tuner, c, (ccs_evaluation_t *)e, r) :
	       kind == 1 ? ccs_features_tuner_get_history((ccs_features_tuner_t)tuner, f, c, (ccs_features_evaluation_t *)e, r) :
			   ccs_tree_tuner_get_history((ccs_tree_tuner_t)tuner, c, (ccs_tree_evaluation_t *)e, r);
}
static ccs_result_t t_suggest(ccs_features_t f, ccs_object_t *c)
{
	return kind == 0 ? ccs_tuner_suggest((ccs_tuner_t)tuner, (ccs_configuration_t *)c) :
	       kind == 1 ? ccs_features_tuner_suggest((ccs_features_tuner_t)tuner, f, (ccs_configuration_t *)c) :
			   ccs_tree_tuner_suggest((ccs_tree_tuner_t)tuner, (ccs_tree_configuration_t *)c);
}
static ccs_result_t t_ask(ccs_features_t f, size_t num, ccs_object_t *c, size_t *r)
{
	return kind == 0 ? ccs_tuner_ask((ccs_tuner_t)tuner, num, (ccs_configuration_t *)c, r) :
	       kind == 1 ? ccs_features_tuner_ask((ccs_features_tuner_t)tuner, f, num, (ccs_configuration_t *)c, r) :
			   ccs_tree_tuner_ask((ccs_tree_tuner_t)tuner, num, (ccs_tree_configuration_t *)c, r);
}
static int valid_config(ccs_object_t c)
{
	ccs_bool_t v = 0;
	if (kind == 2) {
		ccs_tree_space_t s = NULL;
		OK(ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)c, &s));
		OK(ccs_tree_configuration_check((ccs_tree_configuration_t)c, &v));
		return v == CCS_TRUE && s == w.ts;
	}
	ccs_configuration_space_t s = NULL;
	OK(ccs_configuration_get_configuration_space((ccs_configuration_t)c, &s));
	OK(ccs_configuration_check((ccs_configuration_t)c, &v));
	return v == CCS_TRUE && s == w.cs;
}
/* branch-free: report i is comparable with j and strictly better */
static int dominates(unsigned i, unsigned j)
{
	int bok = dirs ? ev[i].b >= ev[j].b : ev[i].b <= ev[j].b;
	return (ev[i].num & ev[j].num & (ev[i].f == ev[j].f)) & (ev[i].a <= ev[j].a) & bok & ((ev[i].a != ev[j].a) | (ev[i].b != ev[j].b));
}
static int equivalent(unsigned i, unsigned j)
{
	return i == j || ((ev[i].num & ev[j].num & (ev[i].f == ev[j].f)) & (ev[i].a == ev[j].a) & (ev[i].b == ev[j].b));
}
static int index_of(ccs_object_t e)
{
	for (unsigned i = 0; i < n; i++)
		if (ev[i].e == e)
			return (int)i;
	return -1;
}
static void check(ccs_features_t f, int64_t fv)
{
	ccs_object_t h[MAX + 1], o[MAX + 1];
	size_t       ch = 99, co = 99, k = 0;
	OK(t_history(f, MAX + 1, h, &ch));
	OK(t_optima(f, MAX + 1, o, &co));
	for (unsigned i = 0; i < n; i++) {
		if (!ev[i].ok || (f && ev[i].f != fv))
			continue;
		vp_assert(k < ch && h[k] == ev[i].e, "the history lists the successful reports in order");
		k++;
	}
	vp_assert(k == ch && h[ch] == NULL, "the history lists nothing else");
	vp_assert(co <= ch && o[co] == NULL, "optima are reports");
	int in[MAX] = {0}, bad = 0;
	for (size_t i = 0; i < co; i++) {
		int x = index_of(o[i]);
		vp_assert(x >= 0 && ev[x].ok && !in[x], "an optimum is a successful report, listed once");
		vp_assert(!f || ev[x].f == fv, "optima have the requested features");
		in[x] = 1;
		for (unsigned j = 0; j < n; j++)
			bad |= ev[j].ok && dominates(j, (unsigned)x);
	}
	vp_assert(!bad, "no report dominates an optimum");
	bad = 0;
	for (unsigned i = 0; i < n; i++) {
		if (!ev[i].ok || (f && ev[i].f != fv))
			continue;
		int dom = 0, rep = 0;
		for (unsigned j = 0; j < n; j++) {
			dom |= ev[j].ok && dominates(j, i);
			rep |= in[j] && equivalent(i, j);
		}
		bad |= !(dom | rep);
	}
	vp_assert(!bad, "every report that nothing dominates is represented in the optima");
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	kind = CH(3, "kind");
	n = (unsigned)vp_param("n", 3);
	mix = (unsigned)vp_param("mix", 0);
	dirs = CH(2, "dirs");
	world_open(&w, kind);
	if (kind == 2) {
		ccs_tree_t c = mk_tree(0, 2);
		OK(ccs_tree_set_child(w.tree, 0, c));
		rel(c);
	}
	ccs_parameter_t p[2] = {mk_int("x", -10, 10, 0), mk_int("y", -10, 10, 0)};
	ccs_objective_space_t os = mk_ospace("os", 2, p);
	for (int i = 0; i < 2; i++) {
		ccs_expression_t v = mk_var(p[i]), e = v;
		if (mix == 2) {
			/* an objective that cannot be evaluated on every value */
			e = mk_bin(CCS_EXPRESSION_TYPE_ADD, ccs_object(v), ccs_int(0));
			rel(v);
		}
		OK(ccs_objective_space_add_objective(os, e, i && dirs ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE));
		rel(e);
	}
	if (kind == 0)
		OK(ccs_create_random_tuner("t", w.cs, os, (ccs_tuner_t *)&tuner));
	else if (kind == 1)
		OK(ccs_create_random_features_tuner("t", w.cs, w.fs, os, (ccs_features_tuner_t *)&tuner));
	else
		OK(ccs_create_random_tree_tuner("t", w.ts, os, (ccs_tree_tuner_t *)&tuner));
	int64_t lim = 1LL << 40;
	unsigned batch = n > 1 ? CH(2, "batch") : 0;
	ccs_object_t all[MAX];
	for (unsigned i = 0; i < n; i++) {
		ev[i].a = vp_range(-lim, lim, "a");
		ev[i].b = vp_range(-lim, lim, "b");
		ev[i].num = 1;
		ccs_datum_t v[2] = {ccs_int(ev[i].a), ccs_int(ev[i].b)};
		int r = 0;
		ev[i].ok = 1;
		if (mix == 1 && vp_choice(2, "odd")) {
			v[1] = ccs_none; /* not a number: comparable with nothing */
			ev[i].num = 0;
		}
		if (mix == 2 && i == n - 1)
			v[1] = ccs_none; /* cannot be evaluated */
		if (!mix && vp_choice(2, "failed")) {
			r = vp_i32("result");
			vp_assume(r != 0);
			ev[i].ok = 0;
		}
		if (kind == 2) {
			size_t pos = i;
			OK(ccs_create_tree_configuration(w.ts, 1, &pos, (ccs_tree_configuration_t *)&ev[i].config));
		} else {
			ccs_datum_t cv = ccs_int(i);
			ev[i].config = (ccs_object_t)mk_config(w.cs, 1, &cv);
		}
		if (kind == 1) {
			ev[i].f = vp_range(0, 999, "feature");
			ccs_datum_t fv = ccs_int(ev[i].f);
			feat[i] = mk_features(w.fs, 1, &fv);
		}
		ev[i].e = all[i] = ev_new(kind, os, ev[i].config, feat[i], r, 2, v);
		if (!batch && (mix != 2 || i < n - 1))
			OK(t_tell(1, &ev[i].e));
	}
	if (mix == 2) {
		/* a report whose objectives cannot be evaluated leaves the optima alone */
		ccs_object_t o1[MAX + 1], o2[MAX + 1];
		size_t       c1 = 0, c2 = 0;
		if (batch)
			OK(t_tell(n - 1, all));
		OK(t_optima(NULL, MAX + 1, o1, &c1));
		OK(t_tell(1, &all[n - 1]));
		ccs_clear_thread_error();
		OK(t_optima(NULL, MAX + 1, o2, &c2));
		if (kind != 1) {
			vp_assert(c1 == c2, "an evaluation that cannot be compared is no optimum and removes none");
			for (size_t i = 0; i < c1; i++)
				vp_assert(o1[i] == o2[i], "an evaluation that cannot be compared leaves the optima in place");
		} else
			for (size_t i = 0; i < c1; i++) {
				int there = 0;
				for (size_t j = 0; j < c2; j++)
					there |= o1[i] == o2[j];
				vp_assert(there, "an evaluation that cannot be compared removes no optimum");
			}
	} else {
		if (batch)
			OK(t_tell(n, all));
		unsigned what = CH(3, "what");
		if (what == 0) {
			check(NULL, 0);
			if (kind == 1) {
				int64_t     f = vp_range(0, 999, "probe");
				ccs_datum_t fv = ccs_int(f);
				ccs_features_t q = mk_features(w.fs, 1, &fv);
				check(q, f);
				rel(q);
			}
		} else if (what == 1) {
			ccs_object_t c = NULL, o[MAX + 1];
			size_t       co = 0;
			int64_t      f = kind == 1 ? vp_range(0, 999, "probe") : 0;
			ccs_datum_t  fv = ccs_int(f);
			ccs_features_t q = kind == 1 ? mk_features(w.fs, 1, &fv) : NULL;
			OK(t_optima(q, MAX + 1, o, &co));
			OK(t_suggest(q, &c));
			int from = 0;
			for (size_t i = 0; i < co; i++)
				from |= c == ev[index_of(o[i])].config;
			if (co) {
				vp_reach("suggestion from the optima");
				vp_assert(from, "a suggestion is the configuration of an optimum");
			} else {
				vp_reach("suggestion without optimum");
				vp_assert(valid_config(c), "a suggestion without optimum is a configuration of the space");
			}
			rel(c);
			if (q)
				rel(q);
		} else {
			ccs_object_t c[2] = {NULL, NULL};
			size_t       r = 99;
			OK(t_ask(feat[0], 2, c, &r));
			vp_assert(r == 2 && c[0] && c[1], "ask returns what was requested");
			vp_assert(valid_config(c[0]) && valid_config(c[1]), "asked configurations are valid in the space");
			rel(c[0]);
			rel(c[1]);
			OK(t_ask(feat[0], 0, NULL, &r));
			vp_assert(r >= 1, "ask announces how many configurations it can give");
		}
	}
	/* the tuner keeps its reports alive */
	for (unsigned i = 0; i < n; i++) {
		rel(ev[i].config);
		if (feat[i])
			rel(feat[i]);
		rel(ev[i].e);
	}
	ccs_object_t h[MAX + 1];
	size_t       ch = 0;
	OK(t_history(NULL, MAX + 1, h, &ch));
	for (size_t i = 0; i < ch; i++) {
		int32_t c = 0;
		OK(ccs_object_get_refcount(h[i], &c));
		vp_assert(c == 1, "reports are kept by the tuner");
	}
	rel(tuner);
	rel(os);
	rel(p[0]);
	rel(p[1]);
	world_close(&w);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
