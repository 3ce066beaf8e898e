#include "cspace.h"
/* P08, P09: validity, defaults, samples and clauses of a configuration space */
static ccs_configuration_space_t S;
/* dependency templates: for each parameter up to two it depends on (-1: none) */
static const signed char TPL[][NP][2] = {
	{{-1, -1}, {0, -1}, {1, -1}, {2, -1}},  /* chain in declaration order */
	{{1, -1}, {2, -1}, {3, -1}, {-1, -1}},  /* chain against it */
	{{3, 1}, {2, -1}, {-1, -1}, {2, -1}},   /* diamond */
	{{-1, -1}, {-1, -1}, {0, 1}, {0, 2}},   /* overlapping */
};
static void condition(int i)
{
	if (C[i].shape == SH_NONE)
		return;
	ccs_expression_t e = mk_ex(C + i), g = NULL;
	OK(ccs_configuration_space_set_condition(S, (size_t)i, e));
	OK(ccs_configuration_space_get_condition(S, (size_t)i, &g));
	vp_assert(g == e, "a condition is kept");
	rel(e);
}
static void mk_space(unsigned t)
{
	mk_params();
	OK(ccs_create_configuration_space("s", &S));
	for (int i = 0; i < NP; i++) {
		const signed char *d = TPL[t][i];
		C[i].shape = SH_NONE;
		if (d[0] < 0)
			continue;
		C[i].a = sym_at(d[0]);
		if (d[1] >= 0) {
			C[i].b     = sym_at(d[1]);
			C[i].shape = CH(2, "and") ? SH_AND : SH_OR;
		} else
			C[i].shape = CH(2, "not") ? SH_NOT : SH_ATOM;
	}
	/* 0: in order, 1: in reverse order, 2: as soon as the parameters are there */
	unsigned rev = CH(3, "reverse");
	if (rev == 2) {
		int set[NP] = {0, 0, 0, 0};
		for (int k = 0; k < NP; k++) {
			OK(ccs_configuration_space_add_parameter(S, P[k], NULL));
			for (int i = 0; i <= k; i++)
				if (!set[i] && TPL[t][i][0] <= k && TPL[t][i][1] <= k) {
					condition(i);
					set[i] = 1;
				}
		}
		return;
	}
	OK(ccs_configuration_space_add_parameters(S, NP, P, NULL));
	for (int j = 0; j < NP; j++)
		condition(rev ? NP - 1 - j : j);
}
/* tries to add a clause; returns whether it was accepted */
static int add_clause(struct ex *e)
{
	ccs_expression_t    x = mk_ex(e);
	ccs_datum_t         v[NP];
	size_t              before = 9, after = 9;
	OK(ccs_configuration_space_get_forbidden_clauses(S, 0, NULL, &before));
	ref_actives(DEF, v);
	int          bad = ref_ex(e, v) == 1;
	ccs_result_t r   = ccs_configuration_space_add_forbidden_clause(S, x);
	if (r != CCS_RESULT_SUCCESS)
		drop_error();
	vp_assert((r != CCS_RESULT_SUCCESS) == bad, "a clause is refused exactly when it forbids the default configuration");
	OK(ccs_configuration_space_get_forbidden_clauses(S, 0, NULL, &after));
	vp_assert(before == (size_t)nf && after == before + !bad, "only accepted clauses are added");
	if (!bad) {
		ccs_expression_t y = NULL;
		OK(ccs_configuration_space_get_forbidden_clause(S, before, &y));
		vp_assert(y == x, "an accepted clause is kept");
		F[nf++] = *e;
	} else
		vp_reach("clause refused");
	rel(x);
	return !bad;
}
static struct ex pick_clause(void)
{
	static const signed char pv[][2] = {{0, -1}, {1, -1}, {3, -1}, {0, 1}, {2, 3}, {1, 2}};
	struct ex e;
	unsigned  k = CH(6, "clause");
	e.a = sym_at(pv[k][0]);
	if (pv[k][1] >= 0) {
		e.b     = sym_at(pv[k][1]);
		e.shape = CH(2, "and") ? SH_AND : SH_OR;
	} else
		e.shape = CH(2, "not") ? SH_NOT : SH_ATOM;
	return e;
}
static void done(void)
{
	rel(S);
	rel_params();
}
static ccs_datum_t any_value(int i)
{
	switch (vp_choice((unsigned)vp_param("kinds", 3), "kind")) {
	case 0: return ccs_inactive;
	case 1:
		switch (i) {
		case 0: return ccs_int(vp_i64("va"));
		case 1: return ccs_string(CAT[vp_choice(2, "vb")]);
		case 2: return ccs_float(vp_num("vc"));
		default: return ccs_int(vp_i64("vd"));
		}
	default: return i == 2 ? ccs_int(0) : i == 1 ? ccs_string("w") : i ? ccs_none : ccs_float(1.);
	}
}
/* any values against the reference */
static void check_values(void)
{
	ccs_datum_t v[NP];
	ccs_bool_t  b = 7, b2 = 7;
	mk_space(CH(4, "tpl"));
	if (!vp_param("noclause", 0))
		add_clause((struct ex[1]){pick_clause()});
	for (int i = 0; i < NP; i++)
		v[i] = any_value(i);
	ccs_result_t r = ccs_configuration_space_check_configuration_values(S, NP, v, &b);
	if (r != CCS_RESULT_SUCCESS)
		drop_error();
	int wrong = 0, acc = r == CCS_RESULT_SUCCESS && b == CCS_TRUE, want;
	for (int i = 0; i < NP; i++) {
		int w = v[i].type != CCS_DATA_TYPE_INACTIVE && !domain(i, v[i]);
		wrong |= w;
	}
	want = wrong ? 0 : ref_valid(v);
	vp_assert(acc == want, "values are accepted exactly when activity, domains and clauses are respected");
	if (!wrong)
		vp_assert(r == CCS_RESULT_SUCCESS && (b == CCS_TRUE || b == CCS_FALSE), "checking values of the domains never fails");
	if (want)
		vp_reach("accepted");
	else
		vp_reach("rejected");
	ccs_configuration_t c = NULL;
	r = ccs_create_configuration(S, NP, v, &c);
	if (r == CCS_RESULT_SUCCESS) {
		r = ccs_configuration_space_check_configuration(S, c, &b2);
		if (r != CCS_RESULT_SUCCESS)
			drop_error();
		vp_assert((r == CCS_RESULT_SUCCESS && b2 == CCS_TRUE) == want, "a configuration is accepted exactly when its values are");
		b2 = 7;
		r  = ccs_configuration_check(c, &b2);
		if (r != CCS_RESULT_SUCCESS)
			drop_error();
		vp_assert((r == CCS_RESULT_SUCCESS && b2 == CCS_TRUE) == want, "a configuration checks itself like its space does");
		rel(c);
	} else {
		// vp_opt: a configuration can hold any values of the domains
		drop_error();
		vp_assert(wrong, "a configuration can hold any values of the domains");
	}
	size_t n = CH(2, "fewer") ? NP - 1 : NP + 1;
	ccs_datum_t w[NP + 1];
	for (int i = 0; i < NP; i++)
		w[i] = v[i];
	w[NP] = ccs_inactive;
	ERR(ccs_configuration_space_check_configuration_values(S, n, w, &b));
	done();
}
static void defaults(void)
{
	ccs_configuration_t c = NULL;
	ccs_datum_t         v[NP], w[NP];
	ccs_bool_t          b = 7;
	int                 early = (int)CH(2, "early");
	unsigned            t = CH(4, "tpl");
	mk_space(t);
	(void)early;
	for (int k = 0; k < (int)vp_param("nclauses", 1); k++)
		add_clause((struct ex[1]){pick_clause()});
	OK(ccs_configuration_space_get_default_configuration(S, &c));
	get_values(c, v);
	ref_actives(DEF, w);
	int bad = 0;
	for (int i = 0; i < NP; i++)
		bad |= !same_datum(v[i], w[i]);
	vp_assert(!bad, "the default configuration holds the defaults of the active parameters");
	vp_assert(ref_valid(v), "the default configuration is valid");
	OK(ccs_configuration_space_check_configuration(S, c, &b));
	vp_assert(b == CCS_TRUE, "the default configuration passes the check");
	rel(c);
	done();
	vp_reach("defaults");
}
static int accepted_clause;
static void sampled(ccs_configuration_t c)
{
	ccs_datum_t v[NP];
	ccs_bool_t  b = 7;
	get_values(c, v);
	vp_assert(ref_valid(v), "a sampled configuration respects activity, domains and clauses");
	OK(ccs_configuration_space_check_configuration(S, c, &b));
	vp_assert(b == CCS_TRUE, "a sampled configuration passes the check");
	(void)accepted_clause;
}
static void sample(void)
{
	ccs_configuration_t c[3] = {NULL, NULL, NULL};
	unsigned            n = (unsigned)vp_param("n", 0);
	mk_space(CH(4, "tpl"));
	if (!vp_param("noclause", 0))
		add_clause((struct ex[1]){pick_clause()});
	vp_draw_limit = (unsigned)vp_param("draws", 8);
	if (!n) {
		OK(ccs_configuration_space_sample(S, c));
		sampled(c[0]);
		rel(c[0]);
	} else {
		OK(ccs_configuration_space_samples(S, n, c));
		for (unsigned i = 0; i < n; i++) {
			vp_assert(c[i] != NULL, "as many samples as asked");
			sampled(c[i]);
			rel(c[i]);
		}
		vp_assert(c[n] == NULL, "no more samples than asked");
	}
	done();
	vp_reach("sampled");
}
/* a distribution whose every value is forbidden: sampling gives up */
static void exhausted(void)
{
	ccs_configuration_t c[3] = {NULL, NULL, NULL};
	ccs_distribution_t  d = NULL;
	mk_params();
	OK(ccs_create_configuration_space("s", &S));
	OK(ccs_create_uniform_int_distribution(2, 4, CCS_SCALE_TYPE_LINEAR, 0, &d));
	OK(ccs_configuration_space_add_parameter(S, P[0], d));
	struct ex e;
	e.shape = SH_NOT;
	e.a.v   = 0;
	e.a.lt  = 1;
	e.a.k   = ccs_int(2);
	ccs_expression_t x = mk_ex(&e);
	unsigned         m = CH(4, "mode");
	if (m < 3)
		OK(ccs_configuration_space_add_forbidden_clause(S, x));
	rel(x);
	if (m == 0) {
		ERR(ccs_configuration_space_sample(S, c));
		vp_assert(c[0] == NULL, "no configuration when sampling gives up");
	} else if (m == 1) {
		ERR(ccs_configuration_space_samples(S, 2, c));
		vp_assert(c[0] == NULL && c[1] == NULL, "no configurations when sampling gives up");
	} else if (m == 2) {
		OK(ccs_configuration_space_samples(S, 0, NULL));
	} else {
		/* a condition that cannot be evaluated */
		ccs_expression_t v = mk_var(P[0]), bad = NULL;
		OK(ccs_create_unary_expression(CCS_EXPRESSION_TYPE_NOT, ccs_object(v), &bad));
		rel(v);
		OK(ccs_configuration_space_add_parameter(S, P[3], NULL));
		OK(ccs_configuration_space_set_condition(S, 1, bad));
		rel(bad);
		ERR(ccs_configuration_space_sample(S, c));
		ERR(ccs_configuration_space_samples(S, 2, c));
		vp_assert(c[0] == NULL && c[1] == NULL, "no configurations when sampling fails");
		ERR(ccs_configuration_space_get_default_configuration(S, c));
		vp_assert(c[0] == NULL, "no default configuration when a condition fails");
	}
	rel(d);
	done();
	vp_reach("exhausted");
}
/* clauses that do not belong */
static void foreign(void)
{
	ccs_parameter_t  p = mk_int(CH(2, "same name") ? "a" : "other", 0, 4, 1);
	mk_space(0);
	ccs_expression_t v = mk_var(p), e = mk_bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(v), ccs_int(3)), e2;
	size_t           n = 9;
	struct at        a = {0, 0, ccs_int(3)};
	ccs_expression_t own = mk_atom(&a);
	e2 = mk_bin(CCS_EXPRESSION_TYPE_OR, ccs_object(own), ccs_object(e));
	ERR(ccs_configuration_space_add_forbidden_clause(S, e));
	ERR(ccs_configuration_space_add_forbidden_clause(S, e2));
	OK(ccs_configuration_space_get_forbidden_clauses(S, 0, NULL, &n));
	vp_assert(n == 0, "clauses over foreign parameters are refused");
	rel(own);
	rel(e);
	rel(e2);
	rel(v);
	rel(p);
	done();
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	switch (CH(5, "what")) {
	case 0: check_values(); break;
	case 1: defaults(); break;
	case 2: sample(); break;
	case 3: exhausted(); break;
	default: foreign();
	}
	vp_assert(vp_heap_live() == live, "everything is released");
}
