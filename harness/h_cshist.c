#include "cspace.h"
/* P10: accepted and refused changes of a configuration space */
static ccs_configuration_space_t S;
static ccs_parameter_t           FOREIGN, EXTRA;
static ccs_distribution_t        D0[NP], D[NP], U[2], M, M3; /* U: uniform [2,4), uniform [0,1); M: both; M3: first, second, first */
static size_t                    DI[NP];
static int                       dflt[NP]; /* the default distribution, whichever object it is */
static ccs_expression_t          ce[NP], fe[3];
static size_t                    np;
static struct at fixed_at(int v)
{
	struct at a = {v, 0, ccs_none};
	switch (v) {
	case 0: a.lt = 1; a.k = ccs_int(2); break;
	case 1: a.k = ccs_string(CAT[1]); break;
	case 2: a.lt = 1; a.k = ccs_float(0.75); break;
	default: a.k = ccs_int(3);
	}
	return a;
}
/* all tests are true of the defaults */
static struct ex pick_ex(unsigned n)
{
	struct ex e = {SH_ATOM, fixed_at(0), fixed_at(0)};
	unsigned  k = vp_choice(n, "expression");
	if (k < 4)
		e.a = fixed_at((int)k);
	else if (k == 4) {
		e.shape = SH_NOT;
		e.a     = fixed_at(0);
	} else if (k == 5) {
		e.shape = SH_OR;
		e.a     = fixed_at(3);
		e.b     = fixed_at(0);
	} else if (k == 6) {
		e.shape = SH_AND;
		e.a     = fixed_at(2);
		e.b     = fixed_at(1);
	} else if (k == 7)
		e.shape = SH_TRUE;
	else
		e.shape = 100 + (int)(k - 8); /* foreign, or own and foreign */
	return e;
}
static ccs_expression_t build(struct ex *e)
{
	if (e->shape < 100)
		return mk_ex(e);
	ccs_expression_t v = mk_var(FOREIGN), x = mk_bin(CCS_EXPRESSION_TYPE_LESS, ccs_object(v), ccs_int(2));
	rel(v);
	if (e->shape == 100)
		return x;
	struct at        a = fixed_at(1);
	ccs_expression_t o = mk_atom(&a), r = mk_bin(CCS_EXPRESSION_TYPE_OR, ccs_object(o), ccs_object(x));
	rel(o);
	rel(x);
	return r;
}
static int cyclic(void)
{
	unsigned alive = (1u << NP) - 1;
	for (int r = 0; r < NP; r++)
		for (int i = 0; i < NP; i++) {
			int dep = 0;
			for (int j = 0; j < NP; j++)
				dep |= (int)(alive >> j & 1) & uses(C + i, j);
			if (!dep)
				alive &= ~(1u << i);
		}
	return alive != 0;
}
static size_t any_index(void)
{
	unsigned k = vp_choice(NP + 1, "index");
	if (k < NP)
		return k;
	size_t i = vp_u64("far index");
	vp_assume(i >= np);
	return i;
}
static int done_(ccs_result_t r)
{
	if (r == CCS_RESULT_SUCCESS)
		return 1;
	drop_error();
	return 0;
}
static void op_condition(unsigned n)
{
	size_t           i = any_index();
	struct ex        e = pick_ex(n);
	ccs_expression_t x = build(&e);
	int              ok = i < np && C[i].shape == SH_NONE && e.shape < 100;
	if (ok) {
		C[i] = e;
		if (cyclic()) {
			ok          = 0;
			C[i].shape = SH_NONE;
			vp_reach("cycle");
		}
	}
	int r = done_(ccs_configuration_space_set_condition(S, i, x));
	vp_assert(r == ok, "a condition is accepted exactly when its parameter has none, its variables belong and no cycle appears");
	if (r)
		ce[i] = x;
	else
		vp_reach("condition refused");
	rel(x);
}
static void op_distribution(unsigned dims)
{
	unsigned           w = dims ? 1 + dims : vp_choice(3, "distribution");
	ccs_distribution_t d = w < 2 ? U[w] : w == 2 ? M : M3;
	size_t             idx[3] = {0, 0, 0}, dim = w < 2 ? 1 : w;
	int                ok = 1;
	for (size_t k = 0; k < dim; k++) {
		idx[k] = any_index();
		vp_assume(idx[k] != 2); /* an integer distribution makes no sense for a float parameter */
		ok &= idx[k] < np;
	}
	if (dim >= 2 && idx[0] == idx[1])
		ok = 0;
	if (dim == 3 && (idx[0] == idx[2] || idx[1] == idx[2]))
		ok = 0;
	int r = done_(ccs_configuration_space_set_distribution(S, d, idx));
	vp_assert(r == ok, "a distribution is accepted exactly when its positions exist and differ");
	if (!r) {
		vp_reach("distribution refused");
		return;
	}
	/* members of a replaced distribution go back to their default */
	int old[2] = {0, 0};
	for (size_t k = 0; k < dim; k++) {
		old[0] |= D[idx[k]] == M;
		old[1] |= D[idx[k]] == M3;
	}
	for (int i = 0; i < NP; i++)
		if ((old[0] && D[i] == M) || (old[1] && D[i] == M3)) {
			dflt[i] = 1;
			D[i]    = NULL;
			DI[i]   = 0;
			vp_reach("back to default");
		}
	for (size_t k = 0; k < dim; k++) {
		D[idx[k]]    = d;
		DI[idx[k]]   = k;
		dflt[idx[k]] = 0;
	}
}
static void op_clause(void)
{
	struct ex        e = pick_ex(10);
	ccs_expression_t x = build(&e);
	ccs_datum_t      v[NP];
	int              ok = e.shape < 100;
	if (ok) {
		ref_actives(DEF, v);
		ok = ref_ex(&e, v) != 1;
	}
	int r = done_(ccs_configuration_space_add_forbidden_clause(S, x));
	vp_assert(r == ok, "a clause is accepted exactly when it is about the space and does not forbid the default configuration");
	if (r) {
		F[nf]    = e;
		fe[nf++] = x;
		vp_reach("clause accepted");
	}
	rel(x);
}
static void op_parameter(void)
{
	ccs_parameter_t p = NULL;
	switch (vp_choice(4, "parameter")) {
	case 0:
		vp_assert(!done_(ccs_configuration_space_add_parameter(S, P[1], NULL)), "a parameter is added once");
		break;
	case 1:
		p = mk_int("c", 0, 5, 1);
		vp_assert(!done_(ccs_configuration_space_add_parameter(S, p, U[0])), "names are unique in a space");
		rel(p);
		break;
	case 2:
		vp_assert(!done_(ccs_configuration_space_add_parameter(S, EXTRA, M)), "a parameter has a one-dimensional distribution");
		break;
	default:
		OK(ccs_create_string_parameter("s", &p));
		vp_assert(!done_(ccs_configuration_space_add_parameter(S, p, NULL)), "a space holds no string parameter");
		rel(p);
	}
	vp_reach("parameter refused");
}
static int in_dist(int i, ccs_datum_t v)
{
	if (dflt[i] || v.type == CCS_DATA_TYPE_INACTIVE)
		return 1;
	int hi = D[i] == U[0] || ((D[i] == M || D[i] == M3) && DI[i] != 1); /* [2,4) or [0,1) */
	switch (i) {
	case 0: return hi ? (v.value.i == 2) | (v.value.i == 3) : v.value.i == 0;
	case 1: return hi ? 0 : !strcmp(v.value.s, "x");
	default: return hi ? (v.value.i == 9) | (v.value.i == 7) : v.value.i == 5;
	}
}
static void observe(int last)
{
	size_t          n = 99;
	ccs_parameter_t q[NP + 1];
	OK(ccs_configuration_space_get_parameters(S, NP + 1, q, &n));
	vp_assert(n == np && q[0] == P[0] && q[1] == P[1] && q[2] == P[2] && q[3] == P[3], "the parameters are those accepted, in order");
	for (size_t i = 0; i < NP; i++) {
		ccs_expression_t e = (ccs_expression_t)1;
		OK(ccs_configuration_space_get_condition(S, i, &e));
		vp_assert(e == ce[i], "the conditions are those accepted");
		ccs_distribution_t d = NULL;
		size_t             di = 99, dim = 0;
		OK(ccs_configuration_space_get_parameter_distribution(S, i, &d, &di));
		vp_assert(di == DI[i], "the distributions are those accepted");
		if (!dflt[i])
			vp_assert(d == D[i], "a parameter keeps the distribution it was given");
		else {
			OK(ccs_distribution_get_dimension(d, &dim));
			vp_assert(d != M && d != M3 && d != U[0] && d != U[1] && dim == 1, "a parameter without distribution has its default one");
		}
	}
	ccs_expression_t e[4];
	OK(ccs_configuration_space_get_forbidden_clauses(S, 4, e, &n));
	vp_assert(n == (size_t)nf, "as many clauses as accepted");
	for (int i = 0; i < nf; i++)
		vp_assert(e[i] == fe[i], "the clauses are those accepted");
	ccs_configuration_t c = NULL;
	ccs_datum_t         v[NP], w[NP];
	ccs_bool_t          b = 7;
	ref_actives(DEF, w);
	if (!last || vp_param("default_first", 1)) {
		OK(ccs_configuration_space_get_default_configuration(S, &c));
		get_values(c, v);
		int bad = 0;
		for (int i = 0; i < NP; i++)
			bad |= !same_datum(v[i], w[i]);
		vp_assert(!bad, "the default configuration follows the accepted settings");
		vp_assert(ref_valid(v), "the default configuration stays valid");
		rel(c);
	}
	if (!last)
		return;
	/* active values that make every test false, and what activity makes of them */
	ccs_datum_t alt[NP] = {ccs_int(3), ccs_string("x"), ccs_float(0.9), ccs_int(9)};
	ref_actives(alt, w);
	OK(ccs_configuration_space_check_configuration_values(S, NP, w, &b));
	vp_assert(b == (ref_valid(w) ? CCS_TRUE : CCS_FALSE), "checks follow the accepted settings");
	OK(ccs_configuration_space_check_configuration_values(S, NP, alt, &b));
	vp_assert(b == (ref_valid(alt) ? CCS_TRUE : CCS_FALSE), "activity checks follow the accepted settings");
	if (vp_param("sample", 0) && nf < 1) {
		for (int i = 0; i < NP; i++) /* a value outside of the domain is drawn again for ever */
			if (i == 1 && !dflt[i] && (D[i] == U[0] || ((D[i] == M || D[i] == M3) && DI[i] != 1)))
				return;
		OK(ccs_configuration_space_sample(S, &c));
		get_values(c, v);
		vp_assert(ref_valid(v), "samples follow the accepted conditions");
		int bad = 0;
		for (int i = 0; i < NP; i++)
			bad |= !in_dist(i, v[i]);
		vp_assert(!bad, "samples follow the accepted distributions");
		vp_reach("sampled");
		rel(c);
	}
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	mk_params();
	FOREIGN = mk_int("f", 0, 4, 1);
	EXTRA   = mk_int("e", 0, 4, 1);
	OK(ccs_create_uniform_int_distribution(2, 4, CCS_SCALE_TYPE_LINEAR, 0, U));
	OK(ccs_create_uniform_int_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, U + 1));
	OK(ccs_create_multivariate_distribution(2, U, &M));
	ccs_distribution_t u3[3] = {U[0], U[1], U[0]};
	OK(ccs_create_multivariate_distribution(3, u3, &M3));
	OK(ccs_create_configuration_space("s", &S));
	np = NP;
	OK(ccs_configuration_space_add_parameters(S, NP, P, NULL));
	for (size_t i = 0; i < NP; i++) {
		OK(ccs_configuration_space_get_parameter_distribution(S, i, D0 + i, DI + i));
		dflt[i] = 1;
	}
	unsigned nops = (unsigned)vp_param("ops", 2);
	for (unsigned k = 0; k < nops; k++) {
		switch (vp_param("conds", 0) ? 0 : (k == 0 ? CH(4, "op0") : CH(4, "op1"))) {
		case 0: op_condition((unsigned)vp_param("exprs", 10)); break;
		case 1: op_distribution((unsigned)(k == 0 ? vp_param("dims", 0) : vp_param("dims2", 0))); break;
		case 2: op_clause(); break;
		default: op_parameter();
		}
		if (vp_param("each", 1) || k + 1 == nops)
			observe(k + 1 == nops);
	}
	rel(S);
	rel_params();
	rel(FOREIGN);
	rel(EXTRA);
	rel(M);
	rel(M3);
	rel(U[0]);
	rel(U[1]);
	vp_assert(vp_heap_live() == live, "everything is released");
}
