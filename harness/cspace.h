/* spaces with conditions and clauses, and a reference for them */
#ifndef CSPACE_H
#define CSPACE_H
#include "ccsh.h"
#define NP 4
struct at { int v, lt; ccs_datum_t k; };
enum { SH_NONE, SH_ATOM, SH_NOT, SH_OR, SH_AND, SH_TRUE };
struct ex { int shape; struct at a, b; };
static ccs_parameter_t P[NP];
static ccs_datum_t     DEF[NP];
static const char *const CAT[2] = {"x", "y"};
/* a: int in [0,4), default 1; b: categorical x, y, default y; c: float in [0,1), default 0.5; d: ordinal 5, 3, 9, 7, default 3 */
static void mk_params(void)
{
	P[0] = mk_int("a", 0, 4, 1);
	OK(ccs_create_categorical_parameter("b", 2, (ccs_datum_t[2]){ccs_string(CAT[0]), ccs_string(CAT[1])}, 1, P + 1));
	P[2] = mk_flt("c", 0., 1., 0.5);
	OK(ccs_create_ordinal_parameter("d", 4, (ccs_datum_t[4]){ccs_int(5), ccs_int(3), ccs_int(9), ccs_int(7)}, 1, P + 3));
	DEF[0] = ccs_int(1);
	DEF[1] = ccs_string(CAT[1]);
	DEF[2] = ccs_float(0.5);
	DEF[3] = ccs_int(3);
}
static void rel_params(void)
{
	for (int i = 0; i < NP; i++)
		rel(P[i]);
}
static int rank_of(int64_t x) { return x == 5 ? 0 : x == 3 ? 1 : x == 9 ? 2 : 3; }
static int domain(int i, ccs_datum_t d)
{
	switch (i) {
	case 0: return d.type == CCS_DATA_TYPE_INT && ((d.value.i >= 0) & (d.value.i < 4));
	case 1: return d.type == CCS_DATA_TYPE_STRING && (!strcmp(d.value.s, "x") || !strcmp(d.value.s, "y"));
	case 2: return d.type == CCS_DATA_TYPE_FLOAT && ((d.value.f >= 0.) & (d.value.f < 1.));
	default: return d.type == CCS_DATA_TYPE_INT && ((d.value.i == 5) | (d.value.i == 3) | (d.value.i == 9) | (d.value.i == 7));
	}
}
/* 0 false, 1 true, 2 inactive */
static int ref_atom(struct at *a, ccs_datum_t *v)
{
	ccs_datum_t d = v[a->v];
	if (d.type == CCS_DATA_TYPE_INACTIVE)
		return 2;
	switch (a->v) {
	case 0: return a->lt ? d.value.i < a->k.value.i : d.value.i == a->k.value.i;
	case 1: return !strcmp(d.value.s, a->k.value.s);
	case 2: return a->lt ? d.value.f < a->k.value.f : d.value.f == a->k.value.f;
	default: return a->lt ? rank_of(d.value.i) < rank_of(a->k.value.i) : d.value.i == a->k.value.i;
	}
}
static int ref_ex(struct ex *e, ccs_datum_t *v)
{
	int a, b;
	switch (e->shape) {
	case SH_NONE:
	case SH_TRUE: return 1;
	case SH_ATOM: return ref_atom(&e->a, v);
	case SH_NOT: a = ref_atom(&e->a, v); return a == 2 ? 2 : !a;
	case SH_OR:
		a = ref_atom(&e->a, v);
		b = ref_atom(&e->b, v);
		return a == 1 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0;
	default:
		a = ref_atom(&e->a, v);
		b = ref_atom(&e->b, v);
		return a == 2 || b == 2 ? 2 : a & b;
	}
}
static int uses(struct ex *e, int v)
{
	return e->shape != SH_NONE && e->shape != SH_TRUE && (e->a.v == v || ((e->shape == SH_OR || e->shape == SH_AND) && e->b.v == v));
}
static ccs_expression_t mk_atom(struct at *a)
{
	ccs_expression_t v = mk_var(P[a->v]), e;
	e = mk_bin(a->lt ? CCS_EXPRESSION_TYPE_LESS : CCS_EXPRESSION_TYPE_EQUAL, ccs_object(v), a->k);
	rel(v);
	return e;
}
static ccs_expression_t mk_ex(struct ex *e)
{
	ccs_expression_t a, b, r = NULL;
	if (e->shape == SH_TRUE) {
		OK(ccs_create_literal(ccs_true, &r));
		return r;
	}
	a = mk_atom(&e->a);
	if (e->shape == SH_ATOM)
		return a;
	if (e->shape == SH_NOT) {
		OK(ccs_create_unary_expression(CCS_EXPRESSION_TYPE_NOT, ccs_object(a), &r));
	} else {
		b = mk_atom(&e->b);
		r = mk_bin(e->shape == SH_OR ? CCS_EXPRESSION_TYPE_OR : CCS_EXPRESSION_TYPE_AND, ccs_object(a), ccs_object(b));
		rel(b);
	}
	rel(a);
	return r;
}
/* a test of parameter v against a constant: symbolic for numbers, chosen for the others */
static struct at sym_at(int v)
{
	struct at a = {v, 0, ccs_none};
	switch (v) {
	case 0:
		a.lt = (int)CH(2, "lt");
		a.k  = ccs_int(vp_i64("k"));
		break;
	case 1: a.k = ccs_string(CAT[CH(2, "kcat")]); break;
	case 2:
		a.lt = 1;
		a.k  = ccs_float(vp_param("kfsym", 0) ? vp_num("kf") : CH(2, "kf") ? 0.75 : 0.25);
		break;
	default:
		a.lt = (int)CH(2, "lt");
		a.k  = ccs_int(CH(2, "kord") ? 9 : 3);
	}
	return a;
}
/* clauses and conditions of a space */
static struct ex C[NP], F[2];
static int       nf;
static int ref_valid(ccs_datum_t *v)
{
	for (int i = 0; i < NP; i++) {
		int act = ref_ex(C + i, v) == 1;
		if (v[i].type == CCS_DATA_TYPE_INACTIVE) {
			if (act)
				return 0;
		} else if (!act || !domain(i, v[i]))
			return 0;
	}
	for (int i = 0; i < nf; i++)
		if (ref_ex(F + i, v) == 1)
			return 0;
	return 1;
}
/* what activity makes of raw values */
static void ref_actives(ccs_datum_t *raw, ccs_datum_t *v)
{
	ccs_datum_t n[NP];
	for (int i = 0; i < NP; i++)
		v[i] = raw[i];
	for (int r = 0; r < NP; r++) {
		for (int i = 0; i < NP; i++)
			n[i] = ref_ex(C + i, v) == 1 ? raw[i] : ccs_inactive;
		for (int i = 0; i < NP; i++)
			v[i] = n[i];
	}
}
static void get_values(ccs_configuration_t c, ccs_datum_t *v)
{
	size_t n = 0;
	OK(ccs_binding_get_values((ccs_binding_t)c, NP, v, &n));
	vp_assert(n == NP, "a configuration has one value per parameter");
}
#endif
