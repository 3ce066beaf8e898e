#include "exprref.h"
/* P07: nested expressions, shared sub-expressions, contexts and the parameters of an expression */
#define BIN(op) ((op) < 13 || (op) == CCS_EXPRESSION_TYPE_IN)
#define VOID ((struct opnd){0, -1, ccs_none, ccs_none})
/* any integer, or one of few */
static int64_t whole(const char *name)
{
	if (vp_param("few", 0)) {
		static const int64_t t[3] = {7, 0, INT64_MIN};
		return t[vp_choice(3, name)];
	}
	return vp_i64(name);
}
/* a leaf: an integer, a boolean, a numerical variable (any integer or inactive) or an ordinal one (one of its values) */
static struct opnd leaf(unsigned kinds, const char *name)
{
	struct opnd o = {0, -1, ccs_none, ccs_none};
	unsigned    k = vp_choice(kinds, name);
	switch (k) {
	case 0: o.v = o.node = ccs_int(whole("int")); break;
	case 1: o.v = o.node = bd(vp_choice(2, "bool")); break;
	case 2: o.v = o.node = ccs_float(vp_choice(2, "float") ? 2.5 : -1.5); break;
	default:
		o.var = 1;
		o.p = k == 3 ? PNUM : PORD;
		o.node = ccs_object(par[o.p]);
		if (values[o.p + 1].flags == 77)
			values[o.p + 1] = vp_choice(2, "active") ? (k == 3 ? ccs_int(whole("num")) : ords[vp_choice(3, "ord")]) : ccs_inactive;
		o.v = values[o.p + 1];
	}
	return o;
}
/* the expression and what it evaluates to; 0 when refused. The value of a refused operand does not matter. */
static int build(unsigned op, struct opnd a, int oka, struct opnd b, int okb, struct opnd *out)
{
	ccs_expression_t e = NULL, list = NULL;
	int              ok;
	out->var = 0;
	out->p = -1;
	out->v = ccs_none;
	if (op < 13) {
		OK(ccs_create_binary_expression((ccs_expression_type_t)op, a.node, b.node, &e));
		ok = oka && okb && ref((ccs_expression_type_t)op, &a, &b, &out->v);
	} else if (op == CCS_EXPRESSION_TYPE_IN) {
		ccs_datum_t  items[2] = {ccs_int(7), b.node};
		struct opnd  x[2] = {{0, -1, ccs_int(7), ccs_int(7)}, b};
		OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, items, &list));
		OK(ccs_create_binary_expression((ccs_expression_type_t)op, a.node, ccs_object(list), &e));
		rel(list);
		ok = oka;
		/* the items are looked at in order, up to the one that is found */
		if (ok && a.v.type == CCS_DATA_TYPE_INACTIVE)
			out->v = ccs_inactive;
		else if (ok) {
			ok = ref_in(&a, 1, x, &out->v);
			if (ok && !same_datum(out->v, ccs_true))
				ok = okb && ref_in(&a, 2, x, &out->v);
		}
	} else {
		OK(ccs_create_unary_expression((ccs_expression_type_t)op, a.node, &e));
		ok = oka && ref_unary((ccs_expression_type_t)op, &a, &out->v);
	}
	out->node = ccs_object(e);
	return ok;
}
static void nested(void)
{
	ccs_features_space_t ctx = NULL;
	OK(ccs_create_features_space("ctx", &ctx));
	OK(ccs_features_space_add_parameter(ctx, lead));
	OK(ccs_features_space_add_parameters(ctx, NP, par));
	unsigned    op = (unsigned)CH(17, "op"), in = (unsigned)CH(17, "inner"), shape = (unsigned)CH(3, "shape"), kinds = (unsigned)vp_param("kinds", 5);
	struct opnd a = leaf(kinds, "a"), b = BIN(in) ? leaf(kinds, "b") : VOID, s, c, r;
	ccs_datum_t res = ccs_int(424242);
	int         ok = build(in, a, 1, b, 1, &s), okr;
	if (!BIN(op) && shape)
		vp_kill();
	c = BIN(op) && shape != 2 ? leaf(kinds, "c") : VOID;
	okr = shape == 0 ? build(op, s, ok, c, 1, &r) : shape == 1 ? build(op, c, 1, s, ok, &r) : build(op, s, ok, s, ok, &r);
	rel(s.node.value.o);
	ccs_result_t x = ccs_expression_eval((ccs_expression_t)r.node.value.o, (ccs_context_t)ctx, values, &res);
	vp_assert((x == CCS_RESULT_SUCCESS) == okr, "a nested expression is refused exactly when an operand that is evaluated is");
	if (x == CCS_RESULT_SUCCESS) {
		vp_assert(same_datum(res, r.v), "a nested expression evaluates to the value its operators define");
		vp_reach("nested value");
	} else {
		vp_assert(res.type == CCS_DATA_TYPE_INT && res.value.i == 424242, "a refused nested evaluation returns nothing");
		drop_error();
		vp_reach("nested refusal");
	}
	rel(r.node.value.o);
	rel(ctx);
}
static void contexts(void)
{
	/* the same parameters at other places of two contexts, and one that only the first has */
	ccs_features_space_t  f = NULL;
	ccs_objective_space_t o = NULL;
	ccs_parameter_t       pf[3] = {lead, par[PNUM], par[PDIS]}, po[2] = {par[PDIS], par[PNUM]};
	OK(ccs_create_features_space("f", &f));
	OK(ccs_features_space_add_parameters(f, 3, pf));
	OK(ccs_create_objective_space("o", &o));
	OK(ccs_objective_space_add_parameters(o, 2, po));
	ccs_datum_t vf[3] = {ccs_int(vp_i64("f0")), ccs_int(vp_i64("f1")), ccs_int(vp_i64("f2"))}, vo[2] = {ccs_int(vp_i64("o0")), ccs_int(vp_i64("o1"))};
	/* a list of up to 3 items, possibly nested: variables in any order or a constant */
	unsigned         n = vp_choice(4, "items"), uses = 0, which[3] = {3, 3, 3}, in_o = vp_choice(3, "context"), deep = vp_choice(2, "deep");
	ccs_datum_t      items[3];
	ccs_expression_t l = NULL, neg[3] = {NULL, NULL, NULL};
	for (unsigned i = 0; i < n; i++) {
		which[i] = vp_choice(4, "item");
		items[i] = which[i] == 3 ? ccs_int(99) : ccs_object(pf[which[i]]);
		if (which[i] < 3)
			uses |= 1u << which[i];
		if (deep) {
			OK(ccs_create_unary_expression(CCS_EXPRESSION_TYPE_NEGATIVE, items[i], &neg[i]));
			items[i] = ccs_object(neg[i]);
		}
	}
	OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, n, n ? items : NULL, &l));
	for (unsigned i = 0; i < n; i++)
		if (neg[i])
			rel(neg[i]);
	ccs_context_t c = in_o == 2 ? NULL : in_o ? (ccs_context_t)o : (ccs_context_t)f;
	ccs_datum_t  *v = in_o == 2 ? NULL : in_o ? vo : vf;
	/* the context suffices */
	int suits = in_o == 2 ? !uses : in_o ? !(uses & 1) : 1;
	ccs_result_t r = ccs_expression_check_context(l, c);
	vp_assert((r == CCS_RESULT_SUCCESS) == suits, "a context suits an expression exactly when it has all its parameters");
	if (r)
		drop_error();
	/* each item */
	size_t      i = vp_u64("index");
	ccs_datum_t res = ccs_int(424242);
	r = ccs_expression_list_eval_node(l, c, v, i, &res);
	if (i >= n) {
		vp_assert(r == CCS_RESULT_ERROR_OUT_OF_BOUNDS, "an item past the end of a list is refused");
		vp_reach("past the end");
	} else {
		unsigned w = which[i];
		int      ok = w == 3 || (in_o == 0) || (in_o == 1 && w);
		int64_t  x = w == 3 ? 99 : in_o ? vo[w == 2 ? 0 : 1].value.i : vf[w].value.i;
		vp_assert((r == CCS_RESULT_SUCCESS) == ok, "a variable is refused exactly when the context lacks its parameter");
		if (!r)
			vp_assert(same_datum(res, ccs_int(deep ? (int64_t)(0 - (uint64_t)x) : x)), "a variable reads its parameter of the given context");
	}
	if (r) {
		vp_assert(res.type == CCS_DATA_TYPE_INT && res.value.i == 424242, "a refused item returns nothing");
		drop_error();
	}
	/* the parameters, each once */
	ccs_parameter_t got[4] = {NULL, NULL, NULL, (ccs_parameter_t)&res};
	size_t          m = 9, want = (uses & 1) + (uses >> 1 & 1) + (uses >> 2 & 1);
	unsigned        seen = 0;
	OK(ccs_expression_get_parameters(l, 3, got, &m));
	vp_assert(m == want, "the parameters of an expression are counted once each");
	for (unsigned k = 0; k < 3; k++)
		for (unsigned j = 0; j < 3; j++)
			if (got[k] == pf[j])
				seen += k < m ? 1u << (4 * j) : 1u << 16;
	vp_assert(seen == ((uses & 1) | (uses & 2) << 3 | (uses & 4) << 6), "the parameters of an expression are those of its variables");
	vp_assert(got[3] == (ccs_parameter_t)&res, "nothing is written past the parameters");
	/* a list has no value */
	r = ccs_expression_eval(l, c, v, &res);
	vp_assert(r != CCS_RESULT_SUCCESS, "a list alone is not evaluated");
	drop_error();
	rel(l);
	rel(f);
	rel(o);
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	expr_parameters();
	if (CH(2, "what"))
		contexts();
	else
		nested();
	rel(lead);
	for (int i = 0; i < NP; i++)
		rel(par[i]);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
