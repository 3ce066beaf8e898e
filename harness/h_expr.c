#include "exprref.h"
/* P07: every operator on every operand (literals of each type, variables of
 * each kind of parameter holding any value, inactive included) yields the
 * value its definition gives. */
void vp_main(void)
{
	ccs_init();
	int64_t              live = vp_heap_live();
	ccs_features_space_t ctx = NULL;
	ccs_expression_t     e = NULL;
	expr_parameters();
	OK(ccs_create_features_space("ctx", &ctx));
	OK(ccs_features_space_add_parameter(ctx, lead));
	OK(ccs_features_space_add_parameters(ctx, NP, par));
	unsigned     op = CH(17, "op"), lk = CH(NP + 1, "left");
	ccs_datum_t  res = ccs_int(424242), want = ccs_none;
	ccs_result_t r;
	int          ok;
	if (op < 13) {
		struct opnd a = operand(lk, "a"), b = operand(CH(NP + 1, "right"), "b");
		ccs_datum_t  nodes[2] = {a.node, b.node};
		OK(ccs_create_expression((ccs_expression_type_t)op, 2, nodes, &e));
		ok = ref((ccs_expression_type_t)op, &a, &b, &want);
	} else if (op == CCS_EXPRESSION_TYPE_IN) {
		struct opnd a = operand(lk, "a"), b = operand(CH(NP + 1, "right"), "b");
		ccs_datum_t  items[2] = {b.node, ccs_int(10)}, nodes[2];
		unsigned     n = vp_choice(3, "items");
		ccs_expression_t list = NULL;
		OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, n, n ? items : NULL, &list));
		nodes[0] = a.node;
		nodes[1] = ccs_object(list);
		OK(ccs_create_expression(CCS_EXPRESSION_TYPE_IN, 2, nodes, &e));
		rel(list);
		struct opnd x[2] = {b, {0, -1, ccs_int(10), ccs_int(10)}};
		ok = ref_in(&a, n, x, &want);
	} else {
		struct opnd a = operand(lk, "a");
		OK(ccs_create_unary_expression((ccs_expression_type_t)op, a.node, &e));
		ok = ref_unary((ccs_expression_type_t)op, &a, &want);
	}
	ccs_datum_t before[NP + 1];
	memcpy(before, values, sizeof(values));
	r = ccs_expression_eval(e, (ccs_context_t)ctx, values, &res);
	vp_assert((r == CCS_RESULT_SUCCESS) == ok, "an expression is refused exactly when its operands do not suit the operator");
	if (r == CCS_RESULT_SUCCESS)
		vp_assert(same_datum(res, want), "an expression evaluates to the value its operator defines");
	else {
		vp_assert(res.type == CCS_DATA_TYPE_INT && res.value.i == 424242, "a refused evaluation returns nothing");
		drop_error();
		vp_reach("refused");
	}
	vp_assert(!memcmp(before, values, sizeof(values)), "evaluation leaves the binding unchanged");
	rel(e);
	rel(ctx);
	rel(lead);
	for (int i = 0; i < NP; i++)
		rel(par[i]);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
