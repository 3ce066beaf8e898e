#include "ccsh.h"
enum { PNUM, PCAT, PORD, PDIS, PSTR, NP };
static ccs_parameter_t par[NP];
static ccs_datum_t     values[NP + 1];
static const ccs_datum_t *dom_cat, *dom_ord;
static ccs_datum_t     cats[3], ords[3], diss[2];
struct opnd { int var; int p; ccs_datum_t v; ccs_datum_t node; };
static int isnum(ccs_datum_t d) { return d.type == CCS_DATA_TYPE_INT || d.type == CCS_DATA_TYPE_FLOAT; }
static int pos(const ccs_datum_t *dom, ccs_datum_t v)
{
	for (int i = 0; i < 3; i++)
		if (same_datum(dom[i], v))
			return i;
	return -1;
}
static ccs_datum_t strd(const char *name)
{
	static char pool[8][2];
	static unsigned n;
	char *s = pool[n++];
	s[0] = (char)vp_u8(name);
	s[1] = 0;
	return ccs_string(s);
}
static ccs_datum_t any(const char *name, int inactive)
{
	unsigned t = vp_choice(inactive ? 6 : 5, "type");
	return t == 4 ? strd(name) : t == 5 ? ccs_inactive : sym_datum_of(t, name);
}
/* operand kinds: literal, or variable of one of the parameters */
static struct opnd operand(unsigned kind, const char *name)
{
	struct opnd o;
	if (kind == 0) {
		o.var = 0;
		o.p = -1;
		o.v = o.node = any(name, 0);
	} else {
		o.var = 1;
		o.p = (int)kind - 1;
		o.node = ccs_object(par[o.p]);
		/* one value per parameter: both operands may be the same variable */
		if (values[o.p + 1].type == CCS_DATA_TYPE_NONE && values[o.p + 1].flags == 77)
			values[o.p + 1] = any(name, 1);
		o.v = values[o.p + 1];
	}
	return o;
}
/* a variable only compares with values that make sense for its parameter */
static int compatible(struct opnd *x, ccs_datum_t v)
{
	if (!x->var)
		return 1;
	switch (x->p) {
	case PCAT: return pos(cats, v) >= 0;
	case PORD: return pos(ords, v) >= 0;
	case PNUM:
	case PDIS: return isnum(v);
	default: return 1;
	}
}
/* equal: 1, different: 0, not comparable: -1 */
static int equal(ccs_datum_t a, ccs_datum_t b)
{
	if (a.type == b.type) {
		switch (a.type) {
		case CCS_DATA_TYPE_STRING: return !strcmp(a.value.s, b.value.s);
		case CCS_DATA_TYPE_NONE: return 1;
		case CCS_DATA_TYPE_FLOAT: return a.value.f == b.value.f;
		default: return a.value.i == b.value.i;
		}
	}
	if (a.type == CCS_DATA_TYPE_INT && b.type == CCS_DATA_TYPE_FLOAT)
		return (double)a.value.i == b.value.f;
	if (a.type == CCS_DATA_TYPE_FLOAT && b.type == CCS_DATA_TYPE_INT)
		return a.value.f == (double)b.value.i;
	return -1;
}
static ccs_datum_t bd(int b) { return b ? ccs_true : ccs_false; }
/* reference: 1 and the value, or 0 when refused */
static int ref(ccs_expression_type_t op, struct opnd *a, struct opnd *b, ccs_datum_t *out)
{
	int ia = a->v.type == CCS_DATA_TYPE_INACTIVE, ib = b->v.type == CCS_DATA_TYPE_INACTIVE;
	int ba = a->v.type == CCS_DATA_TYPE_BOOL, bb = b->v.type == CCS_DATA_TYPE_BOOL;
	*out = ccs_inactive;
	switch (op) {
	case CCS_EXPRESSION_TYPE_OR:
		if ((!ba && !ia) || (!bb && !ib))
			return 0;
		if ((ba && a->v.value.i) || (bb && b->v.value.i))
			*out = ccs_true;
		else if (!ia && !ib)
			*out = ccs_false;
		return 1;
	case CCS_EXPRESSION_TYPE_AND:
		if (ia || ib)
			return 1;
		if (!ba || !bb)
			return 0;
		*out = bd(a->v.value.i && b->v.value.i);
		return 1;
	case CCS_EXPRESSION_TYPE_EQUAL:
	case CCS_EXPRESSION_TYPE_NOT_EQUAL: {
		if (ia || ib)
			return 1;
		if (!compatible(a, b->v) || !compatible(b, a->v))
			return 0;
		int e = equal(a->v, b->v);
		if (e < 0 && !a->var && !b->var)
			return 0;
		*out = bd((e == 1) == (op == CCS_EXPRESSION_TYPE_EQUAL));
		return 1;
	}
	case CCS_EXPRESSION_TYPE_LESS:
	case CCS_EXPRESSION_TYPE_GREATER:
	case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL:
	case CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL: {
		int c;
		if ((a->var && a->p == PCAT) || (b->var && b->p == PCAT))
			return 0;
		if (ia || ib)
			return 1;
		if (!compatible(a, b->v) || !compatible(b, a->v))
			return 0;
		if ((a->var && a->p == PORD) || (b->var && b->p == PORD)) {
			int x = pos(ords, a->v), y = pos(ords, b->v);
			if (x < 0 || y < 0)
				return 0;
			c = x < y ? -1 : x > y;
		} else if (a->v.type == CCS_DATA_TYPE_STRING && b->v.type == CCS_DATA_TYPE_STRING)
			c = strcmp(a->v.value.s, b->v.value.s);
		else if (a->v.type == CCS_DATA_TYPE_INT && b->v.type == CCS_DATA_TYPE_INT)
			c = a->v.value.i < b->v.value.i ? -1 : a->v.value.i > b->v.value.i;
		else if (isnum(a->v) && isnum(b->v)) {
			double x = a->v.type == CCS_DATA_TYPE_INT ? (double)a->v.value.i : a->v.value.f;
			double y = b->v.type == CCS_DATA_TYPE_INT ? (double)b->v.value.i : b->v.value.f;
			c = x < y ? -1 : x > y;
		} else
			return 0;
		*out = bd(op == CCS_EXPRESSION_TYPE_LESS ? c < 0 : op == CCS_EXPRESSION_TYPE_GREATER ? c > 0 : op == CCS_EXPRESSION_TYPE_LESS_OR_EQUAL ? c <= 0 : c >= 0);
		return 1;
	}
	default:
		break;
	}
	/* arithmetic */
	if (ia || ib)
		return 1;
	if (!isnum(a->v) || !isnum(b->v))
		return 0;
	if (a->v.type == CCS_DATA_TYPE_INT && b->v.type == CCS_DATA_TYPE_INT) {
		int64_t x = a->v.value.i, y = b->v.value.i;
		switch (op) {
		case CCS_EXPRESSION_TYPE_ADD: *out = ccs_int((int64_t)((uint64_t)x + (uint64_t)y)); return 1;
		case CCS_EXPRESSION_TYPE_SUBSTRACT: *out = ccs_int((int64_t)((uint64_t)x - (uint64_t)y)); return 1;
		case CCS_EXPRESSION_TYPE_MULTIPLY: *out = ccs_int((int64_t)((uint64_t)x * (uint64_t)y)); return 1;
		case CCS_EXPRESSION_TYPE_DIVIDE:
			if (y == 0 || (x == INT64_MIN && y == -1))
				return 0;
			*out = ccs_int(x / y);
			return 1;
		default:
			if (y == 0)
				return 0;
			*out = ccs_int(y == -1 ? 0 : x % y);
			return 1;
		}
	}
	double x = a->v.type == CCS_DATA_TYPE_INT ? (double)a->v.value.i : a->v.value.f;
	double y = b->v.type == CCS_DATA_TYPE_INT ? (double)b->v.value.i : b->v.value.f;
	int    zero = b->v.type == CCS_DATA_TYPE_INT ? b->v.value.i == 0 : b->v.value.f == 0.0;
	switch (op) {
	case CCS_EXPRESSION_TYPE_ADD: *out = ccs_float(x + y); return 1;
	case CCS_EXPRESSION_TYPE_SUBSTRACT: *out = ccs_float(x - y); return 1;
	case CCS_EXPRESSION_TYPE_MULTIPLY: *out = ccs_float(x * y); return 1;
	case CCS_EXPRESSION_TYPE_DIVIDE:
		if (zero)
			return 0;
		*out = ccs_float(x / y);
		return 1;
	default:
		if (zero)
			return 0;
		*out = ccs_float(fmod(x, y));
		return 1;
	}
}
static ccs_parameter_t      lead;
static void expr_parameters(void)
{
	cats[0] = ords[1] = ccs_int(10);
	cats[1] = ords[2] = ccs_string("b");
	cats[2] = ords[0] = ccs_float(2.5);
	diss[0] = ccs_int(1);
	diss[1] = ccs_float(4.5);
	OK(ccs_create_float_numerical_parameter("num", 0., 10., 0., 5., &par[PNUM]));
	OK(ccs_create_categorical_parameter("cat", 3, cats, 0, &par[PCAT]));
	OK(ccs_create_ordinal_parameter("ord", 3, ords, 0, &par[PORD]));
	OK(ccs_create_discrete_parameter("dis", 2, diss, 0, &par[PDIS]));
	OK(ccs_create_string_parameter("str", &par[PSTR]));
	/* one leading parameter so that no index is its own position */
	lead = mk_int("lead", 0, 2, 0);
	for (int i = 0; i <= NP; i++) {
		values[i] = ccs_none;
		values[i].flags = 77; /* not chosen yet */
	}
}
/* membership in a list of n operands */
static int ref_in(struct opnd *a, unsigned n, struct opnd *x, ccs_datum_t *out)
{
	*out = ccs_false;
	if (a->v.type == CCS_DATA_TYPE_INACTIVE) {
		*out = ccs_inactive;
		return 1;
	}
	for (unsigned i = 0; i < n; i++) {
		if (x[i].v.type == CCS_DATA_TYPE_INACTIVE)
			*out = ccs_inactive;
		else if (!compatible(a, x[i].v))
			return 0;
		else if (equal(a->v, x[i].v) == 1) {
			*out = ccs_true;
			return 1;
		}
	}
	return 1;
}
static int ref_unary(ccs_expression_type_t op, struct opnd *a, ccs_datum_t *out)
{
	*out = ccs_inactive;
	if (a->v.type == CCS_DATA_TYPE_INACTIVE)
		return 1;
	if (op == CCS_EXPRESSION_TYPE_NOT) {
		*out = bd(!a->v.value.i);
		return a->v.type == CCS_DATA_TYPE_BOOL;
	}
	*out = a->v;
	if (op == CCS_EXPRESSION_TYPE_NEGATIVE && isnum(a->v))
		*out = a->v.type == CCS_DATA_TYPE_INT ? ccs_int((int64_t)(0 - (uint64_t)a->v.value.i)) : ccs_float(-a->v.value.f);
	return isnum(a->v);
}
