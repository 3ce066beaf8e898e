#include <cconfigspace.h>
#include "vp.h"
/* P04: interval algebra agrees with pointwise membership. */
static ccs_interval_t iv(int fl, const char *l, const char *u, const char *li, const char *ui)
{
	ccs_interval_t i;
	memset(&i, 0, sizeof(i));
	i.type = fl ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	if (fl) {
		i.lower = CCSF(vp_num(l));
		i.upper = CCSF(vp_num(u));
	} else {
		i.lower = CCSI(vp_i64(l));
		i.upper = CCSI(vp_i64(u));
	}
	i.lower_included = vp_bool(li) ? CCS_TRUE : CCS_FALSE;
	i.upper_included = vp_bool(ui) ? CCS_TRUE : CCS_FALSE;
	return i;
}
/* reference semantics, branch-free so that one path covers all cases */
static int in(const ccs_interval_t *i, ccs_numeric_t x)
{
	int li = i->lower_included != 0, ui = i->upper_included != 0;
	if (i->type == CCS_NUMERIC_TYPE_FLOAT)
		return ((x.f > i->lower.f) | (li & (x.f == i->lower.f))) & ((x.f < i->upper.f) | (ui & (x.f == i->upper.f)));
	return ((x.i > i->lower.i) | (li & (x.i == i->lower.i))) & ((x.i < i->upper.i) | (ui & (x.i == i->upper.i)));
}
/* no point at all (floats are dense, integers are not) */
static int empty(const ccs_interval_t *i)
{
	int both = (i->lower_included != 0) & (i->upper_included != 0);
	int none = (i->lower_included == 0) & (i->upper_included == 0);
	if (i->type == CCS_NUMERIC_TYPE_FLOAT)
		return (i->lower.f > i->upper.f) | ((i->lower.f == i->upper.f) & !both);
	uint64_t span = (uint64_t)i->upper.i - (uint64_t)i->lower.i;
	return (i->lower.i > i->upper.i) | ((span == 0) & !both) | ((span == 1) & none);
}
static int below(const ccs_interval_t *i, ccs_numeric_t x)
{
	int ex = i->lower_included == 0;
	if (i->type == CCS_NUMERIC_TYPE_FLOAT)
		return (x.f < i->lower.f) | (ex & (x.f == i->lower.f));
	return (x.i < i->lower.i) | (ex & (x.i == i->lower.i));
}
static int above(const ccs_interval_t *i, ccs_numeric_t x)
{
	int ex = i->upper_included == 0;
	if (i->type == CCS_NUMERIC_TYPE_FLOAT)
		return (x.f > i->upper.f) | (ex & (x.f == i->upper.f));
	return (x.i > i->upper.i) | (ex & (x.i == i->upper.i));
}
void vp_main(void)
{
	ccs_init();
	int            fl = vp_choice(2, "float");
	ccs_interval_t a = iv(fl, "al", "au", "ali", "aui"), b, r;
	ccs_numeric_t  x = fl ? CCSF(vp_num("x")) : CCSI(vp_i64("x"));
	ccs_bool_t     q = 7;
	int            op = vp_choice(6, "op");
	if (op != 0 && op != 1)
		b = iv(fl, "bl", "bu", "bli", "bui");
	switch (op) {
	case 0:
		vp_assert(ccs_interval_include(&a, x) == (in(&a, x) ? CCS_TRUE : CCS_FALSE), "membership matches the bounds");
		vp_assert(ccs_interval_include(NULL, x) == CCS_FALSE, "a missing interval contains nothing");
		break;
	case 1:
		vp_assert(ccs_interval_empty(&a, &q) == CCS_RESULT_SUCCESS, "emptiness test succeeds");
		vp_assert(q == (empty(&a) ? CCS_TRUE : CCS_FALSE), "empty exactly when no point belongs");
		vp_reach("empty");
		break;
	case 2: {
		unsigned       alias = vp_choice(3, "alias");
		ccs_interval_t a2 = a, b2 = b, *o = alias == 1 ? &a2 : alias == 2 ? &b2 : &r;
		vp_assert(ccs_interval_intersect(&a2, &b2, o) == CCS_RESULT_SUCCESS, "intersection succeeds");
		vp_assert(o->type == a.type, "intersection keeps the type");
		vp_assert(in(o, x) == (in(&a, x) & in(&b, x)), "intersection contains exactly the common points");
		vp_reach("intersect");
		break;
	}
	case 3: {
		unsigned       alias = vp_choice(3, "alias");
		ccs_interval_t a2 = a, b2 = b, *o = alias == 1 ? &a2 : alias == 2 ? &b2 : &r;
		vp_assert(ccs_interval_union(&a2, &b2, o) == CCS_RESULT_SUCCESS, "union succeeds");
		vp_assert(o->type == a.type, "union keeps the type");
		vp_assert(!(in(&a, x) | in(&b, x)) | in(o, x), "union contains every point of both");
		if (!(empty(&a) | empty(&b))) {
			vp_assert(!in(o, x) | !(below(&a, x) & below(&b, x)), "union extends no lower than its operands");
			vp_assert(!in(o, x) | !(above(&a, x) & above(&b, x)), "union extends no higher than its operands");
			vp_reach("union");
		}
		break;
	}
	case 4: {
		vp_assert(ccs_interval_equal(&a, &b, &q) == CCS_RESULT_SUCCESS, "equality test succeeds");
		vp_assert(q == CCS_TRUE || q == CCS_FALSE, "equality is a boolean");
		vp_assume(!(empty(&a) | empty(&b)));
		if (q)
			vp_assert(in(&a, x) == in(&b, x), "equal intervals contain the same points");
		else {
			/* different non-empty intervals differ at one of their ends */
			int same;
			if (fl)
				same = (a.lower.f == b.lower.f) & (a.upper.f == b.upper.f) & (a.lower_included == b.lower_included) & (a.upper_included == b.upper_included);
			else {
				int64_t l1 = a.lower.i + !a.lower_included, l2 = b.lower.i + !b.lower_included;
				int64_t u1 = a.upper.i - !a.upper_included, u2 = b.upper.i - !b.upper_included;
				same = (l1 == l2) & (u1 == u2);
			}
			vp_assert(!same, "intervals with the same points are equal");
			vp_reach("different");
		}
		break;
	}
	case 5: {
		b.type = fl ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
		vp_assert(ccs_interval_equal(&a, &b, &q) == CCS_RESULT_ERROR_INVALID_TYPE && q == 7, "mixed types cannot be compared");
		vp_assert(ccs_interval_intersect(&a, &b, &r) == CCS_RESULT_ERROR_INVALID_TYPE, "mixed types cannot be intersected");
		vp_assert(ccs_interval_union(&a, &b, &r) == CCS_RESULT_ERROR_INVALID_TYPE, "mixed types cannot be united");
		vp_assert(ccs_interval_empty(NULL, &q) == CCS_RESULT_ERROR_INVALID_VALUE, "missing interval refused by emptiness");
		vp_assert(ccs_interval_empty(&a, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "missing result refused by emptiness");
		vp_assert(ccs_interval_union(&a, NULL, &r) == CCS_RESULT_ERROR_INVALID_VALUE, "missing operand refused by union");
		vp_assert(ccs_interval_intersect(NULL, &a, &r) == CCS_RESULT_ERROR_INVALID_VALUE, "missing operand refused by intersection");
		vp_assert(ccs_interval_equal(&a, &a, NULL) == CCS_RESULT_ERROR_INVALID_VALUE, "missing result refused by equality");
		ccs_clear_thread_error();
		break;
	}
	}
}
