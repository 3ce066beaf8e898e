#include "worlds.h"
/* P12: comparing evaluations is Pareto dominance over the objectives. */
static unsigned n;
static ccs_objective_type_t dir[3];
static int64_t clampi(int64_t v) { vp_assume(v > -(1LL << 40)); vp_assume(v < (1LL << 40)); return v; }
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	unsigned kind = CH(3, "kind"), expr = (unsigned)vp_param("expr", 0);
	n = (unsigned)vp_param("n", 2);
	world_t w;
	world_open(&w, kind);
	ccs_parameter_t p[3];
	p[0] = mk_flt("x", -1., 1., 0.);
	p[1] = mk_flt("y", -1., 1., 0.);
	p[2] = mk_flt("z", -1., 1., 0.);
	ccs_objective_space_t os = mk_ospace("os", 3, p), os2 = NULL;
	ccs_datum_t val[2][3], obj[2][3];
	/* values of the two evaluations */
	for (unsigned i = 0; i < 3; i++) {
		if (expr) {
			for (int e = 0; e < 2; e++)
				val[e][i] = ccs_int(clampi(vp_i64("v")));
			continue;
		}
		if (i >= n) {
			val[0][i] = val[1][i] = ccs_none;
			continue;
		}
		unsigned t = vp_choice(3, "type"), other = vp_choice(2, "other type");
		for (int e = 0; e < 2; e++) {
			unsigned tt = e && other ? (t + 1) % 3 : t;
			val[e][i] = tt == 0 ? ccs_int(vp_i64("v")) : tt == 1 ? ccs_float(vp_num("v")) : i == 0 ? ccs_bool(vp_bool("v")) : i == 1 ? ccs_string("s") : ccs_inactive;
		}
	}
	for (unsigned i = 0; i < n; i++) {
		ccs_expression_t v = mk_var(p[i]), e = v;
		if (expr && i + 1 < 3) {
			ccs_expression_t v2 = mk_var(p[i + 1]);
			e = mk_bin(CCS_EXPRESSION_TYPE_SUBSTRACT, ccs_object(v), ccs_object(v2));
			rel(v2);
			rel(v);
		}
		dir[i] = vp_choice(2, "direction") ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
		OK(ccs_objective_space_add_objective(os, e, dir[i]));
		rel(e);
		for (int k = 0; k < 2; k++)
			obj[k][i] = expr && i + 1 < 3 ? ccs_int(val[k][i].value.i - val[k][i + 1].value.i) : val[k][i];
	}
	ccs_features_t f[2] = {NULL, NULL};
	int same_features = 1;
	if (kind == 1) {
		ccs_datum_t fv[2] = {ccs_int(vp_i64("feature")), ccs_int(vp_i64("feature"))};
		same_features = fv[0].value.i == fv[1].value.i;
		f[0] = mk_features(w.fs, 1, fv);
		f[1] = mk_features(w.fs, 1, fv + 1);
	}
	int r[2] = {0, 0};
	unsigned scen = expr ? 0 : CH(4, "scenario");
	if (scen == 1)
		r[0] = vp_i32("result"), r[1] = vp_i32("result");
	ccs_object_t a = ev_new(kind, os, w.config, f[0], r[0], 3, val[0]), b;
	if (scen == 2) {
		/* the objective spaces look alike but differ */
		os2 = mk_ospace("os", 3, p);
		for (unsigned i = 0; i < n; i++) {
			ccs_expression_t v = mk_var(p[i]);
			OK(ccs_objective_space_add_objective(os2, v, dir[i]));
			rel(v);
		}
	}
	b = ev_new(kind, os2 ? os2 : os, w.config, f[1], r[1], 3, val[1]);
	ccs_comparison_t ab = 77, ba = 77;
	if (scen == 3) {
		OK(ev_compare(kind, a, a, &ab));
		vp_assert(ab == CCS_COMPARISON_EQUIVALENT, "an evaluation is equivalent to itself");
	} else if (scen == 2 || r[0] || r[1]) {
		ERR(ev_compare(kind, a, b, &ab));
		ERR(ev_compare(kind, b, a, &ba));
		if (scen == 1) {
			vp_reach("failed evaluation refused");
		} else
			vp_reach("foreign objective space refused");
	} else {
		int better = 0, worse = 0, comparable = same_features;
		for (unsigned i = 0; i < n; i++) {
			ccs_datum_t *x = &obj[0][i], *y = &obj[1][i];
			int lt, gt;
			if (x->type != y->type || (x->type != CCS_DATA_TYPE_INT && x->type != CCS_DATA_TYPE_FLOAT)) {
				comparable = 0;
				continue;
			}
			if (x->type == CCS_DATA_TYPE_INT) {
				lt = x->value.i < y->value.i;
				gt = x->value.i > y->value.i;
			} else {
				lt = x->value.f < y->value.f;
				gt = x->value.f > y->value.f;
			}
			better |= dir[i] == CCS_OBJECTIVE_TYPE_MINIMIZE ? lt : gt;
			worse |= dir[i] == CCS_OBJECTIVE_TYPE_MINIMIZE ? gt : lt;
		}
		OK(ev_compare(kind, a, b, &ab));
		OK(ev_compare(kind, b, a, &ba));
		vp_assert((ab == CCS_COMPARISON_BETTER) == (comparable & better & !worse), "better exactly when it dominates");
		vp_assert((ab == CCS_COMPARISON_WORSE) == (comparable & !better & worse), "worse exactly when dominated");
		vp_assert((ab == CCS_COMPARISON_EQUIVALENT) == (comparable & !better & !worse), "equivalent exactly when all objectives are equal");
		vp_assert((ab == CCS_COMPARISON_NOT_COMPARABLE) == (!comparable | (better & worse)), "not comparable otherwise");
		vp_assert((ba == CCS_COMPARISON_BETTER) == (ab == CCS_COMPARISON_WORSE) && (ba == CCS_COMPARISON_WORSE) == (ab == CCS_COMPARISON_BETTER) &&
				  (ba == CCS_COMPARISON_EQUIVALENT) == (ab == CCS_COMPARISON_EQUIVALENT),
			  "swapping the operands swaps better and worse");
	}
	/* objective values are the objectives evaluated on the values */
	if (scen == 0) {
		ccs_datum_t d = ccs_none, all[4];
		size_t      c = 99, idx = (size_t)vp_u64("index");
		for (unsigned i = 0; i < n; i++) {
			OK(ev_objval(kind, a, i, &d));
			vp_assert(same_datum(d, obj[0][i]), "an objective value is its expression evaluated on the values");
		}
		vp_assume(idx >= n);
		ERR(ev_objval(kind, a, idx, &d));
		OK(ev_objvals(kind, a, 4, all, &c));
		vp_assert(c == n, "the number of objective values is the number of objectives");
		for (unsigned i = 0; i < n; i++)
			vp_assert(same_datum(all[i], obj[0][i]), "objective values in order");
		OK(ev_values(kind, b, 4, all, &c));
		vp_assert(c == 3, "an evaluation has one value per parameter");
		for (unsigned i = 0; i < 3; i++)
			vp_assert(same_datum(all[i], val[1][i]), "values are kept");
	}
	rel(a);
	rel(b);
	if (os2)
		rel(os2);
	rel(os);
	if (f[0]) {
		rel(f[0]);
		rel(f[1]);
	}
	for (int i = 0; i < 3; i++)
		rel(p[i]);
	world_close(&w);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
