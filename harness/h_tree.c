#include "worlds.h"
#include <gsl/gsl_rng.h>
/* P14: trees keep consistent shape, weights, positions and sampling. */
#define N 4
static const size_t arity[N] = {2, 2, 1, 0};
static const double wv[] = {0., 1., 3., 0.5};
static ccs_tree_t node[N];
/* reference */
static int    par[N], idx[N], kid[N][2];
static double wt[N], bs[N];

static double total(int i)
{
	double s = wt[i];
	for (unsigned k = 0; k < arity[i]; k++)
		s += kid[i][k] < 0 ? 1. : total(kid[i][k]) * bs[kid[i][k]];
	return s;
}
static double slot(int i, unsigned k)
{
	if (k == arity[i])
		return wt[i];
	return kid[i][k] < 0 ? 1. : total(kid[i][k]) * bs[kid[i][k]];
}
static int depth(int i)
{
	int d = 0;
	while (par[i] >= 0) {
		i = par[i];
		d++;
	}
	return d;
}
static void check_shape(void)
{
	for (int i = 0; i < N; i++) {
		ccs_tree_t  p = (ccs_tree_t)1, c[3];
		size_t      ix = 77, cnt = 99, pos[N];
		ccs_datum_t vals[N + 1];
		double      f = -1;
		OK(ccs_tree_get_parent(node[i], &p, &ix));
		vp_assert(par[i] < 0 ? p == NULL : (p == node[par[i]] && ix == (size_t)idx[i]), "a node reports the parent it was attached to");
		OK(ccs_tree_get_children(node[i], 3, c, &cnt));
		vp_assert(cnt == arity[i], "a node has as many child slots as declared");
		for (unsigned k = 0; k < arity[i]; k++) {
			ccs_tree_t t = (ccs_tree_t)1;
			OK(ccs_tree_get_child(node[i], k, &t));
			vp_assert(t == (kid[i][k] < 0 ? NULL : node[kid[i][k]]) && c[k] == t, "a node lists the children attached to it");
		}
		OK(ccs_tree_get_weight(node[i], &f));
		vp_assert(f == wt[i], "a node keeps its own weight");
		OK(ccs_tree_get_bias(node[i], &f));
		vp_assert(f == bs[i], "a node keeps its bias");
		int d = depth(i), j = i;
		OK(ccs_tree_get_position(node[i], N, pos, &cnt));
		vp_assert(cnt == (size_t)d, "the position of a node has the length of its depth");
		OK(ccs_tree_get_values(node[i], N + 1, vals, &cnt));
		vp_assert(cnt == (size_t)d + 1, "a node has one value per ancestor and its own");
		ccs_tree_t t = NULL;
		for (int k = d; k >= 0; k--) {
			vp_assert(vals[k].type == CCS_DATA_TYPE_INT && vals[k].value.i == 10 + j, "values follow the path from the root");
			if (k) {
				vp_assert(pos[k - 1] == (size_t)idx[j], "a position follows the path from the root");
				j = par[j];
			}
		}
		OK(ccs_tree_get_node_at_position(node[j], (size_t)d, pos, &t));
		vp_assert(t == node[i], "the node at the position of a node is that node");
	}
}
/* the slot a draw has to select */
static void check_pick(int i, size_t got, double u)
{
	double s = total(i), lo = 0;
	vp_assert(got <= arity[i], "a draw selects a slot or the node itself");
	for (unsigned k = 0; k < got; k++)
		lo += slot(i, k);
	double hi = lo + slot(i, (unsigned)got);
	vp_assert(hi > lo, "a draw never selects a weight of zero");
	vp_assert(u >= lo / s - 1e-9 && u <= hi / s + 1e-9, "draws follow the weights");
}
static void mk_rngs(ccs_rng_t *a, ccs_rng_t *b)
{
	OK(ccs_create_rng(a));
	OK(ccs_create_rng(b));
	OK(ccs_rng_set_seed(*a, 5));
	OK(ccs_rng_set_seed(*b, 5));
}
static void check_sampling(int i)
{
	ccs_rng_t a, b;
	gsl_rng  *g = NULL;
	size_t    got = 99;
	mk_rngs(&a, &b);
	OK(ccs_rng_get_gsl_rng(b, &g));
	if (total(i) == 0.) {
		ERR(ccs_tree_sample(node[i], a, &got));
		vp_reach("nothing to draw from");
	} else {
		OK(ccs_tree_sample(node[i], a, &got));
		got = vp_concretize(got);
		check_pick(i, got, gsl_rng_uniform(g));
		if (vp_param("two", 0)) {
			OK(ccs_tree_samples(node[i], a, 1, &got));
			got = vp_concretize(got);
			check_pick(i, got, gsl_rng_uniform(g));
		}
	}
	rel(a);
	rel(b);
}
static void attach(int p, size_t ix, int c)
{
	int bad = ix >= arity[p] || kid[p][ix] >= 0 || par[c] >= 0;
	for (int a = p; a >= 0; a = par[a])
		bad |= a == c;
	if (bad) {
		ERR(ccs_tree_set_child(node[p], ix, node[c]));
		return;
	}
	OK(ccs_tree_set_child(node[p], ix, node[c]));
	kid[p][ix] = c;
	par[c]     = p;
	idx[c]     = (int)ix;
}
static void history(void)
{
	unsigned ops = (unsigned)vp_param("ops", 2), base = CH(3, "base");
	for (int i = 0; i < N; i++) {
		node[i] = mk_tree(arity[i], 10 + i);
		par[i] = idx[i] = kid[i][0] = kid[i][1] = -1;
		wt[i] = bs[i] = 1.;
	}
	if (base >= 1)
		attach(0, 0, 1);
	if (base >= 2)
		attach(1, 1, 2);
	for (unsigned o = 0; o < ops; o++) {
		unsigned what = vp_choice(3, "op");
		int      p = (int)(o ? vp_choice(N, "node") : CH(N, "node0"));
		if (what == 0) {
			if (p == N - 1)
				vp_kill();
			size_t ix = vp_u64("index");
			int    c  = (int)vp_choice(N, "child");
			if (ix < arity[p])
				ix = vp_concretize(ix);
			attach(p, ix, c);
		} else if (what == 1) {
			double v = wv[vp_choice(2, "weight") * 2];
			OK(ccs_tree_set_weight(node[p], v));
			wt[p] = v;
		} else {
			double v = wv[vp_choice(2, "bias") * 3];
			OK(ccs_tree_set_bias(node[p], v));
			bs[p] = v;
		}
	}
	check_shape();
	check_sampling((int)CH(4, "root"));
	vp_reach("history");
	/* release in either order: children outlive their parent */
	int parity = 0, gone[N] = {0}, dead[N] = {0};
	for (int i = 0; i < N; i++)
		parity ^= par[i] >= 0 && idx[i] == 0;
	for (int q = 0; q < N; q++) {
		int i = parity ? N - 1 - q : q;
		rel(node[i]);
		gone[i] = 1;
		for (int r = 0; r < N; r++)
			for (int j = 0; j < N; j++) {
				dead[j] |= gone[j] && par[j] < 0;
				if (par[j] >= 0 && dead[par[j]])
					par[j] = -1;
			}
		for (int j = 0; j < N; j++)
			if (!gone[j]) {
				ccs_tree_t p = (ccs_tree_t)1;
				OK(ccs_tree_get_parent(node[j], &p, NULL));
				vp_assert(p == (par[j] < 0 ? NULL : node[par[j]]), "a node outlives its released parent");
			}
	}
}
/* any weight and bias */
static void weights(void)
{
	ccs_tree_t t = mk_tree(1, 0), c = mk_tree(0, 1);
	double     v = vp_num("w"), r = -1;
	if (vp_choice(2, "leaf"))
		OK(ccs_tree_set_child(t, 0, c));
	if (vp_choice(2, "bias")) {
		if (v < 0) {
			ERR(ccs_tree_set_bias(c, v));
			v = 1.;
		} else
			OK(ccs_tree_set_bias(c, v));
		OK(ccs_tree_get_bias(c, &r));
	} else {
		if (v < 0) {
			ERR(ccs_tree_set_weight(c, v));
			v = 1.;
			vp_reach("negative weight");
		} else
			OK(ccs_tree_set_weight(c, v));
		OK(ccs_tree_get_weight(c, &r));
	}
	vp_assert(r == v, "a weight or bias is kept as set");
	rel(t);
	rel(c);
}
/* positions over a fixed shape: 0 -> (1 -> (-, 2 -> (3)), -) */
static const int shape[N][2] = {{1, -1}, {-1, 2}, {3, -1}, {-1, -1}};
static ccs_tree_space_t ts;
static ccs_result_t dyn_child(ccs_tree_space_t s, ccs_tree_t parent, size_t index, ccs_tree_t *ret)
{
	ccs_datum_t v;
	(void)s;
	OK(ccs_tree_get_value(parent, &v));
	return ccs_create_tree(2, ccs_int(v.value.i * 3 + (int64_t)index), ret);
}
static ccs_result_t dyn_del(ccs_tree_space_t s) { (void)s; return CCS_RESULT_SUCCESS; }
static ccs_dynamic_tree_space_vector_t dyn = {dyn_del, dyn_child, NULL, NULL};
static void open_shape(void)
{
	for (int i = 0; i < N; i++) {
		node[i] = mk_tree(arity[i], 10 + i);
		par[i] = -1;
		wt[i] = bs[i] = 1.;
		for (int k = 0; k < 2; k++)
			kid[i][k] = shape[i][k];
	}
	for (int i = 0; i < N; i++)
		for (unsigned k = 0; k < arity[i]; k++)
			if (shape[i][k] >= 0) {
				OK(ccs_tree_set_child(node[i], k, node[shape[i][k]]));
				par[shape[i][k]] = i;
				idx[shape[i][k]] = (int)k;
			}
}
static void close_shape(void)
{
	for (int i = 0; i < N; i++)
		rel(node[i]);
}
static void positions(void)
{
	size_t                   pos[4], n = vp_choice(4, "len"), got = 0;
	ccs_bool_t               v = 7, v2 = 7;
	ccs_tree_t               t = NULL, t2 = NULL;
	ccs_datum_t              vals[6], vals2[6];
	ccs_tree_configuration_t c = NULL;
	open_shape();
	OK(ccs_create_static_tree_space("ts", node[0], &ts));
	int at = 0, ok = 1, exists = 1, path[5] = {0};
	for (size_t i = 0; i < n; i++) {
		pos[i] = vp_u64("pos");
		if (at < 0 || pos[i] >= arity[at])
			ok = exists = 0, at = -1;
		else {
			pos[i] = vp_concretize(pos[i]);
			at     = shape[at][pos[i]];
			exists &= at >= 0;
			path[i + 1] = at;
		}
	}
	OK(ccs_tree_position_is_valid(node[0], n, n ? pos : NULL, &v));
	OK(ccs_tree_space_check_position(ts, n, n ? pos : NULL, &v2));
	vp_assert(v == ok && v2 == ok, "a position is valid exactly when every step is a slot of an existing node");
	if (exists) {
		OK(ccs_tree_get_node_at_position(node[0], n, n ? pos : NULL, &t));
		OK(ccs_tree_space_get_node_at_position(ts, n, n ? pos : NULL, &t2));
		vp_assert(t == node[at] && t2 == t, "a position leads to the node attached there");
		OK(ccs_tree_get_values_at_position(node[0], n, n ? pos : NULL, n + 2, vals));
		OK(ccs_tree_space_get_values_at_position(ts, n, n ? pos : NULL, n + 2, vals2));
		for (size_t i = 0; i <= n; i++)
			vp_assert(same_datum(vals[i], ccs_int(10 + path[i])) && same_datum(vals2[i], vals[i]), "values at a position follow the path");
		vp_assert(vals[n + 1].type == CCS_DATA_TYPE_NONE && vals2[n + 1].type == CCS_DATA_TYPE_NONE, "extra values are none");
		vp_reach("existing position");
		ERR(ccs_tree_get_values_at_position(node[0], n, n ? pos : NULL, n, vals));
	} else {
		ERR(ccs_tree_get_node_at_position(node[0], n, pos, &t));
		ERR(ccs_tree_space_get_node_at_position(ts, n, pos, &t));
		ERR(ccs_tree_get_values_at_position(node[0], n, pos, n + 1, vals));
		vp_assert(t == NULL, "a position that leads nowhere is refused without a node");
	}
	OK(ccs_create_tree_configuration(ts, n, n ? pos : NULL, &c));
	size_t p2[5] = {9, 9, 9, 9, 9};
	OK(ccs_tree_configuration_get_position(c, 5, p2, &got));
	int bad = got != n;
	for (size_t i = 0; i < n; i++)
		bad |= p2[i] != pos[i];
	vp_assert(!bad, "a tree configuration keeps its position");
	OK(ccs_tree_configuration_check(c, &v));
	OK(ccs_tree_space_check_configuration(ts, c, &v2));
	vp_assert(v == ok && v2 == ok, "a tree configuration is valid exactly when its position is");
	t = NULL;
	if (exists) {
		OK(ccs_tree_configuration_get_node(c, &t));
		vp_assert(t == node[at], "a tree configuration leads to the node at its position");
		OK(ccs_tree_configuration_get_values(c, n + 1, vals2, &got));
		for (size_t i = 0; i <= n; i++)
			vp_assert(same_datum(vals2[i], vals[i]), "a tree configuration has the values at its position");
	} else {
		ERR(ccs_tree_configuration_get_node(c, &t));
		vp_assert(t == NULL, "a tree configuration without a node is refused");
		vp_reach("invalid position");
	}
	rel(c);
	rel(ts);
	close_shape();
}
/* whole-space sampling */
static void space(void)
{
	ccs_rng_t a, b;
	gsl_rng  *g = NULL;
	unsigned  n = (unsigned)vp_param("n", 1), dynamic = CH(2, "dynamic");
	ccs_tree_configuration_t c[3] = {NULL};
	open_shape();
	for (int i = 0; i < 3; i++) {
		wt[i] = wv[vp_choice(3, "weight")];
		OK(ccs_tree_set_weight(node[i], wt[i]));
	}
	bs[1] = wv[vp_choice(2, "bias")];
	OK(ccs_tree_set_bias(node[1], bs[1]));
	mk_rngs(&a, &b);
	OK(ccs_rng_get_gsl_rng(b, &g));
	if (dynamic)
		OK(ccs_create_dynamic_tree_space("ts", node[0], &dyn, NULL, &ts));
	else
		OK(ccs_create_static_tree_space("ts", node[0], &ts));
	OK(ccs_tree_space_set_rng(ts, a));
	if (n == 1)
		OK(ccs_tree_space_sample(ts, c));
	else
		OK(ccs_tree_space_samples(ts, n, c));
	for (unsigned s = 0; s < n; s++) {
		size_t     pos[5], d = 0, step = 0;
		ccs_bool_t v = 7;
		ccs_tree_t t = NULL;
		OK(ccs_tree_configuration_get_position(c[s], 5, pos, &d));
		OK(ccs_tree_space_check_configuration(ts, c[s], &v));
		vp_assert(v == CCS_TRUE, "a sampled tree configuration is valid");
		int at = 0;
		while (at >= 0) {
			double u = gsl_rng_uniform(g);
			size_t p = arity[at];
			if (step < d)
				p = vp_concretize(pos[step]);
			check_pick(at, p, u);
			if (p == arity[at])
				break;
			at = kid[at][p];
			step++;
		}
		vp_assert(step == d, "a sampled position ends where the draws end");
		if (at >= 0) {
			OK(ccs_tree_configuration_get_node(c[s], &t));
			vp_assert(t == node[at], "a sampled tree configuration leads to the drawn node");
			vp_reach("drawn node");
		} else
			vp_reach("drawn unset child");
		if (dynamic && at < 0) {
			/* the missing child is created on demand and can be reached again */
			ccs_datum_t val;
			OK(ccs_tree_configuration_get_node(c[s], &t));
			ccs_tree_t t2 = NULL, p = NULL;
			size_t     ix = 9;
			OK(ccs_tree_space_get_node_at_position(ts, d, pos, &t2));
			vp_assert(t && t2 == t, "a dynamic tree space creates a child once");
			OK(ccs_tree_get_parent(t, &p, &ix));
			OK(ccs_tree_get_value(t, &val));
			ccs_datum_t pv;
			OK(ccs_tree_get_value(p, &pv));
			vp_assert(ix == pos[d - 1] && val.value.i == pv.value.i * 3 + (int64_t)ix, "a dynamic child is created for its parent and index");
			vp_reach("created child");
			if (n > 1) {
				/* the shape has changed for the next samples */
				for (unsigned r = s; r < n; r++)
					rel(c[r]);
				goto out;
			}
		}
		rel(c[s]);
	}
out:
	rel(ts);
	rel(a);
	rel(b);
	close_shape();
}
static void limits(void)
{
	ccs_tree_t t = NULL;
	size_t     n = vp_u64("arity");
	ccs_datum_t v = ccs_int(vp_i64("v")), r;
	vp_assume(n > 100000);
	/* storage for that many children cannot exist */
	if (n > (1ULL << 32)) {
		ERR(ccs_create_tree(n, v, &t));
		vp_assert(t == NULL, "no tree of impossible size");
		vp_reach("impossible arity");
	}
	t = mk_tree(0, 0);
	rel(t);
	OK(ccs_create_tree(1, ccs_string("ab"), &t));
	OK(ccs_tree_get_value(t, &r));
	vp_assert(same_datum(r, ccs_string("ab")), "a tree keeps a copy of its string value");
	rel(t);
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	switch (CH(5, "what")) {
	case 0: history(); break;
	case 1: weights(); break;
	case 2: positions(); break;
	case 3: space(); break;
	default: limits();
	}
	vp_assert(vp_heap_live() == live, "everything is released");
}
