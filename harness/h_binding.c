#include "worlds.h"
/* P11: order, hash and lookup laws of configurations, features, evaluations.
 * kinds: 0 configuration 1 features 2 evaluation 3 features evaluation
 *        4 tree evaluation 5 tree configuration */
static unsigned kind, n;
static world_t  w;
static ccs_parameter_t p[3];
static ccs_object_t space[2];
static ccs_object_t config[2];
static ccs_features_t feat[2];
static const char *const names[3] = {"a", "ab", "b"};

typedef struct {
	ccs_object_t o;
	unsigned     sp, cf, ft;
	int          r;
	ccs_datum_t  v[2];
	size_t       np, pos[2];
} obj_t;

static ccs_datum_t any(unsigned types)
{
	static const unsigned order[6] = {0, 5, 1, 2, 3, 4};
	unsigned t = order[vp_choice(types, "type")];
	if (t == 5) {
		/* symbolic one or two characters, or a missing string */
		unsigned l = vp_choice(4, "len");
		if (l == 3)
			return ccs_string(NULL);
		static char pool[12][4];
		static unsigned used;
		char *s = pool[used++ % 12];
		for (unsigned i = 0; i < l; i++) {
			s[i] = (char)vp_u8("c");
			vp_assume(s[i] != 0);
		}
		s[l] = 0;
		return ccs_string(s);
	}
	return sym_datum_of(t, "v");
}
static ccs_result_t cmp(obj_t *a, obj_t *b, int *r)
{
	switch (kind) {
	case 0: return ccs_configuration_cmp((ccs_configuration_t)a->o, (ccs_configuration_t)b->o, r);
	case 1: return ccs_features_cmp((ccs_features_t)a->o, (ccs_features_t)b->o, r);
	case 5: return ccs_tree_configuration_cmp((ccs_tree_configuration_t)a->o, (ccs_tree_configuration_t)b->o, r);
	default: return ev_cmp(kind - 2, a->o, b->o, r);
	}
}
static ccs_result_t hash(obj_t *a, ccs_hash_t *h)
{
	switch (kind) {
	case 0: return ccs_configuration_hash((ccs_configuration_t)a->o, h);
	case 1: return ccs_features_hash((ccs_features_t)a->o, h);
	case 5: return ccs_tree_configuration_hash((ccs_tree_configuration_t)a->o, h);
	default: return ev_hash(kind - 2, a->o, h);
	}
}
static void build(obj_t *a)
{
	if (kind == 5)
		OK(ccs_create_tree_configuration((ccs_tree_space_t)space[a->sp], a->np, a->np ? a->pos : NULL, (ccs_tree_configuration_t *)&a->o));
	else if (kind == 0)
		OK(ccs_create_configuration((ccs_configuration_space_t)space[a->sp], n, a->v, (ccs_configuration_t *)&a->o));
	else if (kind == 1)
		OK(ccs_create_features((ccs_features_space_t)space[a->sp], n, a->v, (ccs_features_t *)&a->o));
	else
		a->o = ev_new(kind - 2, (ccs_objective_space_t)space[a->sp], config[a->cf], feat[a->ft], a->r, n, a->v);
}
static void make(obj_t *a, unsigned types)
{
	memset(a, 0, sizeof(*a));
	a->sp = vp_choice(2, "space");
	if (kind == 5) {
		a->np = vp_choice(3, "depth");
		for (unsigned i = 0; i < a->np; i++)
			a->pos[i] = vp_choice(2, "child");
		build(a);
		return;
	}
	for (unsigned i = 0; i < n; i++)
		a->v[i] = any(types);
	if (kind >= 2 && a->sp == 0) { /* other spaces are told apart first */
		a->r  = vp_i32("result");
		a->cf = vp_choice(2, "configuration");
		a->ft = kind == 3 ? vp_choice(2, "features") : 0;
	}
	build(a);
}
static int same(obj_t *a, obj_t *b)
{
	int s = (a->sp == b->sp) & (a->np == b->np) & (a->r == b->r) & (a->cf == b->cf) & (a->ft == b->ft);
	for (unsigned i = 0; i < n && kind != 5; i++)
		s = s && same_datum(a->v[i], b->v[i]);
	for (unsigned i = 0; i < 2; i++)
		s &= a->pos[i] == b->pos[i];
	return s;
}
static int sgn(int x) { return (x > 0) - (x < 0); }

static void setup(void)
{
	if (kind >= 4)
		world_open(&w, 2);
	else
		world_open(&w, 1);
	for (unsigned i = 0; i < 3; i++)
		p[i] = mk_flt(names[i], -1., 1., 0.);
	for (unsigned i = 0; i < 2; i++)
		space[i] = kind == 0 ? (ccs_object_t)mk_cspace("s", n, p) : kind == 1 ? (ccs_object_t)mk_fspace("s", n, p) : (ccs_object_t)mk_ospace("s", n, p);
	if (kind == 2 || kind == 3) {
		ccs_datum_t c = ccs_int(4);
		config[0] = w.config;
		config[1] = (ccs_object_t)mk_config(w.cs, 1, &c);
		for (unsigned i = 0; i < 2; i++) {
			ccs_datum_t f = ccs_int(i);
			feat[i] = mk_features(w.fs, 1, &f);
		}
	} else if (kind >= 4) {
		size_t pos = 1;
		config[0] = w.config;
		OK(ccs_create_tree_configuration(w.ts, 1, &pos, (ccs_tree_configuration_t *)&config[1]));
		if (kind == 5) {
			rel(space[0]);
			rel(space[1]);
			for (unsigned i = 0; i < 2; i++) {
				ccs_tree_t c = mk_tree(2, i);
				OK(ccs_tree_set_child(w.tree, i, c));
				rel(c);
			}
			OK(ccs_create_static_tree_space("a", w.tree, (ccs_tree_space_t *)&space[0]));
			OK(ccs_create_static_tree_space("a", w.tree, (ccs_tree_space_t *)&space[1]));
		}
	}
}
static void teardown(void)
{
	rel(space[0]);
	rel(space[1]);
	for (unsigned i = 0; i < 3; i++)
		rel(p[i]);
	if (config[1])
		rel(config[1]);
	for (unsigned i = 0; i < 2; i++)
		if (feat[i])
			rel(feat[i]);
	world_close(&w);
}
static void laws(void)
{
	unsigned m = (unsigned)vp_param("m", 2), types = (unsigned)vp_param("types", 6);
	obj_t    x[3];
	int      c[3][3];
	for (unsigned i = 0; i < m; i++)
		make(&x[i], types);
	for (unsigned i = 0; i < m; i++)
		for (unsigned j = 0; j < m; j++) {
			int g = 0;
			OK(cmp(&x[i], &x[j], &c[i][j]));
			if (kind != 5) {
				OK(ccs_binding_cmp((ccs_binding_t)x[i].o, (ccs_binding_t)x[j].o, &g));
				vp_assert(sgn(g) == sgn(c[i][j]), "generic and specific comparison agree");
			}
		}
	for (unsigned i = 0; i < m; i++) {
		vp_assert(c[i][i] == 0, "an object compares equal to itself");
		for (unsigned j = i + 1; j < m; j++) {
			vp_assert(sgn(c[i][j]) == -sgn(c[j][i]), "comparison is antisymmetric");
			vp_assert((c[i][j] == 0) == same(&x[i], &x[j]), "equal exactly when space and content are the same");
		}
	}
	if (m == 3)
		vp_assert(!(c[0][1] <= 0 && c[1][2] <= 0) || c[0][2] <= 0, "comparison is transitive");
	for (unsigned i = 0; i < m; i++)
		rel(x[i].o);
}
/* objects that compare equal have the same content (see laws), and objects with
 * the same content, in different storage, hash equally */
static void hashes(void)
{
	obj_t x, y;
	char  copy[2][3];
	ccs_hash_t h[2] = {1, 2}, g[2];
	make(&x, 6);
	y = x;
	y.o = NULL;
	for (unsigned i = 0; i < n; i++)
		if (y.v[i].type == CCS_DATA_TYPE_STRING && y.v[i].value.s) {
			strcpy(copy[i], y.v[i].value.s);
			y.v[i].value.s = copy[i];
		} else if (y.v[i].type == CCS_DATA_TYPE_NONE || y.v[i].type == CCS_DATA_TYPE_INACTIVE)
			y.v[i].value.i = 5; /* meaningless for these types */
	if (vp_choice(2, "twin configuration") && kind >= 2 && kind < 4) { /* an equal configuration, not the same one */
		ccs_datum_t v = ccs_int(x.cf ? 4 : 3), f = ccs_int((int)x.ft);
		ccs_configuration_t c = mk_config(w.cs, 1, &v);
		ccs_features_t ff = mk_features(w.fs, 1, &f);
		y.o = ev_new(kind - 2, (ccs_objective_space_t)space[y.sp], (ccs_object_t)c, ff, y.r, n, y.v);
		rel(c);
		rel(ff);
	} else
		build(&y);
	int c = 1;
	OK(cmp(&x, &y, &c));
	vp_assert(c == 0, "objects with the same content are equal");
	vp_hash_mask = 2;
	OK(hash(&x, &h[0]));
	OK(hash(&y, &h[1]));
	vp_assert(h[0] == h[1], "equal objects hash equally");
	if (kind != 5) {
		OK(ccs_binding_hash((ccs_binding_t)x.o, &g[0]));
		vp_assert(g[0] == h[0], "generic and specific hash agree");
	}
	vp_hash_mask = 0;
	rel(x.o);
	rel(y.o);
}
static ccs_result_t get_at(ccs_object_t o, size_t i, ccs_datum_t *d)
{
	switch (kind) {
	case 0: return ccs_configuration_get_value((ccs_configuration_t)o, i, d);
	case 1: return ccs_features_get_value((ccs_features_t)o, i, d);
	case 2: return ccs_evaluation_get_value((ccs_evaluation_t)o, i, d);
	case 3: return ccs_features_evaluation_get_value((ccs_features_evaluation_t)o, i, d);
	default: return ccs_tree_evaluation_get_value((ccs_tree_evaluation_t)o, i, d);
	}
}
static ccs_result_t set_at(ccs_object_t o, size_t i, ccs_datum_t d)
{
	switch (kind) {
	case 0: return ccs_configuration_set_value((ccs_configuration_t)o, i, d);
	case 2: return ccs_evaluation_set_value((ccs_evaluation_t)o, i, d);
	case 3: return ccs_features_evaluation_set_value((ccs_features_evaluation_t)o, i, d);
	case 4: return ccs_tree_evaluation_set_value((ccs_tree_evaluation_t)o, i, d);
	default: return ccs_binding_set_value((ccs_binding_t)o, i, d);
	}
}
static ccs_result_t get_all(ccs_object_t o, size_t k, ccs_datum_t *d, size_t *r)
{
	switch (kind) {
	case 0: return ccs_configuration_get_values((ccs_configuration_t)o, k, d, r);
	case 1: return ccs_features_get_values((ccs_features_t)o, k, d, r);
	default: return ev_values(kind - 2, o, k, d, r);
	}
}
static ccs_result_t get_name(ccs_object_t o, const char *s, ccs_datum_t *d)
{
	switch (kind) {
	case 0: return ccs_configuration_get_value_by_name((ccs_configuration_t)o, s, d);
	case 1: return ccs_features_get_value_by_name((ccs_features_t)o, s, d);
	case 2: return ccs_evaluation_get_value_by_name((ccs_evaluation_t)o, s, d);
	case 3: return ccs_features_evaluation_get_value_by_name((ccs_features_evaluation_t)o, s, d);
	default: return ccs_tree_evaluation_get_value_by_name((ccs_tree_evaluation_t)o, s, d);
	}
}
static void lookups(void)
{
	obj_t a, b;
	make(&a, 1);
	make(&b, 1);
	ccs_binding_t o = (ccs_binding_t)a.o;
	ccs_datum_t   g = ccs_none, h = ccs_none, all[2];
	size_t        cnt = 0;
	int           bad = 0;
	unsigned      how = CH(5, "how"), ok = 1;
	size_t        at = 0;
	ccs_datum_t   nv = any(6);
	if (how == 0) { /* by position, any 64-bit one */
		at = vp_u64("index");
		if (at < n) {
			at = (size_t)vp_concretize(at);
			if (vp_choice(2, "generic"))
				OK(ccs_binding_set_value(o, at, nv));
			else
				OK(set_at(a.o, at, nv));
		} else {
			ok = 0;
			ERR(ccs_binding_get_value(o, at, &g));
			ERR(get_at(a.o, at, &g));
			ERR(ccs_binding_set_value(o, at, nv));
			ERR(set_at(a.o, at, nv));
			vp_reach("position out of range");
		}
	} else if (how == 1) { /* by name */
		char s[3];
		s[0] = (char)vp_u8("name");
		s[1] = (char)vp_u8("name");
		s[2] = 0;
		int found = -1;
		for (unsigned i = 0; i < n; i++)
			if (!strcmp(s, names[i]))
				found = (int)i;
		if (found >= 0) {
			at = (size_t)found;
			OK(ccs_binding_set_value_by_name(o, s, nv));
		} else {
			ok = 0;
			ERR(ccs_binding_get_value_by_name(o, s, &g));
			ERR(get_name(a.o, s, &g));
			ERR(ccs_binding_set_value_by_name(o, s, nv));
			vp_reach("unknown name");
		}
	} else if (how == 2) { /* by parameter */
		at = vp_choice(3, "parameter");
		if (at < n)
			OK(ccs_binding_set_value_by_parameter(o, p[at], nv));
		else {
			ok = 0;
			ERR(ccs_binding_get_value_by_parameter(o, p[2], &g));
			ERR(ccs_binding_set_value_by_parameter(o, p[2], nv));
			vp_reach("foreign parameter");
		}
	} else if (how == 3) { /* all at once */
		ccs_datum_t both[3] = {a.v[0], a.v[1], ccs_none};
		at = vp_choice(2, "which");
		both[at] = nv;
		OK(ccs_binding_set_values(o, n, both));
		ERR(ccs_binding_set_values(o, n - 1, both));
		ERR(ccs_binding_set_values(o, n + 1, both));
	} else
		ok = 0;
	if (ok)
		a.v[at] = nv;
	/* every access path sees the same values, and only that object changed */
	OK(ccs_binding_get_values(o, n, all, &cnt));
	vp_assert(cnt == n, "one value per parameter");
	for (unsigned i = 0; i < n; i++)
		bad |= !same_datum(all[i], a.v[i]);
	OK(get_all(a.o, n, all, &cnt));
	bad |= cnt != n;
	for (unsigned i = 0; i < n; i++) {
		bad |= !same_datum(all[i], a.v[i]);
		OK(ccs_binding_get_value(o, i, &g));
		OK(get_at(a.o, i, &h));
		bad |= !same_datum(g, a.v[i]) | !same_datum(h, a.v[i]);
		OK(ccs_binding_get_value_by_name(o, names[i], &g));
		OK(get_name(a.o, names[i], &h));
		bad |= !same_datum(g, a.v[i]) | !same_datum(h, a.v[i]);
		OK(ccs_binding_get_value_by_parameter(o, p[i], &g));
		bad |= !same_datum(g, a.v[i]);
	}
	vp_assert(!bad, "values read by position, name, parameter or array are the stored ones");
	OK(get_all(b.o, n, all, &cnt));
	for (unsigned i = 0; i < n; i++)
		bad |= !same_datum(all[i], b.v[i]);
	vp_assert(!bad, "other objects are unaffected");
	ccs_context_t ctx = NULL;
	OK(ccs_binding_get_context(o, &ctx));
	vp_assert(ctx == (ccs_context_t)space[a.sp], "an object belongs to its space");
	if (kind >= 2) {
		ccs_evaluation_result_t r = 0;
		OK(ev_result(kind - 2, a.o, &r));
		vp_assert(r == a.r, "the result code is the one given");
		int nr = vp_i32("new result");
		OK(ev_set_result(kind - 2, a.o, (ccs_evaluation_result_t)nr));
		OK(ev_result(kind - 2, a.o, &r));
		vp_assert(r == nr, "the result code is the one set");
		ccs_object_t c = NULL;
		OK(kind == 2 ? ccs_evaluation_get_configuration((ccs_evaluation_t)a.o, (ccs_configuration_t *)&c) : kind == 3 ? ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)a.o, (ccs_configuration_t *)&c) : ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)a.o, (ccs_tree_configuration_t *)&c));
		vp_assert(c == config[a.cf], "an evaluation keeps its configuration");
		if (kind == 3) {
			ccs_features_t f = NULL;
			OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)a.o, &f));
			vp_assert(f == feat[a.ft], "an evaluation keeps its features");
		}
	}
	rel(a.o);
	rel(b.o);
}
/* the same questions asked to a space, through its own and the generic interface */
static ccs_result_t s_index(ccs_object_t s, ccs_parameter_t q, size_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameter_index((ccs_configuration_space_t)s, q, r) : kind == 1 ? ccs_features_space_get_parameter_index((ccs_features_space_t)s, q, r) : ccs_objective_space_get_parameter_index((ccs_objective_space_t)s, q, r);
}
static ccs_result_t s_at(ccs_object_t s, size_t i, ccs_parameter_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameter((ccs_configuration_space_t)s, i, r) : kind == 1 ? ccs_features_space_get_parameter((ccs_features_space_t)s, i, r) : ccs_objective_space_get_parameter((ccs_objective_space_t)s, i, r);
}
static ccs_result_t s_name(ccs_object_t s, const char *i, ccs_parameter_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameter_by_name((ccs_configuration_space_t)s, i, r) : kind == 1 ? ccs_features_space_get_parameter_by_name((ccs_features_space_t)s, i, r) : ccs_objective_space_get_parameter_by_name((ccs_objective_space_t)s, i, r);
}
static ccs_result_t s_iname(ccs_object_t s, const char *i, size_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameter_index_by_name((ccs_configuration_space_t)s, i, r) : kind == 1 ? ccs_features_space_get_parameter_index_by_name((ccs_features_space_t)s, i, r) : ccs_objective_space_get_parameter_index_by_name((ccs_objective_space_t)s, i, r);
}
static ccs_result_t s_all(ccs_object_t s, size_t k, ccs_parameter_t *q, size_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameters((ccs_configuration_space_t)s, k, q, r) : kind == 1 ? ccs_features_space_get_parameters((ccs_features_space_t)s, k, q, r) : ccs_objective_space_get_parameters((ccs_objective_space_t)s, k, q, r);
}
static ccs_result_t s_num(ccs_object_t s, size_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_num_parameters((ccs_configuration_space_t)s, r) : kind == 1 ? ccs_features_space_get_num_parameters((ccs_features_space_t)s, r) : ccs_objective_space_get_num_parameters((ccs_objective_space_t)s, r);
}
static ccs_result_t s_idxs(ccs_object_t s, size_t k, ccs_parameter_t *q, size_t *r)
{
	return kind == 0 ? ccs_configuration_space_get_parameter_indexes((ccs_configuration_space_t)s, k, q, r) : kind == 1 ? ccs_features_space_get_parameter_indexes((ccs_features_space_t)s, k, q, r) : ccs_objective_space_get_parameter_indexes((ccs_objective_space_t)s, k, q, r);
}
static ccs_result_t s_valid(ccs_object_t s, size_t i, ccs_datum_t v, ccs_datum_t *r)
{
	return kind == 0 ? ccs_configuration_space_validate_value((ccs_configuration_space_t)s, i, v, r) : kind == 1 ? ccs_features_space_validate_value((ccs_features_space_t)s, i, v, r) : ccs_objective_space_validate_value((ccs_objective_space_t)s, i, v, r);
}
static ccs_result_t s_add(ccs_object_t s, ccs_parameter_t q)
{
	return kind == 0 ? ccs_configuration_space_add_parameter((ccs_configuration_space_t)s, q, NULL) : kind == 1 ? ccs_features_space_add_parameter((ccs_features_space_t)s, q) : ccs_objective_space_add_parameter((ccs_objective_space_t)s, q);
}
static void space_content(ccs_object_t s, unsigned m)
{
	ccs_context_t   c = (ccs_context_t)s;
	ccs_parameter_t q = NULL, r = NULL, all[3];
	size_t          i = 0, j = 0, idx[3];
	int             bad = 0;
	OK(s_num(s, &i));
	OK(ccs_context_get_num_parameters(c, &j));
	vp_assert(i == m && j == m, "a space has the parameters added to it");
	OK(s_all(s, m, all, &i));
	for (unsigned k = 0; k < m; k++) {
		bad |= all[k] != p[k];
		OK(s_at(s, k, &q));
		OK(ccs_context_get_parameter(c, k, &r));
		bad |= q != p[k] || r != p[k];
		OK(s_name(s, names[k], &q));
		OK(ccs_context_get_parameter_by_name(c, names[k], &r));
		bad |= q != p[k] || r != p[k];
		OK(s_iname(s, names[k], &i));
		OK(ccs_context_get_parameter_index_by_name(c, names[k], &j));
		bad |= i != k || j != k;
		OK(s_index(s, p[k], &i));
		OK(ccs_context_get_parameter_index(c, p[k], &j));
		bad |= i != k || j != k;
	}
	OK(s_idxs(s, m, all, idx));
	for (unsigned k = 0; k < m; k++)
		bad |= idx[k] != k;
	vp_assert(!bad, "positions, names and parameters of a space agree");
}
static void spaces(void)
{
	ccs_object_t    s = space[0];
	ccs_context_t   c = (ccs_context_t)s;
	ccs_parameter_t q = NULL, all[2] = {p[1], p[2]};
	size_t          i = 77, idx[2];
	ccs_datum_t     d = ccs_none;
	space_content(s, n);
	size_t at = vp_u64("index");
	if (at >= n) {
		ERR(s_at(s, at, &q));
		ERR(ccs_context_get_parameter(c, at, &q));
		ERR(s_valid(s, at, ccs_float(0.), &d));
		ERR(ccs_context_validate_value(c, at, ccs_float(0.), &d));
		vp_assert(q == NULL, "a refused lookup returns nothing");
	} else {
		at = (size_t)vp_concretize(at);
		double v = vp_num("v");
		int    in = v >= -1. && v < 1.;
		if (in) {
			OK(s_valid(s, at, ccs_float(v), &d));
			vp_assert(same_datum(d, ccs_float(v)), "a valid value is returned as is");
			OK(ccs_context_validate_value(c, at, ccs_float(v), &d));
			vp_assert(same_datum(d, ccs_float(v)), "a valid value is returned as is by the generic interface");
		} else {
			ERR(s_valid(s, at, ccs_float(v), &d));
			ERR(ccs_context_validate_value(c, at, ccs_float(v), &d));
		}
	}
	ERR(s_index(s, p[2], &i));
	ERR(ccs_context_get_parameter_index(c, p[2], &i));
	ERR(s_idxs(s, 2, all, idx));
	ERR(ccs_context_get_parameter_indexes(c, 2, all, idx));
	/* a parameter whose name is not taken is added at the end, others are refused */
	char t[3];
	t[0] = (char)vp_u8("name");
	t[1] = (char)vp_u8("name");
	t[2] = 0;
	ccs_parameter_t x = mk_flt(t, 0., 1., 0.), keep = p[2];
	const char     *got = NULL;
	OK(ccs_parameter_get_name(x, &got));
	vp_assert(!strcmp(got, t), "a parameter has the name it was given");
	int taken = !strcmp(t, names[0]) || !strcmp(t, names[1]);
	if (taken) {
		ERR(s_add(s, x));
		vp_reach("name taken");
		space_content(s, n);
	} else if (!strcmp(t, names[2])) {
		OK(s_add(s, x));
		vp_reach("name free");
		p[2] = x;
		space_content(s, n + 1);
		p[2] = keep;
	} else {
		OK(s_add(s, x));
		OK(s_index(s, x, &i));
		vp_assert(i == n, "a new parameter comes last");
		OK(s_name(s, t, &q));
		vp_assert(q == x, "a new parameter is found by name");
		ERR(s_add(s, x));
	}
	rel(x);
	ERR(s_add(s, p[0]));
	const char *nm = NULL;
	OK(ccs_context_get_name(c, &nm));
	vp_assert(!strcmp(nm, "s"), "a space keeps its name");
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t live = vp_heap_live();
	kind = CH(6, "kind");
	n = (unsigned)vp_param("n", 2);
	unsigned what = CH(4, "what");
	setup();
	if (what == 0)
		laws();
	else if (what == 1)
		lookups();
	else if (what == 3)
		hashes();
	else
		spaces();
	teardown();
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
