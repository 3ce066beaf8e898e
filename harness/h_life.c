#include "zoo.h"
/* P16: objects live exactly as long as they are referenced. */
#define MAX 26
static zoo_t        z;
static ccs_object_t all[MAX];
static unsigned     runs[MAX][2], n;
static char        *bytes[MAX];
static size_t       size[MAX];
static unsigned char reach[MAX][MAX];
static int          broken;
static void gone(ccs_object_t o, void *d)
{
	ccs_object_type_t t = (ccs_object_type_t)-1;
	unsigned i = (unsigned)((uintptr_t)d & 0xff), k = (unsigned)((uintptr_t)d >> 8);
	if (i < MAX && k < 2 && all[i] == o && ccs_object_get_type(o, &t) == CCS_RESULT_SUCCESS)
		runs[i][k]++;
	else
		broken = 1;
}
static void watch(ccs_object_t o)
{
	all[n] = o;
	OK(ccs_object_set_destroy_callback(o, &gone, (void *)(uintptr_t)n));
	OK(ccs_object_set_destroy_callback(o, &gone, (void *)(uintptr_t)(n | 0x100)));
	n++;
}
static char *freeze(ccs_object_t o, size_t *sz)
{
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, sz, CCS_SERIALIZE_OPTION_END));
	char *b = malloc(*sz);
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, *sz, b, CCS_SERIALIZE_OPTION_END));
	return b;
}
/* the serialized form of an object has the handles of those it is made of */
static int has_handle(const char *b, size_t sz, ccs_object_t o)
{
	for (size_t i = 13; i < sz; i++) {
		uint64_t v = 0;
		size_t   j = i;
		do
			v |= (uint64_t)((unsigned char)b[j] & 0x7f) << (7 * (j - i));
		while (((unsigned char)b[j++] & 0x80) && j < sz && j < i + 9);
		if (v == (uint64_t)(uintptr_t)o)
			return 1;
	}
	return 0;
}
/* one object is kept while the others are released in some order */
static void lifetimes(void)
{
	unsigned kind = CH(Z_KINDS, "kind");
	z_f = (int)vp_param("f", -1);
	zoo_make(&z, kind);
	for (unsigned i = 0; i < z.n; i++)
		watch(z.own[i]);
	watch(z.o);
	for (unsigned i = 0; i < n; i++)
		bytes[i] = freeze(all[i], &size[i]);
	for (unsigned i = 0; i < n; i++)
		for (unsigned j = 0; j < n; j++)
			reach[i][j] = i == j || (z_f < 0 && has_handle(bytes[i], size[i], all[j]));
	for (unsigned k = 0; k < n; k++)
		for (unsigned i = 0; i < n; i++)
			for (unsigned j = 0; j < n; j++)
				reach[i][j] |= reach[i][k] & reach[k][j];
	unsigned keep = vp_choice(n, "kept"), order = vp_choice(3, "order"), extra = vp_choice(2, "extra");
	if (extra)
		OK(ccs_retain_object(all[keep]));
	for (unsigned i = 0; i < n; i++) {
		unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : (i + n - 1) % n; /* oldest first, newest first, root first */
		if (j != keep)
			OK(ccs_release_object(all[j]));
	}
	if (extra)
		OK(ccs_release_object(all[keep]));
	unsigned early = 0, late = 0, twice = 0;
	for (unsigned j = 0; j < n; j++) {
		early += reach[keep][j] && (runs[j][0] || runs[j][1]);
		late += !reach[keep][j] && !(runs[j][0] && runs[j][1]);
		twice += runs[j][0] > 1 || runs[j][1] > 1;
	}
	vp_assert(!early, "what is referenced lives");
	if (z_f < 0) /* (any value can look like a handle) */
		vp_assert(!late, "what is not referenced is destroyed");
	size_t s = 0;
	char  *b = freeze(all[keep], &s);
	vp_assert(s == size[keep] && !memcmp(b, bytes[keep], s), "an object that is kept is unchanged");
	free(b);
	OK(ccs_release_object(all[keep]));
	for (unsigned j = 0; j < n; j++)
		twice += runs[j][0] != 1 || runs[j][1] != 1;
	vp_assert(!twice && !broken, "each destruction callback runs once");
	for (unsigned i = 0; i < n; i++)
		free(bytes[i]);
	z.o = NULL;
	z.n = 0;
	zoo_free(&z);
}
static unsigned dead(unsigned i) { vp_assert(runs[i][0] == runs[i][1] && runs[i][0] <= 1 && !broken, "destruction callbacks run together"); return runs[i][0]; }
/* objects put in others, replaced and taken out */
static void replaced(void)
{
	unsigned op = (unsigned)CH(8, "op"), mine = vp_choice(2, "mine");
	ccs_object_t a = NULL, b = NULL, k = NULL, t = NULL;
	switch (op) {
	case 0: case 1: { /* generators of spaces */
		zoo_make(&z, op ? Z_STATIC_TS : Z_CSPACE);
		OK(ccs_create_rng((ccs_rng_t *)&a));
		OK(ccs_create_rng((ccs_rng_t *)&b));
		watch(a);
		watch(b);
		t = z.o;
		OK(op ? ccs_tree_space_set_rng((ccs_tree_space_t)t, (ccs_rng_t)a) : ccs_configuration_space_set_rng((ccs_configuration_space_t)t, (ccs_rng_t)a));
		if (!mine)
			OK(ccs_release_object(a));
		vp_assert(!dead(0), "a generator in use lives");
		if (vp_choice(2, "same")) { /* replaced by itself */
			OK(op ? ccs_tree_space_set_rng((ccs_tree_space_t)t, (ccs_rng_t)a) : ccs_configuration_space_set_rng((ccs_configuration_space_t)t, (ccs_rng_t)a));
			vp_assert(!dead(0), "a generator in use lives");
		}
		OK(op ? ccs_tree_space_set_rng((ccs_tree_space_t)t, (ccs_rng_t)b) : ccs_configuration_space_set_rng((ccs_configuration_space_t)t, (ccs_rng_t)b));
		OK(ccs_release_object(b));
		vp_assert(dead(0) == !mine && !dead(1), "a replaced generator is released");
		if (mine)
			OK(ccs_release_object(a));
		zoo_free(&z);
		vp_assert(dead(0) && dead(1), "everything replaced is destroyed");
		break;
	}
	case 2: { /* distributions of parameters */
		size_t two[2] = {0, 1}, one = vp_choice(2, "at");
		ccs_parameter_t p[2] = {mk_int("x", 0, 10, 1), mk_int("y", 0, 10, 1)};
		ccs_configuration_space_t cs = mk_cspace("s", 2, p);
		ccs_distribution_t        d[2], m = NULL;
		OK(ccs_create_uniform_int_distribution(2, 8, CCS_SCALE_TYPE_LINEAR, 0, &d[0]));
		OK(ccs_create_uniform_int_distribution(3, 7, CCS_SCALE_TYPE_LINEAR, 0, &d[1]));
		OK(ccs_create_multivariate_distribution(2, d, &m));
		watch((ccs_object_t)d[0]);
		watch((ccs_object_t)d[1]);
		watch((ccs_object_t)m);
		OK(ccs_configuration_space_set_distribution(cs, m, two));
		if (!mine)
			OK(ccs_release_object(m));
		OK(ccs_release_object(d[1]));
		vp_assert(!dead(0) && !dead(1) && !dead(2), "distributions in use live");
		OK(ccs_configuration_space_set_distribution(cs, d[0], &one));
		OK(ccs_release_object(d[0]));
		vp_assert(!dead(0) && dead(1) == !mine && dead(2) == !mine, "a replaced distribution is released");
		if (mine)
			OK(ccs_release_object(m));
		vp_assert(dead(1) && dead(2), "a replaced distribution is destroyed");
		if (vp_choice(2, "again")) {
			OK(ccs_create_uniform_int_distribution(4, 6, CCS_SCALE_TYPE_LINEAR, 0, &d[1]));
			OK(ccs_configuration_space_set_distribution(cs, d[1], &one));
			rel(d[1]);
			vp_assert(dead(0), "a replaced distribution is destroyed");
		}
		rel(cs);
		rel(p[0]);
		rel(p[1]);
		vp_assert(dead(0), "everything replaced is destroyed");
		break;
	}
	case 3: { /* keys and values of maps */
		ccs_map_t m = NULL;
		OK(ccs_create_map(&m));
		k = (ccs_object_t)mk_int("k", 0, 1, 0);
		a = (ccs_object_t)mk_int("a", 0, 1, 0);
		b = (ccs_object_t)mk_int("b", 0, 1, 0);
		watch(k);
		watch(a);
		watch(b);
		OK(ccs_map_set(m, ccs_object(k), ccs_object(a)));
		OK(ccs_release_object(a));
		vp_assert(!dead(0) && !dead(1), "keys and values live");
		unsigned how = vp_choice(4, "how");
		if (how != 3) {
			if (how == 0)
				OK(ccs_map_set(m, ccs_object(k), ccs_object(b)));
			else if (how == 1)
				OK(ccs_map_del(m, ccs_object(k)));
			else
				OK(ccs_map_clear(m));
			vp_assert(dead(1) && !dead(0), "a value taken out is released");
		}
		OK(ccs_release_object(k));
		OK(ccs_release_object(b));
		vp_assert(dead(0) == (how == 1 || how == 2) && dead(2) == (how != 0), "keys and values live as long as their entry");
		rel(m);
		vp_assert(dead(0) && dead(1) && dead(2), "everything replaced is destroyed");
		break;
	}
	case 4: case 5: case 6: { /* what was asked outlives the tuner */
		zoo_make(&z, op == 4 ? Z_RANDOM_TUNER : op == 5 ? Z_RANDOM_FTUNER : Z_RANDOM_TTUNER);
		vp_draw_limit = 4;
		unsigned how = vp_choice(2, "how");
		size_t   c = 0;
		ccs_features_evaluation_t h[4];
		ccs_features_t            f = NULL;
		if (op == 5) {
			OK(ccs_features_tuner_get_history((ccs_features_tuner_t)z.o, NULL, 4, h, &c));
			OK(ccs_features_evaluation_get_features(h[0], &f));
		}
		if (how)
			OK(op == 4 ? ccs_tuner_suggest((ccs_tuner_t)z.o, (ccs_configuration_t *)&a) : op == 5 ? ccs_features_tuner_suggest((ccs_features_tuner_t)z.o, f, (ccs_configuration_t *)&a) : ccs_tree_tuner_suggest((ccs_tree_tuner_t)z.o, (ccs_tree_configuration_t *)&a));
		else
			OK(op == 4 ? ccs_tuner_ask((ccs_tuner_t)z.o, 1, (ccs_configuration_t *)&a, &c) : op == 5 ? ccs_features_tuner_ask((ccs_features_tuner_t)z.o, f, 1, (ccs_configuration_t *)&a, &c) : ccs_tree_tuner_ask((ccs_tree_tuner_t)z.o, 1, (ccs_tree_configuration_t *)&a, &c));
		watch(a);
		zoo_free(&z);
		vp_assert(!dead(0), "what was asked outlives the tuner");
		size_t s = 0;
		free(freeze(a, &s));
		if (op != 6) {
			ccs_bool_t v = CCS_FALSE;
			OK(ccs_configuration_check((ccs_configuration_t)a, &v));
			vp_assert(v == CCS_TRUE, "what was asked is still valid");
		}
		rel(a);
		vp_assert(dead(0), "everything replaced is destroyed");
		break;
	}
	default: { /* default distributions outlive their parameters; trees in trees */
		unsigned how = vp_choice(3, "how");
		if (how == 0) {
			zoo_make(&z, vp_choice(5, "kind"));
			OK(ccs_parameter_get_default_distribution((ccs_parameter_t)z.o, (ccs_distribution_t *)&a));
			watch(a);
			zoo_free(&z);
			size_t s = 0;
			free(freeze(a, &s));
			vp_assert(!dead(0), "a distribution outlives its parameter");
			rel(a);
			vp_assert(dead(0), "everything replaced is destroyed");
		} else {
			ccs_tree_t r = mk_tree(2, 1), c = mk_tree(1, 2), l = mk_tree(0, 3), p = NULL;
			watch((ccs_object_t)r);
			watch((ccs_object_t)c);
			watch((ccs_object_t)l);
			OK(ccs_tree_set_child(c, 0, l));
			OK(ccs_tree_set_child(r, vp_choice(2, "at"), c));
			OK(ccs_release_object(l));
			if (how == 1)
				OK(ccs_release_object(c));
			vp_assert(!dead(0) && !dead(1) && !dead(2), "nodes of a tree live");
			OK(ccs_release_object(r));
			vp_assert(dead(0) && dead(1) == (how == 1) && dead(2) == (how == 1), "nodes live as long as their tree");
			if (how == 2) { /* a branch that outlives its tree is a root */
				OK(ccs_tree_get_parent(c, &p, NULL));
				vp_assert(p == NULL, "a node does not refer to a parent that is gone");
				size_t pos[3], ps = 7;
				OK(ccs_tree_get_position(c, 3, pos, &ps));
				vp_assert(ps == 0, "a branch that outlives its tree is a root");
				OK(ccs_tree_get_position(l, 3, pos, &ps));
				vp_assert(ps == 1 && pos[0] == 0, "a branch that outlives its tree is a root");
				OK(ccs_release_object(c));
			}
			vp_assert(dead(1) && dead(2), "everything replaced is destroyed");
		}
	}
	}
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	if (vp_param("what", 0) == 0)
		lifetimes();
	else
		replaced();
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
