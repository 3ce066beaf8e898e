#include "zoo.h"
/* P20: random results depend on the generator's state only. */
#define OBS 24
typedef struct {
	zoo_t        z;
	ccs_object_t o;
	ccs_rng_t    g;
	ccs_datum_t  v[OBS];
	unsigned     n;
	ccs_object_t held[8];
	unsigned     nh;
	ccs_object_t own_g, d;
} side_t;
static side_t A, B, C;
static unsigned kind;
static void see(side_t *s, ccs_datum_t d)
{
	vp_assert_(s->n < OBS, "harness: too many results");
	s->v[s->n++] = d;
}
static int owns(unsigned k) { return k == Z_CSPACE || k == Z_STATIC_TS || k == Z_DYNAMIC_TS || (k >= Z_RANDOM_TUNER && k <= Z_RANDOM_TTUNER); }
/* the generator of the object, or one for it */
static void generator(side_t *s)
{
	ccs_configuration_space_t cs = NULL;
	ccs_tree_space_t          ts = NULL;
	switch (kind) {
	case Z_CSPACE: cs = (ccs_configuration_space_t)s->o; break;
	case Z_STATIC_TS: case Z_DYNAMIC_TS: ts = (ccs_tree_space_t)s->o; break;
	case Z_RANDOM_TUNER: OK(ccs_tuner_get_configuration_space((ccs_tuner_t)s->o, &cs)); break;
	case Z_RANDOM_FTUNER: OK(ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)s->o, &cs)); break;
	case Z_RANDOM_TTUNER: OK(ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)s->o, &ts)); break;
	}
	if (cs)
		OK(ccs_configuration_space_get_rng(cs, &s->g));
	else if (ts)
		OK(ccs_tree_space_get_rng(ts, &s->g));
	else if (kind == Z_RNG)
		s->g = (ccs_rng_t)s->o;
	else {
		OK(ccs_create_rng(&s->g));
		s->own_g = (ccs_object_t)s->g;
	}
}
static void make(side_t *s)
{
	zoo_make(&s->z, kind);
	s->o = s->z.o;
	generator(s);
	if (kind <= Z_DISCRETE)
		OK(ccs_parameter_get_default_distribution((ccs_parameter_t)s->o, (ccs_distribution_t *)&s->d));
}
static void unmake(side_t *s)
{
	while (s->nh)
		rel(s->held[--s->nh]);
	if (s->own_g)
		rel(s->own_g);
	if (s->d)
		rel(s->d);
	if (s->z.o)
		zoo_free(&s->z);
}
static void hold_config(side_t *s, ccs_object_t c)
{
	ccs_datum_t v[8];
	size_t      n = 0;
	s->held[s->nh++] = c;
	if (kind == Z_STATIC_TS || kind == Z_DYNAMIC_TS || kind == Z_RANDOM_TTUNER) {
		size_t p[8];
		OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, 8, p, &n));
		see(s, ccs_int((ccs_int_t)n));
		for (size_t i = 0; i < n; i++)
			see(s, ccs_int((ccs_int_t)p[i]));
		return;
	}
	OK(ccs_configuration_get_values((ccs_configuration_t)c, 8, v, &n));
	for (size_t i = 0; i < n; i++)
		see(s, v[i]);
}
/* some results */
static void draw(side_t *s, unsigned how)
{
	ccs_object_t  c[2] = {NULL, NULL};
	ccs_numeric_t x[8];
	size_t        n = 0;
	unsigned      k = how ? 2 : 1;
	memset(x, 0, sizeof(x));
	if (kind == Z_RNG) {
		unsigned long u = 0;
		double        f = 0;
		if (how)
			OK(ccs_rng_uniform(s->g, &f));
		else
			OK(ccs_rng_get(s->g, &u));
		see(s, ccs_int((ccs_int_t)u));
		see(s, ccs_float(f));
	} else if (kind <= Z_DISCRETE) {
		ccs_datum_t v[2] = {ccs_none, ccs_none};
		if (how)
			OK(ccs_parameter_samples((ccs_parameter_t)s->o, (ccs_distribution_t)s->d, s->g, 2, v));
		else
			OK(ccs_parameter_sample((ccs_parameter_t)s->o, (ccs_distribution_t)s->d, s->g, v));
		see(s, v[0]);
		see(s, v[1]);
	} else if (kind <= Z_MULTIVARIATE) {
		size_t dim = 0;
		OK(ccs_distribution_get_dimension((ccs_distribution_t)s->o, &dim));
		if (how == 0)
			OK(ccs_distribution_sample((ccs_distribution_t)s->o, s->g, x));
		else if (how == 1)
			OK(ccs_distribution_samples((ccs_distribution_t)s->o, s->g, 2, x));
		else {
			ccs_numeric_t *p[4] = {x, x + 2, x + 4, x + 6};
			OK(ccs_distribution_soa_samples((ccs_distribution_t)s->o, s->g, 2, p));
		}
		for (unsigned i = 0; i < 8; i++)
			see(s, ccs_int(x[i].i));
	} else if (kind == Z_TREE) {
		size_t i[2] = {0, 0};
		if (how)
			OK(ccs_tree_samples((ccs_tree_t)s->o, s->g, 2, i));
		else
			OK(ccs_tree_sample((ccs_tree_t)s->o, s->g, i));
		see(s, ccs_int((ccs_int_t)i[0]));
		see(s, ccs_int((ccs_int_t)i[1]));
	} else {
		switch (kind) {
		case Z_CSPACE: OK(how ? ccs_configuration_space_samples((ccs_configuration_space_t)s->o, 2, (ccs_configuration_t *)c) : ccs_configuration_space_sample((ccs_configuration_space_t)s->o, (ccs_configuration_t *)c)); break;
		case Z_STATIC_TS: case Z_DYNAMIC_TS: OK(how ? ccs_tree_space_samples((ccs_tree_space_t)s->o, 2, (ccs_tree_configuration_t *)c) : ccs_tree_space_sample((ccs_tree_space_t)s->o, (ccs_tree_configuration_t *)c)); break;
		case Z_RANDOM_TUNER:
			k = 1;
			OK(how ? ccs_tuner_suggest((ccs_tuner_t)s->o, (ccs_configuration_t *)c) : ccs_tuner_ask((ccs_tuner_t)s->o, 1, (ccs_configuration_t *)c, &n));
			break;
		case Z_RANDOM_FTUNER: {
			ccs_features_evaluation_t h[4];
			ccs_features_t            f = NULL;
			k = 1;
			OK(ccs_features_tuner_get_history((ccs_features_tuner_t)s->o, NULL, 4, h, &n));
			OK(ccs_features_evaluation_get_features(h[0], &f));
			OK(how ? ccs_features_tuner_suggest((ccs_features_tuner_t)s->o, f, (ccs_configuration_t *)c) : ccs_features_tuner_ask((ccs_features_tuner_t)s->o, f, 1, (ccs_configuration_t *)c, &n));
			break;
		}
		default:
			k = 1;
			OK(how ? ccs_tree_tuner_suggest((ccs_tree_tuner_t)s->o, (ccs_tree_configuration_t *)c) : ccs_tree_tuner_ask((ccs_tree_tuner_t)s->o, 1, (ccs_tree_configuration_t *)c, &n));
		}
		for (unsigned i = 0; i < k; i++)
			hold_config(s, c[i]);
	}
}
static void same(void)
{
	int ok = A.n == B.n;
	for (unsigned i = 0; i < A.n && i < B.n; i++)
		ok &= same_datum(A.v[i], B.v[i]);
	vp_assert(ok, "the same state gives the same results");
}
/* both generators are where the other is */
static void together(void)
{
	unsigned long x = 1, y = 2, m = 3, w = 4;
	const gsl_rng_type *t = NULL, *u = NULL;
	OK(ccs_rng_get(A.g, &x));
	OK(ccs_rng_get(B.g, &y));
	vp_assert(x == y, "the same draws are used up");
	OK(ccs_rng_max(A.g, &m));
	OK(ccs_rng_max(B.g, &w));
	OK(ccs_rng_get_type(A.g, &t));
	OK(ccs_rng_get_type(B.g, &u));
	vp_assert(m == w && t == u, "the generators are of the same type");
}
static ccs_result_t thaw(zoo_t *z, size_t n, const char *d, ccs_object_t *o)
{
	if (z->vector)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_VECTOR, z->vector, CCS_DESERIALIZE_OPTION_DATA, z->data2, CCS_DESERIALIZE_OPTION_END);
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, d, CCS_DESERIALIZE_OPTION_END);
}
/* a copy of A through its serialized form */
static void copy(void)
{
	ccs_object_t what = owns(kind) || kind == Z_RNG ? A.o : (ccs_object_t)A.g, o = NULL;
	size_t       sz = 0;
	OK(ccs_object_serialize(what, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
	char *b = malloc(sz);
	OK(ccs_object_serialize(what, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END));
	OK(thaw(&A.z, sz, b, &o));
	free(b);
	B.held[B.nh++] = o;
	if (what == A.o) {
		B.o = o;
		generator(&B);
	} else {
		B.o = A.o;
		B.g = (ccs_rng_t)o;
		if (A.d) {
			OK(ccs_retain_object(A.d));
			B.d = A.d;
		}
	}
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	unsigned mode = (unsigned)CH(3, "mode"), how = (unsigned)CH(3, "how"), other = (unsigned)CH(2, "other");
	uint64_t seed = vp_u64("seed");
	kind = CH(Z_KINDS, "kind");
	if (how == 2 && !(kind >= Z_UNIFORM_INT && kind <= Z_MULTIVARIATE))
		vp_kill();
	z_f = (int)vp_param("f", -1);
	make(&A);
	z_f = -1;
	vp_draw_limit = (unsigned)vp_param("draws", 6);
	if (other) { /* another object of that kind has its own generator */
		make(&C);
		OK(ccs_rng_set_seed(C.g, 77));
	}
	OK(ccs_rng_set_seed(A.g, seed));
	switch (mode) {
	case 0: /* twins */
		make(&B);
		OK(ccs_rng_set_seed(B.g, seed));
		draw(&A, how);
		if (other)
			draw(&C, 0);
		draw(&B, how);
		break;
	case 1: /* saved and restored in the middle */
		draw(&A, 0);
		copy();
		A.n = 0;
		draw(&A, how);
		if (other)
			draw(&C, 0);
		draw(&B, how);
		break;
	default: { /* seeded again */
		draw(&A, how);
		OK(ccs_rng_set_seed(A.g, seed));
		if (other)
			draw(&C, 0);
		B.o = A.o;
		B.g = A.g;
		B.d = A.d;
		draw(&B, how);
		same();
		vp_reach("seeded again");
		B.d = NULL;
		unmake(&B);
		if (other)
			unmake(&C);
		unmake(&A);
		vp_assert(vp_heap_live() == live, "everything is released");
		ccs_fini();
		return;
	}
	}
	same();
	together();
	if (mode)
		vp_reach("restored in the middle");
	else
		vp_reach("twins");
	unmake(&B);
	if (other)
		unmake(&C);
	unmake(&A);
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
