SEEDS = {}
def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

TUNER_PRE = r'''
static ccs_parameter_t ip(const char *n, ccs_int_t lo, ccs_int_t hi) { ccs_parameter_t p; OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_INT, CCSI(lo), CCSI(hi), CCSI(0), CCSI(lo), &p)); return p; }
static ccs_parameter_t fp(const char *n, double lo, double hi) { ccs_parameter_t p; OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_FLOAT, CCSF(lo), CCSF(hi), CCSF(0), CCSF(lo), &p)); return p; }
static ccs_expression_t var(ccs_parameter_t p) { ccs_expression_t e; OK(ccs_create_variable(p, &e)); return e; }
static ccs_configuration_space_t cs; static ccs_objective_space_t os; static ccs_parameter_t x, o[3];
static void setup(int n, ccs_int_t hi)
{
	OK(ccs_create_configuration_space("cs", &cs)); x = ip("x", 0, 100); OK(ccs_configuration_space_add_parameter(cs, x, NULL));
	OK(ccs_create_objective_space("os", &os));
	const char *names[] = {"o0", "o1", "o2"};
	for (int i = 0; i < n; i++) { o[i] = ip(names[i], -hi, hi); OK(ccs_objective_space_add_parameter(os, o[i])); OK(ccs_objective_space_add_objective(os, var(o[i]), CCS_OBJECTIVE_TYPE_MINIMIZE)); }
}
static ccs_evaluation_t ev(int cfg, int n, ccs_int_t a, ccs_int_t b, ccs_int_t c)
{
	ccs_datum_t cv = ccs_int(cfg), v[3] = {ccs_int(a), ccs_int(b), ccs_int(c)}; ccs_configuration_t k; ccs_evaluation_t e;
	OK(ccs_create_configuration(cs, 1, &cv, &k)); OK(ccs_create_evaluation(os, k, CCS_RESULT_SUCCESS, n, v, &e)); return e;
}
'''
seed("s04-a", "P04", [("src/interval.c", """		l2         = interval2->lower_included ? interval2->lower.i :
							 interval2->lower.i + 1;""", """		l2         = interval2->lower_included || interval2->lower.i ==
							 interval1->lower.i ?
				     interval2->lower.i :
				     interval2->lower.i + 1;""")],
     "two integer intervals with the same numeric lower bound where only the second excludes it", "interval equality ignores whether the second interval includes a shared lower bound",
     r'''
	ccs_interval_t a = {CCS_NUMERIC_TYPE_INT, CCSI(1), CCSI(5), CCS_TRUE, CCS_TRUE}, b = {CCS_NUMERIC_TYPE_INT, CCSI(1), CCSI(5), CCS_FALSE, CCS_TRUE};
	ccs_bool_t e;
	OK(ccs_interval_equal(&a, &b, &e));
	CHECK(!e);
''')
seed("s12-a", "P12", [("src/evaluation.c", """		return a->value.i < b->value.i ? -1 :
		       a->value.i > b->value.i ? 1 :
						 0;""", """		ccs_float_t diff = (ccs_float_t)a->value.i -
				   (ccs_float_t)b->value.i;
		return diff < 0 ? -1 : diff > 0 ? 1 : 0;""")],
     "close integer objective values above 2^53", "integer objective values that differ only in their low bits are reported as equivalent",
     r'''
	setup(1, INT64_MAX / 4);
	ccs_comparison_t c;
	OK(ccs_evaluation_compare(ev(0, 1, (1LL << 60) + 1, 0, 0), ev(1, 1, (1LL << 60) + 2, 0, 0), &c));
	CHECK(c == CCS_COMPARISON_BETTER);
''', pre=TUNER_PRE)
seed("s12-b", "P12", [("src/features_evaluation.c", """			if (*result_ret == CCS_COMPARISON_EQUIVALENT)""", """			if (i == 0 || *result_ret == CCS_COMPARISON_EQUIVALENT)"""),
                      ("src/features_evaluation.c", """			else if (*result_ret != cmp) {
				*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
				return CCS_RESULT_SUCCESS;
			}""", """			else if (i + 1 == count && *result_ret != cmp) {
				*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
				return CCS_RESULT_SUCCESS;
			}""")],
     "features evaluations over three objectives where the conflict is in the middle objective and the last one ties or agrees", "conflicting objectives in the middle are ignored: an evaluation that is worse on one objective is reported as dominating",
     r'''
	setup(3, 1000);
	ccs_features_space_t fs; ccs_features_t f; ccs_parameter_t p = ip("f", 0, 10); ccs_datum_t fv = ccs_int(1), cv = ccs_int(3);
	OK(ccs_create_features_space("fs", &fs)); OK(ccs_features_space_add_parameter(fs, p)); OK(ccs_create_features(fs, 1, &fv, &f));
	ccs_configuration_t k; OK(ccs_create_configuration(cs, 1, &cv, &k));
	ccs_datum_t v1[3] = {ccs_int(1), ccs_int(5), ccs_int(2)}, v2[3] = {ccs_int(2), ccs_int(4), ccs_int(2)};
	ccs_features_evaluation_t e1, e2; ccs_comparison_t c;
	OK(ccs_create_features_evaluation(os, k, f, CCS_RESULT_SUCCESS, 3, v1, &e1));
	OK(ccs_create_features_evaluation(os, k, f, CCS_RESULT_SUCCESS, 3, v2, &e2));
	OK(ccs_features_evaluation_compare(e1, e2, &c));
	CHECK(c == CCS_COMPARISON_NOT_COMPARABLE);
''', pre=TUNER_PRE)
seed("s13-a", "P13", [("src/tree_tuner_random.c", """						case CCS_COMPARISON_BETTER:
							break;""", """						case CCS_COMPARISON_BETTER:
							/* takes the place of the one it beats */
							discard = 1;
							utarray_push_back(
								d->optima,
								evaluations + i);
							break;""")],
     "an evaluation that dominates two earlier optima that are not comparable with each other", "a dominated evaluation stays among the optima",
     r'''
	setup(2, 1000);
	ccs_tree_t r; OK(ccs_create_tree(3, ccs_int(0), &r));
	ccs_tree_space_t ts; OK(ccs_create_static_tree_space("ts", r, &ts));
	ccs_tree_tuner_t t; OK(ccs_create_random_tree_tuner("t", ts, os, &t));
	ccs_int_t v[3][2] = {{5, 6}, {6, 5}, {4, 4}};
	for (int i = 0; i < 3; i++) {
		ccs_tree_configuration_t c; ccs_tree_evaluation_t e; ccs_datum_t d[2] = {ccs_int(v[i][0]), ccs_int(v[i][1])};
		OK(ccs_create_tree_configuration(ts, 0, NULL, &c));
		OK(ccs_create_tree_evaluation(os, c, CCS_RESULT_SUCCESS, 2, d, &e));
		OK(ccs_tree_tuner_tell(t, 1, &e));
	}
	size_t n; OK(ccs_tree_tuner_get_optima(t, 0, NULL, &n));
	CHECK(n == 1);
''', pre=TUNER_PRE)
seed("s11-a", "P11", [("src/datum_hash.h", """			else
				return strcmp(a->value.s, b->value.s);""", """			else
				return strncmp(
					a->value.s, b->value.s,
					strlen(a->value.s));""")],
     "two strings of which the first is a prefix of the second", "configurations holding different strings compare as equal",
     r'''
	int c = 0;
	ccs_parameter_t p; ccs_datum_t v[2] = {ccs_string("ab"), ccs_string("a")};
	ccs_features_t cf[2]; ccs_features_space_t cs; OK(ccs_create_features_space("cs", &cs));
	OK(ccs_create_string_parameter("s", &p)); OK(ccs_features_space_add_parameter(cs, p));
	OK(ccs_create_features(cs, 1, v, cf)); OK(ccs_create_features(cs, 1, v + 1, cf + 1));
	OK(ccs_features_cmp(cf[1], cf[0], &c));
	CHECK(c != 0);
''')
seed("s15-a", "P15", [("src/map.c", """		if (!_datum_cmp(&value, &old_entry->value))
			return CCS_RESULT_SUCCESS;
""", """		if (value.type == CCS_DATA_TYPE_FLOAT &&
				    old_entry->value.type ==
					    CCS_DATA_TYPE_FLOAT ?
			    value.value.f == old_entry->value.value.f :
			    !_datum_cmp(&value, &old_entry->value))
			return CCS_RESULT_SUCCESS;
""")],
     "overwriting 0.0 with -0.0 (or the reverse)", "a map keeps the previous value instead of the one just stored",
     r'''
	ccs_map_t m; ccs_datum_t v;
	OK(ccs_create_map(&m));
	OK(ccs_map_set(m, ccs_int(1), ccs_float(0.0)));
	OK(ccs_map_set(m, ccs_int(1), ccs_float(-0.0)));
	OK(ccs_map_get(m, ccs_int(1), &v));
	CHECK(signbit(v.value.f));
''')
seed("s01-a", "P01", [("src/cconfigspace_internal.h", "	return sz + _ccs_serialize_bin_size_size(sz);\n}\n\nstatic inline ccs_result_t\n_ccs_serialize_bin_string(", "	return sz + _ccs_serialize_bin_size_size(sz - 1);\n}\n\nstatic inline ccs_result_t\n_ccs_serialize_bin_string(")],
     "a string of exactly 127 (or 16383) characters", "the announced size is one byte short", r'''
	for (size_t l = 120; l < 135; l++) {
		char n[200]; memset(n, 'a', sizeof(n)); n[l] = 0;
		ccs_parameter_t p; size_t sz; char b[1000];
		OK(ccs_create_string_parameter(n, &p));
		OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
		OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END));
	}
''')
seed("s02-a", "P02", [("src/cconfigspace_internal.h", "CCS_CONVERTER_COMPRESSED_SIGNED(\n	ccs_evaluation_result,\n	ccs_evaluation_result_t,\n	32)", "CCS_CONVERTER_COMPRESSED_SIGNED(\n	ccs_evaluation_result,\n	ccs_evaluation_result_t,\n	16)")],
     "an evaluation whose result code does not fit in 16 bits", "large result codes are changed by serialization", r'''
	setup(1, 100);
	ccs_datum_t cv = ccs_int(1), v = ccs_int(2); ccs_configuration_t k; ccs_evaluation_t e, e2; ccs_evaluation_result_t r; size_t sz; char b[1000]; ccs_map_t m;
	OK(ccs_create_configuration(cs, 1, &cv, &k)); OK(ccs_create_evaluation(os, k, 70000, 1, &v, &e));
	OK(ccs_create_map(&m)); OK(ccs_map_set(m, ccs_object(os), ccs_object(os))); OK(ccs_map_set(m, ccs_object(cs), ccs_object(cs))); OK(ccs_map_set(m, ccs_object(k), ccs_object(k)));
	OK(ccs_object_serialize(e, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
	OK(ccs_object_serialize(e, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END));
	OK(ccs_object_deserialize((ccs_object_t *)&e2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
	OK(ccs_evaluation_get_result(e2, &r)); CHECK(r == 70000);
''', pre=TUNER_PRE)
seed("s07-a", "P07", [("src/expression.c", """			*cmp = a->value.f < b->value.i ? -1 :
			       a->value.f > b->value.i ? 1 :
							 0;""", """			ccs_int_t v = (ccs_int_t)a->value.f;
			*cmp = v < b->value.i ? -1 : v > b->value.i ? 1 : 0;""")],
     "ordering a non-integral float on the left against the integer just below it", "the fraction of the float is dropped", r'''
	ccs_expression_t e; ccs_datum_t r;
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_GREATER, ccs_float(2.5), ccs_int(2), &e));
	OK(ccs_expression_eval(e, NULL, NULL, &r));
	CHECK(r.type == CCS_DATA_TYPE_BOOL && r.value.i);
''')
seed("s14-a", "P14", [("src/tree.c", """		if (sum_weights > 0)
			_ccs_distribution_roulette_normalize_areas(
				tree_data->arity + 1, tree_data->weights,
				1.0 / (tree_data->sum_weights),
				tree_data->areas);
""", """		if (sum_weights <= 0)
			break;
		_ccs_distribution_roulette_normalize_areas(
			tree_data->arity + 1, tree_data->weights,
			1.0 / (tree_data->sum_weights), tree_data->areas);
""")],
     "a node below the root whose weights all become zero", "the parent keeps the former weight of a branch that weighs nothing any more", r'''
	ccs_tree_t r, c; ccs_rng_t g; size_t n;
	OK(ccs_create_tree(1, ccs_int(0), &r)); OK(ccs_create_tree(0, ccs_int(1), &c));
	OK(ccs_tree_set_child(r, 0, c)); OK(ccs_tree_set_weight(c, 0.0));
	OK(ccs_create_rng(&g));
	for (int i = 0; i < 200; i++) { OK(ccs_tree_sample(r, g, &n)); CHECK(n != 0); }
''')
seed("s16-a", "P16", [("src/configuration_space.c", """	CCS_VALIDATE(ccs_retain_object(rng));
	ccs_rng_t tmp                  = configuration_space->data->rng;
	configuration_space->data->rng = rng;
	CCS_VALIDATE(ccs_release_object(tmp));
""", """	CCS_VALIDATE(ccs_release_object(configuration_space->data->rng));
	configuration_space->data->rng = rng;
	CCS_VALIDATE(ccs_retain_object(rng));
""")],
     "giving a configuration space the generator it already has", "the generator is destroyed while the space uses it", r'''
	ccs_configuration_space_t s; ccs_rng_t g, h;
	OK(ccs_create_configuration_space("s", &s)); OK(ccs_configuration_space_get_rng(s, &g));
	OK(ccs_object_set_destroy_callback(g, cb, NULL));
	OK(ccs_configuration_space_set_rng(s, g));
	CHECK(!destroyed);
''', pre="static int destroyed; static void cb(ccs_object_t o, void *u) { destroyed = 1; }\n")
seed("s17-a", "P17", [("src/configuration_space.c", """		if (!mem) {
			mem = oldmem;
			CCS_RAISE_ERR_GOTO(""", """		if (!mem) {
			CCS_RAISE_ERR_GOTO(""")],
     "memory running out when the graph of a space with two conditions is recomputed", "the buffer that could not be extended is leaked", r'''
	ccs_configuration_space_t s; ccs_parameter_t p[4]; ccs_expression_t c1, c2, a, b; const char *n[] = {"a", "b", "c", "d"};
	OK(ccs_create_configuration_space("s", &s));
	for (int i = 0; i < 4; i++) { OK(ccs_create_numerical_parameter(n[i], CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(9), CCSI(0), CCSI(1), &p[i])); OK(ccs_configuration_space_add_parameter(s, p[i], NULL)); }
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(p[0]), ccs_int(1), &c1));
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(p[0]), ccs_object(p[1]), &c2));
	OK(ccs_configuration_space_set_condition(s, 2, c1));
	armed = 1;
	ERR(ccs_configuration_space_set_condition(s, 3, c2));
	CHECK(hit && !last);
''', pre=r'''
#include <dlfcn.h>
static int armed, hit; static void *last;
void *realloc(void *p, size_t n) { static void *(*r)(void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "realloc"); if (armed && p && n == 2 * 16) { armed = 0; hit = 1; last = p; return NULL; } return r(p, n); }
void free(void *p) { static void (*f)(void *); if (!f) f = dlsym(RTLD_NEXT, "free"); if (hit && p == last) last = NULL; f(p); }
''', gnu=1)
seed("s18-a", "P18", [("src/distribution_roulette.c", """			areas[i] = data->areas[i + 1] - data->areas[i];
		for (size_t i = data->num_areas; i < num_areas; i++)
			areas[i] = 0.0;""", """			areas[i] = data->areas[i + 1] - data->areas[i];
		for (size_t i = data->num_areas + 1; i < num_areas; i++)
			areas[i] = 0.0;""")],
     "an array larger than the number of areas", "the slot after the last area keeps what was there", r'''
	ccs_distribution_t d; ccs_float_t a[2] = {1, 1}, g[4] = {7, 7, 7, 7};
	OK(ccs_create_roulette_distribution(2, a, &d));
	OK(ccs_roulette_distribution_get_areas(d, 4, g, NULL));
	CHECK(g[2] == 0.0 && g[3] == 0.0);
''')
seed("s10-a", "P10", [("src/configuration_space.c", """		// Check duplicate entries
		for (size_t j = i + 1; j < dim; j++)""", """		// Check duplicate entries
		for (size_t j = i + 1; j < i + 2 && j < dim; j++)""")],
     "a distribution of three dimensions whose first and last positions are the same parameter", "repeated positions that are not adjacent are accepted", r'''
	ccs_configuration_space_t s; ccs_parameter_t p; ccs_distribution_t d[3], m; const char *n[] = {"a", "b", "c"};
	OK(ccs_create_configuration_space("s", &s));
	for (int i = 0; i < 3; i++) { OK(ccs_create_numerical_parameter(n[i], CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(9), CCSI(0), CCSI(1), &p)); OK(ccs_configuration_space_add_parameter(s, p, NULL)); OK(ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(9), CCS_SCALE_TYPE_LINEAR, CCSI(0), &d[i])); }
	OK(ccs_create_multivariate_distribution(3, d, &m));
	size_t ix[3] = {0, 1, 0};
	ERR(ccs_configuration_space_set_distribution(s, m, ix));
''')
seed("s20-a", "P20", [("src/distribution_normal.c", """			values[i] = gsl_ran_gaussian(grng, sigma) + mu;
""", """			values[i] = _gauss(grng) * sigma + mu;
"""), ("src/distribution_normal.c", """static inline ccs_result_t
_ccs_distribution_normal_samples_float(""", """static inline ccs_float_t
_gauss(const gsl_rng *grng)
{
	static int         has = 0;
	static ccs_float_t spare;
	ccs_float_t        x, y, r2;
	if (has) {
		has = 0;
		return spare;
	}
	do {
		x  = -1.0 + 2.0 * gsl_rng_uniform_pos(grng);
		y  = -1.0 + 2.0 * gsl_rng_uniform_pos(grng);
		r2 = x * x + y * y;
	} while (r2 > 1.0 || r2 == 0);
	r2    = sqrt(-2.0 * log(r2) / r2);
	spare = x * r2;
	has   = 1;
	return y * r2;
}

static inline ccs_result_t
_ccs_distribution_normal_samples_float(""")],
     "an odd number of values drawn from an unbounded normal distribution before a generator is seeded again", "the second deviate of a pair leaks from one generator to the next", r'''
	ccs_distribution_t d; ccs_rng_t g; ccs_numeric_t a, b;
	OK(ccs_create_normal_float_distribution(0.0, 1.0, CCS_SCALE_TYPE_LINEAR, 0.0, &d)); OK(ccs_create_rng(&g));
	OK(ccs_rng_set_seed(g, 5)); OK(ccs_distribution_sample(d, g, &a));
	OK(ccs_rng_set_seed(g, 5)); OK(ccs_distribution_sample(d, g, &b));
	CHECK(a.f == b.f);
''')
seed("s09-a", "P09", [("src/configuration_space.c", """	CCS_REFUTE_ERR_GOTO(
		err, !found, CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
	*configuration_ret = config;""", """	CCS_REFUTE_ERR_GOTO(
		err, counter > 100, CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL,
		errc);
	*configuration_ret = config;""")],
     "one hundred forbidden attempts in a row", "a forbidden configuration is handed out when the attempts run out", r'''
	ccs_configuration_space_t s; ccs_parameter_t p; ccs_expression_t f; ccs_distribution_t d; ccs_configuration_t c = NULL; ccs_float_t a[2] = {0, 1}; size_t z = 0;
	ccs_datum_t v[2] = {ccs_int(5), ccs_int(6)};
	OK(ccs_create_configuration_space("s", &s)); OK(ccs_create_categorical_parameter("p", 2, v, 0, &p)); OK(ccs_create_roulette_distribution(2, a, &d));
	OK(ccs_configuration_space_add_parameter(s, p, d));
	OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(p), ccs_int(6), &f)); OK(ccs_configuration_space_add_forbidden_clause(s, f));
	ERR(ccs_configuration_space_sample(s, &c));
''')
seed("s19-a", "P19", [("src/cconfigspace.c", """		count = write(fd, pstate->buffer, pstate->buffer_size);
		if (count == -1) {
			CCS_REFUTE_ERR_GOTO(
				res, errno != EAGAIN && errno != EINTR,""", """		count = write(fd, pstate->buffer, pstate->buffer_size);
		if (count == -1) {
			if (errno == EINTR && opts.ppfd_state)
				pstate->buffer = pstate->base;
			CCS_REFUTE_ERR_GOTO(
				res, errno != EAGAIN && errno != EINTR,""")],
     "a non-blocking write that is interrupted by a signal after a partial write", "the beginning of the object is written again", r'''
	ccs_map_t m; int f[2]; void *st = NULL; ccs_result_t r; char got[65536], want[65536]; size_t sz, n = 0; ssize_t k;
	OK(ccs_create_map(&m));
	for (int i = 0; i < 200; i++) OK(ccs_map_set(m, ccs_int(i), ccs_int(i * 1000)));
	OK(ccs_object_serialize(m, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
	OK(ccs_object_serialize(m, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, want, CCS_SERIALIZE_OPTION_END));
	CHECK(!pipe(f)); armed = 1;
	do { r = ccs_object_serialize(m, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, f[1], CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, CCS_SERIALIZE_OPTION_END); } while (r == CCS_RESULT_AGAIN);
	OK(r); close(f[1]);
	while ((k = read(f[0], got + n, sizeof(got) - n)) > 0) n += k;
	CHECK(n == sz && !memcmp(got, want, sz));
''', pre=r'''
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
static int armed;
ssize_t write(int fd, const void *p, size_t n) { static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write"); if (armed == 1) { armed = 2; return w(fd, p, n / 2); } if (armed == 2) { armed = 0; errno = EINTR; return -1; } return w(fd, p, n); }
''', gnu=1)
seed("s06-a", "P06", [("src/distribution_uniform.c", """					values[i * stride].i =
						((values[i * stride].i -
						  lower.i) /
						 quantization.i) *
							quantization.i +
						lower.i;""", """					values[i * stride].i -=
						values[i * stride].i %
						quantization.i;""")],
     "strided sampling of a logarithmic integer distribution whose quantization does not divide its lower bound", "strided samples differ from array samples and fall below the lower bound", r'''
	ccs_distribution_t d; ccs_rng_t g; ccs_numeric_t a[50], b[100];
	OK(ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, CCSI(3), CCSI(40), CCS_SCALE_TYPE_LOGARITHMIC, CCSI(5), &d)); OK(ccs_create_rng(&g));
	OK(ccs_rng_set_seed(g, 5)); OK(ccs_distribution_samples(d, g, 50, a));
	OK(ccs_rng_set_seed(g, 5)); OK(ccs_distribution_strided_samples(d, g, 50, 2, b));
	for (int i = 0; i < 50; i++) CHECK(a[i].i == b[2 * i].i && b[2 * i].i >= 3);
''')
seed("s03-a", "P03", [("src/evaluation_deserialize.h", """	CCS_VALIDATE_ERR_GOTO(
		res,
		_ccs_deserialize_bin_ccs_evaluation_data(
			&data, version, buffer_size, buffer, &new_opts),
		end);
""", """	CCS_VALIDATE(_ccs_deserialize_bin_ccs_evaluation_data(
		&data, version, buffer_size, buffer, &new_opts));
""")],
     "an evaluation truncated after its values", "what had been read is leaked", r'''
	ccs_configuration_space_t s; ccs_objective_space_t o; ccs_parameter_t p; ccs_expression_t x; ccs_configuration_t c; ccs_evaluation_t e; ccs_objective_type_t ty = CCS_OBJECTIVE_TYPE_MINIMIZE; ccs_datum_t v = ccs_int(1);
	OK(ccs_create_configuration_space("s", &s)); OK(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(5), CCSI(0), CCSI(1), &p)); OK(ccs_configuration_space_add_parameter(s, p, NULL));
	OK(ccs_create_objective_space("o", &o)); OK(ccs_objective_space_add_parameters(o, 1, &p)); OK(ccs_create_variable(p, &x)); OK(ccs_objective_space_add_objective(o, x, ty));
	OK(ccs_configuration_space_get_default_configuration(s, &c)); OK(ccs_create_evaluation(o, c, CCS_RESULT_SUCCESS, 1, &v, &e));
	char b[65536]; size_t n; ccs_map_t m; ccs_object_t r, t;
	OK(ccs_create_map(&m));
	ccs_object_t os[2] = {s, o};
	for (int i = 0; i < 2; i++) {
		OK(ccs_object_serialize(os[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
		OK(ccs_object_serialize(os[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_END));
		OK(ccs_object_deserialize(&t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
	}
	OK(ccs_object_serialize(e, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
	OK(ccs_object_serialize(e, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_END));
	size_t before = 0;
	for (int k = 0; k < 200; k++) {
		for (size_t i = 0; i < n; i++) {
			ERR(ccs_object_deserialize(&r, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, i, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
		}
		if (k == 50) before = mallinfo2().uordblks;
	}
	CHECK(mallinfo2().uordblks < before + 100);
''', pre="#include <malloc.h>\n")

seed("s21-a", "P21", [("src/expression.c", """		value.type < CCS_DATA_TYPE_NONE ||
			value.type > CCS_DATA_TYPE_STRING,""", """		value.type < CCS_DATA_TYPE_NONE ||
			value.type >= CCS_DATA_TYPE_MAX,""")], "an object given as the value of a literal", "the literal keeps a reference nobody counts", r"""
	ccs_expression_t l = NULL; ccs_rng_t g;
	OK(ccs_create_rng(&g)); ERR(ccs_create_literal(ccs_object(g), &l)); CHECK(!l);
""")
seed("s05-a", "P05", [("src/parameter_numerical.c", """			 default_value.f < lower.f ||
			 default_value.f >= upper.f),""", """			 default_value.f < lower.f ||
			 default_value.f > upper.f),""")], "a float parameter whose default is its excluded upper bound", "the default value is not in the domain", r"""
	ccs_parameter_t p = NULL;
	ERR(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_FLOAT, CCSF(0.0), CCSF(1.0), CCSF(0.0), CCSF(1.0), &p)); CHECK(!p);
""")
seed("s08-a", "P08", [("src/configuration_space.c", """			if (!(result.type == CCS_DATA_TYPE_BOOL &&
			      result.value.i == CCS_TRUE))
				active = CCS_FALSE;
		}
		if (active""", """			if (result.type == CCS_DATA_TYPE_INACTIVE)
				continue;
			if (!(result.type == CCS_DATA_TYPE_BOOL &&
			      result.value.i == CCS_TRUE))
				active = CCS_FALSE;
		}
		if (active""")], "a condition on an inactive parameter", "a parameter below an inactive one may hold any value", r"""
	ccs_configuration_space_t s; ccs_parameter_t p[3]; ccs_expression_t c; ccs_bool_t b; const char *nm[3] = {"p", "q", "r"};
	ccs_datum_t v[2] = {ccs_int(5), ccs_int(6)};
	OK(ccs_create_configuration_space("s", &s));
	for (int i = 0; i < 3; i++) OK(ccs_create_categorical_parameter(nm[i], 2, v, 0, p + i));
	OK(ccs_configuration_space_add_parameters(s, 3, p, NULL));
	for (int i = 0; i < 2; i++) { OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(p[i]), ccs_int(5), &c)); OK(ccs_configuration_space_set_condition(s, i + 1, c)); }
	ccs_datum_t x[3] = {ccs_int(6), ccs_inactive, ccs_int(5)};
	OK(ccs_configuration_space_check_configuration_values(s, 3, x, &b)); CHECK(b == CCS_FALSE);
""")
seed("s22-a", "P22", [("src/features_evaluation.c", """		for (size_t i = 0; i < num_values; i++) {
			if (values[i].flags & CCS_DATUM_FLAG_TRANSIENT) {""", """		for (size_t i = num_values - 1; i; i--) {
			if (values[i].flags & CCS_DATUM_FLAG_TRANSIENT) {""")], "a features evaluation whose first value is a transient string", "the evaluation refers to the caller's memory", r'''
	ccs_configuration_space_t s; ccs_objective_space_t o; ccs_features_space_t f; ccs_parameter_t p[2]; ccs_configuration_t c; ccs_features_t ft; ccs_features_evaluation_t e; ccs_datum_t v[2], w; char b[2][4] = {"ab", "cd"};
	OK(ccs_create_configuration_space("s", &s)); OK(ccs_create_features_space("f", &f)); OK(ccs_create_objective_space("o", &o));
	OK(ccs_create_string_parameter("p", p)); OK(ccs_create_string_parameter("q", p + 1)); OK(ccs_objective_space_add_parameters(o, 2, p));
	OK(ccs_create_configuration(s, 0, NULL, &c)); OK(ccs_create_features(f, 0, NULL, &ft));
	for (int i = 0; i < 2; i++) { v[i] = ccs_string(b[i]); v[i].flags |= CCS_DATUM_FLAG_TRANSIENT; }
	OK(ccs_create_features_evaluation(o, c, ft, CCS_RESULT_SUCCESS, 2, v, &e));
	strcpy(b[0], "zz"); strcpy(b[1], "zz");
	OK(ccs_features_evaluation_get_value(e, 0, &w)); CHECK(!strcmp(w.value.s, "ab"));
	OK(ccs_features_evaluation_get_value(e, 1, &w)); CHECK(!strcmp(w.value.s, "cd"));
''')
seed("s22-b", "P22", [("src/tree_tuner_user_defined.c", "\tdata->vector                       = *vector;", None)] if 0 else [("src/map.c", "(d.flags & CCS_DATUM_FLAG_TRANSIENT) && d.value.s)", "(d.flags & CCS_DATUM_FLAG_TRANSIENT) && d.value.s &&\n	    *d.value.s)")], "a map entry whose transient string is empty", "the map keeps a pointer to the caller's memory", r'''
	ccs_map_t m; ccs_datum_t k, v; char b[4] = "";
	OK(ccs_create_map(&m)); k = ccs_string(b); k.flags |= CCS_DATUM_FLAG_TRANSIENT;
	OK(ccs_map_set(m, ccs_int(1), k)); strcpy(b, "zz");
	OK(ccs_map_get(m, ccs_int(1), &v)); CHECK(!strcmp(v.value.s, ""));
''')
