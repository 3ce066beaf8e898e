/* P21, P16: every public function called with valid, missing, wrong and out of
 * range arguments. Generated by dev/genargs.py:
 *   0 ccs_binding_cmp
 *   1 ccs_binding_get_context
 *   2 ccs_binding_get_value
 *   3 ccs_binding_get_value_by_name
 *   4 ccs_binding_get_value_by_parameter
 *   5 ccs_binding_get_values
 *   6 ccs_binding_hash
 *   7 ccs_binding_set_value
 *   8 ccs_binding_set_value_by_name
 *   9 ccs_binding_set_value_by_parameter
 *  10 ccs_binding_set_values
 *  11 ccs_categorical_parameter_get_values
 *  12 ccs_configuration_check
 *  13 ccs_configuration_cmp
 *  14 ccs_configuration_get_configuration_space
 *  15 ccs_configuration_get_value
 *  16 ccs_configuration_get_value_by_name
 *  17 ccs_configuration_get_values
 *  18 ccs_configuration_hash
 *  19 ccs_configuration_set_value
 *  20 ccs_configuration_space_add_forbidden_clause
 *  21 ccs_configuration_space_add_forbidden_clauses
 *  22 ccs_configuration_space_add_parameter
 *  23 ccs_configuration_space_add_parameters
 *  24 ccs_configuration_space_check_configuration
 *  25 ccs_configuration_space_check_configuration_values
 *  26 ccs_configuration_space_get_condition
 *  27 ccs_configuration_space_get_conditions
 *  28 ccs_configuration_space_get_default_configuration
 *  29 ccs_configuration_space_get_forbidden_clause
 *  30 ccs_configuration_space_get_forbidden_clauses
 *  31 ccs_configuration_space_get_name
 *  32 ccs_configuration_space_get_num_parameters
 *  33 ccs_configuration_space_get_parameter
 *  34 ccs_configuration_space_get_parameter_by_name
 *  35 ccs_configuration_space_get_parameter_distribution
 *  36 ccs_configuration_space_get_parameter_index
 *  37 ccs_configuration_space_get_parameter_index_by_name
 *  38 ccs_configuration_space_get_parameter_indexes
 *  39 ccs_configuration_space_get_parameters
 *  40 ccs_configuration_space_get_rng
 *  41 ccs_configuration_space_sample
 *  42 ccs_configuration_space_samples
 *  43 ccs_configuration_space_set_condition
 *  44 ccs_configuration_space_set_distribution
 *  45 ccs_configuration_space_set_rng
 *  46 ccs_configuration_space_validate_value
 *  47 ccs_context_get_name
 *  48 ccs_context_get_num_parameters
 *  49 ccs_context_get_parameter
 *  50 ccs_context_get_parameter_by_name
 *  51 ccs_context_get_parameter_index
 *  52 ccs_context_get_parameter_index_by_name
 *  53 ccs_context_get_parameter_indexes
 *  54 ccs_context_get_parameters
 *  55 ccs_context_validate_value
 *  56 ccs_create_binary_expression
 *  57 ccs_create_categorical_parameter
 *  58 ccs_create_configuration
 *  59 ccs_create_configuration_space
 *  60 ccs_create_discrete_parameter
 *  61 ccs_create_dynamic_tree_space
 *  62 ccs_create_evaluation
 *  63 ccs_create_expression
 *  64 ccs_create_features
 *  65 ccs_create_features_evaluation
 *  66 ccs_create_features_space
 *  67 ccs_create_float_numerical_parameter
 *  68 ccs_create_int_numerical_parameter
 *  69 ccs_create_literal
 *  70 ccs_create_map
 *  71 ccs_create_mixture_distribution
 *  72 ccs_create_multivariate_distribution
 *  73 ccs_create_normal_distribution
 *  74 ccs_create_normal_float_distribution
 *  75 ccs_create_normal_int_distribution
 *  76 ccs_create_numerical_parameter
 *  77 ccs_create_objective_space
 *  78 ccs_create_ordinal_parameter
 *  79 ccs_create_random_features_tuner
 *  80 ccs_create_random_tree_tuner
 *  81 ccs_create_random_tuner
 *  82 ccs_create_rng
 *  83 ccs_create_rng_with_type
 *  84 ccs_create_roulette_distribution
 *  85 ccs_create_static_tree_space
 *  86 ccs_create_string_parameter
 *  87 ccs_create_tree
 *  88 ccs_create_tree_configuration
 *  89 ccs_create_tree_evaluation
 *  90 ccs_create_unary_expression
 *  91 ccs_create_uniform_distribution
 *  92 ccs_create_uniform_float_distribution
 *  93 ccs_create_uniform_int_distribution
 *  94 ccs_create_user_defined_features_tuner
 *  95 ccs_create_user_defined_tree_tuner
 *  96 ccs_create_user_defined_tuner
 *  97 ccs_create_variable
 *  98 ccs_discrete_parameter_get_values
 *  99 ccs_distribution_check_oversampling
 * 100 ccs_distribution_get_bounds
 * 101 ccs_distribution_get_data_types
 * 102 ccs_distribution_get_dimension
 * 103 ccs_distribution_get_type
 * 104 ccs_distribution_parameters_sample
 * 105 ccs_distribution_parameters_samples
 * 106 ccs_distribution_sample
 * 107 ccs_distribution_samples
 * 108 ccs_dynamic_tree_space_get_tree_space_data
 * 109 ccs_error_stack_get_code
 * 110 ccs_error_stack_get_elems
 * 111 ccs_error_stack_get_message
 * 112 ccs_evaluation_check
 * 113 ccs_evaluation_cmp
 * 114 ccs_evaluation_compare
 * 115 ccs_evaluation_get_configuration
 * 116 ccs_evaluation_get_objective_space
 * 117 ccs_evaluation_get_objective_value
 * 118 ccs_evaluation_get_objective_values
 * 119 ccs_evaluation_get_result
 * 120 ccs_evaluation_get_value
 * 121 ccs_evaluation_get_value_by_name
 * 122 ccs_evaluation_get_values
 * 123 ccs_evaluation_hash
 * 124 ccs_evaluation_set_result
 * 125 ccs_evaluation_set_value
 * 126 ccs_expression_check_context
 * 127 ccs_expression_eval
 * 128 ccs_expression_get_nodes
 * 129 ccs_expression_get_num_nodes
 * 130 ccs_expression_get_parameters
 * 131 ccs_expression_get_type
 * 132 ccs_expression_list_eval_node
 * 133 ccs_features_check
 * 134 ccs_features_cmp
 * 135 ccs_features_evaluation_check
 * 136 ccs_features_evaluation_cmp
 * 137 ccs_features_evaluation_compare
 * 138 ccs_features_evaluation_get_configuration
 * 139 ccs_features_evaluation_get_features
 * 140 ccs_features_evaluation_get_objective_space
 * 141 ccs_features_evaluation_get_objective_value
 * 142 ccs_features_evaluation_get_objective_values
 * 143 ccs_features_evaluation_get_result
 * 144 ccs_features_evaluation_get_value
 * 145 ccs_features_evaluation_get_value_by_name
 * 146 ccs_features_evaluation_get_values
 * 147 ccs_features_evaluation_hash
 * 148 ccs_features_evaluation_set_result
 * 149 ccs_features_evaluation_set_value
 * 150 ccs_features_get_features_space
 * 151 ccs_features_get_value
 * 152 ccs_features_get_value_by_name
 * 153 ccs_features_get_values
 * 154 ccs_features_hash
 * 155 ccs_features_set_value
 * 156 ccs_features_space_add_parameter
 * 157 ccs_features_space_add_parameters
 * 158 ccs_features_space_check_features
 * 159 ccs_features_space_check_features_values
 * 160 ccs_features_space_get_name
 * 161 ccs_features_space_get_num_parameters
 * 162 ccs_features_space_get_parameter
 * 163 ccs_features_space_get_parameter_by_name
 * 164 ccs_features_space_get_parameter_index
 * 165 ccs_features_space_get_parameter_index_by_name
 * 166 ccs_features_space_get_parameter_indexes
 * 167 ccs_features_space_get_parameters
 * 168 ccs_features_space_validate_value
 * 169 ccs_features_tuner_ask
 * 170 ccs_features_tuner_get_configuration_space
 * 171 ccs_features_tuner_get_features_space
 * 172 ccs_features_tuner_get_history
 * 173 ccs_features_tuner_get_name
 * 174 ccs_features_tuner_get_objective_space
 * 175 ccs_features_tuner_get_optima
 * 176 ccs_features_tuner_get_type
 * 177 ccs_features_tuner_suggest
 * 178 ccs_features_tuner_tell
 * 179 ccs_get_result_name
 * 180 ccs_interval_empty
 * 181 ccs_interval_equal
 * 182 ccs_interval_intersect
 * 183 ccs_interval_union
 * 184 ccs_literal_get_value
 * 185 ccs_map_clear
 * 186 ccs_map_del
 * 187 ccs_map_exist
 * 188 ccs_map_get
 * 189 ccs_map_get_keys
 * 190 ccs_map_get_pairs
 * 191 ccs_map_get_values
 * 192 ccs_map_set
 * 193 ccs_mixture_distribution_get_distributions
 * 194 ccs_mixture_distribution_get_num_distributions
 * 195 ccs_mixture_distribution_get_weights
 * 196 ccs_multivariate_distribution_get_distributions
 * 197 ccs_multivariate_distribution_get_num_distributions
 * 198 ccs_normal_distribution_get_properties
 * 199 ccs_numerical_parameter_get_properties
 * 200 ccs_object_get_refcount
 * 201 ccs_object_get_type
 * 202 ccs_object_get_user_data
 * 203 ccs_object_set_destroy_callback
 * 204 ccs_object_set_serialize_callback
 * 205 ccs_objective_space_add_objective
 * 206 ccs_objective_space_add_objectives
 * 207 ccs_objective_space_add_parameter
 * 208 ccs_objective_space_add_parameters
 * 209 ccs_objective_space_check_evaluation_values
 * 210 ccs_objective_space_get_name
 * 211 ccs_objective_space_get_num_parameters
 * 212 ccs_objective_space_get_objective
 * 213 ccs_objective_space_get_objectives
 * 214 ccs_objective_space_get_parameter
 * 215 ccs_objective_space_get_parameter_by_name
 * 216 ccs_objective_space_get_parameter_index
 * 217 ccs_objective_space_get_parameter_index_by_name
 * 218 ccs_objective_space_get_parameter_indexes
 * 219 ccs_objective_space_get_parameters
 * 220 ccs_objective_space_validate_value
 * 221 ccs_ordinal_parameter_compare_values
 * 222 ccs_ordinal_parameter_get_values
 * 223 ccs_parameter_check_value
 * 224 ccs_parameter_check_values
 * 225 ccs_parameter_convert_samples
 * 226 ccs_parameter_get_default_distribution
 * 227 ccs_parameter_get_default_value
 * 228 ccs_parameter_get_name
 * 229 ccs_parameter_get_type
 * 230 ccs_parameter_sample
 * 231 ccs_parameter_samples
 * 232 ccs_parameter_sampling_interval
 * 233 ccs_parameter_validate_value
 * 234 ccs_parameter_validate_values
 * 235 ccs_rng_get
 * 236 ccs_rng_get_type
 * 237 ccs_rng_max
 * 238 ccs_rng_min
 * 239 ccs_rng_set_seed
 * 240 ccs_rng_uniform
 * 241 ccs_roulette_distribution_get_areas
 * 242 ccs_roulette_distribution_get_num_areas
 * 243 ccs_tree_configuration_check
 * 244 ccs_tree_configuration_cmp
 * 245 ccs_tree_configuration_get_node
 * 246 ccs_tree_configuration_get_position
 * 247 ccs_tree_configuration_get_tree_space
 * 248 ccs_tree_configuration_get_values
 * 249 ccs_tree_configuration_hash
 * 250 ccs_tree_evaluation_check
 * 251 ccs_tree_evaluation_cmp
 * 252 ccs_tree_evaluation_compare
 * 253 ccs_tree_evaluation_get_configuration
 * 254 ccs_tree_evaluation_get_objective_space
 * 255 ccs_tree_evaluation_get_objective_value
 * 256 ccs_tree_evaluation_get_objective_values
 * 257 ccs_tree_evaluation_get_result
 * 258 ccs_tree_evaluation_get_value
 * 259 ccs_tree_evaluation_get_value_by_name
 * 260 ccs_tree_evaluation_get_values
 * 261 ccs_tree_evaluation_hash
 * 262 ccs_tree_evaluation_set_result
 * 263 ccs_tree_evaluation_set_value
 * 264 ccs_tree_get_arity
 * 265 ccs_tree_get_bias
 * 266 ccs_tree_get_child
 * 267 ccs_tree_get_children
 * 268 ccs_tree_get_node_at_position
 * 269 ccs_tree_get_parent
 * 270 ccs_tree_get_position
 * 271 ccs_tree_get_value
 * 272 ccs_tree_get_values
 * 273 ccs_tree_get_values_at_position
 * 274 ccs_tree_get_weight
 * 275 ccs_tree_position_is_valid
 * 276 ccs_tree_sample
 * 277 ccs_tree_samples
 * 278 ccs_tree_set_bias
 * 279 ccs_tree_set_child
 * 280 ccs_tree_set_weight
 * 281 ccs_tree_space_check_configuration
 * 282 ccs_tree_space_check_position
 * 283 ccs_tree_space_get_name
 * 284 ccs_tree_space_get_node_at_position
 * 285 ccs_tree_space_get_rng
 * 286 ccs_tree_space_get_tree
 * 287 ccs_tree_space_get_type
 * 288 ccs_tree_space_get_values_at_position
 * 289 ccs_tree_space_sample
 * 290 ccs_tree_space_samples
 * 291 ccs_tree_space_set_rng
 * 292 ccs_tree_tuner_ask
 * 293 ccs_tree_tuner_get_history
 * 294 ccs_tree_tuner_get_name
 * 295 ccs_tree_tuner_get_objective_space
 * 296 ccs_tree_tuner_get_optima
 * 297 ccs_tree_tuner_get_tree_space
 * 298 ccs_tree_tuner_get_type
 * 299 ccs_tree_tuner_suggest
 * 300 ccs_tree_tuner_tell
 * 301 ccs_tuner_ask
 * 302 ccs_tuner_get_configuration_space
 * 303 ccs_tuner_get_history
 * 304 ccs_tuner_get_name
 * 305 ccs_tuner_get_objective_space
 * 306 ccs_tuner_get_optima
 * 307 ccs_tuner_get_type
 * 308 ccs_tuner_suggest
 * 309 ccs_tuner_tell
 * 310 ccs_uniform_distribution_get_properties
 * 311 ccs_user_defined_features_tuner_get_tuner_data
 * 312 ccs_user_defined_tree_tuner_get_tuner_data
 * 313 ccs_user_defined_tuner_get_tuner_data
 * 314 ccs_variable_get_parameter
 */
#include "zoo.h"
enum {
	T_object,
	T_parameter,
	T_distribution,
	T_expression,
	T_map,
	T_rng,
	T_tree,
	T_context,
	T_binding,
	T_configuration_space,
	T_configuration,
	T_features_space,
	T_features,
	T_objective_space,
	T_evaluation,
	T_features_evaluation,
	T_tree_evaluation,
	T_tree_space,
	T_tree_configuration,
	T_tuner,
	T_features_tuner,
	T_tree_tuner,
	T_error_stack,
	T_N
};
static int match(unsigned k, ccs_object_type_t t)
{
	switch (k) {
	case T_object: return 1;
	case T_parameter: return t == CCS_OBJECT_TYPE_PARAMETER;
	case T_distribution: return t == CCS_OBJECT_TYPE_DISTRIBUTION;
	case T_expression: return t == CCS_OBJECT_TYPE_EXPRESSION;
	case T_map: return t == CCS_OBJECT_TYPE_MAP;
	case T_rng: return t == CCS_OBJECT_TYPE_RNG;
	case T_tree: return t == CCS_OBJECT_TYPE_TREE;
	case T_context: return t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE || t == CCS_OBJECT_TYPE_FEATURES_SPACE || t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE;
	case T_binding: return t == CCS_OBJECT_TYPE_CONFIGURATION || t == CCS_OBJECT_TYPE_FEATURES || t == CCS_OBJECT_TYPE_FEATURES_EVALUATION;
	case T_configuration_space: return t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE;
	case T_configuration: return t == CCS_OBJECT_TYPE_CONFIGURATION;
	case T_features_space: return t == CCS_OBJECT_TYPE_FEATURES_SPACE;
	case T_features: return t == CCS_OBJECT_TYPE_FEATURES;
	case T_objective_space: return t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE;
	case T_evaluation: return t == CCS_OBJECT_TYPE_EVALUATION;
	case T_features_evaluation: return t == CCS_OBJECT_TYPE_FEATURES_EVALUATION;
	case T_tree_evaluation: return t == CCS_OBJECT_TYPE_TREE_EVALUATION;
	case T_tree_space: return t == CCS_OBJECT_TYPE_TREE_SPACE;
	case T_tree_configuration: return t == CCS_OBJECT_TYPE_TREE_CONFIGURATION;
	case T_tuner: return t == CCS_OBJECT_TYPE_TUNER;
	case T_features_tuner: return t == CCS_OBJECT_TYPE_FEATURES_TUNER;
	case T_tree_tuner: return t == CCS_OBJECT_TYPE_TREE_TUNER;
	case T_error_stack: return t == CCS_OBJECT_TYPE_ERROR_STACK;
	}
	return 0;
}
/* ---- the objects at hand */
#define ZN 12
static zoo_t        z[ZN];
static unsigned     nz;
static ccs_object_t all[ZN * 25];
static ccs_object_type_t type[ZN * 25];
static int32_t      refs[ZN * 25];
static unsigned     nall;
static ccs_object_t tgt;
static int          bad, silent, batch;
static ut_t         some;
static ccs_object_t stray, estack;
static void note(ccs_object_t o)
{
	for (unsigned i = 0; i < nall; i++)
		if (all[i] == o)
			return;
	OK(ccs_object_get_type(o, &type[nall]));
	all[nall++] = o;
}
static void need(unsigned kind)
{
	zoo_make(&z[nz], kind);
	note(z[nz].o);
	for (unsigned i = 0; i < z[nz].n; i++)
		note(z[nz].own[i]);
	nz++;
}
/* the i-th object of a type */
static ccs_object_t item(unsigned t, unsigned i)
{
	ccs_object_t last = NULL;
	for (unsigned j = 0; j < nall; j++)
		if (match(t, type[j])) {
			last = all[j];
			if (!i--)
				return last;
		}
	return last;
}
static unsigned count(unsigned t)
{
	unsigned n = 0;
	for (unsigned j = 0; j < nall; j++)
		n += match(t, type[j]);
	return n;
}
static ccs_object_t pick(unsigned t, int opt, int first, int used)
{
	unsigned n = count(t), most = (unsigned)(first ? vp_param("firsts", 5) : vp_param("others", 2));
	if (n > most)
		n = most;
	unsigned k = vp_choice(n + 2, "object");
	for (unsigned i = 0; i < n; i++)
		if (k == i)
			return item(t, i);
	if (k == n) {
		bad |= !opt & used;
		return NULL;
	}
	if (t == T_object)
		vp_kill();
	bad |= used;
	for (unsigned i = 0; i < nall; i++) /* another kind of object */
		if (!match(t, type[i]))
			return all[i];
	return stray;
}
static int missing(void) { return vp_choice(2, "missing") == 1; }
/* ---- outputs */
static struct { void *p; size_t n; char was[128]; } outs[6];
static unsigned nouts;
static void untouched(void *p, size_t n)
{
	if (n > 128)
		n = 128;
	outs[nouts].p = p;
	outs[nouts].n = n;
	memcpy(outs[nouts++].was, p, n);
}
static void *output(void *p, size_t n, int opt)
{
	untouched(p, n);
	if (!missing())
		return p;
	bad |= !opt;
	return NULL;
}
/* ---- values */
static const char *a_name(int opt)
{
	switch (vp_choice(3, "name")) {
	case 0: return "a";
	case 1: return "nobody";
	}
	bad |= !opt;
	return NULL;
}
static ccs_datum_t a_datum(void)
{
	unsigned t = vp_choice(8, "type");
	ccs_datum_t d = t == 5 ? ccs_string("l") : t == 6 ? ccs_object(stray) : t == 7 ? ccs_none : sym_datum_of(t, "datum");
	if (t == 7) {
		int32_t k = vp_i32("type");
		vp_assume(k < 0 || k >= CCS_DATA_TYPE_MAX);
		d.type = (ccs_data_type_t)k;
	}
	return d;
}
static ccs_datum_t item_datum(unsigned f, unsigned i) { (void)f; return i == 1 ? a_datum() : i ? ccs_float(0.5) : ccs_int(3); }
static ccs_float_t scalar_f(const char *n)
{
	switch (vp_choice(4, n)) {
	case 0: return 1.0;
	case 1: return 0.0;
	case 2: return -1.0;
	}
	return i2f(0x7ff8000000000000ull);
}
static ccs_interval_t an_interval(unsigned i)
{
	ccs_interval_t v;
	memset(&v, 0, sizeof(v));
	v.type = i ? CCS_NUMERIC_TYPE_INT : (ccs_numeric_type_t)vp_i32("type");
	v.lower.i = 2;
	v.upper.i = 5;
	return v;
}
static int wrong_numeric_type(int v) { return v != CCS_NUMERIC_TYPE_INT && v != CCS_NUMERIC_TYPE_FLOAT; }
static int wrong_scale_type(int v) { return v != CCS_SCALE_TYPE_LINEAR && v != CCS_SCALE_TYPE_LOGARITHMIC; }
static int wrong_expression_type(int v) { return v < 0 || v >= CCS_EXPRESSION_TYPE_MAX; }
static int wrong_objective_type(int v) { return v < 0 || v >= CCS_OBJECTIVE_TYPE_MAX; }
static int wrong_evaluation_result(int v) { (void)v; return 0; }
static int wrong_result(int v) { (void)v; return 0; }
static void a_destroy(ccs_object_t o, void *d) { (void)o; (void)d; }
static ccs_result_t a_serialize(ccs_object_t o, size_t n, void *b, size_t *r, void *d) { (void)o; (void)n; (void)b; (void)d; if (r) *r = 0; return CCS_RESULT_SUCCESS; }
/* callbacks without one of their functions: the first ones are required */
static void lacking(void **v, unsigned n, unsigned required)
{
	unsigned k = vp_choice(n + 1, "function");
	for (unsigned i = 0; i < n; i++)
		if (i == k) {
			v[i] = NULL;
			bad |= i < required;
		}
}
/* ---- around the call */
static char   *was;
static size_t  was_n;
static int64_t live0;
static ccs_error_stack_t earlier;
static char *freeze(ccs_object_t o, size_t *n)
{
	ccs_object_type_t t;
	char *b;
	*n = 0;
	if (!o || ccs_object_get_type(o, &t) || t == CCS_OBJECT_TYPE_ERROR_STACK)
		return NULL;
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, n, CCS_SERIALIZE_OPTION_END));
	b = malloc(*n);
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, *n, b, CCS_SERIALIZE_OPTION_END));
	return b;
}
static void before(void)
{
	was = freeze(tgt, &was_n);
	for (unsigned i = 0; i < nall; i++)
		OK(ccs_object_get_refcount(all[i], &refs[i]));
	if (vp_param("pre", 0)) {
		ccs_create_thread_error(CCS_RESULT_ERROR_DUPLICATE_HANDLE, "earlier");
		earlier = ccs_get_thread_error();
		ccs_set_thread_error(earlier);
	}
	live0 = vp_heap_live();
}
static void after(ccs_result_t r)
{
	int64_t live1 = vp_heap_live();
	ccs_error_stack_t e = ccs_get_thread_error();
	size_t n;
	if (r >= 0) {
		vp_reach("a call is accepted");
		vp_assert(!bad, "a wrong or missing argument is refused");
		vp_assert(e == earlier, "a call that succeeds leaves the error state");
		if (e)
			ccs_release_object(e);
		free(was);
		return;
	}
	vp_reach("a call is refused");
	if (bad)
		vp_reach("a wrong argument is refused");
	if (!silent)
		vp_assert(e != NULL, "a refused call records its error");
	if (silent)
		vp_assert(e == earlier, "a refused query of an error leaves the error state");
	if (e && silent)
		ccs_release_object(e);
	else if (e) {
		ccs_result_t c = CCS_RESULT_SUCCESS;
		const char *msg = NULL;
		ccs_error_stack_elem_t *el = NULL;
		OK(ccs_error_stack_get_code(e, &c));
		OK(ccs_error_stack_get_message(e, &msg));
		n = 0;
		OK(ccs_error_stack_get_elems(e, &n, &el));
		vp_assert(c == r, "the recorded error is the one returned");
		vp_assert(n >= 1 && el && el[n - 1].func && msg, "the recorded error has a message and a trace");
		ccs_release_object(e);
	}
	(void)live1;
	if (!batch)
		vp_assert(vp_heap_live() == live0 - (earlier != NULL) * 2, "a refused call keeps no memory");
	unsigned same = 1;
	for (unsigned i = 0; i < nouts; i++)
		same &= !memcmp(outs[i].p, outs[i].was, outs[i].n);
	vp_assert(same, "a refused call leaves its outputs");
	for (unsigned i = 0; i < nall; i++) {
		int32_t c = 0;
		OK(ccs_object_get_refcount(all[i], &c));
		same &= c == refs[i];
	}
	char *b = freeze(tgt, &n);
	if (!batch) { /* (the items before the refused one may be kept) */
		vp_assert(same, "a refused call takes no reference");
		vp_assert(n == was_n && (!b || !memcmp(b, was, n)), "a refused call changes nothing");
	}
	free(b);
	free(was);
}
static void world(unsigned f)
{
	switch (f) {
	case 0: need(Z_RANDOM_FTUNER); break;
	case 1: need(Z_RANDOM_FTUNER); break;
	case 2: need(Z_RANDOM_FTUNER); break;
	case 3: need(Z_RANDOM_FTUNER); break;
	case 4: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 5: need(Z_RANDOM_FTUNER); break;
	case 6: need(Z_RANDOM_FTUNER); break;
	case 7: need(Z_RANDOM_FTUNER); break;
	case 8: need(Z_RANDOM_FTUNER); break;
	case 9: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 10: need(Z_RANDOM_FTUNER); break;
	case 11: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 12: need(Z_RANDOM_TUNER); break;
	case 13: need(Z_RANDOM_TUNER); break;
	case 14: need(Z_RANDOM_TUNER); break;
	case 15: need(Z_RANDOM_TUNER); break;
	case 16: need(Z_RANDOM_TUNER); break;
	case 17: need(Z_RANDOM_TUNER); break;
	case 18: need(Z_RANDOM_TUNER); break;
	case 19: need(Z_RANDOM_TUNER); break;
	case 20: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_TUNER); need(Z_VARIABLE); break;
	case 21: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_TUNER); need(Z_VARIABLE); break;
	case 22: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_ROULETTE); need(Z_STRING); need(Z_UNIFORM_INT); break;
	case 23: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_ROULETTE); need(Z_STRING); need(Z_UNIFORM_INT); break;
	case 24: need(Z_RANDOM_TUNER); break;
	case 25: need(Z_RANDOM_TUNER); break;
	case 26: need(Z_RANDOM_TUNER); break;
	case 27: need(Z_RANDOM_TUNER); break;
	case 28: need(Z_RANDOM_TUNER); break;
	case 29: need(Z_RANDOM_TUNER); break;
	case 30: need(Z_RANDOM_TUNER); break;
	case 31: need(Z_RANDOM_TUNER); break;
	case 32: need(Z_RANDOM_TUNER); break;
	case 33: need(Z_RANDOM_TUNER); break;
	case 34: need(Z_RANDOM_TUNER); break;
	case 35: need(Z_RANDOM_TUNER); break;
	case 36: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 37: need(Z_RANDOM_TUNER); break;
	case 38: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 39: need(Z_RANDOM_TUNER); break;
	case 40: need(Z_RANDOM_TUNER); break;
	case 41: need(Z_RANDOM_TUNER); break;
	case 42: need(Z_RANDOM_TUNER); break;
	case 43: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_TUNER); need(Z_VARIABLE); break;
	case 44: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_RANDOM_TUNER); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 45: need(Z_RANDOM_TUNER); need(Z_RNG); break;
	case 46: need(Z_RANDOM_TUNER); break;
	case 47: need(Z_RANDOM_FTUNER); break;
	case 48: need(Z_RANDOM_FTUNER); break;
	case 49: need(Z_RANDOM_FTUNER); break;
	case 50: need(Z_RANDOM_FTUNER); break;
	case 51: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 52: need(Z_RANDOM_FTUNER); break;
	case 53: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 54: need(Z_RANDOM_FTUNER); break;
	case 55: need(Z_RANDOM_FTUNER); break;
	case 56:  break;
	case 57:  break;
	case 58: need(Z_RANDOM_TUNER); break;
	case 59:  break;
	case 60:  break;
	case 61: need(Z_TREE); break;
	case 62: need(Z_RANDOM_TUNER); break;
	case 63:  break;
	case 64: need(Z_RANDOM_FTUNER); break;
	case 65: need(Z_RANDOM_FTUNER); need(Z_RANDOM_TUNER); break;
	case 66:  break;
	case 67:  break;
	case 68:  break;
	case 69:  break;
	case 70:  break;
	case 71: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 72: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 73:  break;
	case 74:  break;
	case 75:  break;
	case 76:  break;
	case 77:  break;
	case 78:  break;
	case 79: need(Z_RANDOM_FTUNER); need(Z_RANDOM_TUNER); break;
	case 80: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); need(Z_RANDOM_TUNER); break;
	case 81: need(Z_RANDOM_TUNER); break;
	case 82:  break;
	case 83:  break;
	case 84:  break;
	case 85: need(Z_TREE); break;
	case 86:  break;
	case 87:  break;
	case 88: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 89: need(Z_RANDOM_TTUNER); need(Z_RANDOM_TUNER); break;
	case 90:  break;
	case 91:  break;
	case 92:  break;
	case 93:  break;
	case 94: need(Z_RANDOM_FTUNER); need(Z_RANDOM_TUNER); break;
	case 95: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); need(Z_RANDOM_TUNER); break;
	case 96: need(Z_RANDOM_TUNER); break;
	case 97: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 98: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 99: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 100: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 101: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 102: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 103: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 104: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_RNG); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 105: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_RNG); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 106: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_RNG); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 107: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_RNG); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 108: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 109:  break;
	case 110:  break;
	case 111:  break;
	case 112: need(Z_RANDOM_TUNER); break;
	case 113: need(Z_RANDOM_TUNER); break;
	case 114: need(Z_RANDOM_TUNER); break;
	case 115: need(Z_RANDOM_TUNER); break;
	case 116: need(Z_RANDOM_TUNER); break;
	case 117: need(Z_RANDOM_TUNER); break;
	case 118: need(Z_RANDOM_TUNER); break;
	case 119: need(Z_RANDOM_TUNER); break;
	case 120: need(Z_RANDOM_TUNER); break;
	case 121: need(Z_RANDOM_TUNER); break;
	case 122: need(Z_RANDOM_TUNER); break;
	case 123: need(Z_RANDOM_TUNER); break;
	case 124: need(Z_RANDOM_TUNER); break;
	case 125: need(Z_RANDOM_TUNER); break;
	case 126: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_FTUNER); need(Z_VARIABLE); break;
	case 127: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_FTUNER); need(Z_VARIABLE); break;
	case 128: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	case 129: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	case 130: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	case 131: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	case 132: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_FTUNER); need(Z_VARIABLE); break;
	case 133: need(Z_RANDOM_FTUNER); break;
	case 134: need(Z_RANDOM_FTUNER); break;
	case 135: need(Z_RANDOM_FTUNER); break;
	case 136: need(Z_RANDOM_FTUNER); break;
	case 137: need(Z_RANDOM_FTUNER); break;
	case 138: need(Z_RANDOM_FTUNER); break;
	case 139: need(Z_RANDOM_FTUNER); break;
	case 140: need(Z_RANDOM_FTUNER); break;
	case 141: need(Z_RANDOM_FTUNER); break;
	case 142: need(Z_RANDOM_FTUNER); break;
	case 143: need(Z_RANDOM_FTUNER); break;
	case 144: need(Z_RANDOM_FTUNER); break;
	case 145: need(Z_RANDOM_FTUNER); break;
	case 146: need(Z_RANDOM_FTUNER); break;
	case 147: need(Z_RANDOM_FTUNER); break;
	case 148: need(Z_RANDOM_FTUNER); break;
	case 149: need(Z_RANDOM_FTUNER); break;
	case 150: need(Z_RANDOM_FTUNER); break;
	case 151: need(Z_RANDOM_FTUNER); break;
	case 152: need(Z_RANDOM_FTUNER); break;
	case 153: need(Z_RANDOM_FTUNER); break;
	case 154: need(Z_RANDOM_FTUNER); break;
	case 155: need(Z_RANDOM_FTUNER); break;
	case 156: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 157: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 158: need(Z_RANDOM_FTUNER); break;
	case 159: need(Z_RANDOM_FTUNER); break;
	case 160: need(Z_RANDOM_FTUNER); break;
	case 161: need(Z_RANDOM_FTUNER); break;
	case 162: need(Z_RANDOM_FTUNER); break;
	case 163: need(Z_RANDOM_FTUNER); break;
	case 164: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 165: need(Z_RANDOM_FTUNER); break;
	case 166: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_FTUNER); need(Z_STRING); break;
	case 167: need(Z_RANDOM_FTUNER); break;
	case 168: need(Z_RANDOM_FTUNER); break;
	case 169: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 170: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 171: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 172: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 173: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 174: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 175: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 176: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 177: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 178: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 179:  break;
	case 180:  break;
	case 181:  break;
	case 182:  break;
	case 183:  break;
	case 184: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	case 185: need(Z_MAP); break;
	case 186: need(Z_MAP); break;
	case 187: need(Z_MAP); break;
	case 188: need(Z_MAP); break;
	case 189: need(Z_MAP); break;
	case 190: need(Z_MAP); break;
	case 191: need(Z_MAP); break;
	case 192: need(Z_MAP); break;
	case 193: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 194: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 195: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 196: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 197: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 198: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 199: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 200: need(Z_INT); need(Z_MAP); need(Z_RNG); break;
	case 201: need(Z_INT); need(Z_MAP); need(Z_RNG); break;
	case 202: need(Z_INT); need(Z_MAP); need(Z_RNG); break;
	case 203: need(Z_INT); need(Z_MAP); need(Z_RNG); break;
	case 204: need(Z_INT); need(Z_MAP); need(Z_RNG); break;
	case 205: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_TUNER); need(Z_VARIABLE); break;
	case 206: need(Z_EXPRESSION); need(Z_LIST); need(Z_RANDOM_TUNER); need(Z_VARIABLE); break;
	case 207: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 208: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 209: need(Z_RANDOM_TUNER); break;
	case 210: need(Z_RANDOM_TUNER); break;
	case 211: need(Z_RANDOM_TUNER); break;
	case 212: need(Z_RANDOM_TUNER); break;
	case 213: need(Z_RANDOM_TUNER); break;
	case 214: need(Z_RANDOM_TUNER); break;
	case 215: need(Z_RANDOM_TUNER); break;
	case 216: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 217: need(Z_RANDOM_TUNER); break;
	case 218: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_RANDOM_TUNER); need(Z_STRING); break;
	case 219: need(Z_RANDOM_TUNER); break;
	case 220: need(Z_RANDOM_TUNER); break;
	case 221: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 222: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 223: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 224: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 225: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 226: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 227: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 228: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 229: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 230: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ORDINAL); need(Z_RNG); need(Z_ROULETTE); need(Z_STRING); need(Z_UNIFORM_INT); break;
	case 231: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ORDINAL); need(Z_RNG); need(Z_ROULETTE); need(Z_STRING); need(Z_UNIFORM_INT); break;
	case 232: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 233: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 234: need(Z_CATEGORICAL); need(Z_DISCRETE); need(Z_INT); need(Z_ORDINAL); need(Z_STRING); break;
	case 235: need(Z_RNG); break;
	case 236: need(Z_RNG); break;
	case 237: need(Z_RNG); break;
	case 238: need(Z_RNG); break;
	case 239: need(Z_RNG); break;
	case 240: need(Z_RNG); break;
	case 241: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 242: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 243: need(Z_RANDOM_TTUNER); break;
	case 244: need(Z_RANDOM_TTUNER); break;
	case 245: need(Z_RANDOM_TTUNER); break;
	case 246: need(Z_RANDOM_TTUNER); break;
	case 247: need(Z_RANDOM_TTUNER); break;
	case 248: need(Z_RANDOM_TTUNER); break;
	case 249: need(Z_RANDOM_TTUNER); break;
	case 250: need(Z_RANDOM_TTUNER); break;
	case 251: need(Z_RANDOM_TTUNER); break;
	case 252: need(Z_RANDOM_TTUNER); break;
	case 253: need(Z_RANDOM_TTUNER); break;
	case 254: need(Z_RANDOM_TTUNER); break;
	case 255: need(Z_RANDOM_TTUNER); break;
	case 256: need(Z_RANDOM_TTUNER); break;
	case 257: need(Z_RANDOM_TTUNER); break;
	case 258: need(Z_RANDOM_TTUNER); break;
	case 259: need(Z_RANDOM_TTUNER); break;
	case 260: need(Z_RANDOM_TTUNER); break;
	case 261: need(Z_RANDOM_TTUNER); break;
	case 262: need(Z_RANDOM_TTUNER); break;
	case 263: need(Z_RANDOM_TTUNER); break;
	case 264: need(Z_TREE); break;
	case 265: need(Z_TREE); break;
	case 266: need(Z_TREE); break;
	case 267: need(Z_TREE); break;
	case 268: need(Z_TREE); break;
	case 269: need(Z_TREE); break;
	case 270: need(Z_TREE); break;
	case 271: need(Z_TREE); break;
	case 272: need(Z_TREE); break;
	case 273: need(Z_TREE); break;
	case 274: need(Z_TREE); break;
	case 275: need(Z_TREE); break;
	case 276: need(Z_RNG); need(Z_TREE); break;
	case 277: need(Z_RNG); need(Z_TREE); break;
	case 278: need(Z_TREE); break;
	case 279: need(Z_TREE); break;
	case 280: need(Z_TREE); break;
	case 281: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 282: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 283: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 284: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 285: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 286: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 287: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 288: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 289: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 290: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); break;
	case 291: need(Z_DYNAMIC_TS); need(Z_RANDOM_TTUNER); need(Z_RNG); break;
	case 292: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 293: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 294: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 295: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 296: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 297: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 298: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 299: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 300: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 301: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 302: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 303: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 304: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 305: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 306: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 307: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 308: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 309: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 310: need(Z_MIXTURE); need(Z_MULTIVARIATE); need(Z_ROULETTE); need(Z_UNIFORM_INT); break;
	case 311: need(Z_RANDOM_FTUNER); need(Z_USER_FTUNER); break;
	case 312: need(Z_RANDOM_TTUNER); need(Z_USER_TTUNER); break;
	case 313: need(Z_RANDOM_TUNER); need(Z_USER_TUNER); break;
	case 314: need(Z_EXPRESSION); need(Z_LIST); need(Z_VARIABLE); break;
	}
}
static void call(unsigned f)
{
	switch (f) {
	case 0: { /* ccs_binding_cmp */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_binding_t a1 = (ccs_binding_t)pick(T_binding, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_binding_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 1: { /* ccs_binding_get_context */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_context_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_context_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_binding_get_context(a0, a1);
		after(r);
		break;
	}
	case 2: { /* ccs_binding_get_value */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_binding_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 3: { /* ccs_binding_get_value_by_name */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_binding_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 4: { /* ccs_binding_get_value_by_parameter */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_binding_get_value_by_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 5: { /* ccs_binding_get_values */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_binding_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 6: { /* ccs_binding_hash */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_binding_hash(a0, a1);
		after(r);
		break;
	}
	case 7: { /* ccs_binding_set_value */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_binding_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 8: { /* ccs_binding_set_value_by_name */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_binding_set_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 9: { /* ccs_binding_set_value_by_parameter */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_binding_set_value_by_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 10: { /* ccs_binding_set_values */
		ccs_binding_t a0 = (ccs_binding_t)pick(T_binding, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(10, 0), item_datum(10, 1), item_datum(10, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_binding_set_values(a0, a1, a2);
		after(r);
		break;
	}
	case 11: { /* ccs_categorical_parameter_get_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_categorical_parameter_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 12: { /* ccs_configuration_check */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_check(a0, a1);
		after(r);
		break;
	}
	case 13: { /* ccs_configuration_cmp */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t a1 = (ccs_configuration_t)pick(T_configuration, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 14: { /* ccs_configuration_get_configuration_space */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_configuration_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_get_configuration_space(a0, a1);
		after(r);
		break;
	}
	case 15: { /* ccs_configuration_get_value */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 16: { /* ccs_configuration_get_value_by_name */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 17: { /* ccs_configuration_get_values */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_configuration_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 18: { /* ccs_configuration_hash */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_hash(a0, a1);
		after(r);
		break;
	}
	case 19: { /* ccs_configuration_set_value */
		ccs_configuration_t a0 = (ccs_configuration_t)pick(T_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_configuration_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 20: { /* ccs_configuration_space_add_forbidden_clause */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_expression_t a1 = (ccs_expression_t)pick(T_expression, 0, 0, 1);
		before();
		ccs_result_t r = ccs_configuration_space_add_forbidden_clause(a0, a1);
		after(r);
		break;
	}
	case 21: { /* ccs_configuration_space_add_forbidden_clauses */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_expressions");
		ccs_expression_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_expression_t)(i == 1 ? pick(T_expression, 0, 0, a1 > 1) : item(T_expression, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_configuration_space_add_forbidden_clauses(a0, a1, a2);
		after(r);
		break;
	}
	case 22: { /* ccs_configuration_space_add_parameter */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		ccs_distribution_t a2 = (ccs_distribution_t)pick(T_distribution, 1, 0, 1);
		before();
		ccs_result_t r = ccs_configuration_space_add_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 23: { /* ccs_configuration_space_add_parameters */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_distribution_t w3[3]; for (unsigned i = 0; i < 3; i++) w3[i] = (ccs_distribution_t)(i == 1 ? pick(T_distribution, 1, 0, a1 > 1) : item(T_distribution, i));
		int m3 = missing(); if (m3 && !1) bad |= a1 != 0; ccs_distribution_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_configuration_space_add_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 24: { /* ccs_configuration_space_check_configuration */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t a1 = (ccs_configuration_t)pick(T_configuration, 0, 0, 1);
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_check_configuration(a0, a1, a2);
		after(r);
		break;
	}
	case 25: { /* ccs_configuration_space_check_configuration_values */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(25, 0), item_datum(25, 1), item_datum(25, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_configuration_space_check_configuration_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 26: { /* ccs_configuration_space_get_condition */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("parameter_index");
		bad |= a1 >= 64;
		ccs_expression_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_expression_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_condition(a0, a1, a2);
		after(r);
		break;
	}
	case 27: { /* ccs_configuration_space_get_conditions */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_expressions");
		ccs_expression_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_configuration_space_get_conditions(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 28: { /* ccs_configuration_space_get_default_configuration */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_default_configuration(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 29: { /* ccs_configuration_space_get_forbidden_clause */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_expression_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_expression_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_forbidden_clause(a0, a1, a2);
		after(r);
		break;
	}
	case 30: { /* ccs_configuration_space_get_forbidden_clauses */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_expressions");
		ccs_expression_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_configuration_space_get_forbidden_clauses(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 31: { /* ccs_configuration_space_get_name */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_name(a0, a1);
		after(r);
		break;
	}
	case 32: { /* ccs_configuration_space_get_num_parameters */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_num_parameters(a0, a1);
		after(r);
		break;
	}
	case 33: { /* ccs_configuration_space_get_parameter */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 34: { /* ccs_configuration_space_get_parameter_by_name */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 35: { /* ccs_configuration_space_get_parameter_distribution */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_distribution_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_distribution_t * a2 = output(w2, sizeof(w2), 0);
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter_distribution(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 36: { /* ccs_configuration_space_get_parameter_index */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter_index(a0, a1, a2);
		after(r);
		break;
	}
	case 37: { /* ccs_configuration_space_get_parameter_index_by_name */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter_index_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 38: { /* ccs_configuration_space_get_parameter_indexes */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; size_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		before();
		ccs_result_t r = ccs_configuration_space_get_parameter_indexes(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 39: { /* ccs_configuration_space_get_parameters */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_configuration_space_get_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 40: { /* ccs_configuration_space_get_rng */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_rng_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_space_get_rng(a0, a1);
		after(r);
		break;
	}
	case 41: { /* ccs_configuration_space_sample */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_configuration_space_sample(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 42: { /* ccs_configuration_space_samples */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_configurations");
		vp_assume(a1 <= 1);
		ccs_configuration_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_configuration_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_configuration_space_samples(a0, a1, a2);
		after(r);
		for (unsigned i = 0; i < 3; i++) if (w2[i] && a2) ccs_release_object(w2[i]);
		break;
	}
	case 43: { /* ccs_configuration_space_set_condition */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("parameter_index");
		bad |= a1 >= 64;
		ccs_expression_t a2 = (ccs_expression_t)pick(T_expression, 0, 0, 1);
		before();
		ccs_result_t r = ccs_configuration_space_set_condition(a0, a1, a2);
		after(r);
		break;
	}
	case 44: { /* ccs_configuration_space_set_distribution */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_distribution_t a1 = (ccs_distribution_t)pick(T_distribution, 0, 0, 1);
		size_t w2[4]; for (unsigned i = 0; i < 4; i++) w2[i] = (size_t)vp_u64("item"); size_t *a2 = missing() ? bad |= !0, NULL : w2;
		before();
		ccs_result_t r = ccs_configuration_space_set_distribution(a0, a1, a2);
		after(r);
		break;
	}
	case 45: { /* ccs_configuration_space_set_rng */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		before();
		ccs_result_t r = ccs_configuration_space_set_rng(a0, a1);
		after(r);
		break;
	}
	case 46: { /* ccs_configuration_space_validate_value */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_configuration_space_validate_value(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 47: { /* ccs_context_get_name */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_context_get_name(a0, a1);
		after(r);
		break;
	}
	case 48: { /* ccs_context_get_num_parameters */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_context_get_num_parameters(a0, a1);
		after(r);
		break;
	}
	case 49: { /* ccs_context_get_parameter */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_context_get_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 50: { /* ccs_context_get_parameter_by_name */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_context_get_parameter_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 51: { /* ccs_context_get_parameter_index */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_context_get_parameter_index(a0, a1, a2);
		after(r);
		break;
	}
	case 52: { /* ccs_context_get_parameter_index_by_name */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_context_get_parameter_index_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 53: { /* ccs_context_get_parameter_indexes */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; size_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		before();
		ccs_result_t r = ccs_context_get_parameter_indexes(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 54: { /* ccs_context_get_parameters */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_context_get_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 55: { /* ccs_context_validate_value */
		ccs_context_t a0 = (ccs_context_t)pick(T_context, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_context_validate_value(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 56: { /* ccs_create_binary_expression */
		ccs_expression_type_t a0 = (ccs_expression_type_t)vp_i32("type");
		bad |= wrong_expression_type((int)a0);
		ccs_datum_t a1 = a_datum();
		bad |= (unsigned)a1.type > CCS_DATA_TYPE_STRING;
		ccs_datum_t a2 = a_datum();
		bad |= (unsigned)a2.type > CCS_DATA_TYPE_STRING;
		ccs_expression_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_expression_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_binary_expression(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 57: { /* ccs_create_categorical_parameter */
		const char *a0 = a_name(0);
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3] = {item_datum(57, 0), item_datum(57, 1), item_datum(57, 2)};
		bad |= a1 > 1 && (unsigned)w2[1].type > CCS_DATA_TYPE_STRING;
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t a3 = (size_t)vp_u64("default_value_index");
		bad |= a3 >= 64;
		ccs_parameter_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_parameter_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_categorical_parameter(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 58: { /* ccs_create_configuration */
		ccs_configuration_space_t a0 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(58, 0), item_datum(58, 1), item_datum(58, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_configuration_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_configuration_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_configuration(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 59: { /* ccs_create_configuration_space */
		const char *a0 = a_name(0);
		ccs_configuration_space_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_configuration_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_configuration_space(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 60: { /* ccs_create_discrete_parameter */
		const char *a0 = a_name(0);
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3] = {item_datum(60, 0), item_datum(60, 1), item_datum(60, 2)};
		bad |= a1 > 1 && w2[1].type != CCS_DATA_TYPE_INT && w2[1].type != CCS_DATA_TYPE_FLOAT;
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t a3 = (size_t)vp_u64("default_value_index");
		bad |= a3 >= 64;
		ccs_parameter_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_parameter_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_discrete_parameter(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 61: { /* ccs_create_dynamic_tree_space */
		const char *a0 = a_name(0);
		ccs_tree_t a1 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_dynamic_tree_space_vector_t  w2 = dtv; ccs_dynamic_tree_space_vector_t * a2 = missing() ? bad = 1, NULL : &w2; if (a2) lacking((void **)&w2, sizeof(w2) / sizeof(void *), 2);
		void *a3 = &some;
		ccs_tree_space_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_tree_space_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_dynamic_tree_space(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 62: { /* ccs_create_evaluation */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t a1 = (ccs_configuration_t)pick(T_configuration, 0, 0, 1);
		ccs_evaluation_result_t a2 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a2);
		size_t a3 = (size_t)vp_u64("num_values");
		ccs_datum_t w4[3] = {item_datum(62, 0), item_datum(62, 1), item_datum(62, 2)};
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		ccs_evaluation_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_evaluation_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_evaluation(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 63: { /* ccs_create_expression */
		ccs_expression_type_t a0 = (ccs_expression_type_t)vp_i32("type");
		bad |= wrong_expression_type((int)a0);
		size_t a1 = (size_t)vp_u64("num_nodes");
		ccs_datum_t w2[3] = {item_datum(63, 0), item_datum(63, 1), item_datum(63, 2)};
		bad |= a1 > 1 && (unsigned)w2[1].type > CCS_DATA_TYPE_STRING;
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_expression_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_expression_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_expression(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 64: { /* ccs_create_features */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(64, 0), item_datum(64, 1), item_datum(64, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_features_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_features_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_features(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 65: { /* ccs_create_features_evaluation */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t a1 = (ccs_configuration_t)pick(T_configuration, 0, 0, 1);
		ccs_features_t a2 = (ccs_features_t)pick(T_features, 0, 0, 1);
		ccs_evaluation_result_t a3 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a3);
		size_t a4 = (size_t)vp_u64("num_values");
		ccs_datum_t w5[3] = {item_datum(65, 0), item_datum(65, 1), item_datum(65, 2)};
		int m5 = missing(); if (m5 && !0) bad |= a4 != 0; ccs_datum_t * a5 = m5 ? NULL : w5;
		if (!m5) vp_assume(a4 <= 3);
		ccs_features_evaluation_t w6[4]; memset(w6, 0, sizeof(w6));
		ccs_features_evaluation_t * a6 = output(w6, sizeof(w6), 0);
		before();
		ccs_result_t r = ccs_create_features_evaluation(a0, a1, a2, a3, a4, a5, a6);
		after(r);
		if (a6 && *a6) ccs_release_object(*a6);
		break;
	}
	case 66: { /* ccs_create_features_space */
		const char *a0 = a_name(0);
		ccs_features_space_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_features_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_features_space(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 67: { /* ccs_create_float_numerical_parameter */
		const char *a0 = a_name(0);
		ccs_float_t a1 = scalar_f("lower");
		ccs_float_t a2 = scalar_f("upper");
		ccs_float_t a3 = scalar_f("quantization");
		ccs_float_t a4 = scalar_f("default_value");
		ccs_parameter_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_parameter_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_float_numerical_parameter(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 68: { /* ccs_create_int_numerical_parameter */
		const char *a0 = a_name(0);
		ccs_int_t a1 = vp_choice(2, "lower") ? 2 : -3;
		ccs_int_t a2 = vp_choice(2, "upper") ? 8 : -3;
		ccs_int_t a3 = vp_choice(2, "quantization") ? 0 : -3;
		ccs_int_t a4 = vp_choice(2, "default_value") ? 2 : -3;
		ccs_parameter_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_parameter_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_int_numerical_parameter(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 69: { /* ccs_create_literal */
		ccs_datum_t a0 = a_datum();
		bad |= (unsigned)a0.type > CCS_DATA_TYPE_STRING;
		ccs_expression_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_expression_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_literal(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 70: { /* ccs_create_map */
		ccs_map_t w0[4]; memset(w0, 0, sizeof(w0));
		ccs_map_t * a0 = output(w0, sizeof(w0), 0);
		before();
		ccs_result_t r = ccs_create_map(a0);
		after(r);
		if (a0 && *a0) ccs_release_object(*a0);
		break;
	}
	case 71: { /* ccs_create_mixture_distribution */
		size_t a0 = (size_t)vp_u64("num_distributions");
		ccs_distribution_t w1[3]; for (unsigned i = 0; i < 3; i++) w1[i] = (ccs_distribution_t)(i == 1 ? pick(T_distribution, 0, 0, a0 > 1) : item(T_distribution, i));
		int m1 = missing(); if (m1 && !0) bad |= a0 != 0; ccs_distribution_t * a1 = m1 ? NULL : w1;
		if (!m1) vp_assume(a0 <= 3);
		ccs_float_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = scalar_f("weight");
		int m2 = missing(); if (m2 && !0) bad |= a0 != 0; ccs_float_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a0 <= 3);
		ccs_distribution_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_distribution_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_mixture_distribution(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 72: { /* ccs_create_multivariate_distribution */
		size_t a0 = (size_t)vp_u64("num_distributions");
		ccs_distribution_t w1[3]; for (unsigned i = 0; i < 3; i++) w1[i] = (ccs_distribution_t)(i == 1 ? pick(T_distribution, 0, 0, a0 > 1) : item(T_distribution, i));
		int m1 = missing(); if (m1 && !0) bad |= a0 != 0; ccs_distribution_t * a1 = m1 ? NULL : w1;
		if (!m1) vp_assume(a0 <= 3);
		ccs_distribution_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_distribution_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_create_multivariate_distribution(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 73: { /* ccs_create_normal_distribution */
		ccs_numeric_type_t a0 = (ccs_numeric_type_t)vp_i32("data_type");
		bad |= wrong_numeric_type((int)a0);
		ccs_float_t a1 = scalar_f("mu");
		ccs_float_t a2 = scalar_f("sigma");
		ccs_scale_type_t a3 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a3);
		ccs_numeric_t a4; a4.i = vp_choice(2, "quantization") ? 0 : -3;
		ccs_distribution_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_distribution_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_normal_distribution(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 74: { /* ccs_create_normal_float_distribution */
		ccs_float_t a0 = scalar_f("mu");
		ccs_float_t a1 = scalar_f("sigma");
		ccs_scale_type_t a2 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a2);
		ccs_float_t a3 = scalar_f("quantization");
		ccs_distribution_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_distribution_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_normal_float_distribution(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 75: { /* ccs_create_normal_int_distribution */
		ccs_float_t a0 = scalar_f("mu");
		ccs_float_t a1 = scalar_f("sigma");
		ccs_scale_type_t a2 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a2);
		ccs_int_t a3 = vp_choice(2, "quantization") ? 0 : -3;
		ccs_distribution_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_distribution_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_normal_int_distribution(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 76: { /* ccs_create_numerical_parameter */
		const char *a0 = a_name(0);
		ccs_numeric_type_t a1 = (ccs_numeric_type_t)vp_i32("data_type");
		bad |= wrong_numeric_type((int)a1);
		ccs_numeric_t a2; a2.i = vp_choice(2, "lower") ? 2 : -3;
		ccs_numeric_t a3; a3.i = vp_choice(2, "upper") ? 8 : -3;
		ccs_numeric_t a4; a4.i = vp_choice(2, "quantization") ? 0 : -3;
		ccs_numeric_t a5; a5.i = vp_choice(2, "default_value") ? 2 : -3;
		ccs_parameter_t w6[4]; memset(w6, 0, sizeof(w6));
		ccs_parameter_t * a6 = output(w6, sizeof(w6), 0);
		before();
		ccs_result_t r = ccs_create_numerical_parameter(a0, a1, a2, a3, a4, a5, a6);
		after(r);
		if (a6 && *a6) ccs_release_object(*a6);
		break;
	}
	case 77: { /* ccs_create_objective_space */
		const char *a0 = a_name(0);
		ccs_objective_space_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_objective_space(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 78: { /* ccs_create_ordinal_parameter */
		const char *a0 = a_name(0);
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3] = {item_datum(78, 0), item_datum(78, 1), item_datum(78, 2)};
		bad |= a1 > 1 && (unsigned)w2[1].type > CCS_DATA_TYPE_STRING;
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t a3 = (size_t)vp_u64("default_value_index");
		bad |= a3 >= 64;
		ccs_parameter_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_parameter_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_ordinal_parameter(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 79: { /* ccs_create_random_features_tuner */
		const char *a0 = a_name(0);
		ccs_configuration_space_t a1 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_features_space_t a2 = (ccs_features_space_t)pick(T_features_space, 0, 0, 1);
		ccs_objective_space_t a3 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_features_tuner_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_features_tuner_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_random_features_tuner(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 80: { /* ccs_create_random_tree_tuner */
		const char *a0 = a_name(0);
		ccs_tree_space_t a1 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_objective_space_t a2 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_tree_tuner_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_tree_tuner_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_random_tree_tuner(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 81: { /* ccs_create_random_tuner */
		const char *a0 = a_name(0);
		ccs_configuration_space_t a1 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_objective_space_t a2 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_tuner_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_tuner_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_random_tuner(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 82: { /* ccs_create_rng */
		ccs_rng_t w0[4]; memset(w0, 0, sizeof(w0));
		ccs_rng_t * a0 = output(w0, sizeof(w0), 0);
		before();
		ccs_result_t r = ccs_create_rng(a0);
		after(r);
		if (a0 && *a0) ccs_release_object(*a0);
		break;
	}
	case 83: { /* ccs_create_rng_with_type */
		const gsl_rng_type *a0 = missing() ? bad = 1, NULL : gsl_rng_types_setup()[0];
		ccs_rng_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_rng_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_rng_with_type(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 84: { /* ccs_create_roulette_distribution */
		size_t a0 = (size_t)vp_u64("num_areas");
		ccs_float_t w1[3]; for (unsigned i = 0; i < 3; i++) w1[i] = scalar_f("weight");
		int m1 = missing(); if (m1 && !0) bad |= a0 != 0; ccs_float_t * a1 = m1 ? NULL : w1;
		if (!m1) vp_assume(a0 <= 3);
		ccs_distribution_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_distribution_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_create_roulette_distribution(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 85: { /* ccs_create_static_tree_space */
		const char *a0 = a_name(0);
		ccs_tree_t a1 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_tree_space_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_tree_space_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_create_static_tree_space(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 86: { /* ccs_create_string_parameter */
		const char *a0 = a_name(0);
		ccs_parameter_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_parameter_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_string_parameter(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 87: { /* ccs_create_tree */
		size_t a0 = (size_t)vp_u64("arity");
		vp_assume(a0 <= 3);
		ccs_datum_t a1 = a_datum();
		bad |= (unsigned)a1.type > CCS_DATA_TYPE_STRING;
		ccs_tree_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_tree_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_create_tree(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 88: { /* ccs_create_tree_configuration */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_tree_configuration_t w3[4]; memset(w3, 0, sizeof(w3));
		ccs_tree_configuration_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_create_tree_configuration(a0, a1, a2, a3);
		after(r);
		if (a3 && *a3) ccs_release_object(*a3);
		break;
	}
	case 89: { /* ccs_create_tree_evaluation */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t a1 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 0, 1);
		ccs_evaluation_result_t a2 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a2);
		size_t a3 = (size_t)vp_u64("num_values");
		ccs_datum_t w4[3] = {item_datum(89, 0), item_datum(89, 1), item_datum(89, 2)};
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		ccs_tree_evaluation_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_tree_evaluation_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_tree_evaluation(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 90: { /* ccs_create_unary_expression */
		ccs_expression_type_t a0 = (ccs_expression_type_t)vp_i32("type");
		bad |= wrong_expression_type((int)a0);
		ccs_datum_t a1 = a_datum();
		bad |= (unsigned)a1.type > CCS_DATA_TYPE_STRING;
		ccs_expression_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_expression_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_create_unary_expression(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 91: { /* ccs_create_uniform_distribution */
		ccs_numeric_type_t a0 = (ccs_numeric_type_t)vp_i32("data_type");
		bad |= wrong_numeric_type((int)a0);
		ccs_numeric_t a1; a1.i = vp_choice(2, "lower") ? 2 : -3;
		ccs_numeric_t a2; a2.i = vp_choice(2, "upper") ? 8 : -3;
		ccs_scale_type_t a3 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a3);
		ccs_numeric_t a4; a4.i = vp_choice(2, "quantization") ? 0 : -3;
		ccs_distribution_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_distribution_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_uniform_distribution(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 92: { /* ccs_create_uniform_float_distribution */
		ccs_float_t a0 = scalar_f("lower");
		ccs_float_t a1 = scalar_f("upper");
		ccs_scale_type_t a2 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a2);
		ccs_float_t a3 = scalar_f("quantization");
		ccs_distribution_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_distribution_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_uniform_float_distribution(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 93: { /* ccs_create_uniform_int_distribution */
		ccs_int_t a0 = vp_choice(2, "lower") ? 2 : -3;
		ccs_int_t a1 = vp_choice(2, "upper") ? 8 : -3;
		ccs_scale_type_t a2 = (ccs_scale_type_t)vp_i32("scale");
		bad |= wrong_scale_type((int)a2);
		ccs_int_t a3 = vp_choice(2, "quantization") ? 0 : -3;
		ccs_distribution_t w4[4]; memset(w4, 0, sizeof(w4));
		ccs_distribution_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_create_uniform_int_distribution(a0, a1, a2, a3, a4);
		after(r);
		if (a4 && *a4) ccs_release_object(*a4);
		break;
	}
	case 94: { /* ccs_create_user_defined_features_tuner */
		const char *a0 = a_name(0);
		ccs_configuration_space_t a1 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_features_space_t a2 = (ccs_features_space_t)pick(T_features_space, 0, 0, 1);
		ccs_objective_space_t a3 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_user_defined_features_tuner_vector_t  w4 = utv1; ccs_user_defined_features_tuner_vector_t * a4 = missing() ? bad = 1, NULL : &w4; if (a4) lacking((void **)&w4, sizeof(w4) / sizeof(void *), 5);
		void *a5 = &some;
		ccs_features_tuner_t w6[4]; memset(w6, 0, sizeof(w6));
		ccs_features_tuner_t * a6 = output(w6, sizeof(w6), 0);
		before();
		ccs_result_t r = ccs_create_user_defined_features_tuner(a0, a1, a2, a3, a4, a5, a6);
		after(r);
		if (a6 && *a6) ccs_release_object(*a6);
		break;
	}
	case 95: { /* ccs_create_user_defined_tree_tuner */
		const char *a0 = a_name(0);
		ccs_tree_space_t a1 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_objective_space_t a2 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_user_defined_tree_tuner_vector_t  w3 = utv2; ccs_user_defined_tree_tuner_vector_t * a3 = missing() ? bad = 1, NULL : &w3; if (a3) lacking((void **)&w3, sizeof(w3) / sizeof(void *), 5);
		void *a4 = &some;
		ccs_tree_tuner_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_tree_tuner_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_user_defined_tree_tuner(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 96: { /* ccs_create_user_defined_tuner */
		const char *a0 = a_name(0);
		ccs_configuration_space_t a1 = (ccs_configuration_space_t)pick(T_configuration_space, 0, 1, 1);
		tgt = (ccs_object_t)a1;
		ccs_objective_space_t a2 = (ccs_objective_space_t)pick(T_objective_space, 0, 0, 1);
		ccs_user_defined_tuner_vector_t  w3 = utv0; ccs_user_defined_tuner_vector_t * a3 = missing() ? bad = 1, NULL : &w3; if (a3) lacking((void **)&w3, sizeof(w3) / sizeof(void *), 5);
		void *a4 = &some;
		ccs_tuner_t w5[4]; memset(w5, 0, sizeof(w5));
		ccs_tuner_t * a5 = output(w5, sizeof(w5), 0);
		before();
		ccs_result_t r = ccs_create_user_defined_tuner(a0, a1, a2, a3, a4, a5);
		after(r);
		if (a5 && *a5) ccs_release_object(*a5);
		break;
	}
	case 97: { /* ccs_create_variable */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_expression_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_expression_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_create_variable(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 98: { /* ccs_discrete_parameter_get_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_discrete_parameter_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 99: { /* ccs_distribution_check_oversampling */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_interval_t w1[4]; for (unsigned i = 0; i < 4; i++) w1[i] = an_interval(i); ccs_interval_t *a1 = missing() ? bad = 1, NULL : w1;
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_distribution_check_oversampling(a0, a1, a2);
		after(r);
		break;
	}
	case 100: { /* ccs_distribution_get_bounds */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_interval_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_interval_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_distribution_get_bounds(a0, a1);
		after(r);
		break;
	}
	case 101: { /* ccs_distribution_get_data_types */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_numeric_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_numeric_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_distribution_get_data_types(a0, a1);
		after(r);
		break;
	}
	case 102: { /* ccs_distribution_get_dimension */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_distribution_get_dimension(a0, a1);
		after(r);
		break;
	}
	case 103: { /* ccs_distribution_get_type */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_distribution_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_distribution_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_distribution_get_type(a0, a1);
		after(r);
		break;
	}
	case 104: { /* ccs_distribution_parameters_sample */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		ccs_parameter_t w2[4]; for (unsigned i = 0; i < 4; i++) w2[i] = (ccs_parameter_t)(i ? item(T_parameter, i) : pick(T_parameter, 0, 0, 1)); ccs_parameter_t *a2 = missing() ? bad = 1, NULL : w2;
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_distribution_parameters_sample(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 105: { /* ccs_distribution_parameters_samples */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		ccs_parameter_t w2[4]; for (unsigned i = 0; i < 4; i++) w2[i] = (ccs_parameter_t)(i ? item(T_parameter, i) : pick(T_parameter, 0, 0, 1)); ccs_parameter_t *a2 = missing() ? bad = 1, NULL : w2;
		size_t a3 = (size_t)vp_u64("num_samples");
		vp_assume(a3 <= 1);
		ccs_datum_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		nouts = 0;
		bad &= a3 != 0;
		before();
		ccs_result_t r = ccs_distribution_parameters_samples(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 106: { /* ccs_distribution_sample */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		ccs_numeric_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_numeric_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_distribution_sample(a0, a1, a2);
		after(r);
		break;
	}
	case 107: { /* ccs_distribution_samples */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		size_t a2 = (size_t)vp_u64("num_samples");
		vp_assume(a2 <= 1);
		ccs_numeric_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; ccs_numeric_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_distribution_samples(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 108: { /* ccs_dynamic_tree_space_get_tree_space_data */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		void * w1[4]; memset(w1, 0xa5, sizeof(w1)); void ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_dynamic_tree_space_get_tree_space_data(a0, a1);
		after(r);
		break;
	}
	case 109: { /* ccs_error_stack_get_code */
		ccs_error_stack_t a0 = (ccs_error_stack_t)pick(T_error_stack, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_result_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_result_t * a1 = output(w1, sizeof(w1), 0);
		silent = 1;
		before();
		ccs_result_t r = ccs_error_stack_get_code(a0, a1);
		after(r);
		break;
	}
	case 110: { /* ccs_error_stack_get_elems */
		ccs_error_stack_t a0 = (ccs_error_stack_t)pick(T_error_stack, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		ccs_error_stack_elem_t * w2[4]; memset(w2, 0xa5, sizeof(w2)); ccs_error_stack_elem_t ** a2 = output(w2, sizeof(w2), 0);
		silent = 1;
		before();
		ccs_result_t r = ccs_error_stack_get_elems(a0, a1, a2);
		after(r);
		break;
	}
	case 111: { /* ccs_error_stack_get_message */
		ccs_error_stack_t a0 = (ccs_error_stack_t)pick(T_error_stack, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		silent = 1;
		before();
		ccs_result_t r = ccs_error_stack_get_message(a0, a1);
		after(r);
		break;
	}
	case 112: { /* ccs_evaluation_check */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_evaluation_check(a0, a1);
		after(r);
		break;
	}
	case 113: { /* ccs_evaluation_cmp */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_t a1 = (ccs_evaluation_t)pick(T_evaluation, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_evaluation_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 114: { /* ccs_evaluation_compare */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_t a1 = (ccs_evaluation_t)pick(T_evaluation, 0, 0, 1);
		ccs_comparison_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_comparison_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_evaluation_compare(a0, a1, a2);
		after(r);
		break;
	}
	case 115: { /* ccs_evaluation_get_configuration */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_configuration(a0, a1);
		after(r);
		break;
	}
	case 116: { /* ccs_evaluation_get_objective_space */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 117: { /* ccs_evaluation_get_objective_value */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_objective_value(a0, a1, a2);
		after(r);
		break;
	}
	case 118: { /* ccs_evaluation_get_objective_values */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_evaluation_get_objective_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 119: { /* ccs_evaluation_get_result */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_evaluation_result_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_result(a0, a1);
		after(r);
		break;
	}
	case 120: { /* ccs_evaluation_get_value */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 121: { /* ccs_evaluation_get_value_by_name */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_evaluation_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 122: { /* ccs_evaluation_get_values */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_evaluation_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 123: { /* ccs_evaluation_hash */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_evaluation_hash(a0, a1);
		after(r);
		break;
	}
	case 124: { /* ccs_evaluation_set_result */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t a1 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a1);
		before();
		ccs_result_t r = ccs_evaluation_set_result(a0, a1);
		after(r);
		break;
	}
	case 125: { /* ccs_evaluation_set_value */
		ccs_evaluation_t a0 = (ccs_evaluation_t)pick(T_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_evaluation_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 126: { /* ccs_expression_check_context */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_context_t a1 = (ccs_context_t)pick(T_context, 0, 0, 0);
		before();
		ccs_result_t r = ccs_expression_check_context(a0, a1);
		after(r);
		break;
	}
	case 127: { /* ccs_expression_eval */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_context_t a1 = (ccs_context_t)pick(T_context, 0, 0, 0);
		ccs_datum_t w2[4]; for (unsigned i = 0; i < 4; i++) w2[i] = ccs_int(2); ccs_datum_t *a2 = missing() ? NULL : w2;
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_expression_eval(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 128: { /* ccs_expression_get_nodes */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_nodes");
		ccs_expression_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_expression_get_nodes(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 129: { /* ccs_expression_get_num_nodes */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_expression_get_num_nodes(a0, a1);
		after(r);
		break;
	}
	case 130: { /* ccs_expression_get_parameters */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_expression_get_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 131: { /* ccs_expression_get_type */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_expression_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_expression_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_expression_get_type(a0, a1);
		after(r);
		break;
	}
	case 132: { /* ccs_expression_list_eval_node */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_context_t a1 = (ccs_context_t)pick(T_context, 0, 0, 0);
		ccs_datum_t w2[4]; for (unsigned i = 0; i < 4; i++) w2[i] = ccs_int(2); ccs_datum_t *a2 = missing() ? NULL : w2;
		size_t a3 = (size_t)vp_u64("index");
		ccs_datum_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		ccs_datum_t * a4 = output(w4, sizeof(w4), 0);
		before();
		ccs_result_t r = ccs_expression_list_eval_node(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 133: { /* ccs_features_check */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_check(a0, a1);
		after(r);
		break;
	}
	case 134: { /* ccs_features_cmp */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 135: { /* ccs_features_evaluation_check */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_check(a0, a1);
		after(r);
		break;
	}
	case 136: { /* ccs_features_evaluation_cmp */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_evaluation_t a1 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 137: { /* ccs_features_evaluation_compare */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_evaluation_t a1 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 0, 1);
		ccs_comparison_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_comparison_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_compare(a0, a1, a2);
		after(r);
		break;
	}
	case 138: { /* ccs_features_evaluation_get_configuration */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_configuration(a0, a1);
		after(r);
		break;
	}
	case 139: { /* ccs_features_evaluation_get_features */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_features_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_features(a0, a1);
		after(r);
		break;
	}
	case 140: { /* ccs_features_evaluation_get_objective_space */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 141: { /* ccs_features_evaluation_get_objective_value */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_objective_value(a0, a1, a2);
		after(r);
		break;
	}
	case 142: { /* ccs_features_evaluation_get_objective_values */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_features_evaluation_get_objective_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 143: { /* ccs_features_evaluation_get_result */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_evaluation_result_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_result(a0, a1);
		after(r);
		break;
	}
	case 144: { /* ccs_features_evaluation_get_value */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 145: { /* ccs_features_evaluation_get_value_by_name */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 146: { /* ccs_features_evaluation_get_values */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_features_evaluation_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 147: { /* ccs_features_evaluation_hash */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_evaluation_hash(a0, a1);
		after(r);
		break;
	}
	case 148: { /* ccs_features_evaluation_set_result */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t a1 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a1);
		before();
		ccs_result_t r = ccs_features_evaluation_set_result(a0, a1);
		after(r);
		break;
	}
	case 149: { /* ccs_features_evaluation_set_value */
		ccs_features_evaluation_t a0 = (ccs_features_evaluation_t)pick(T_features_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_features_evaluation_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 150: { /* ccs_features_get_features_space */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_features_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_get_features_space(a0, a1);
		after(r);
		break;
	}
	case 151: { /* ccs_features_get_value */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 152: { /* ccs_features_get_value_by_name */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 153: { /* ccs_features_get_values */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_features_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 154: { /* ccs_features_hash */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_hash(a0, a1);
		after(r);
		break;
	}
	case 155: { /* ccs_features_set_value */
		ccs_features_t a0 = (ccs_features_t)pick(T_features, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_features_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 156: { /* ccs_features_space_add_parameter */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		before();
		ccs_result_t r = ccs_features_space_add_parameter(a0, a1);
		after(r);
		break;
	}
	case 157: { /* ccs_features_space_add_parameters */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_features_space_add_parameters(a0, a1, a2);
		after(r);
		break;
	}
	case 158: { /* ccs_features_space_check_features */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 0, 0, 1);
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_space_check_features(a0, a1, a2);
		after(r);
		break;
	}
	case 159: { /* ccs_features_space_check_features_values */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(159, 0), item_datum(159, 1), item_datum(159, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_features_space_check_features_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 160: { /* ccs_features_space_get_name */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_space_get_name(a0, a1);
		after(r);
		break;
	}
	case 161: { /* ccs_features_space_get_num_parameters */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_space_get_num_parameters(a0, a1);
		after(r);
		break;
	}
	case 162: { /* ccs_features_space_get_parameter */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_space_get_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 163: { /* ccs_features_space_get_parameter_by_name */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_space_get_parameter_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 164: { /* ccs_features_space_get_parameter_index */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_space_get_parameter_index(a0, a1, a2);
		after(r);
		break;
	}
	case 165: { /* ccs_features_space_get_parameter_index_by_name */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_space_get_parameter_index_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 166: { /* ccs_features_space_get_parameter_indexes */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; size_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		before();
		ccs_result_t r = ccs_features_space_get_parameter_indexes(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 167: { /* ccs_features_space_get_parameters */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_features_space_get_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 168: { /* ccs_features_space_validate_value */
		ccs_features_space_t a0 = (ccs_features_space_t)pick(T_features_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_features_space_validate_value(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 169: { /* ccs_features_tuner_ask */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 0, 0, 1);
		size_t a2 = (size_t)vp_u64("num_configurations");
		vp_assume(a2 <= 1);
		ccs_configuration_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		memset(w3, 0, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; ccs_configuration_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		size_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		size_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a3 && !a4;
		nouts = 0;
		before();
		ccs_result_t r = ccs_features_tuner_ask(a0, a1, a2, a3, a4);
		after(r);
		for (unsigned i = 0; i < 3; i++) if (w3[i] && a3) ccs_release_object(w3[i]);
		break;
	}
	case 170: { /* ccs_features_tuner_get_configuration_space */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_configuration_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_tuner_get_configuration_space(a0, a1);
		after(r);
		break;
	}
	case 171: { /* ccs_features_tuner_get_features_space */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_features_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_tuner_get_features_space(a0, a1);
		after(r);
		break;
	}
	case 172: { /* ccs_features_tuner_get_history */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 1, 0, 1);
		size_t a2 = (size_t)vp_u64("num_evaluations");
		ccs_features_evaluation_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		memset(w3, 0, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; ccs_features_evaluation_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		untouched(w3, sizeof(w3));
		size_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		size_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a3 && !a4;
		before();
		ccs_result_t r = ccs_features_tuner_get_history(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 173: { /* ccs_features_tuner_get_name */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_tuner_get_name(a0, a1);
		after(r);
		break;
	}
	case 174: { /* ccs_features_tuner_get_objective_space */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_tuner_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 175: { /* ccs_features_tuner_get_optima */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 1, 0, 1);
		size_t a2 = (size_t)vp_u64("num_evaluations");
		ccs_features_evaluation_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		memset(w3, 0, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; ccs_features_evaluation_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		untouched(w3, sizeof(w3));
		size_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		size_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a3 && !a4;
		before();
		ccs_result_t r = ccs_features_tuner_get_optima(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 176: { /* ccs_features_tuner_get_type */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_tuner_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_features_tuner_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_features_tuner_get_type(a0, a1);
		after(r);
		break;
	}
	case 177: { /* ccs_features_tuner_suggest */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_features_t a1 = (ccs_features_t)pick(T_features, 0, 0, 1);
		ccs_configuration_t w2[4]; memset(w2, 0, sizeof(w2));
		ccs_configuration_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_features_tuner_suggest(a0, a1, a2);
		after(r);
		if (a2 && *a2) ccs_release_object(*a2);
		break;
	}
	case 178: { /* ccs_features_tuner_tell */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_features_evaluation_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_features_evaluation_t)(i == 1 ? pick(T_features_evaluation, 0, 0, a1 > 1) : item(T_features_evaluation, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_features_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_features_tuner_tell(a0, a1, a2);
		after(r);
		break;
	}
	case 179: { /* ccs_get_result_name */
		ccs_result_t a0 = (ccs_result_t)vp_i32("result");
		bad |= wrong_result((int)a0);
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_get_result_name(a0, a1);
		after(r);
		break;
	}
	case 180: { /* ccs_interval_empty */
		ccs_interval_t w0[4]; for (unsigned i = 0; i < 4; i++) w0[i] = an_interval(i); ccs_interval_t *a0 = missing() ? bad = 1, NULL : w0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_interval_empty(a0, a1);
		after(r);
		break;
	}
	case 181: { /* ccs_interval_equal */
		ccs_interval_t w0[4]; for (unsigned i = 0; i < 4; i++) w0[i] = an_interval(i); ccs_interval_t *a0 = missing() ? bad = 1, NULL : w0;
		ccs_interval_t w1[4]; for (unsigned i = 0; i < 4; i++) w1[i] = an_interval(i); ccs_interval_t *a1 = missing() ? bad = 1, NULL : w1;
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_interval_equal(a0, a1, a2);
		after(r);
		break;
	}
	case 182: { /* ccs_interval_intersect */
		ccs_interval_t w0[4]; for (unsigned i = 0; i < 4; i++) w0[i] = an_interval(i); ccs_interval_t *a0 = missing() ? bad = 1, NULL : w0;
		ccs_interval_t w1[4]; for (unsigned i = 0; i < 4; i++) w1[i] = an_interval(i); ccs_interval_t *a1 = missing() ? bad = 1, NULL : w1;
		ccs_interval_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_interval_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_interval_intersect(a0, a1, a2);
		after(r);
		break;
	}
	case 183: { /* ccs_interval_union */
		ccs_interval_t w0[4]; for (unsigned i = 0; i < 4; i++) w0[i] = an_interval(i); ccs_interval_t *a0 = missing() ? bad = 1, NULL : w0;
		ccs_interval_t w1[4]; for (unsigned i = 0; i < 4; i++) w1[i] = an_interval(i); ccs_interval_t *a1 = missing() ? bad = 1, NULL : w1;
		ccs_interval_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_interval_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_interval_union(a0, a1, a2);
		after(r);
		break;
	}
	case 184: { /* ccs_literal_get_value */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_datum_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_literal_get_value(a0, a1);
		after(r);
		break;
	}
	case 185: { /* ccs_map_clear */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		before();
		ccs_result_t r = ccs_map_clear(a0);
		after(r);
		break;
	}
	case 186: { /* ccs_map_del */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		before();
		ccs_result_t r = ccs_map_del(a0, a1);
		after(r);
		break;
	}
	case 187: { /* ccs_map_exist */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_map_exist(a0, a1, a2);
		after(r);
		break;
	}
	case 188: { /* ccs_map_get */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_map_get(a0, a1, a2);
		after(r);
		break;
	}
	case 189: { /* ccs_map_get_keys */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_keys");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_map_get_keys(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 190: { /* ccs_map_get_pairs */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_pairs");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		ccs_datum_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; ccs_datum_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		size_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		size_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a2 && !a3 && !a4;
		before();
		ccs_result_t r = ccs_map_get_pairs(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 191: { /* ccs_map_get_values */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_map_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 192: { /* ccs_map_set */
		ccs_map_t a0 = (ccs_map_t)pick(T_map, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_map_set(a0, a1, a2);
		after(r);
		break;
	}
	case 193: { /* ccs_mixture_distribution_get_distributions */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_distributions");
		ccs_distribution_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_distribution_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_mixture_distribution_get_distributions(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 194: { /* ccs_mixture_distribution_get_num_distributions */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_mixture_distribution_get_num_distributions(a0, a1);
		after(r);
		break;
	}
	case 195: { /* ccs_mixture_distribution_get_weights */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_weights");
		ccs_float_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_float_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_mixture_distribution_get_weights(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 196: { /* ccs_multivariate_distribution_get_distributions */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_distributions");
		ccs_distribution_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_distribution_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_multivariate_distribution_get_distributions(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 197: { /* ccs_multivariate_distribution_get_num_distributions */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_multivariate_distribution_get_num_distributions(a0, a1);
		after(r);
		break;
	}
	case 198: { /* ccs_normal_distribution_get_properties */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_float_t * a1 = output(w1, sizeof(w1), 1);
		ccs_float_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_float_t * a2 = output(w2, sizeof(w2), 1);
		ccs_scale_type_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_scale_type_t * a3 = output(w3, sizeof(w3), 1);
		ccs_numeric_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		ccs_numeric_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a1 && !a2 && !a3 && !a4;
		before();
		ccs_result_t r = ccs_normal_distribution_get_properties(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 199: { /* ccs_numerical_parameter_get_properties */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_numeric_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_numeric_type_t * a1 = output(w1, sizeof(w1), 1);
		ccs_numeric_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_numeric_t * a2 = output(w2, sizeof(w2), 1);
		ccs_numeric_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_numeric_t * a3 = output(w3, sizeof(w3), 1);
		ccs_numeric_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		ccs_numeric_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a1 && !a2 && !a3 && !a4;
		before();
		ccs_result_t r = ccs_numerical_parameter_get_properties(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 200: { /* ccs_object_get_refcount */
		ccs_object_t a0 = (ccs_object_t)pick(T_object, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		int32_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		int32_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_object_get_refcount(a0, a1);
		after(r);
		break;
	}
	case 201: { /* ccs_object_get_type */
		ccs_object_t a0 = (ccs_object_t)pick(T_object, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_object_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_object_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_object_get_type(a0, a1);
		after(r);
		break;
	}
	case 202: { /* ccs_object_get_user_data */
		ccs_object_t a0 = (ccs_object_t)pick(T_object, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		void * w1[4]; memset(w1, 0xa5, sizeof(w1)); void ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_object_get_user_data(a0, a1);
		after(r);
		break;
	}
	case 203: { /* ccs_object_set_destroy_callback */
		ccs_object_t a0 = (ccs_object_t)pick(T_object, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_object_destroy_callback_t a1 = missing() ? bad |= !0, NULL : &a_destroy;
		void *a2 = &some;
		before();
		ccs_result_t r = ccs_object_set_destroy_callback(a0, a1, a2);
		after(r);
		break;
	}
	case 204: { /* ccs_object_set_serialize_callback */
		ccs_object_t a0 = (ccs_object_t)pick(T_object, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_object_serialize_callback_t a1 = missing() ? bad |= !1, NULL : &a_serialize;
		void *a2 = &some;
		before();
		ccs_result_t r = ccs_object_set_serialize_callback(a0, a1, a2);
		after(r);
		break;
	}
	case 205: { /* ccs_objective_space_add_objective */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_expression_t a1 = (ccs_expression_t)pick(T_expression, 0, 0, 1);
		ccs_objective_type_t a2 = (ccs_objective_type_t)vp_i32("type");
		bad |= wrong_objective_type((int)a2);
		before();
		ccs_result_t r = ccs_objective_space_add_objective(a0, a1, a2);
		after(r);
		break;
	}
	case 206: { /* ccs_objective_space_add_objectives */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_objectives");
		ccs_expression_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_expression_t)(i == 1 ? pick(T_expression, 0, 0, a1 > 1) : item(T_expression, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_objective_type_t w3[3]; for (unsigned i = 0; i < 3; i++) w3[i] = (ccs_objective_type_t)(i ? 0 : vp_i32("enum"));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; ccs_objective_type_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_objective_space_add_objectives(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 207: { /* ccs_objective_space_add_parameter */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		before();
		ccs_result_t r = ccs_objective_space_add_parameter(a0, a1);
		after(r);
		break;
	}
	case 208: { /* ccs_objective_space_add_parameters */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_objective_space_add_parameters(a0, a1, a2);
		after(r);
		break;
	}
	case 209: { /* ccs_objective_space_check_evaluation_values */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(209, 0), item_datum(209, 1), item_datum(209, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_objective_space_check_evaluation_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 210: { /* ccs_objective_space_get_name */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_name(a0, a1);
		after(r);
		break;
	}
	case 211: { /* ccs_objective_space_get_num_parameters */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_num_parameters(a0, a1);
		after(r);
		break;
	}
	case 212: { /* ccs_objective_space_get_objective */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_expression_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_expression_t * a2 = output(w2, sizeof(w2), 0);
		ccs_objective_type_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_objective_type_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_objective(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 213: { /* ccs_objective_space_get_objectives */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_objectives");
		ccs_expression_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_expression_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		ccs_objective_type_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; ccs_objective_type_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		size_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		size_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a2 && !a3 && !a4;
		before();
		ccs_result_t r = ccs_objective_space_get_objectives(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 214: { /* ccs_objective_space_get_parameter */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_parameter(a0, a1, a2);
		after(r);
		break;
	}
	case 215: { /* ccs_objective_space_get_parameter_by_name */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_parameter_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_parameter_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_parameter_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 216: { /* ccs_objective_space_get_parameter_index */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t a1 = (ccs_parameter_t)pick(T_parameter, 0, 0, 1);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_parameter_index(a0, a1, a2);
		after(r);
		break;
	}
	case 217: { /* ccs_objective_space_get_parameter_index_by_name */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_objective_space_get_parameter_index_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 218: { /* ccs_objective_space_get_parameter_indexes */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_parameter_t)(i == 1 ? pick(T_parameter, 0, 0, a1 > 1) : item(T_parameter, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; size_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		before();
		ccs_result_t r = ccs_objective_space_get_parameter_indexes(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 219: { /* ccs_objective_space_get_parameters */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_parameters");
		ccs_parameter_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_parameter_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_objective_space_get_parameters(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 220: { /* ccs_objective_space_validate_value */
		ccs_objective_space_t a0 = (ccs_objective_space_t)pick(T_objective_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_objective_space_validate_value(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 221: { /* ccs_ordinal_parameter_compare_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_datum_t a2 = a_datum();
		ccs_int_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_int_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_ordinal_parameter_compare_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 222: { /* ccs_ordinal_parameter_get_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_possible_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_ordinal_parameter_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 223: { /* ccs_parameter_check_value */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_parameter_check_value(a0, a1, a2);
		after(r);
		break;
	}
	case 224: { /* ccs_parameter_check_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(224, 0), item_datum(224, 1), item_datum(224, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; ccs_bool_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		before();
		ccs_result_t r = ccs_parameter_check_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 225: { /* ccs_parameter_convert_samples */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t a1 = vp_bool("oversampling");
		size_t a2 = (size_t)vp_u64("num_values");
		vp_assume(a2 <= 1);
		ccs_numeric_t w3[3]; for (unsigned i = 0; i < 3; i++) w3[i].i = 0;
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; const ccs_numeric_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		ccs_datum_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a2 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a2 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_parameter_convert_samples(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 226: { /* ccs_parameter_get_default_distribution */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_distribution_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_distribution_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_parameter_get_default_distribution(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 227: { /* ccs_parameter_get_default_value */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_datum_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_parameter_get_default_value(a0, a1);
		after(r);
		break;
	}
	case 228: { /* ccs_parameter_get_name */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_parameter_get_name(a0, a1);
		after(r);
		break;
	}
	case 229: { /* ccs_parameter_get_type */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_parameter_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_parameter_get_type(a0, a1);
		after(r);
		break;
	}
	case 230: { /* ccs_parameter_sample */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_distribution_t a1 = (ccs_distribution_t)pick(T_distribution, 0, 0, 1);
		ccs_rng_t a2 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		ccs_datum_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_datum_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_parameter_sample(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 231: { /* ccs_parameter_samples */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_distribution_t a1 = (ccs_distribution_t)pick(T_distribution, 0, 0, 1);
		ccs_rng_t a2 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		size_t a3 = (size_t)vp_u64("num_values");
		vp_assume(a3 <= 1);
		ccs_datum_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_parameter_samples(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 232: { /* ccs_parameter_sampling_interval */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_interval_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_interval_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_parameter_sampling_interval(a0, a1);
		after(r);
		break;
	}
	case 233: { /* ccs_parameter_validate_value */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t a1 = a_datum();
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_parameter_validate_value(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 234: { /* ccs_parameter_validate_values */
		ccs_parameter_t a0 = (ccs_parameter_t)pick(T_parameter, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3] = {item_datum(234, 0), item_datum(234, 1), item_datum(234, 2)};
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_datum_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a1 != 0; ccs_datum_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a1 <= 3);
		untouched(w3, sizeof(w3));
		ccs_bool_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a1 != 0; ccs_bool_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a1 <= 3);
		untouched(w4, sizeof(w4));
		nouts = 0;
		before();
		ccs_result_t r = ccs_parameter_validate_values(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 235: { /* ccs_rng_get */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		unsigned long int w1[4]; memset(w1, 0xa5, sizeof(w1));
		unsigned long int * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_rng_get(a0, a1);
		after(r);
		break;
	}
	case 236: { /* ccs_rng_get_type */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const gsl_rng_type * w1[4]; memset(w1, 0xa5, sizeof(w1)); const gsl_rng_type ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_rng_get_type(a0, a1);
		after(r);
		break;
	}
	case 237: { /* ccs_rng_max */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		unsigned long int w1[4]; memset(w1, 0xa5, sizeof(w1));
		unsigned long int * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_rng_max(a0, a1);
		after(r);
		break;
	}
	case 238: { /* ccs_rng_min */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		unsigned long int w1[4]; memset(w1, 0xa5, sizeof(w1));
		unsigned long int * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_rng_min(a0, a1);
		after(r);
		break;
	}
	case 239: { /* ccs_rng_set_seed */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		unsigned long a1 = vp_u64("seed");
		before();
		ccs_result_t r = ccs_rng_set_seed(a0, a1);
		after(r);
		break;
	}
	case 240: { /* ccs_rng_uniform */
		ccs_rng_t a0 = (ccs_rng_t)pick(T_rng, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_float_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_rng_uniform(a0, a1);
		after(r);
		break;
	}
	case 241: { /* ccs_roulette_distribution_get_areas */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_areas");
		ccs_float_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_float_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_roulette_distribution_get_areas(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 242: { /* ccs_roulette_distribution_get_num_areas */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_roulette_distribution_get_num_areas(a0, a1);
		after(r);
		break;
	}
	case 243: { /* ccs_tree_configuration_check */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_configuration_check(a0, a1);
		after(r);
		break;
	}
	case 244: { /* ccs_tree_configuration_cmp */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t a1 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_configuration_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 245: { /* ccs_tree_configuration_get_node */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_configuration_get_node(a0, a1);
		after(r);
		break;
	}
	case 246: { /* ccs_tree_configuration_get_position */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_configuration_get_position(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 247: { /* ccs_tree_configuration_get_tree_space */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_configuration_get_tree_space(a0, a1);
		after(r);
		break;
	}
	case 248: { /* ccs_tree_configuration_get_values */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_configuration_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 249: { /* ccs_tree_configuration_hash */
		ccs_tree_configuration_t a0 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_configuration_hash(a0, a1);
		after(r);
		break;
	}
	case 250: { /* ccs_tree_evaluation_check */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_bool_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_bool_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_check(a0, a1);
		after(r);
		break;
	}
	case 251: { /* ccs_tree_evaluation_cmp */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_evaluation_t a1 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 0, 1);
		int w2[4]; memset(w2, 0xa5, sizeof(w2));
		int * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_cmp(a0, a1, a2);
		after(r);
		break;
	}
	case 252: { /* ccs_tree_evaluation_compare */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_evaluation_t a1 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 0, 1);
		ccs_comparison_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_comparison_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_compare(a0, a1, a2);
		after(r);
		break;
	}
	case 253: { /* ccs_tree_evaluation_get_configuration */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_configuration(a0, a1);
		after(r);
		break;
	}
	case 254: { /* ccs_tree_evaluation_get_objective_space */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 255: { /* ccs_tree_evaluation_get_objective_value */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_objective_value(a0, a1, a2);
		after(r);
		break;
	}
	case 256: { /* ccs_tree_evaluation_get_objective_values */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_evaluation_get_objective_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 257: { /* ccs_tree_evaluation_get_result */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_evaluation_result_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_result(a0, a1);
		after(r);
		break;
	}
	case 258: { /* ccs_tree_evaluation_get_value */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_value(a0, a1, a2);
		after(r);
		break;
	}
	case 259: { /* ccs_tree_evaluation_get_value_by_name */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char *a1 = a_name(0);
		ccs_datum_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_datum_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_get_value_by_name(a0, a1, a2);
		after(r);
		break;
	}
	case 260: { /* ccs_tree_evaluation_get_values */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_evaluation_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 261: { /* ccs_tree_evaluation_hash */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_hash_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_hash_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_evaluation_hash(a0, a1);
		after(r);
		break;
	}
	case 262: { /* ccs_tree_evaluation_set_result */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_evaluation_result_t a1 = (ccs_evaluation_result_t)vp_i32("result");
		bad |= wrong_evaluation_result((int)a1);
		before();
		ccs_result_t r = ccs_tree_evaluation_set_result(a0, a1);
		after(r);
		break;
	}
	case 263: { /* ccs_tree_evaluation_set_value */
		ccs_tree_evaluation_t a0 = (ccs_tree_evaluation_t)pick(T_tree_evaluation, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_datum_t a2 = a_datum();
		before();
		ccs_result_t r = ccs_tree_evaluation_set_value(a0, a1, a2);
		after(r);
		break;
	}
	case 264: { /* ccs_tree_get_arity */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		size_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_get_arity(a0, a1);
		after(r);
		break;
	}
	case 265: { /* ccs_tree_get_bias */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_float_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_get_bias(a0, a1);
		after(r);
		break;
	}
	case 266: { /* ccs_tree_get_child */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_tree_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_tree_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_get_child(a0, a1, a2);
		after(r);
		break;
	}
	case 267: { /* ccs_tree_get_children */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_children");
		ccs_tree_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_get_children(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 268: { /* ccs_tree_get_node_at_position */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_tree_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_tree_t * a3 = output(w3, sizeof(w3), 0);
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_get_node_at_position(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 269: { /* ccs_tree_get_parent */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_t * a1 = output(w1, sizeof(w1), 0);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 1);
		before();
		ccs_result_t r = ccs_tree_get_parent(a0, a1, a2);
		after(r);
		break;
	}
	case 270: { /* ccs_tree_get_position */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_get_position(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 271: { /* ccs_tree_get_value */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_datum_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_datum_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_get_value(a0, a1);
		after(r);
		break;
	}
	case 272: { /* ccs_tree_get_values */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_values");
		ccs_datum_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_datum_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_get_values(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 273: { /* ccs_tree_get_values_at_position */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t a3 = (size_t)vp_u64("num_values");
		ccs_datum_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		untouched(w4, sizeof(w4));
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_get_values_at_position(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 274: { /* ccs_tree_get_weight */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_float_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_get_weight(a0, a1);
		after(r);
		break;
	}
	case 275: { /* ccs_tree_position_is_valid */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_tree_position_is_valid(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 276: { /* ccs_tree_sample */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		size_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		size_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_sample(a0, a1, a2);
		after(r);
		break;
	}
	case 277: { /* ccs_tree_samples */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		size_t a2 = (size_t)vp_u64("num_indices");
		vp_assume(a2 <= 1);
		size_t w3[3]; memset(w3, 0xa5, sizeof(w3));
		int m3 = missing(); if (m3 && !0) bad |= a2 != 0; size_t * a3 = m3 ? NULL : w3;
		if (!m3) vp_assume(a2 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_samples(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 278: { /* ccs_tree_set_bias */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t a1 = scalar_f("bias");
		before();
		ccs_result_t r = ccs_tree_set_bias(a0, a1);
		after(r);
		break;
	}
	case 279: { /* ccs_tree_set_child */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("index");
		bad |= a1 >= 64;
		ccs_tree_t a2 = (ccs_tree_t)pick(T_tree, 0, 0, 1);
		before();
		ccs_result_t r = ccs_tree_set_child(a0, a1, a2);
		after(r);
		break;
	}
	case 280: { /* ccs_tree_set_weight */
		ccs_tree_t a0 = (ccs_tree_t)pick(T_tree, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_float_t a1 = scalar_f("weight");
		before();
		ccs_result_t r = ccs_tree_set_weight(a0, a1);
		after(r);
		break;
	}
	case 281: { /* ccs_tree_space_check_configuration */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t a1 = (ccs_tree_configuration_t)pick(T_tree_configuration, 0, 0, 1);
		ccs_bool_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_bool_t * a2 = output(w2, sizeof(w2), 0);
		before();
		ccs_result_t r = ccs_tree_space_check_configuration(a0, a1, a2);
		after(r);
		break;
	}
	case 282: { /* ccs_tree_space_check_position */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_bool_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_bool_t * a3 = output(w3, sizeof(w3), 0);
		before();
		ccs_result_t r = ccs_tree_space_check_position(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 283: { /* ccs_tree_space_get_name */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_space_get_name(a0, a1);
		after(r);
		break;
	}
	case 284: { /* ccs_tree_space_get_node_at_position */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		ccs_tree_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_tree_t * a3 = output(w3, sizeof(w3), 0);
		batch = 1;
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_space_get_node_at_position(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 285: { /* ccs_tree_space_get_rng */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_rng_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_space_get_rng(a0, a1);
		after(r);
		break;
	}
	case 286: { /* ccs_tree_space_get_tree */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_space_get_tree(a0, a1);
		after(r);
		break;
	}
	case 287: { /* ccs_tree_space_get_type */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_space_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_space_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_space_get_type(a0, a1);
		after(r);
		break;
	}
	case 288: { /* ccs_tree_space_get_values_at_position */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("position_size");
		size_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (size_t)vp_u64("item");
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; const size_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t a3 = (size_t)vp_u64("num_values");
		ccs_datum_t w4[3]; memset(w4, 0xa5, sizeof(w4));
		int m4 = missing(); if (m4 && !0) bad |= a3 != 0; ccs_datum_t * a4 = m4 ? NULL : w4;
		if (!m4) vp_assume(a3 <= 3);
		untouched(w4, sizeof(w4));
		batch = 1;
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_space_get_values_at_position(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 289: { /* ccs_tree_space_sample */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_tree_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_space_sample(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 290: { /* ccs_tree_space_samples */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_configurations");
		vp_assume(a1 <= 1);
		ccs_tree_configuration_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_configuration_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_space_samples(a0, a1, a2);
		after(r);
		for (unsigned i = 0; i < 3; i++) if (w2[i] && a2) ccs_release_object(w2[i]);
		break;
	}
	case 291: { /* ccs_tree_space_set_rng */
		ccs_tree_space_t a0 = (ccs_tree_space_t)pick(T_tree_space, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_rng_t a1 = (ccs_rng_t)pick(T_rng, 0, 0, 1);
		before();
		ccs_result_t r = ccs_tree_space_set_rng(a0, a1);
		after(r);
		break;
	}
	case 292: { /* ccs_tree_tuner_ask */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_configurations");
		vp_assume(a1 <= 1);
		ccs_tree_configuration_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_configuration_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		nouts = 0;
		before();
		ccs_result_t r = ccs_tree_tuner_ask(a0, a1, a2, a3);
		after(r);
		for (unsigned i = 0; i < 3; i++) if (w2[i] && a2) ccs_release_object(w2[i]);
		break;
	}
	case 293: { /* ccs_tree_tuner_get_history */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_tree_evaluation_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_tuner_get_history(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 294: { /* ccs_tree_tuner_get_name */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_tuner_get_name(a0, a1);
		after(r);
		break;
	}
	case 295: { /* ccs_tree_tuner_get_objective_space */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_tuner_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 296: { /* ccs_tree_tuner_get_optima */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_tree_evaluation_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tree_tuner_get_optima(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 297: { /* ccs_tree_tuner_get_tree_space */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_tuner_get_tree_space(a0, a1);
		after(r);
		break;
	}
	case 298: { /* ccs_tree_tuner_get_type */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_tuner_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tree_tuner_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_tuner_get_type(a0, a1);
		after(r);
		break;
	}
	case 299: { /* ccs_tree_tuner_suggest */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tree_configuration_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_tree_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tree_tuner_suggest(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 300: { /* ccs_tree_tuner_tell */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_tree_evaluation_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_tree_evaluation_t)(i == 1 ? pick(T_tree_evaluation, 0, 0, a1 > 1) : item(T_tree_evaluation, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_tree_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_tree_tuner_tell(a0, a1, a2);
		after(r);
		break;
	}
	case 301: { /* ccs_tuner_ask */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_configurations");
		vp_assume(a1 <= 1);
		ccs_configuration_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_configuration_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		nouts = 0;
		before();
		ccs_result_t r = ccs_tuner_ask(a0, a1, a2, a3);
		after(r);
		for (unsigned i = 0; i < 3; i++) if (w2[i] && a2) ccs_release_object(w2[i]);
		break;
	}
	case 302: { /* ccs_tuner_get_configuration_space */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_configuration_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tuner_get_configuration_space(a0, a1);
		after(r);
		break;
	}
	case 303: { /* ccs_tuner_get_history */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_evaluation_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tuner_get_history(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 304: { /* ccs_tuner_get_name */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		const char * w1[4]; memset(w1, 0xa5, sizeof(w1)); const char ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tuner_get_name(a0, a1);
		after(r);
		break;
	}
	case 305: { /* ccs_tuner_get_objective_space */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_objective_space_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_objective_space_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tuner_get_objective_space(a0, a1);
		after(r);
		break;
	}
	case 306: { /* ccs_tuner_get_optima */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_evaluation_t w2[3]; memset(w2, 0xa5, sizeof(w2));
		memset(w2, 0, sizeof(w2));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		untouched(w2, sizeof(w2));
		size_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		size_t * a3 = output(w3, sizeof(w3), 1);
		bad |= !a2 && !a3;
		before();
		ccs_result_t r = ccs_tuner_get_optima(a0, a1, a2, a3);
		after(r);
		break;
	}
	case 307: { /* ccs_tuner_get_type */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_tuner_type_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_tuner_type_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tuner_get_type(a0, a1);
		after(r);
		break;
	}
	case 308: { /* ccs_tuner_suggest */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_configuration_t w1[4]; memset(w1, 0, sizeof(w1));
		ccs_configuration_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_tuner_suggest(a0, a1);
		after(r);
		if (a1 && *a1) ccs_release_object(*a1);
		break;
	}
	case 309: { /* ccs_tuner_tell */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		size_t a1 = (size_t)vp_u64("num_evaluations");
		ccs_evaluation_t w2[3]; for (unsigned i = 0; i < 3; i++) w2[i] = (ccs_evaluation_t)(i == 1 ? pick(T_evaluation, 0, 0, a1 > 1) : item(T_evaluation, i));
		int m2 = missing(); if (m2 && !0) bad |= a1 != 0; ccs_evaluation_t * a2 = m2 ? NULL : w2;
		if (!m2) vp_assume(a1 <= 3);
		batch = 1;
		before();
		ccs_result_t r = ccs_tuner_tell(a0, a1, a2);
		after(r);
		break;
	}
	case 310: { /* ccs_uniform_distribution_get_properties */
		ccs_distribution_t a0 = (ccs_distribution_t)pick(T_distribution, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_numeric_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_numeric_t * a1 = output(w1, sizeof(w1), 1);
		ccs_numeric_t w2[4]; memset(w2, 0xa5, sizeof(w2));
		ccs_numeric_t * a2 = output(w2, sizeof(w2), 1);
		ccs_scale_type_t w3[4]; memset(w3, 0xa5, sizeof(w3));
		ccs_scale_type_t * a3 = output(w3, sizeof(w3), 1);
		ccs_numeric_t w4[4]; memset(w4, 0xa5, sizeof(w4));
		ccs_numeric_t * a4 = output(w4, sizeof(w4), 1);
		bad |= !a1 && !a2 && !a3 && !a4;
		before();
		ccs_result_t r = ccs_uniform_distribution_get_properties(a0, a1, a2, a3, a4);
		after(r);
		break;
	}
	case 311: { /* ccs_user_defined_features_tuner_get_tuner_data */
		ccs_features_tuner_t a0 = (ccs_features_tuner_t)pick(T_features_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		void * w1[4]; memset(w1, 0xa5, sizeof(w1)); void ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_user_defined_features_tuner_get_tuner_data(a0, a1);
		after(r);
		break;
	}
	case 312: { /* ccs_user_defined_tree_tuner_get_tuner_data */
		ccs_tree_tuner_t a0 = (ccs_tree_tuner_t)pick(T_tree_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		void * w1[4]; memset(w1, 0xa5, sizeof(w1)); void ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_user_defined_tree_tuner_get_tuner_data(a0, a1);
		after(r);
		break;
	}
	case 313: { /* ccs_user_defined_tuner_get_tuner_data */
		ccs_tuner_t a0 = (ccs_tuner_t)pick(T_tuner, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		void * w1[4]; memset(w1, 0xa5, sizeof(w1)); void ** a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_user_defined_tuner_get_tuner_data(a0, a1);
		after(r);
		break;
	}
	case 314: { /* ccs_variable_get_parameter */
		ccs_expression_t a0 = (ccs_expression_t)pick(T_expression, 0, 1, 1);
		tgt = (ccs_object_t)a0;
		ccs_parameter_t w1[4]; memset(w1, 0xa5, sizeof(w1));
		ccs_parameter_t * a1 = output(w1, sizeof(w1), 0);
		before();
		ccs_result_t r = ccs_variable_get_parameter(a0, a1);
		after(r);
		break;
	}
	}
}
void vp_main(void)
{
	ccs_init();
	int64_t live = vp_heap_live();
	unsigned f = (unsigned)CH(315, "f");
	vp_draw_limit = (unsigned)vp_param("draws", 4);
	OK(ccs_create_map((ccs_map_t *)&stray));
	world(f);
	OK(ccs_create_error_stack((ccs_error_stack_t *)&estack, CCS_RESULT_ERROR_INVALID_VALUE, "message"));
	note(estack);
	call(f);
	rel(estack);
	while (nz)
		zoo_free(&z[--nz]);
	rel(stray);
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
