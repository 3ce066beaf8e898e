#!/usr/bin/env python3
# writes properties.jsonl
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

p("P01", "Parameters, distributions, expressions, maps and RNGs survive serialization",
  "Serializing any parameter, distribution, expression, map or random generator and reading the bytes back yields an object with the same observable content (name, type, bounds, quantization, default, possible values, weights up to rounding, tree structure, keys and values, generator state, user data when asked for). The announced size is exactly the number of bytes needed: a buffer of that size succeeds, a smaller one is refused without touching memory outside it.",
  ["inputs"], "every content of such an object (all 64-bit integer and float values, symbolic characters of strings, every supported kind) within the size bounds of the check",
  "unit tests round-trip a handful of hand-picked objects; the guarantee is over every value of every field and every buffer size",
  ["src/cconfigspace.c", "src/cconfigspace_internal.h", "src/parameter_deserialize.h", "src/distribution_deserialize.h", "src/expression_deserialize.h", "src/map_deserialize.h", "src/rng_deserialize.h"],
  [("object (de)serialization front end", "src/cconfigspace.c:ccs_object_serialize/ccs_object_deserialize"), ("primitive codecs", "src/cconfigspace_internal.h:_ccs_serialize_bin_*"), ("per-type writers", "src/parameter_*.c, src/distribution_*.c, src/expression.c, src/map.c, src/rng.c")],
  ["ccs_object_serialize", "ccs_object_deserialize", "public getters of the rebuilt object"])
p("P02", "Spaces, configurations, evaluations, tuners and trees survive serialization",
  "Serializing a configuration, features, objective or tree space, a configuration, a features or objective evaluation, a tree, a tree configuration or a tuner and reading the bytes back yields an object with the same observable content and relations: same parameters in the same order with their distributions, conditions and forbidden clauses, same objectives, same values (strings being of the parameter's domain), same tree shape, weights and bias, same tuner history and optima. The announced size is exactly what is written, and references to other objects are resolved to the matching rebuilt or caller-supplied objects.",
  ["inputs", "histories"], "every value stored in such objects and every short construction history (conditions, clauses, distributions, asks and tells) within the size bounds of the check",
  "tests serialize one fixed object of each kind and compare a few fields",
  ["src/configuration_space_deserialize.h", "src/context_deserialize.h", "src/objective_space_deserialize.h", "src/features_space_deserialize.h", "src/configuration_deserialize.h", "src/evaluation_deserialize.h", "src/features_deserialize.h", "src/features_evaluation_deserialize.h", "src/tuner_deserialize.h", "src/features_tuner_deserialize.h", "src/tree_deserialize.h", "src/tree_space_deserialize.h", "src/tree_configuration_deserialize.h", "src/tree_evaluation_deserialize.h", "src/tree_tuner_deserialize.h"],
  [("per-type writers", "src/*_space.c, src/configuration.c, src/evaluation.c, src/tuner*.c, src/tree*.c:_ccs_serialize_bin_*"), ("per-type readers", "src/*_deserialize.h"), ("handle map", "src/cconfigspace_internal.h:_ccs_object_handle_check_add")],
  ["ccs_object_serialize", "ccs_object_deserialize", "public getters of the rebuilt object"])
p("P03", "Reading damaged or truncated serialized data is safe",
  "Deserializing a byte buffer that is truncated anywhere or has been altered never reads outside the buffer, never corrupts memory, never crashes or loops forever, and never leaks: it either returns a usable object or an error with every intermediate object released. Truncated data is always refused.",
  ["inputs"], "every truncation length of serialized objects of every kind, and every value of altered bytes within the bounds of the check",
  "tests only feed well-formed buffers produced by the library itself",
  ["src/cconfigspace.c", "src/cconfigspace_internal.h", "src/parameter_deserialize.h", "src/distribution_deserialize.h", "src/expression_deserialize.h", "src/map_deserialize.h", "src/context_deserialize.h", "src/tree_deserialize.h"],
  [("bounds-checked primitive readers", "src/cconfigspace_internal.h:_ccs_deserialize_bin_*"), ("per-type readers", "src/*_deserialize.h")],
  ["ccs_object_deserialize return code", "memory accesses", "live heap objects"])
p("P04", "Interval operations agree with membership",
  "For integer and float intervals, a point is in the intersection exactly when it is in both operands, emptiness is reported exactly when no point belongs, equality of two non-empty intervals holds exactly when they contain the same points (floats taken as dense), and the union contains every point of both operands and is the smallest such interval. All five operations honour open and closed bounds and the extreme values of the type.",
  ["inputs"], "every pair of intervals with any bounds (full 64-bit range; floats except NaN), any combination of open and closed ends, and every probe point",
  "the domain is 2^64 per bound and the errors sit at adjacent or equal bounds that tests do not pick",
  ["src/interval.c", "include/cconfigspace/interval.h"],
  [("interval algebra", "src/interval.c")],
  ["ccs_interval_empty", "ccs_interval_intersect", "ccs_interval_union", "ccs_interval_equal", "ccs_interval_include"])
p("P05", "Parameters accept exactly their declared domain",
  "A numerical, categorical, ordinal, discrete or string parameter reports a value as valid exactly when it belongs to the declared domain (type matches and value within bounds or among the possible values), and checking one value or an array agree. Creation succeeds only for a coherent declaration (non-empty domain, valid default, no duplicate values), getters return what was declared, ordinal comparison follows declaration order, and converted or sampled values always belong to the domain.",
  ["inputs"], "every declaration (bounds, quantization, default, up to the bounded number of possible values of any type) and every candidate value",
  "tests probe a few constants per parameter kind",
  ["src/parameter.c", "src/parameter_numerical.c", "src/parameter_categorical.c", "src/parameter_string.c", "src/parameter_internal.h"],
  [("numerical parameter", "src/parameter_numerical.c"), ("categorical, ordinal and discrete parameters", "src/parameter_categorical.c"), ("string parameter", "src/parameter_string.c"), ("generic entry points", "src/parameter.c")],
  ["ccs_create_*_parameter", "ccs_parameter_check_value(s)", "ccs_parameter_validate_value(s)", "ccs_parameter_convert_samples", "ccs_ordinal_parameter_compare_values", "ccs_parameter_sample(s)"])
p("P06", "Distributions stay within their bounds and all sampling forms agree",
  "Every value drawn from a uniform, normal, roulette, mixture or multivariate distribution lies within the bounds the distribution reports, roulette and mixture picks follow the declared weights, and oversampling is reported exactly when the reported bounds exceed the queried interval. For the same generator state, array, strided and structure-of-arrays sampling produce the same values, as does drawing one value at a time from a one-dimensional distribution, and creation rejects empty intervals, quantizations wider than the interval, negative or all-zero weights and mixtures of different dimensions.",
  ["inputs", "histories"], "every distribution parameterization within the bounds of the check and every outcome of the random generator",
  "tests check statistical moments on a fixed seed; boundary draws (0 and the largest draw) never occur in a test run",
  ["src/distribution.c", "src/distribution_uniform.c", "src/distribution_normal.c", "src/distribution_roulette.c", "src/distribution_mixture.c", "src/distribution_multivariate.c", "src/distribution_internal.h"],
  [("uniform", "src/distribution_uniform.c"), ("normal", "src/distribution_normal.c"), ("roulette", "src/distribution_roulette.c"), ("mixture", "src/distribution_mixture.c"), ("multivariate", "src/distribution_multivariate.c")],
  ["ccs_distribution_sample(s)", "ccs_distribution_strided_samples", "ccs_distribution_soa_samples", "ccs_distribution_get_bounds", "ccs_distribution_check_oversampling"])
p("P07", "Expression evaluation follows the documented operator semantics",
  "Evaluating any expression over any binding yields the value defined by its operator: numeric promotion, comparisons, equality, boolean logic with short-circuit results, membership, arithmetic, unary operators, variables read from the right parameter of the right context, and an inactive value whenever an operand that matters is inactive. Operands of the wrong type are refused with an error and arithmetic never traps.",
  ["inputs"], "every operator, every operand type combination and every operand value, nested up to the bounded depth, over every binding content",
  "tests evaluate one or two operand pairs per operator",
  ["src/expression.c", "src/expression_internal.h", "include/cconfigspace/expression.h"],
  [("operator evaluation", "src/expression.c:_ccs_expr_*_eval"), ("variables and lists", "src/expression.c:_ccs_expr_variable_eval, ccs_expression_list_eval_node")],
  ["ccs_expression_eval", "ccs_expression_list_eval_node", "ccs_expression_check_context(s)", "ccs_expression_get_parameters"])
p("P08", "A configuration is valid exactly when activity and domains are respected",
  "A configuration is accepted by its space exactly when every parameter is active if and only if it has no condition or its condition evaluates to true (tests of inactive parameters being neither true nor false), inactive parameters hold the inactive value, active ones hold a value of their domain, and no forbidden clause is true. The default configuration and every sampled configuration follow the same activity rule and hold valid values.",
  ["inputs", "configurations"], "every configuration content over the bounded family of spaces (parameters, conditions, clauses) and every outcome of the random generator",
  "tests sample a few seeds of a few hand-built spaces",
  ["src/configuration_space.c", "src/configuration.c", "src/context.c", "src/context_internal.h"],
  [("activity computation", "src/configuration_space.c:_set_actives"), ("validity check", "src/configuration_space.c:_check_configuration"), ("sampling", "src/configuration_space.c:_sample")],
  ["ccs_configuration_space_check_configuration", "ccs_configuration_space_get_default_configuration", "ccs_configuration_space_sample(s)", "ccs_configuration_check"])
p("P09", "Forbidden clauses are never satisfied by what a space hands out",
  "No sampled or default configuration of a space makes one of its forbidden clauses true; a clause that would forbid the default configuration or refers to parameters outside the space is refused and leaves the space unchanged. A clause whose outcome depends on an inactive parameter forbids nothing. When too many attempts are forbidden, sampling reports failure instead of handing out a forbidden configuration.",
  ["inputs", "configurations"], "every clause of the bounded family, every parameter value and every outcome of the random generator, including spaces where sampling runs out of attempts",
  "tests sample a fixed seed and count",
  ["src/configuration_space.c"],
  [("clause registration", "src/configuration_space.c:ccs_configuration_space_add_forbidden_clause(s)"), ("clause test", "src/configuration_space.c:_test_forbidden"), ("sampling loop", "src/configuration_space.c:ccs_configuration_space_samples")],
  ["ccs_configuration_space_add_forbidden_clause", "ccs_configuration_space_sample(s)", "ccs_configuration_space_check_configuration"])
p("P10", "Rejected changes to a configuration space leave it unchanged",
  "Setting a condition, distribution or clause either takes full effect or is refused leaving the space exactly as before: dependency cycles, self references, variables foreign to the space, a second condition on a parameter, out-of-range or repeated positions, duplicate names, and parameters or distributions of an unsupported kind are refused. Giving parameters a new distribution returns the other members of a replaced joint distribution to their default. After any such history the space still computes activity, defaults and samples from exactly the accepted settings, whatever the order in which they were added.",
  ["histories", "inputs"], "every sequence of accepted and rejected modifications up to the bounded length over the bounded family of spaces, any index value",
  "tests check that an error code is returned, not that the space is intact afterwards for every history",
  ["src/configuration_space.c"],
  [("dependency graph", "src/configuration_space.c:_generate_constraints, _recompute_graph, _topological_sort"), ("setters", "src/configuration_space.c:ccs_configuration_space_set_condition, ccs_configuration_space_set_distribution")],
  ["ccs_configuration_space_set_condition", "ccs_configuration_space_set_distribution", "ccs_configuration_space_get_*"])
p("P11", "Comparison, hashing and lookup of configurations and values are coherent",
  "Comparing two configurations, features or evaluations is a total order that reports equality exactly when both belong to the same space and hold the same values, and equal ones hash equally. A value read by position, by parameter or by name, or from the full array is the same value; positions, parameters and names that do not belong are refused.",
  ["inputs"], "every pair or triple of contents (all value types and all 64-bit values) and every index or name within the bounds",
  "order and hash laws are universally quantified; tests compare two or three objects",
  ["src/binding.c", "src/binding_internal.h", "src/configuration.c", "src/features.c", "src/evaluation.c", "src/features_evaluation.c", "src/context.c", "src/datum_hash.h"],
  [("binding comparison and hash", "src/binding_internal.h:_ccs_binding_cmp, _ccs_binding_hash"), ("datum comparison", "src/datum_hash.h:_datum_cmp"), ("lookups", "src/binding.c, src/context.c")],
  ["ccs_binding_cmp", "ccs_binding_hash", "ccs_binding_get_value", "ccs_binding_get_value_by_name", "ccs_binding_get_value_by_parameter", "ccs_context_get_*"])
p("P12", "Evaluations compare by Pareto dominance",
  "Comparing two evaluations of the same objective space returns better, equivalent, worse or not comparable exactly according to Pareto dominance over the objectives, each minimized or maximized as declared; swapping the operands swaps better and worse. Evaluations whose result code reports failure are refused, two different evaluations one of whose objective values is not a number are not comparable, an evaluation is equivalent to itself, and objective values returned are the objective expressions evaluated on the evaluation's values.",
  ["inputs"], "every assignment of integer and float (non-NaN) objective values, every objective direction, up to the bounded number of objectives, for plain, features and tree evaluations",
  "tests compare a few fixed points",
  ["src/evaluation.c", "src/features_evaluation.c", "src/tree_evaluation.c", "src/evaluation_internal.h", "src/objective_space.c"],
  [("dominance", "src/evaluation.c:_ccs_evaluation_compare, src/evaluation_internal.h"), ("objectives", "src/objective_space.c")],
  ["ccs_evaluation_compare", "ccs_features_evaluation_compare", "ccs_tree_evaluation_compare", "ccs_*_get_objective_value(s)"])
p("P13", "A random tuner keeps the whole history and exactly the Pareto front",
  "After any sequence of reported evaluations, the tuner's history lists exactly the successful reported evaluations in the order of the reports and its optima are exactly those that no other of them dominates (one or more representatives of equivalent ones); evaluations that cannot be compared never displace an optimum. Suggestions are configurations of an optimum (or of the space when there is none) and asked configurations are valid in the space; features tuners keep this per features value.",
  ["histories", "inputs"], "every sequence of reports up to the bounded length with any objective values, result codes and features, and every outcome of the random generator",
  "tests run one seeded loop on one objective function",
  ["src/tuner.c", "src/tuner_random.c", "src/features_tuner.c", "src/features_tuner_random.c", "src/tree_tuner.c", "src/tree_tuner_random.c"],
  [("plain tuner", "src/tuner_random.c:_ccs_tuner_random_tell"), ("features tuner", "src/features_tuner_random.c"), ("tree tuner", "src/tree_tuner_random.c")],
  ["ccs_tuner_tell/ask/suggest", "ccs_tuner_get_history", "ccs_tuner_get_optima", "the features and tree counterparts"])
p("P14", "Trees keep consistent shape, weights, positions and sampling",
  "After any sequence of child attachments and weight or bias changes, every node's weights equal what its own weight and its children imply, parents, depths, indices, values and positions agree with each other, and an invalid attachment (occupied or out-of-range slot, node that already has a parent, cycle) is refused unchanged. Sampling a node or tree space returns positions that exist, never one whose weight is zero, following the declared weights for every draw.",
  ["histories", "inputs"], "every construction history up to the bounded number of nodes and operations, every weight and bias value in the bounded domain, every draw",
  "tests build one complete tree and check statistical frequencies",
  ["src/tree.c", "src/tree_internal.h", "src/tree_space.c", "src/tree_space_static.c", "src/tree_space_dynamic.c", "src/tree_configuration.c"],
  [("tree nodes", "src/tree.c"), ("tree spaces", "src/tree_space*.c"), ("tree configurations", "src/tree_configuration.c")],
  ["ccs_tree_*", "ccs_tree_space_*", "ccs_tree_configuration_*"])
p("P15", "Maps behave as dictionaries keyed by value",
  "After any sequence of insertions, deletions and clears, a map contains exactly the latest value stored for each key, where keys of different types or different values never collide; lookups, existence tests, counts, key lists, value lists and pair lists all describe that same content. Stored strings and objects stay valid until removed, independently of the caller's copies.",
  ["histories", "inputs"], "every operation sequence up to the bounded length with keys and values of any type and any 64-bit content",
  "tests perform one fixed sequence",
  ["src/map.c", "src/map_internal.h", "src/datum_hash.h", "src/datum_uthash.h"],
  [("map operations", "src/map.c"), ("datum hashing", "src/datum_hash.h, src/datum_uthash.h")],
  ["ccs_map_set/get/exist/del/clear", "ccs_map_get_keys/values/pairs"])
p("P16", "Objects live exactly as long as they are referenced",
  "An object stays usable while the caller or any object built from it holds a reference and is destroyed, with its destruction callbacks run exactly once, when the last reference goes; releasing everything that was created returns all memory. A call that fails takes no reference, leaks nothing, returns no object and leaves its operands untouched and usable (calls on several items may keep the items before the failing one).",
  ["histories", "inputs"], "every creation, failure and release order in the bounded family covering all object kinds, with any argument values",
  "tests run without leak accounting on failing calls and release in one fixed order",
  ["src/cconfigspace.c", "src/cconfigspace_internal.h", "src/configuration_space.c", "src/expression.c", "src/distribution_mixture.c", "src/distribution_multivariate.c", "src/tree.c", "src/tuner.c"],
  [("reference counting and callbacks", "src/cconfigspace.c:ccs_retain_object, ccs_release_object, ccs_object_set_destroy_callback"), ("constructors and destructors", "src/*.c:ccs_create_*, _ccs_*_del")],
  ["live heap objects", "ccs_object_get_refcount", "destroy callbacks", "return codes"])
p("P17", "Running out of memory is reported cleanly at every allocation",
  "If any single allocation fails during a library call, the call returns an error or completes correctly, without crashing, terminating the process, corrupting or leaking memory, and existing objects stay usable and consistent: a call that fails to add, set, replace or report one item leaves the object as it was, and the same call made again succeeds.",
  ["fault_sequences"], "every position of a single allocation failure inside the public calls exercised by the check, across all object kinds",
  "no test injects allocation failures",
  ["src/cconfigspace_internal.h", "src/context_internal.h", "src/configuration_space.c", "src/objective_space.c", "src/features_space.c", "src/map.c", "src/parameter_categorical.c", "src/tuner_random.c", "src/error_stack.c"],
  [("allocation checks", "CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY) sites"), ("container out-of-memory hooks", "utarray_oom, uthash_nonfatal_oom")],
  ["return codes", "live heap objects", "memory accesses"])
p("P18", "Array getters follow one size protocol",
  "Every getter that fills a caller array reports the exact count, accepts a missing array with size zero to query it, refuses an array that is too small without writing to it, fills exactly the items in order and pads the remaining slots with empty values without writing past the given size.",
  ["inputs"], "every array size from zero to beyond the count for every public array getter",
  "tests call getters with the exact size only",
  ["src/context.c", "src/binding.c", "src/configuration_space.c", "src/objective_space.c", "src/expression.c", "src/distribution.c", "src/map.c", "src/tree.c", "src/tuner.c", "src/evaluation.c", "src/parameter_categorical.c", "src/tree_configuration.c"],
  [("getters", "src/*.c: functions with a count, an array and a count_ret argument")],
  ["returned counts, arrays and codes"])
p("P19", "Serialization through files and descriptors is independent of how I/O is split",
  "Writing an object to a file or a file descriptor produces the same bytes as serializing to memory, and reading it back produces the same object, however the transfers are split into partial reads and writes and wherever a non-blocking descriptor would block, provided the caller retries. End of file or the failure of any file operation (open, stat, map, resize, synchronize, read, write) is reported as an error without hanging, leaking memory, mappings or open files, or corrupting memory; several non-blocking transfers can be in progress at once.",
  ["fault_sequences", "schedules"], "every pattern of partial, blocked, interrupted-by-end-of-file and failed transfers within the bounded number of steps",
  "tests use regular files, which never transfer partially",
  ["src/cconfigspace.c"],
  [("file descriptor paths", "src/cconfigspace.c:_ccs_object_serialize_file_descriptor, _ccs_object_deserialize_file_descriptor"), ("file paths", "src/cconfigspace.c:_ccs_object_serialize_file, _ccs_object_deserialize_file")],
  ["ccs_object_serialize", "ccs_object_deserialize", "bytes written"])
p("P20", "Same generator state, same results",
  "Every random result (parameter, distribution, configuration, tree and tuner sampling) depends only on the state of the generator it is given or owns: replaying from the same seed, or from a generator or space that was serialized and restored in the middle, gives the same continuation. Objects that own different generators do not disturb each other.",
  ["histories", "inputs"], "every outcome function of the random generator and every interleaving of draws in the bounded family",
  "tests fix one seed of one generator",
  ["src/rng.c", "src/rng_deserialize.h", "src/distribution.c", "src/configuration_space.c", "src/tree_space.c", "src/parameter.c"],
  [("generator object", "src/rng.c"), ("users of the generator", "src/distribution_*.c, src/configuration_space.c, src/tree_space*.c")],
  ["sampled values from twin generators"])
p("P21", "Invalid arguments are refused with an error, never undefined behaviour",
  "Public calls given a missing output, a missing or wrong-kind object, an out-of-range index or enumeration value, or inconsistent sizes return an error code, record it in the thread's error state, and change nothing (calls on several items may keep the items before the refused one); the error state keeps the failing call's code and trace until cleared, and successful calls leave it unchanged.",
  ["inputs"], "every index, enumeration and size value, and every combination of missing arguments in the bounded family of public calls",
  "tests check one bad argument for some of the calls",
  ["src/cconfigspace_internal.h", "src/error_stack.c", "src/context.c", "src/binding.c", "src/configuration_space.c", "src/objective_space.c", "src/expression.c", "src/distribution.c", "src/tree.c", "src/rng.c"],
  [("argument checks", "CCS_CHECK_OBJ, CCS_CHECK_PTR, CCS_CHECK_ARY sites"), ("thread error state", "src/error_stack.c")],
  ["return codes", "ccs_get_thread_error"])
p("P22", "Objects keep their own copy of what they are given",
  "Names, strings, arrays, function tables and transient values handed to the library are copied when the call returns: whatever the caller does to that memory afterwards (overwriting or freeing it), every object keeps reporting the names, values, weights, members, positions and functions it was given, and never reads the caller's memory again.",
  ["inputs", "histories"], "every content of the strings and values, for every call that takes caller-owned memory",
  "tests use string literals and arrays that stay alive as long as the objects",
  ["src/parameter_*.c", "src/binding_internal.h", "src/configuration.c", "src/features.c", "src/evaluation.c", "src/features_evaluation.c", "src/tree_evaluation.c", "src/map.c", "src/tree.c", "src/expression.c", "src/distribution_*.c", "src/tuner_user_defined.c", "src/tree_space_dynamic.c"],
  [("transient values", "CCS_DATUM_FLAG_TRANSIENT sites"), ("names and arrays", "ccs_create_* functions")],
  ["names, values and arrays read back"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
