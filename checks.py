def T(harness, **kw):
    return dict(harness=harness, **kw)

PROPS = {
"P04": dict(bounds="two intervals with any 64-bit integer or any non-NaN double bounds and any inclusion flags, one probe point; no loop or size bound is involved",
            tasks=[T("h_interval")]),
"P05": dict(bounds="numerical: any bounds, quantization, default and two probe values (all 64-bit integers, all non-NaN doubles); categorical/ordinal/discrete: up to 3 possible values of any type with any content (strings of one character), any default index, two probe values; string parameter: 2 probe strings of up to 2 characters; sampling: 1 value, every sequence of draws of the retry loop (62 draws), 2 and 3 values with up to 14 and 9 draws, missing the domain on either side",
            tasks=[T("h_param_num"), T("h_param_cat", params=dict(n=2, mixed=1), split=dict(kind=3, part=4)),
                   T("h_param_cat", params=dict(n=2, mixed=1, hash=1, kind=0), split=dict(part=[1, 3])),
                   T("h_param_cat", params=dict(n=3, mixed=0), split=dict(kind=3)), T("h_param_cat", params=dict(n=0)),
                   T("h_param_cat", params=dict(n=1)), T("h_param_cat", params=dict(n=3, mixed=1), split=dict(kind=3, part=4), tier="thorough"),
                   T("h_param_str"), T("h_param_str", params=dict(hash=1)), T("h_param_sample", split=dict(kind=3)), T("h_param_sample", params=dict(n=2, draws=14), split=dict(kind=3)), T("h_param_sample", params=dict(n=3, draws=9), split=dict(kind=3)), T("h_param_sample", params=dict(n=2), split=dict(kind=3), tier="thorough", weight=5)]),
"P07": dict(bounds="one operator application: each of the 17 operators on literals or variables of any type (integer, float except NaN, boolean, string of one character, none, inactive, categorical and ordinal variables) with any content; two nested operators, the inner one on either side or shared on both (5 or 6 inner operators, all in the thorough tier), leaves being any integer (one of 3 where a comparison is applied to an arithmetic result), booleans, two floats, a numerical variable (any integer or inactive) and an ordinal one; lists of up to 3 items over 3 parameters read in 2 contexts that hold them at different places or not at all, any 64-bit item index",
            tasks=[T("h_expr", split=dict(op=17)), T("h_exprn", params=dict(what=1)),
                   T("h_exprn", params=dict(what=0), split=dict(op=17, inner=[0, 2, 14, 15, 16])),
                   T("h_exprn", params=dict(what=0), split=dict(op=[0, 1, 8, 10, 13, 14, 15, 16], inner=[8])),
                   T("h_exprn", params=dict(what=0, few=1), split=dict(op=[2, 4, 7, 11], inner=[11])),
                   T("h_exprn", params=dict(what=0), split=dict(op=17, inner=[1, 3, 4, 5, 6, 7, 13]), tier="thorough"),
                   T("h_exprn", params=dict(what=0, few=1), split=dict(op=[2, 3, 4, 5, 6, 7, 11, 12], inner=[8, 9, 10, 11, 12]), tier="thorough"),
                   T("h_exprn", params=dict(what=0), split=dict(op=[0, 1, 8, 9, 10, 13, 14, 15, 16], inner=[8, 9, 10, 11, 12]), tier="thorough")]),
"P15": dict(bounds="operation histories of 2 operations over all 7 key types and value types, 3 operations over 2 key types, 4 operations over 1 key type, any key and value content (strings of one character), under a hash in which every key collides and (for 2 key types) a one-bit hash",
            tasks=[T("h_map", params=dict(n=2)), T("h_map", params=dict(n=2, vtypes=7, ktypes=1)), T("h_map", params=dict(n=3, ktypes=2)), T("h_map", params=dict(n=3, listed=1), weight=3), T("h_map", params=dict(n=4, ktypes=1)), T("h_map", params=dict(n=2, ktypes=2, hash=1)), T("h_map", params=dict(n=4, ktypes=2), tier="thorough", weight=5)]),
"P12": dict(bounds="1 to 3 objectives, each minimized or maximized, any 64-bit integer, any non-NaN float or non-numeric values, any result codes, any feature values; objectives that are variables or differences of two variables; plain, features and tree evaluations",
            tasks=[T("h_compare", params=dict(n=1)), T("h_compare", params=dict(n=2), split=dict(kind=3, scenario=4)), T("h_compare", params=dict(n=2, expr=1), split=dict(kind=3)), T("h_compare", params=dict(n=3, scenario=0), split=dict(kind=3))]),
"P13": dict(bounds="3 reports (4 in the thorough tier) with any integer objective values up to 2^40 over 2 objectives, both directions, any result code, any feature values, reported one by one or in one batch, non-numeric objective values; every draw of the generator for suggestions and for 2 asked configurations; plain, features and tree tuners",
            tasks=[T("h_tuner", params=dict(what=0), split=dict(kind=3, dirs=2)), T("h_tuner", params=dict(what=1, n=2), split=dict(kind=3)), T("h_tuner", params=dict(what=2, n=1), split=dict(kind=3)),
                   T("h_tuner", params=dict(mix=1, what=0), split=dict(kind=[0, 2])), T("h_tuner", params=dict(mix=1, what=0, kind=1), tier="thorough"), T("h_tuner", params=dict(mix=2, n=3), split=dict(kind=3)),
                   T("h_tuner", params=dict(what=1, n=3), split=dict(kind=3), tier="thorough"), T("h_tuner", params=dict(n=4, what=0), split=dict(kind=3, dirs=2), tier="thorough", weight=5)]),
"P11": dict(bounds="pairs of objects with 1 value of any type (any 64-bit content, strings up to 2 characters or missing) and 2 values of 2 types, triples with 1 value; any result code, 2 spaces, 2 configurations, 2 features; tree positions up to depth 2; any 64-bit position, any name up to 2 characters",
            tasks=[T("h_binding", params=dict(what=0, n=1, m=2), split=dict(kind=[0, 1, 2, 3, 4])), T("h_binding", params=dict(what=0, n=2, m=2, types=2), split=dict(kind=[0, 1, 2, 3, 4])), T("h_binding", params=dict(what=0, kind=5), split=dict(m=[2, 3])), T("h_binding", params=dict(what=3), split=dict(kind=6)),
                   T("h_binding", params=dict(what=0, n=1, m=3, types=3), split=dict(kind=[0, 2])), T("h_binding", params=dict(what=1, n=2), split=dict(kind=[0, 1, 2, 3, 4])), T("h_binding", params=dict(what=2, n=2), split=dict(kind=[0, 1, 2]))]),
"P22": dict(bounds="every creation or change that takes a name, a string, an array or a function table (5 parameter kinds, 11 named kinds, 3 distributions, literals and lists, 3 spaces, 5 kinds of bindings changed in 5 ways at either position, map entries new or replaced, tree values and positions); strings of up to 2 characters with any content, arrays of 2 or 3 items",
            tasks=[T("h_own", split=dict(topic=8))]),
"P18": dict(bounds="every array getter of the public interface on objects holding 0 to 3 items, every array size from 0 to count + 2, any stored values",
            tasks=[T("h_getters", split=dict(topic=8))]),
"P14": dict(bounds="trees of 4 nodes (2, 2, 1 and 0 child slots), three starting shapes, every history of 2 operations (3 in the thorough tier): attachments at any 64-bit slot of any node, weights from {0, 1, 3} and biases from {0, 0.5, 1}; any non-NaN weight or bias for the setters; any position up to 3 steps of any 64-bit indices; one sampled tree configuration (2 in the thorough tier) for every outcome of the generator, static and dynamic tree spaces; any arity above 100000",
            tasks=[T("h_tree", params=dict(what=0), split=dict(base=[0, 2], root=[0, 1], node0=4)), T("h_tree", params=dict(what=0), split=dict(base=[0, 2], root=[2, 3])), T("h_tree", params=dict(what=0, base=1), split=dict(root=4), tier="thorough"), T("h_tree", params=dict(what=0, ops=1, two=1), split=dict(base=3)), T("h_tree", params=dict(what=1)), T("h_tree", params=dict(what=2)), T("h_tree", params=dict(what=3), split=dict(dynamic=2)), T("h_tree", params=dict(what=4)),
                   T("h_tree", params=dict(what=0, ops=3), split=dict(base=3, root=4, node0=4), tier="thorough", weight=5), T("h_tree", params=dict(what=3, n=2), split=dict(dynamic=2), tier="thorough", weight=3)]),
"P06": dict(
    bounds="uniform: any integer interval of width < 2^32 (q 0, 1) or <= 5000 (q 3, 1000) with any 64-bit lower bound, 3 very wide fixed intervals (up to 4 generator calls), any float interval with finite bounds for one value, 6 fixed float intervals (quantized or not) and 4 fixed logarithmic ones for every sampling form; normal: fixed mu and sigma, linear and logarithmic, integer and float, quantized or not, any deviate in [-40, 40] (a grid of 2^-20 for logarithmic ones), at most 3 rejections; roulette and mixtures of 1 to 3 with every combination of the weights 0, 0.25, 1, 3; multivariate and nested multivariate/mixture shapes of dimension up to 3; up to 2 values per call; oversampling for every interval against an integer and a float uniform; parameter sampling with any 6 draws; every 32-bit outcome of every generator draw",
    tasks=[T("h_distrib", params=dict(what=0), split=dict(q=4, wide=4)), T("h_distrib", params=dict(what=1), split=dict(interval=7)),
           T("h_distrib", params=dict(what=2, grid=0), split=dict(case=4)), T("h_distrib", params=dict(what=3), split=dict(case=8)),
           T("h_distrib", params=dict(what=4), split=dict(n1=3)), T("h_distrib", params=dict(what=5), split=dict(n2=2)),
           T("h_distrib", params=dict(what=6), split=dict(case=4)), T("h_distrib", params=dict(what=7)), T("h_distrib", params=dict(what=8), split=dict(never=2))],
    assumptions=["GSL: every generator call returns any 32-bit value, a pure function of (seed, number of draws); gsl_ran_flat returns any double of the closed interval; normal deviates are any double of magnitude <= 40", "libm: log is the real one on concrete arguments; exp is any function that is monotone around, and accurate to 2^-40 (exact for normal distributions) at, the logarithms taken before"]),
"P08": dict(
    bounds="4 parameters (integer, categorical, float, ordinal) with 4 dependency shapes (chains along and against the declaration order, diamond, overlapping), conditions set in either order or as parameters are added, each a test (== or <, any 64-bit constant or any float) or its negation, or the conjunction or disjunction of two tests; 0 or 1 clause; every value of every parameter, inactive values and values outside the domains; defaults and one sample for every outcome of the generator",
    tasks=[T("h_cspace", params=dict(what=0, noclause=1, kfsym=1, kcat=0, fewer=0), split=dict(tpl=4, reverse=3)),
           T("h_cspace", params=dict(what=0, kinds=2, lt=1, kf=0, kcat=0, fewer=1, reverse=1, **{"and": 0, "not": 0}), split=dict(tpl=4, clause=[1, 3, 4])),
           T("h_cspace", params=dict(what=0, kinds=2, lt=0, kf=1, kcat=1, fewer=1, reverse=0, **{"and": 1, "not": 1}), split=dict(tpl=4, clause=[0, 2, 5])),
           T("h_cspace", params=dict(what=0, clause=3, reverse=1, kcat=0, fewer=1), split=dict(tpl=4, lt=2, **{"not": 2}), tier="thorough"),
           T("h_cspace", params=dict(what=1, nclauses=0), split=dict(tpl=4)), T("h_cspace", params=dict(what=2, noclause=1, kcat=0, kf=0), split=dict(tpl=4, reverse=3)),
           T("h_cspace", params=dict(what=2, n=2, noclause=1, reverse=0, lt=0, kcat=1, kf=1, draws=8, **{"and": 1, "not": 1}), split=dict(tpl=4)),
           T("h_cspace", params=dict(what=3), split=dict(mode=4)), T("h_cspace", params=dict(what=4, lt=0, kcat=0, kf=0))],
    assumptions=["GSL model: every generator call returns any 32-bit value"]),
"P09": dict(
    bounds="the spaces of P08 with one clause (a test, a negation, a conjunction or disjunction over one or two of the four parameters, any integer constant); the default configuration after every such clause; one sampled configuration over at most 2 attempts (8 draws) for every outcome of the generator, two configurations over at most 3 attempts; sampling that runs out of attempts; clauses over foreign parameters, alone or combined",
    tasks=[T("h_cspace", params=dict(what=1, reverse=2, kcat=0, kf=0), split=dict(tpl=4, clause=6)),
           T("h_cspace", params=dict(what=2, reverse=1, lt=1, kcat=0, kf=0, **{"not": 0}), split=dict(tpl=3, clause=6)),
           T("h_cspace", params=dict(what=2, reverse=1, lt=1, kcat=0, kf=0, tpl=3, **{"not": 0}), split=dict(clause=[1, 2, 5], **{"and": 2})),
           T("h_cspace", params=dict(what=2, reverse=1, kcat=0, kf=0), split=dict(tpl=4, clause=6, lt=2, **{"not": 2}), tier="thorough"),
           T("h_cspace", params=dict(what=2, n=2, reverse=0, lt=0, kcat=1, kf=1, draws=12, clause=3, **{"and": 1, "not": 1}), split=dict(tpl=2)),
           T("h_cspace", params=dict(what=3), split=dict(mode=4)), T("h_cspace", params=dict(what=4, lt=0, kcat=0, kf=0)),
           T("h_cspace", params=dict(what=0, kinds=2, lt=1, kf=0, kcat=0, fewer=1, reverse=1, **{"and": 0, "not": 0}), split=dict(tpl=4, clause=[1, 3, 4])),
           T("h_cspace", params=dict(what=0, kinds=2, lt=0, kf=1, kcat=1, fewer=1, reverse=0, **{"and": 1, "not": 1}), split=dict(tpl=4, clause=[0, 2, 5]))],
    assumptions=["GSL model: every generator call returns any 32-bit value"]),
"P10": dict(
    bounds="a space of 4 parameters; every sequence of 2 changes (thorough: 3) among conditions (tests of each parameter, negation, disjunction, conjunction, constant, foreign variables alone or combined), one- and two-dimensional distributions (and one or two changes with three-dimensional ones), clauses and refused parameters, at every position including any 64-bit position out of range; every sequence of 3 single-test conditions (cycles up to length 3); after each change all getters and the default configuration, at the end two checks and one sample for every outcome of the generator",
    tasks=[T("h_cshist", params=dict(ops=3, conds=1, exprs=4)), T("h_cshist", params=dict(ops=2, sample=1, each=0, op0=0, op1=0, exprs=6)),
           T("h_cshist", params=dict(ops=2, sample=1, each=0, op0=0), split=dict(op1=[1, 2, 3])),
           T("h_cshist", params=dict(ops=2, sample=1, each=0), split=dict(op0=[1, 2, 3], op1=4)),
           T("h_cshist", params=dict(ops=2, default_first=1), split=dict(op0=4, op1=4)),
           T("h_cshist", params=dict(ops=1, sample=1, op0=1, dims=2)), T("h_cshist", params=dict(ops=2, op0=1, op1=1), split=dict(dims=[1, 2], dims2=[1, 2])),
           T("h_cshist", params=dict(ops=2, op0=1, op1=1, dims=2, dims2=0)), T("h_cshist", params=dict(ops=2, op0=1, op1=1, dims=2, dims2=1, sample=1)),
           T("h_cshist", params=dict(ops=3), split=dict(op0=4, op1=4), tier="thorough")],
    assumptions=["GSL model: every generator call returns any 32-bit value"]),
"P01": dict(
    bounds="one object of each of the 19 kinds (6 parameters, 7 distributions, 4 expression shapes, map, generator), with 3 possible values, at most 3 nodes, 3 mixed distributions, 2 map entries; one field at a time (every pair of fields in the thorough tier) takes any value: any 64-bit integer, any non-NaN double, any string of at most 2 characters and those of 126 to 256 characters (7 lengths) ending in any character, any datum type, every variant; weights from 4 tables; every buffer size smaller than announced for a fixed object; any user data of 2 bytes, those of 127 to 256 bytes (5 sizes) ending in any 2 bytes; with and without a handle map",
    tasks=[T("h_serial", params=dict(what=0), split=dict(kind=19)), T("h_serial", params=dict(what=1, direct=0), split=dict(kind=19)), T("h_serial", params=dict(what=2), split=dict(kind=19)), T("h_serial", params=dict(what=0, long=7, direct=0), split=dict(kind=19)),
           T("h_serial", params=dict(what=0, long=9), split=dict(kind=19), tier="thorough"),
           T("h_serial", params=dict(what=0, pairs=1), split=dict(kind=19, direct=2), tier="thorough", weight=3)],
    assumptions=["GSL: a generator state is a block of bytes that determines every later draw"]),
"P02": dict(
    bounds="one object of each of the 18 kinds (spaces of 2 to 4 parameters with a joint distribution, 2 conditions and up to 2 clauses; objective spaces with up to 2 objectives; configurations, features and evaluations of 2 values; trees of 3 nodes; tree spaces, static and dynamic; random and user-defined tuners of the 3 families with up to 2 reports); one field at a time (every pair of fields in the thorough tier) takes any value: any 64-bit integer, any non-NaN double, any string of at most 2 characters and those of 126 to 256 characters (7 lengths) ending in any character, any datum type, every variant; every buffer size smaller than announced for a fixed object; any user data of 2 bytes or of 127 to 256 bytes ending in any 2 bytes, any 2 bytes of state; with and without a handle map",
    tasks=[T("h_serial", params=dict(what=0), split=dict(kind=list(range(19, 37)))), T("h_serial", params=dict(what=1, direct=0), split=dict(kind=list(range(19, 37)))), T("h_serial", params=dict(what=2), split=dict(kind=list(range(19, 37)))), T("h_serial", params=dict(what=0, long=7, direct=0), split=dict(kind=list(range(19, 37)))),
           T("h_serial", params=dict(what=0, long=9), split=dict(kind=list(range(19, 37))), tier="thorough"),
           T("h_serial", params=dict(what=0, pairs=1), split=dict(kind=list(range(19, 37)), direct=2), tier="thorough", weight=5)],
    assumptions=["GSL: a generator state is a block of bytes that determines every later draw"]),
"P03": dict(
    bounds="the serialized form of one object of each of the 37 kinds (the fixed objects of P01 and P02, with and without user data), read with a handle map; every truncation length; 1 byte (2 consecutive bytes in the thorough tier) at every offset taking any value, everything else as written; every pair of handles of the data exchanged",
    tasks=[T("h_damage", params=dict(what=0), split=dict(kind=37)),
           T("h_damage", params=dict(what=2, ud=1), split=dict(kind=37)),
           T("h_damage", params=dict(what=1, ud=1), split=dict(kind=[k for k in range(31) if k not in (11, 12, 20)]), ite=8),
           T("h_damage", params=dict(what=1, ud=1, parts=3), split=dict(kind=[11, 12] + list(range(31, 37)), part=3), ite=8),
           T("h_damage", params=dict(what=1, ud=1, parts=8), split=dict(kind=[20], part=8), ite=8, weight=5),
           T("h_damage", params=dict(what=1, ud=0, width=2, parts=3), split=dict(kind=37, part=3), tier="thorough", weight=5, ite=8)],
    assumptions=["object handles are as long as native addresses (47 bits) but their values are those of the model heap"]),
"P19": dict(
    bounds="one object of each of 12 kinds (parameters, map, generator, expression, spaces, configuration; one content field at a time taking any value, the others fixed) followed by another in the same stream; at any call one short transfer of any length, one transfer that would block and one that is interrupted (two of each, and one hard failure, in the thorough tier), end of file after any number of bytes; two non-blocking transfers in any order of turns; each file operation failing; one byte of the header taking any value",
    tasks=[T("h_fd", params=dict(wrong=1), split=dict(what=[0, 1, 2, 3], kind=[0, 2, 14, 17, 18, 19, 22]), enum=4096, steps=2000000),
           T("h_fd", params=dict(), split=dict(what=[1, 3], kind=[0], f=6), enum=4096, steps=2000000),
           T("h_fd", params=dict(), split=dict(what=[1, 3], kind=[17], f=6), enum=4096, steps=2000000),
           T("h_fd", params=dict(), split=dict(what=[1, 3], kind=[22], f=4), enum=4096, steps=2000000),
           T("h_fd", params=dict(), split=dict(what=[1, 3], kind=[20]), enum=4096, steps=2000000, weight=4),
           T("h_fd", params=dict(fail=1, intr=0), split=dict(what=[0, 1, 2, 3], kind=[0, 17, 22]), enum=4096, steps=2000000),
           T("h_fd", params=dict(eof=1, again=0, intr=0), split=dict(what=[2, 3], kind=[0, 17, 22]), enum=4096, steps=2000000),
           T("h_fd", params=dict(what=4, intr=0), split=dict(kind=[0, 18], dir=2), enum=4096, steps=2000000),
           T("h_fd", params=dict(what=5), split=dict(kind=[0, 2, 14, 17, 18, 19, 20, 31], dir=2)),
           T("h_fd", params=dict(what=5, kind=0), split=dict(f=6, dir=2)),
           T("h_fd", params=dict(what=6), split=dict(kind=[0, 17])),
           T("h_fd", params=dict(short=2, again=2, fail=1), split=dict(what=[0, 1, 2, 3], kind=[0, 17]), enum=4096, steps=2000000, tier="thorough", weight=5),
           T("h_fd", params=dict(eof=1, fail=1), split=dict(what=[2, 3], kind=[0, 17]), enum=4096, steps=2000000, tier="thorough", weight=3),
           T("h_fd", params=dict(what=4, short=2, again=2), split=dict(kind=[0, 18], dir=2), enum=4096, steps=2000000, tier="thorough", weight=3),
           T("h_fd", params=dict(), split=dict(what=[0, 1, 2, 3], kind=[1, 3, 4, 5, 10, 11, 12, 15, 21, 24, 26, 27]), enum=4096, steps=2000000, tier="thorough")],
    assumptions=["descriptors and the file system are models (models/libc_model.c): in-memory streams with granted budgets of short, blocked, interrupted and failed transfers; one file that can be mapped once"]),
"P17": dict(
    bounds="any single allocation failing (or none) inside: the construction from its serialized form of one object of each of the 37 kinds of the check (all parameter, distribution, expression, space, tree, configuration, evaluation and tuner kinds), and 38 public calls (adding parameters, objectives, conditions, clauses and distributions, map updates, binding values, callbacks, sampling, ask, tell, optima, tree nodes, error reporting) on spaces, histories and maps that are empty, hold one item or are full up to their array's capacity (8); contents fixed",
    tasks=[T("h_oom", params=dict(what=0), split=dict(kind=37)),
           T("h_oom", params=dict(what=1), split=dict(op=38)),
           T("h_oom", params=dict(what=1, fill=0), split=dict(op=[0, 1, 2, 3, 6, 10, 11, 14, 15, 16])),
           T("h_oom", params=dict(what=1), split=dict(op=[14, 15, 16], fresh=[1, 2])),
           T("h_oom", params=dict(what=1, fill=1), split=dict(op=38), tier="thorough"),
           T("h_oom", params=dict(what=1, fill=7), split=dict(op=38), tier="thorough")],
    assumptions=["a failing allocation returns NULL once; the following ones succeed", "the model heap serves malloc, calloc, realloc and strdup"]),
"P16": dict(
    bounds="one object of each of 37 kinds with all the objects it is built from (up to 24): any one of them kept, the others released oldest first, newest first or root first, with or without an extra reference; contents fixed, or one of their first 8 fields at a time taking any value; generators, distributions, map entries, asked configurations, default distributions and tree branches replaced, taken out or outliving their owner; failing calls: the 315 public functions of P21 with valid, missing and wrong arguments",
    tasks=[T("h_life", params=dict(what=0), split=dict(kind=37)),
           T("h_life", params=dict(what=0), split=dict(kind=[2, 5, 11, 14, 17, 20, 22, 24, 26, 31, 32], f=4)),
           T("h_life", params=dict(what=1), split=dict(op=8)),
           T("h_args", params=dict(pre=0), split=dict(f=315)),
           T("h_life", params=dict(what=0), split=dict(kind=37, f=8), tier="thorough")],
    assumptions=["which objects another one holds is read from the handles in its serialized form"]),
"P21": dict(
    bounds="each of 315 public functions: every object argument valid (up to 5 different ones for the first, 2 for the others), missing or of another kind; every output present or missing; indices, enumerations, sizes and data types any value (sizes up to 3 when the array is present); values of all data types; callback tables lacking any one function; with or without an earlier error; garbage pointers and arrays shorter than their stated size excluded; sampling limited to 4 draws",
    tasks=[T("h_args", params=dict(pre=0), split=dict(f=315)),
           T("h_args", params=dict(pre=1), split=dict(f=315)),
           T("h_error", params=dict(), split=dict(what=5)),
           T("h_args", params=dict(pre=1, firsts=9, others=4), split=dict(f=315), tier="thorough")],
    assumptions=["objects passed are valid library objects or NULL"]),
"P20": dict(
    bounds="every sampling entry point of 5 kinds of parameters, 7 kinds of distributions, the generator, configuration spaces, trees, both tree spaces and the 3 random tuners of the object zoo; twins with any 64-bit seed, an object (or generator) serialized and restored after its first draw, a generator seeded again; one call for 1 or 2 values, array or structure-of-arrays form; with or without another object of that kind drawing in between; at most 6 generator calls per stream (12 for composed distributions, 20 for configuration spaces), every 32-bit outcome of each",
    tasks=[T("h_rng", params=dict(draws=6), split=dict(kind=[0, 1, 2, 3, 4, 18], mode=3, how=2, other=2)),
           T("h_rng", params=dict(draws=6), split=dict(kind=[6, 7, 8, 9], mode=3, how=3, other=2)),
           T("h_rng", params=dict(draws=12, other=0), split=dict(kind=[10, 11, 12], mode=3, how=3)),
           T("h_rng", params=dict(draws=6, other=1), split=dict(kind=[10, 11, 12], mode=[0, 2], how=[0])),
           T("h_rng", params=dict(draws=20), split=dict(kind=[20, 31, 32], mode=3, how=2, other=2)),
           T("h_rng", params=dict(draws=6, other=0), split=dict(kind=[26, 27, 28, 33], mode=3, how=2)),
           T("h_rng", params=dict(draws=6, other=1, how=0), split=dict(kind=[26, 27, 28, 33], mode=[0, 2])),
           T("h_rng", params=dict(draws=6, other=1, how=1), split=dict(kind=[26, 27, 28, 33], mode=3), tier="thorough"),
           T("h_rng", params=dict(draws=12, other=1), split=dict(kind=[10, 11, 12], mode=3, how=3), tier="thorough")],
    assumptions=["GSL: every generator call returns any 32-bit value, a pure function of (seed, number of draws); the state of a generator is (seed, number of draws)"]),
}
NOT_APPLICABLE = {}
