#!/usr/bin/env python3
"""Writes harness/h_args.c: one case per public function, its arguments chosen
among valid, missing and wrong ones. Development time only (the result is
committed); prints the functions it skips."""
import re, glob, sys
fns = []
for f in sorted(glob.glob('/repo/include/cconfigspace/*.h')) + ['/repo/include/cconfigspace.h']:
    s = open(f).read()
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    s = re.sub(r'//.*', '', s)
    for m in re.finditer(r'extern\s+([\w\s\*]+?)\s*\n?(ccs_\w+)\(([^;]*?)\);', s):
        fns.append((m.group(2), m.group(1).strip(), [re.sub(r'\s+', ' ', a).strip() for a in m.group(3).split(',')]))
fns.sort()
SKIP = set("""ccs_init ccs_fini ccs_get_version ccs_get_version_string ccs_object_serialize ccs_object_deserialize ccs_get_thread_error ccs_set_thread_error
ccs_clear_thread_error ccs_create_thread_error ccs_thread_error_stack_push ccs_create_error_stack ccs_retain_object ccs_release_object ccs_interval_include
ccs_object_set_user_data ccs_rng_get_gsl_rng ccs_error_stack_push ccs_distribution_strided_samples ccs_distribution_soa_samples""".split())
OBJ = {  # type -> (object types, zoo kinds)
 'object': ([], 'Z_INT Z_MAP Z_RNG'),
 'parameter': (['PARAMETER'], 'Z_INT Z_CATEGORICAL Z_ORDINAL Z_DISCRETE Z_STRING'),
 'distribution': (['DISTRIBUTION'], 'Z_UNIFORM_INT Z_ROULETTE Z_MIXTURE Z_MULTIVARIATE'),
 'expression': (['EXPRESSION'], 'Z_EXPRESSION Z_LIST Z_VARIABLE'),
 'map': (['MAP'], 'Z_MAP'), 'rng': (['RNG'], 'Z_RNG'), 'tree': (['TREE'], 'Z_TREE'),
 'context': (['CONFIGURATION_SPACE', 'FEATURES_SPACE', 'OBJECTIVE_SPACE'], 'Z_RANDOM_FTUNER'),
 'binding': (['CONFIGURATION', 'FEATURES', 'FEATURES_EVALUATION'], 'Z_RANDOM_FTUNER'),
 'configuration_space': (['CONFIGURATION_SPACE'], 'Z_RANDOM_TUNER'), 'configuration': (['CONFIGURATION'], 'Z_RANDOM_TUNER'),
 'features_space': (['FEATURES_SPACE'], 'Z_RANDOM_FTUNER'), 'features': (['FEATURES'], 'Z_RANDOM_FTUNER'),
 'objective_space': (['OBJECTIVE_SPACE'], 'Z_RANDOM_TUNER'), 'evaluation': (['EVALUATION'], 'Z_RANDOM_TUNER'),
 'features_evaluation': (['FEATURES_EVALUATION'], 'Z_RANDOM_FTUNER'), 'tree_evaluation': (['TREE_EVALUATION'], 'Z_RANDOM_TTUNER'),
 'tree_space': (['TREE_SPACE'], 'Z_RANDOM_TTUNER Z_DYNAMIC_TS'), 'tree_configuration': (['TREE_CONFIGURATION'], 'Z_RANDOM_TTUNER'),
 'tuner': (['TUNER'], 'Z_RANDOM_TUNER Z_USER_TUNER'), 'features_tuner': (['FEATURES_TUNER'], 'Z_RANDOM_FTUNER Z_USER_FTUNER'),
 'tree_tuner': (['TREE_TUNER'], 'Z_RANDOM_TTUNER Z_USER_TTUNER'), 'error_stack': (['ERROR_STACK'], ''),
}
ENUM = ['numeric_type', 'scale_type', 'expression_type', 'objective_type', 'evaluation_result', 'tuner_type', 'features_tuner_type', 'tree_tuner_type',
        'parameter_type', 'distribution_type', 'object_type', 'comparison', 'tree_space_type', 'result']
# (function, argument) that may be missing
OPT = {('ccs_configuration_space_add_parameter', 'distribution'), ('ccs_features_tuner_get_optima', 'features'), ('ccs_features_tuner_get_history', 'features'),
       ('ccs_tree_get_parent', 'index_ret'),
       ('ccs_configuration_space_add_parameters', 'distributions'), ('ccs_object_set_serialize_callback', 'callback')}
# not looked at by the expressions that do not need it
UNUSED = {('ccs_expression_eval', 'context'), ('ccs_expression_list_eval_node', 'context'), ('ccs_expression_check_context', 'context')}
def base(t):
    return re.sub(r'\bconst\b', '', t).replace('*', '').replace('ccs_', '').strip()
def nm(t): # 'parameter_t' -> 'parameter'
    return base(t)[:-2] if base(t).endswith('_t') else base(t)
cases, n, kinds_of = [], 0, []
for f, ret, args in fns:
    if f in SKIP or ret != 'ccs_result_t' or '...' in ' '.join(args):
        print('skip', f)
        continue
    A, kinds, ok = [], [], True
    for a in args:
        if a == 'void':
            continue
        m = re.match(r'(.*?)(\w+)$', a)
        A.append((m.group(1).strip(), m.group(2)))
    pre, call, post, post_ok, rel_ = [], [], [], [], []
    first = True
    # (size, array) pairs
    arr = {}
    for i, (t, a) in enumerate(A):
        if t == 'size_t' and (a.startswith('num_') or a == 'position_size') and i + 1 < len(A):
            j = i + 1
            while j < len(A) and '*' in A[j][0] and (not A[j][1].endswith('_ret') or A[j][1] == 'values_ret') and 'char' not in A[j][0]:
                arr[j] = i
                j += 1
    getter = '_get_' in f and not f.endswith('_indexes')
    owned = f.startswith('ccs_create_') or f.endswith('_sample') or f.endswith('_samples') or f.endswith('_ask') or f.endswith('_suggest') or f.endswith('get_default_configuration') or f.endswith('get_default_distribution')
    sampling = f.endswith('_samples') or f.endswith('_ask')
    for i, (t, a) in enumerate(A):
        T, b = nm(t), base(t)
        stars = t.count('*')
        opt = 1 if (f, a) in OPT else 0
        # the count of an array that is given
        gave = None
        if stars == 1 and a.endswith('_ret') and (i - 1) in arr and T == 'size':
            gave, opt = ' && '.join('!a%d' % j for j in arr if arr[j] == arr[i - 1]), 1
        # one of several
        if f.endswith('get_properties') and '_ret' in a:
            opt = 1
            if i == len(A) - 1:
                gave = ' && '.join('!a%d' % j for j in range(1, i))
        v = 'a%d' % i
        call.append(v)
        if i in arr:
            c = 'a%d' % arr[i]
            out = not t.startswith('const') and (getter or sampling or a in ('indexes', 'indices', 'results', 'values_ret', 'oversamplings_ret', 'position') or f.endswith('parameters_samples') or f.endswith('convert_samples') and a == 'results')
            opt_out = out and getter
            ty = t.replace('const ', '').replace('*', '').strip()
            if T in OBJ and not out:
                kinds += OBJ[T][1].split()
                pre.append('%s w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i] = (%s)(i == 1 ? pick(T_%s, %d, 0, %s > 1) : item(T_%s, i));' % (ty, i, i, ty, T, opt, c, T))
            elif T == 'datum' and not out:
                pre.append('ccs_datum_t w%d[3] = {item_datum(%d, 0), item_datum(%d, 1), item_datum(%d, 2)};' % (i, n, n, n))
                if f.endswith(('_expression', 'categorical_parameter', 'ordinal_parameter')): pre.append('bad |= %s > 1 && (unsigned)w%d[1].type > CCS_DATA_TYPE_STRING;' % (c, i))
                if f.endswith('discrete_parameter'): pre.append('bad |= %s > 1 && w%d[1].type != CCS_DATA_TYPE_INT && w%d[1].type != CCS_DATA_TYPE_FLOAT;' % (c, i, i))
            elif T in ('size',) and not out:
                pre.append('size_t w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i] = (size_t)vp_u64("item");' % (i, i))
            elif not out:
                if T == 'float':
                    pre.append('ccs_float_t w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i] = scalar_f("weight");' % (i, i))
                elif T in ENUM:
                    pre.append('%s w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i] = (%s)(i ? 0 : vp_i32("enum"));' % (ty, i, i, ty))
                elif T == 'numeric':
                    pre.append('ccs_numeric_t w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i].i = 0;' % (i, i))
                elif T == 'interval':
                    pre.append('ccs_interval_t w%d[3]; for (unsigned i = 0; i < 3; i++) w%d[i] = an_interval(i);' % (i, i))
                else:
                    print('?? array', f, t, a); ok = False
            else:
                pre.append('%s w%d[3]; memset(w%d, 0xa5, sizeof(w%d));' % (ty, i, i, i))
            if out and T in OBJ:
                pre.append('memset(w%d, 0, sizeof(w%d));' % (i, i))
                if owned:
                    rel_.append('for (unsigned i = 0; i < 3; i++) if (w%d[i] && a%d) ccs_release_object(w%d[i]);' % (i, i, i))
            # sizes are those of the array, any when it is missing
            pre.append('int m%d = missing(); if (m%d && !%d) bad |= %s != 0; %s = m%d ? NULL : w%d;' % (i, i, opt, c, t + ' ' + v if not t.startswith('const') else t + ' ' + v, i, i))
            pre.append('if (!m%d) vp_assume(%s <= 3);' % (i, c))
            if out and not sampling:
                pre.append('untouched(w%d, sizeof(w%d));' % (i, i))
        elif T in OBJ and stars == 0:
            kinds += OBJ[T][1].split()
            pre.append('%s %s = (%s)pick(T_%s, %d, %d, %d);' % (t, v, t, T, opt, 1 if first else 0, 0 if (f, a) in UNUSED else 1))
            if first:
                pre.append('tgt = (ccs_object_t)%s;' % v)
            first = False
        elif stars == 1 and ('_ret' in a or a in ('exist', 'value_ret', 'configuration', 'interval_res', 'equal_res', 'elems') or a in ('values',) and 'sample' in f or a in ('name',) and f == 'ccs_get_result_name') and 'char' not in t:
            ty = t.replace('*', '').strip()
            pre.append('%s w%d[4]; memset(w%d, %s, sizeof(w%d));' % (ty, i, i, '0' if owned and T in OBJ else '0xa5', i))
            pre.append('%s %s = output(w%d, sizeof(w%d), %d);' % (t, v, i, i, opt))
            if gave:
                pre.append('bad |= %s && !%s;' % (gave, v))
            if owned and T in OBJ:
                rel_.append('if (%s && *%s) ccs_release_object(*%s);' % (v, v, v))
        elif t == 'const char *' :
            pre.append('const char *%s = a_name(%d);' % (v, opt))
        elif stars == 2 or (stars == 1 and 'char' in t):
            ty = t[:-1].strip() if t.endswith('*') else t
            pre.append('%s w%d[4]; memset(w%d, 0xa5, sizeof(w%d)); %s %s = output(w%d, sizeof(w%d), %d);' % (ty, i, i, i, t, v, i, i, opt))
        elif T == 'size' and stars == 0:
            num = i in arr.values()
            pre.append('size_t %s = (size_t)vp_u64("%s");' % (v, a))
            if num and sampling:
                pre.append('vp_assume(%s <= 1);' % v)
            if a == 'arity':
                pre.append('vp_assume(%s <= 3);' % v)
            if not num and 'index' in a and f != 'ccs_expression_list_eval_node':
                pre.append('bad |= %s >= 64;' % v)
        elif b in ('size_t',) and stars == 1:
            pre.append('size_t w%d[4]; for (unsigned i = 0; i < 4; i++) w%d[i] = (size_t)vp_u64("item"); size_t *%s = missing() ? bad |= !%d, NULL : w%d;' % (i, i, v, opt, i))
        elif T in ENUM and stars == 0:
            pre.append('%s %s = (%s)vp_i32("%s");' % (t, v, t, a))
            pre.append('bad |= wrong_%s((int)%s);' % (T, v))
        elif T == 'datum' and stars == 0:
            pre.append('ccs_datum_t %s = a_datum();' % v)
            if f.endswith('_expression') or f in ('ccs_create_literal', 'ccs_create_tree'): pre.append('bad |= (unsigned)%s.type > CCS_DATA_TYPE_STRING;' % v)
        elif T == 'datum' and stars == 1:
            pre.append('ccs_datum_t w%d[4]; for (unsigned i = 0; i < 4; i++) w%d[i] = ccs_int(2); ccs_datum_t *%s = missing() ? NULL : w%d;' % (i, i, v, i))
        elif T == 'int' and stars == 0:
            pre.append('ccs_int_t %s = vp_choice(2, "%s") ? %s : -3;' % (v, a, '8' if a == 'upper' else '0' if a == 'quantization' else '2'))
        elif T == 'float' and stars == 0:
            pre.append('ccs_float_t %s = scalar_f("%s");' % (v, a))
        elif T == 'numeric' and stars == 0:
            pre.append('ccs_numeric_t %s; %s.i = vp_choice(2, "%s") ? %s : -3;' % (v, v, a, '8' if a == 'upper' else '0' if a == 'quantization' else '2'))
        elif T == 'bool' and stars == 0:
            pre.append('ccs_bool_t %s = vp_bool("%s");' % (v, a))
        elif T == 'interval' and stars == 1:
            pre.append('ccs_interval_t w%d[4]; for (unsigned i = 0; i < 4; i++) w%d[i] = an_interval(i); ccs_interval_t *%s = missing() ? bad = 1, NULL : w%d;' % (i, i, v, i))
        elif T == 'parameter' and stars == 1:
            pre.append('ccs_parameter_t w%d[4]; for (unsigned i = 0; i < 4; i++) w%d[i] = (ccs_parameter_t)(i ? item(T_parameter, i) : pick(T_parameter, 0, 0, 1)); ccs_parameter_t *%s = missing() ? bad = 1, NULL : w%d;' % (i, i, v, i))
        elif t == 'unsigned long int':
            pre.append('unsigned long %s = vp_u64("%s");' % (v, a))
        elif t == 'const gsl_rng_type *':
            pre.append('const gsl_rng_type *%s = missing() ? bad = 1, NULL : gsl_rng_types_setup()[0];' % v)
        elif t == 'void *':
            pre.append('void *%s = &some;' % v)
        elif 'callback' in t:
            pre.append('%s %s = missing() ? bad |= !%d, NULL : &a_%s;' % (t, v, opt, 'destroy' if 'destroy' in t else 'serialize'))
        elif 'vector' in t:
            k = {'ccs_user_defined_tuner_vector_t *': 'utv0', 'ccs_user_defined_features_tuner_vector_t *': 'utv1', 'ccs_user_defined_tree_tuner_vector_t *': 'utv2', 'ccs_dynamic_tree_space_vector_t *': 'dtv'}[t]
            pre.append('%s w%d = %s; %s %s = missing() ? bad = 1, NULL : &w%d; if (%s) lacking((void **)&w%d, sizeof(w%d) / sizeof(void *), %d);' % (t.replace('*', ''), i, k, t, v, i, v, i, i, 2 if k == 'dtv' else 5))
        else:
            print('?? arg', f, t, a); ok = False
    if not ok:
        print('skip', f); continue
    if f.startswith('ccs_error_stack'):
        pre.append('silent = 1;') # (these do not report on themselves)
    if any(x in f for x in ('_add_parameters', '_add_objectives', '_add_forbidden_clauses', '_tell', '_set_values', 'tree_space_get_node_at', 'tree_space_get_values_at')):
        pre.append('batch = 1;')
    if 'validate' in f or sampling or f in ('ccs_get_result_name', 'ccs_distribution_check_oversampling') or f.endswith('_at_position'):
        pre.append('nouts = 0;') # (may be set all the same)
    if f == 'ccs_distribution_parameters_samples':
        pre.append('bad &= a3 != 0;') # (nothing to look at)
    # a count of an array that is given is refused when it is too small: nothing more to say here
    body = ['case %d: { /* %s */' % (n, f)]
    # sizes first: declare scalars before arrays refer to them (they precede them already)
    body += ['\t\t' + x for x in pre]
    body += ['\t\tbefore();', '\t\tccs_result_t r = %s(%s);' % (f, ', '.join(call)), '\t\tafter(r);'] + ['\t\t' + x for x in rel_]
    body += ['\t\tbreak;', '\t}']
    cases.append('\t' + '\n'.join(body))
    kinds_of.append((n, f, sorted(set(kinds))))
    n += 1
tmpl = open('/verif/dev/args.tmpl').read()
types = '\n'.join('\tT_%s,' % k for k in OBJ)
match = '\n'.join('\tcase T_%s: return %s;' % (k, ' || '.join('t == CCS_OBJECT_TYPE_%s' % x for x in v[0]) or '1') for k, v in OBJ.items())
need = '\n'.join('\tcase %d: %s break;' % (i, ' '.join('need(%s);' % k for k in ks)) for i, f, ks in kinds_of)
names = '\n'.join(' * %3d %s' % (i, f) for i, f, _ in kinds_of)
s = tmpl.replace('@TYPES@', types).replace('@MATCH@', match).replace('@NEED@', need).replace('@CASES@', '\n'.join(cases)).replace('@N@', str(n)).replace('@NAMES@', names)
open('/verif/harness/h_args.c', 'w').write(s)
print(n, 'functions')
