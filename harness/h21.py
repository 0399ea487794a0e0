from common import *
import json as _json
import configfile as C
import postprocfuncs as P
import enum_poly_params as epp
import lhs_evaluators as L
RULE = 'random legal configurations (subsets of options, any letter case, spacing) written back and re-read, and single illegal values; non-trivial: at least 10 options'
POLYS = {'normal': 'BasicEnumPolyParams', 'indexed': 'IndexedParameterEnumPolyParams', 'sparse': 'SparseParameterEnumPolyParams'}
INTS = ['i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations',
        'first_filtering_precision', 'second_filtering_max_num_of_iterations', 'second_filtering_precision',
        'third_filtering_max_num_of_iterations', 'third_filtering_precision']
BOOLS = ['print_surprising_nonexp_contfracs', 'validate_hashtable_extend_no_replication', 'is_test']


def case(r, s):
    return r.choice([s, s.upper(), s.capitalize(), s])


def jlist(r, depth=None):
    depth = r.randint(1, 3) if depth is None else depth
    if depth == 0:
        return r.choice([r.randint(-9, 9), r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6)])
    return [jlist(r, depth - 1) for _ in range(r.randint(1, 3))]


def ranges(r):
    return [[sorted(r.sample(range(-6, 7), 2)) for _ in range(r.randint(1, 3))] for _ in range(r.choice([1, 1, 2]))]


def genconf(r, full=False):
    """(text of the options, expected values without the hashtable file)"""
    opts, want = {}, {}
    for k in INTS:
        v = r.randint(-5, 2000)
        opts[k], want[k] = r.choice(['%d', ' %d', '%d ', '+%d' if v >= 0 else '%d']) % v, v
    for k in BOOLS:
        v = r.random() < 0.5
        opts[k], want[k] = case(r, str(v).lower()), v
    v = r.choice(['pi', 'e', 'feig', 'euler_masch', 'percolation', 'zeta', 'phi', 'apery'])
    opts['const'], want['const'] = case(r, v), v
    for k in ('a_coeffs_range', 'b_coeffs_range'):
        want[k] = ranges(r)
        opts[k] = _json.dumps(want[k])
    v = r.choice(sorted(POLYS))
    opts['ab_polys_type'], want['ab_polys_type'] = case(r, v), getattr(epp, POLYS[v])
    want['ab_polys_special_params'] = [r.randint(1, 5), r.randint(1, 5)] if v == 'sparse' else None
    opts['ab_polys_special_params'] = _json.dumps(want['ab_polys_special_params']) if v == 'sparse' else case(r, 'none')
    v = r.choice(['ulcd', 'rationalfunc'])
    opts['lhs_type'] = case(r, v)
    want['lhs_type'] = {'eval': L.ULCDEvaluator if v == 'ulcd' else L.RationalFuncEvaluator,
                        'enum': L.ULCDEnumerator if v == 'ulcd' else L.RationalFuncEnumerator}
    want['lhs_params'] = [r.choice([3, [0, 4], [1, 2, 3]]) for _ in range(4)] if v == 'ulcd' else \
        [ranges(r)[0], ranges(r)[0], r.random() < 0.5]
    opts['lhs_params'] = _json.dumps(want['lhs_params'])
    ind = r.sample(range(len(P.POSTPROC_FUNCS)), r.randint(0, 4))
    want['postproc_funcs_filter'] = ind
    opts['postproc_funcs_filter'] = _json.dumps([P.POSTPROC_FUNCS[i] for i in ind])
    v = r.choice(['generate', 'expand', 'use'])
    opts['hashtable_file_operation'], want['hashtable_file_operation'] = case(r, v), v
    g = r.choice(['auto', 'true', 'false', 'auto'])
    opts['gen_hashtable_only'] = case(r, g)
    want['gen_hashtable_only'] = v != 'use' if g == 'auto' else g == 'true'
    if not full:
        for k in sorted(opts):
            if k in ('postproc_funcs_filter', 'hashtable_file_operation', 'gen_hashtable_only'):
                continue
            w = r.random()
            if w < 0.05:
                opts[k], want[k] = r.choice(['none', 'None', 'NONE', ' none ']), None
            elif w < 0.15:
                del opts[k]
                want[k] = None
        if r.random() < 0.1:
            del opts['gen_hashtable_only']
            want['gen_hashtable_only'] = None
    return opts, want


def write(path, opts, r):
    keys = list(opts)
    r.shuffle(keys)
    with open(path, 'w') as f:
        f.write('[Setup]\n')
        for k in keys:
            f.write('%s%s%s\n' % (k, r.choice(['=', ' = ', ': ']), opts[k].replace('%', '%%')))


def compare(h, got, want, what):
    for k, v in want.items():
        h.check(k in got, '%s: option %s is missing', what, k)
        h.check(got[k] == v and type(got[k]) is type(v) and (isinstance(v, dict) or repr(got[k]) == repr(v)), '%s: %s is %r instead of %r', what, k, got[k], v)


def write_back(cfg, path):
    out = C.ConfigParser()
    out.add_section('Setup')
    for k in C.CONFIG_PARAMS_TYPES:
        out.set('Setup', k, C.config_val_to_str(cfg[k]))
    with open(path, 'w') as f:
        out.write(f)


ILLEGAL = [('hashtable_file_operation', ['make', 'generated', '']), ('ab_polys_type', ['cubic', 'norm', '']),
           ('lhs_type', ['ulcdx', 'rational', '']), ('is_test', ['yes', '1', 'tru', '']),
           ('print_surprising_nonexp_contfracs', ['no', '0', 'falsey']), ('i', ['1.5', 'x', '', '1e3']),
           ('hashtable_precision', ['8.0', 'eight']), ('a_coeffs_range', ['[[[1, 2]', 'x', '[[1,2],]', '(1,2)']),
           ('lhs_params', ['1,2', '[1,2', '{']), ('postproc_funcs_filter', ['["no such"]', '["safe_inverse", "x"]', '["lambda x:x"]']),
           ('validate_hashtable_extend_no_replication', ['on', 'none of it'])]


def trial(h):
    r = h.r
    with scratch():
        os.mkdir('sub')
        opts, want = genconf(r)
        opts['hashtable_file'] = r.choice(['table.pkl', 'table_v3.pkl', 'table', 'sub/t_v2.pkl', '100%_a.pkl'])
        bad = None
        if r.random() < 0.3:
            k, vs = r.choice(ILLEGAL)
            bad = opts[k] = r.choice(vs)
            h.note(illegal=(k, bad))
        h.note(options=opts)
        write('c.ini', opts, r)
        st, p = safe(lambda: C.ConfigParser(configfile='c.ini').get_config())
        if bad is not None:
            h.check(st == 'exc', 'illegal %s = %r is accepted', k, bad)
            return
        if st == 'exc':
            raise p
        compare(h, p, want, 'parsed')
        h.check(set(C.CONFIG_PARAMS_TYPES) <= set(p), 'missing options %r', set(C.CONFIG_PARAMS_TYPES) - set(p))
        st, e = safe(write_back, p, 'back.ini')
        h.check(st == 'ok', 'writing back raises %r', e)
        st, q = safe(lambda: C.ConfigParser(configfile='back.ini').get_config())
        h.check(st == 'ok', 'reading back raises %r', q)
        compare(h, q, want, 'written back')
        h.check(q['hashtable_file'] == p['hashtable_file'], 'written back: hashtable_file %r instead of %r',
                q['hashtable_file'], p['hashtable_file'])
        h.trivial = len(opts) < 10
