"""C21: configurations are parsed to typed values and survive being written back."""
import json
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'configparser gives the options of the section with their stripped texts, and reads a written text back with every %% as %; '
    'option texts are written as single lines',
    'str.lower is idempotent, leaves decimal and JSON texts of lists of numbers readable, and strip does not change a stripped text',
    'int() accepts the texts of integers and gives their values; str of an integer is such a text',
    'json.loads rejects what is not JSON with JSONDecodeError; json.loads(json.dumps(x)) is x; JSON options are lists (or none)',
    'the versioned name of the hashtable file is that of C22: versioning a versioned name again, nothing having been saved, '
    'changes nothing, and lower-casing it does not either (the given name is already lower-cased)']
C = 'configfile:ConfigParser'
LOWER = z3.Function('STR_lower', S, S)
JSONOK = z3.Function('IS_JSON', S, B)
JSONV = z3.Function('JSON_VALUE', S, U)
DUMPS = z3.Function('JSON_TEXT', U, S)
VERS = z3.Function('VERSIONED', S, S, S)
DOUBLED = z3.Function('PERCENT_DOUBLED', S, S)
INTOK = z3.Function('IS_INT_TEXT', S, B)
INTV = z3.Function('INT_TEXT', S, I)
BOOLS = ['print_surprising_nonexp_contfracs', 'validate_hashtable_extend_no_replication', 'is_test']
INTS = ['i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations',
        'first_filtering_precision', 'second_filtering_max_num_of_iterations', 'second_filtering_precision',
        'third_filtering_max_num_of_iterations', 'third_filtering_precision']
JSONS = ['ab_polys_special_params', 'a_coeffs_range', 'b_coeffs_range', 'lhs_params']
POLYS = {'normal': 'BasicEnumPolyParams', 'indexed': 'IndexedParameterEnumPolyParams', 'sparse': 'SparseParameterEnumPolyParams'}
LHS = {'ulcd': 'ULCD', 'rationalfunc': 'RationalFunc'}
OPERATIONS = ('generate', 'expand', 'use')
NEEDED = ['hashtable_file', 'hashtable_file_operation', 'postproc_funcs_filter', 'gen_hashtable_only']
KNOWN = INTS + BOOLS + JSONS + ['const', 'ab_polys_type', 'lhs_type'] + NEEDED
DEFAULT = {'const': 'pi', 'ab_polys_type': 'sparse', 'ab_polys_special_params': '[2, 3]', 'lhs_type': 'ulcd',
           'lhs_params': '[4, 3, [1, 2], 5]', 'a_coeffs_range': '[[[1, 2], [0, 3]]]', 'b_coeffs_range': '[[[1, 7]], [[2, 5]]]',
           'hashtable_file_operation': 'generate', 'gen_hashtable_only': 'auto', 'hashtable_file': 'table.pkl',
           'postproc_funcs_filter': '["lambda x: x", "safe_sqrt"]'}
for q in INTS:
    DEFAULT[q] = str(3 + 7 * len(q))
for q in BOOLS:
    DEFAULT[q] = 'True'


class Any:
    """A value the statement does not determine."""


ANY, REJECTED = Any(), Any()


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    V.bounded = ['subsets of options: each option given and not given, next to all and next to none of the optional others']
    ns = M.modules['json'].ns
    ns.update(loads=Native('json.loads', lambda I_, a, k: loads(I_, a, k)), dumps=Native('json.dumps', lambda I_, a, k: dumps(I_, a, k)))
    In.module('configfile')
    funcs = V.get('postprocfuncs:POSTPROC_FUNCS')
    names = M.concrete_or_none(funcs)
    state = {}

    def fun(t):
        return t.decl().name() if is_term(t) and z3.is_app(t) else None

    # ---- texts
    def lower(t, *a):
        if fun(t) in ('STR_lower', 'VERSIONED'):
            return t
        if fun(t) == 'STRI':
            integer(t)
            return t
        r = LOWER(t)
        V.assume((z3.Length(r) == 0) == (z3.Length(t) == 0))
        ps = pieces(t)
        if ps[0] == '[' and len(ps) > 1:
            V.assume(z3.PrefixOf(z3.StringVal('['), r))
        return r

    def integer(t):
        V.assume(z3.And(INTOK(t), INTV(t) == t.arg(0), z3.Length(t) > 0, t != 'none'))

    def strip(t, *a):
        ps = pieces(t)
        need(In, not a and (t.eq(state['text']) or fun(t) in ('STR_lower', 'VERSIONED', 'STRI') or ps[0] == '[' and ps[-1] == ']'
                            or any(t.eq(u) for u, _ in state['dumped'])), 'strip of another text')
        return t

    def replace(t, a, b):
        need(In, isinstance(a, str) and isinstance(b, str), 'replace')
        if a == b:
            return t
        need(In, (a, b) == ('%', '%%'), 'replacing %r' % a)
        return DOUBLED(t) if fun(t) != 'STRI' else t

    # ---- json
    written = {}

    def from_json(x):
        if isinstance(x, list):
            return VList([from_json(y) for y in x])
        if isinstance(x, dict):
            return VDict([[k, from_json(v)] for k, v in x.items()])
        return Fraction(x) if isinstance(x, float) else x

    def pieces(t):
        return Texts([]).pieces(t)

    def jsonlist(t, kind):
        return VList(parts=M.parts_of(M.as_seq(M.view(JSONV(t), ('seq', kind, 'list')))))

    def loads(I_, a, k):
        need(I_, len(a) == 1 and not k, 'json.loads')
        t = a[0]
        if isinstance(t, str):
            try:
                return from_json(json.loads(t))
            except json.JSONDecodeError:
                I_.raise_(ns['JSONDecodeError'], t)
        if not isinstance(t, z3.SeqRef):
            I_.raise_('TypeError', 'json.loads')
        for u, v in state['dumped']:
            if u.eq(t):
                return copy(v)
        ps = pieces(t)
        if len(ps) == 3 and ps[0] == '[' and ps[2] == ']' and fun(ps[1]) and str(ps[1]) in state['joined']:
            sep, l = state['joined'][str(ps[1])]
            need(I_, sep.strip() == ',', 'the separator of the elements')
            return VList(parts=quoted(M.norm(M.parts_of(l))))
        need(I_, t.eq(state['text']) or t.eq(LOWER(state['text'])), 'json.loads of another text')
        if not I_.truth(JSONOK(t)):
            I_.raise_(ns['JSONDecodeError'], t)
        return jsonlist(t, 'str' if state['option'] == 'postproc_funcs_filter' else 'int')

    def unquote(t):
        if isinstance(t, str):
            try:
                x = json.loads(t)
            except json.JSONDecodeError:
                In.raise_(ns['JSONDecodeError'], t)
            return from_json(x)
        ps = pieces(t)
        need(In, len(ps) == 3 and ps[0] == ps[2] == '"', 'JSON element')
        E.use('a name of a post-processing function has no quotation mark, backslash or control character')
        return ps[1]

    def quoted(parts):
        out = []
        for p in parts:
            if isinstance(p, Items):
                out.append(Items([unquote(v) for v in p.vals]))
            elif isinstance(p, SSeq):
                out.append(SSeq(p.n, p.var, [(g, unquote(v)) for g, v in p.alts], 'list'))
            elif isinstance(p, Cond):
                out.append(Cond([(g, quoted(q)) for g, q in p.alts]))
            elif isinstance(p, Flat):
                out.append(Flat(p.n, p.var, quoted(p.parts)))
            else:
                In.unsup('JSON list')
        return out

    def copy(v):
        return VList(parts=M.copy_parts(v.parts)) if isinstance(v, VList) else v

    def plain(v):
        """A concrete value as a Python value, or None."""
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, (VList, tuple)):
            c = M.concrete_or_none(v)
            if c is None:
                raise ValueError
            return [plain(x) for x in c]
        raise ValueError

    def dumps(I_, a, k):
        need(I_, len(a) == 1 and not k, 'json.dumps')
        try:
            return json.dumps(plain(a[0]))
        except ValueError:
            pass
        for u, v in state['dumped']:
            if v is a[0]:
                return u
        t = z3.String('json text %d' % len(state['dumped']))
        V.assume(z3.And(z3.Length(t) >= 2, LOWER(t) != 'none', t != 'none'))
        state['dumped'].append((t, copy(a[0])))
        return t

    def joined(sep, it):
        t = z3.String('joined %d' % len(state['joined']))
        state['joined'][str(t)] = (sep, it)
        return t

    # ---- configparser
    base = M.modules['configparser'].ns['ConfigParser'].ns
    PATH = 'config.ini'

    def read(I_, a, k):
        need(I_, len(a) == 2 and a[1] is PATH, 'the given file is read')
        a[0].attrs['read'] = state['content']
        return VList([PATH])

    def section(I_, o, s):
        need(I_, s == 'Setup' and 'read' in o.attrs, 'section')
        return VDict([list(x) for x in o.attrs['read']])

    def items(I_, a, k):
        return tuple((x, y) for x, y in section(I_, a[0], a[1]).items)

    def set_(I_, a, k):
        d = bind(I_, 'set', ['self', 'section', 'option', 'value'], {'value': None}, a, k)
        need(I_, d['section'] == 'Setup' and isinstance(d['option'], str), 'section Setup')
        w = d['self'].attrs.get('written') or []
        d['self'].attrs['written'] = [x for x in w if x[0] != d['option']] + [[d['option'], d['value']]]
    base.update(__init__=Native('__init__', lambda I_, a, k: None), read=Native('read', read),
                sections=Native('sections', lambda I_, a, k: VList(['Setup'])),
                __getitem__=Native('__getitem__', lambda I_, a, k: section(I_, a[0], a[1])),
                items=Native('items', items), options=Native('options', lambda I_, a, k: VList([x for x, _ in items(I_, a, k)])),
                set=Native('set', set_), add_section=Native('add_section', lambda I_, a, k: None))

    def reread(v):
        """The text read back of a written one."""
        if isinstance(v, str):
            V.prove('a written text has no single %', '%' not in v.replace('%%', ''))
            return v.replace('%%', '%').strip()
        if fun(v) == 'PERCENT_DOUBLED':
            return v.arg(0)
        if fun(v) == 'STRI':
            return v
        V.prove('the interpolation character is doubled', z3.Length(v) == 0)
        return v

    # ---- the hashtable file (C22)
    def version(I_, a, k):
        c = In.getattr(a[0], '_config')
        op, name = M.getitem(c, 'hashtable_file_operation'), M.getitem(c, 'hashtable_file')
        need(I_, isinstance(name, (str, z3.SeqRef)), 'a name')
        if not isinstance(op, (str, z3.SeqRef)):
            return
        M.setitem(c, 'hashtable_file', versioned(op, name))

    def versioned(op, name):
        if fun(name) == 'VERSIONED' and name.arg(0).eq(to_term(op)):
            return name
        r = VERS(to_term(op), to_term(name))
        V.assume(z3.And(z3.Length(r) > 0, r != 'none', r != 'true', r != 'false'))
        return r

    def is_(t, s):
        return In.truth(t == s) if is_term(t) else t == s

    def expected(k, t, op):
        """The value of option k given by text t."""
        if not is_term(t):
            if k in INTS:
                return int(t)
            if k in BOOLS:
                return t.lower() == 'true'
            if k in JSONS:
                return from_json(json.loads(t))
            if k == 'postproc_funcs_filter':
                return VList([names.index(x) for x in json.loads(t)])
        f = LOWER(t) if is_term(t) else t.lower()
        if is_(f, 'none'):
            return None
        if k in INTS:
            return INTV(t) if In.truth(INTOK(t)) else REJECTED
        if k in BOOLS:
            return True if is_(f, 'true') else False if is_(f, 'false') else REJECTED
        if k in JSONS:
            return jsonlist(t, 'int') if In.truth(JSONOK(t)) else REJECTED
        if k == 'postproc_funcs_filter':
            return jsonlist(t, 'str') if In.truth(JSONOK(t)) else REJECTED
        if k == 'ab_polys_type':
            for x, c in POLYS.items():
                if is_(f, x):
                    return V.get('enum_poly_params:' + c)
            return REJECTED
        if k == 'lhs_type':
            for x, c in LHS.items():
                if is_(f, x):
                    return {'eval': V.get('lhs_evaluators:%sEvaluator' % c), 'enum': V.get('lhs_evaluators:%sEnumerator' % c)}
            return REJECTED
        if k == 'hashtable_file_operation':
            for x in OPERATIONS:
                if is_(f, x):
                    return x
            return REJECTED
        if k == 'gen_hashtable_only':
            if is_(f, 'auto'):
                return not is_(op, 'use')
        for x, v in (('true', True), ('false', False)):
            if is_(f, x):
                return v if k == 'gen_hashtable_only' else ANY
        if k == 'gen_hashtable_only':
            return ANY
        if k == 'hashtable_file':
            return versioned(op, f)
        return f

    def compare(what, k, got, want):
        n = what + k
        if isinstance(want, Any):
            return
        if want is None:
            V.prove(n + ' has no value', got is None)
        elif is_bool(want):
            V.prove(n, is_bool(got) and M.eq(got, want))
        elif isinstance(want, dict):
            ok = isinstance(got, VDict) and sorted(x for x, _ in got.items) == ['enum', 'eval']
            V.prove(n, ok and all(M.getitem(got, x) is want[x] for x in want))
        elif isinstance(want, VClass):
            V.prove(n, got is want)
        elif isinstance(want, (str, z3.SeqRef)):
            V.prove(n, isinstance(got, (str, z3.SeqRef)) and M.eq(got, want))
        elif M.kind(want) == 'list':
            V.prove(n + ' is a list', M.kind(got) == 'list')
            if M.kind(got) == 'list':
                V.prove(n, M.eq(got, want))
        else:
            V.prove(n, is_intlike(got) and not is_bool(got) and to_term(got) == to_term(want))

    def positions(k, got, fs):
        """The positions of the functions fs."""
        V.prove('positions are a list', M.kind(got) == 'list')
        V.prove('as many positions as functions', M.eq(M.length(got), M.length(fs)))
        j = V.int('j')
        if In.truth(z3.And(j >= 0, j < to_term(M.length(fs)))):
            p = M.item(got, j, inside=True)
            V.prove('the position of each function', is_intlike(p) and z3.And(
                to_term(p) >= 0, to_term(p) < len(names),
                *[z3.Implies(to_term(p) == i, to_term(M.item(fs, j, inside=True)) == x) for i, x in enumerate(names)]))

    def go(k, others, given):
        t = V.str('text') if given else None
        state.update(text=t if given else z3.String('no text'), option=k, dumped=[], joined={})
        # (only the operation concerns other options)
        opts = {q: DEFAULT[q] for q in KNOWN if others or q in NEEDED}
        if k == 'gen_hashtable_only' and given:
            opts['hashtable_file_operation'] = 'use' if In.truth(V.bool('use')) else 'expand' if In.truth(V.bool('expand')) else 'generate'
        opts.pop(k, None)
        if given:
            opts[k] = t
        state['content'] = [[q, v] for q, v in opts.items()]
        In.stubs[C + '._gen_hashtable_filename'] = version
        op = opts.get('hashtable_file_operation')
        op = LOWER(op) if is_term(op) else op
        want = expected(k, t, op) if given else None
        if k == 'hashtable_file_operation' and isinstance(want, str):
            op = want
        if k in NEEDED[:3] and want is None:
            return V.cover('no value')
        bad, r = V.raises(lambda: V.method(V.call(C, configfile=PATH), 'get_config'))
        if want is REJECTED:
            V.prove('an illegal %s is rejected' % k, bad)
            return V.cover('illegal')
        if k == 'postproc_funcs_filter':
            j = V.int('j')
            inside = z3.And(j >= 0, j < to_term(M.length(want)))
            if bad:
                # some name is not a function
                V.prove('only an unknown function is rejected', r.cls.name == 'ValueError')
                legal = E.valid(z3.Implies(inside, z3.Or(*[to_term(M.item(want, j, inside=True)) == x for x in names])))[0]
                V.prove('a function of the table is not rejected', not legal)
                return V.cover('illegal')
            positions(k, M.getitem(r, k), want)
        if bad and want is ANY:
            return
        V.prove('a legal %s is accepted' % k, not bad)
        if bad:
            return
        check('', r, opts, op, k, want)
        # written back
        out = V.call(C)
        for q in KNOWN:
            v = M.getitem(r, q)
            v = In.truth(v) if is_bool(v) else v
            V.method(out, 'set', 'Setup', q, V.call('configfile:config_val_to_str', v))
        state['content'] = [[q, reread(v)] for q, v in out.attrs['written']]
        V.prove('every option is written', sorted(q for q, _ in state['content']) == sorted(KNOWN))
        bad, again = V.raises(lambda: V.method(V.call(C, configfile=PATH), 'get_config'))
        V.prove('what is written back can be read', not bad)
        if bad:
            return
        check('written back: ', again, opts, op, k, M.getitem(r, k) if want is not ANY else ANY)
        V.cover('value')

    def check(what, r, opts, op, k, want):
        keys = [q for q, _ in M.dict_items(r)]
        V.prove(what + 'every known option is there', set(KNOWN) <= set(keys))
        for q in KNOWN:
            if q in keys:
                got = M.getitem(r, q)
                if q == k:
                    if q == 'postproc_funcs_filter' and not what:
                        continue
                    if isinstance(want, VDict):
                        want = {x: y for x, y in want.items}
                    compare(what, q, got, want)
                elif q in opts:
                    compare(what, q, got, expected(q, opts[q], op))
                else:
                    compare(what, q, got, None)
    saved = {x: getattr(M, x, None) for x in ('str_lower', 'str_strip', 'str_replace', 'join_sym')}
    M.str_lower, M.str_strip, M.str_replace, M.join_sym = lower, strip, replace, joined

    def names_scope():
        V.prove('the names of the functions are different', len(set(names)) == len(names) and all(isinstance(x, str) for x in names))
        V.prove('the names can be written between quotation marks', all(json.dumps(x) == '"%s"' % x for x in names))
    V.scope('names of the functions', names_scope, [])
    for k in KNOWN:
        for others in (True, False):
            for given in (True, False):
                if not given and k in NEEDED[:3]:
                    continue
                n = '%s %s, %s' % (k, 'given' if given else 'not given', 'others given' if others else 'others not given')
                V.scope(n, lambda k=k, others=others, given=given: go(k, others, given),
                        [C + x for x in ('.__init__', '._cast_param_val', '._gen_postproc_funcs_filter', '.get_config', '.set',
                                         '.string_parameter_parser', '.bool_parser', '.poly_type_parser', '.lhs_type_parser',
                                         '.path_parameter_parser')] + ['configfile:config_val_to_str'])
                V.expected_covers.append(n + ': value')
