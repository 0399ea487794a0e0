"""C20: distributing a run."""
import z3
from pyvc.models import STRI
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['true division of the sum of two bounds by two is exact in double arithmetic (|sum| < 2^53)',
               'the recursive call obeys the contract being proved (induction on the number of splits left)',
               'pprint and print only print',
               'math.log(n, 2) is the integer k for n = 2^k and no integer for other positive n (true of doubles for n < 2^29)',
               'os.path.splitext splits a path into two texts that make up the path; os.path.join, os.path.basename and '
               'os.path.isdir are functions of their arguments; the decimal texts of different numbers differ',
               'a configuration written with set(section, option, config_val_to_str(value)) is read back with that value; '
               'the text of a list of ranges is the same as its JSON text (C21, C19)']
Q = 'distribute_run:'
AII = z3.ArraySort(I, I)


class RangePoly(Serial):
    """The ranges of one polynomial: a mutable list of two-element lists, of arbitrary length."""
    cls = VClass('list of ranges', [], {})

    def __init__(self, n, lo, hi):
        Serial.__init__(self)
        self.n, self.attrs = n, {'lo': lo, 'hi': hi}

    def get(self, I_, nm):
        return I_.getattr_raw(self, nm) if hasattr(I_, 'getattr_raw') else self.attrs[nm]

    def vlen(self, I_):
        return self.n

    def vclone(self, I_):
        return RangePoly(self.n, self.attrs['lo'], self.attrs['hi'])

    def vgetitem(self, I_, i):
        if isinstance(i, slice) or not is_intlike(i):
            I_.unsup('this use of the ranges of a polynomial')
        i = to_term(i)
        if not I_.truth(i >= 0):
            i = i + self.n
        if not I_.truth(z3.And(i >= 0, i < self.n)):
            I_.raise_('IndexError')
        return Range(self, i)

    def vparts(self, I_):
        t = z3.Int(I_.E.fresh_name('rp'))
        return [SSeq(self.n, t, [(True, (self.attrs['lo'][t], self.attrs['hi'][t]))])]


class Range(Serial):
    def __init__(self, poly, i):
        Serial.__init__(self)
        self.poly, self.i = poly, i

    def vlen(self, I_):
        return 2

    def which(self, I_, j):
        if isinstance(j, int) and -2 <= j < 2:
            return ('lo', 'hi')[j]
        I_.unsup('index %r of a range' % (j,))

    def vgetitem(self, I_, j):
        return self.poly.attrs[self.which(I_, j)][self.i]

    def vsetitem(self, I_, j, v):
        w = self.which(I_, j)
        need(I_, is_intlike(v), 'bounds are integers')
        I_.setattr_raw(self.poly, w, z3.Store(self.poly.attrs[w], self.i, to_term(v)))

    def vparts(self, I_):
        return [Items([self.vgetitem(I_, 0), self.vgetitem(I_, 1)])]


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    f = V.get(Q + 'split_params')
    OTHER = ('seq', ('seq', 'int', 'list'), 'list')

    def side(nm):
        n = V.int('n_' + nm)
        V.assume(n >= 0)
        lo, hi = z3.Const('lo_' + nm, AII), z3.Const('hi_' + nm, AII)
        rest = V.seq('rest_' + nm, OTHER, 'list')
        return VList(parts=[Items([RangePoly(n, lo, hi)])] + list(M.parts_of(rest))), (n, lo, hi, rest)

    def shape_ok(x, desc, changed):
        """The part has the same polynomials; only the ranges of the first one may differ."""
        need(In, isinstance(x, VList) and isinstance(x.parts[0], Items) and isinstance(x.parts[0].vals[0], RangePoly), 'shape')
        p = x.parts[0].vals[0]
        V.same('the other polynomials are unchanged', VList(parts=[Items(x.parts[0].vals[1:])] + list(x.parts[1:])), desc[3])
        V.prove('the number of ranges is unchanged', p.n == desc[0])
        return p

    SPLIT = z3.Function('SPLIT', I, U)

    def split(top):
        a, da = side('a')
        b, db = side('b')
        ab = VList([a, b])
        k = 0 if top else V.int('k')
        if not top:
            V.assume(k > 0)
        calls, refused = [], []

        def again(I_, args, kw):
            if not depth:
                depth.append(1)
                return I_.run_func(f, args, kw)
            d = bind(I_, 'split_params', ['ab_coeffs', 'split_num'], {}, args, kw)
            V.prove('the recursive call splits one time less', d['split_num'] == k - 1)
            calls.append(M.clone(d['ab_coeffs']))
            if E.ctx.branch(V.bool('refused')):
                refused.append(1)
                I_.raise_('ValueError', 'Non-dividable parameters')
            return M.view(SPLIT(z3.IntVal(len(calls))), ('seq', 'any', 'list'))
        depth = []
        In.stubs[Q + 'split_params'] = again
        size = lambda d, j: d[2][j] - d[1][j]
        j = z3.Int('j?')
        small = lambda d, n: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), size(d, j) <= 1), patterns=[d[2][j]])
        In.relations[Q + 'split_params'] = [
            (['i'], (lambda I_, ent, cur, d=d: [cur[0] >= 0, cur[0] <= d[0], small(d, cur[0])]),
             (lambda I_, cur, d=d: d[0] - cur[0])) for d in (da, db)]
        bad, r = V.raises(lambda: In.call(f, [ab, k]))
        del In.stubs[Q + 'split_params'], In.relations[Q + 'split_params']
        # the input is as it was
        pa, pb = shape_ok(a, da, False), shape_ok(b, db, False)
        i = V.int('i')
        V.prove('the input is not changed', z3.And(pa.attrs['lo'] == da[1], pa.attrs['hi'] == da[2],
                                                   pb.attrs['lo'] == db[1], pb.attrs['hi'] == db[2]))
        if top:
            V.prove('one part', not bad and is_list(r) and to_term(M.b_len(r)) == 1)
            if not bad:
                xa, xb = part(M.item(r, 0, inside=True), da, db, None)
                V.prove('the part is the search itself', z3.And(xa.attrs['lo'] == da[1], xa.attrs['hi'] == da[2],
                                                                xb.attrs['lo'] == db[1], xb.attrs['hi'] == db[2]))
            V.cover('done')
            return
        if bad:
            V.prove('refused with ValueError', r.cls.name == 'ValueError')
            if not refused:
                V.prove('only what cannot be split is refused', z3.And(small(da, da[0]), small(db, db[0])))
            V.cover('refused')
            return
        V.prove('two halves', len(calls) == 2)
        V.same('the parts of the first half, then those of the second', r, V.call(
            V.spec('cat', 'def cat(x, y):\n    return [p for p in x] + [p for p in y]\n'),
            *[M.view(SPLIT(z3.IntVal(q)), ('seq', 'any', 'list')) for q in (1, 2)]))
        halves = [part(x, da, db, i) for x in calls]
        (a1, b1), (a2, b2) = halves
        at = lambda p, w, t: p.attrs[w][t]
        eqs = lambda p, d, t: z3.And(at(p, 'lo', t) == d[1][t], at(p, 'hi', t) == d[2][t])
        rng = lambda d, t: z3.And(t >= 0, t < d[0])
        halved = lambda p1, p2, d, t: z3.And(rng(d, t), at(p1, 'lo', t) == d[1][t], at(p1, 'hi', t) == at(p2, 'lo', t),
                                             at(p2, 'hi', t) == d[2][t], d[1][t] < at(p1, 'hi', t), at(p1, 'hi', t) < d[2][t])
        y = z3.Int('y?')
        same_but = lambda p, d, x: z3.ForAll([y], z3.Implies(z3.And(rng(d, y), y != x), eqs(p, d, y)))
        V.prove('exactly one range is bisected, with two non-empty halves', z3.Exists([j], z3.Or(
            z3.And(halved(a1, a2, da, j), same_but(a1, da, j), same_but(a2, da, j), same_but(b1, db, -1), same_but(b2, db, -1)),
            z3.And(halved(b1, b2, db, j), same_but(b1, db, j), same_but(b2, db, j), same_but(a1, da, -1), same_but(a2, da, -1)))))
        V.cover('done')

    def is_list(x):
        return isinstance(x, VList) or isinstance(x, SV)

    def part(x, da, db, i):
        need(In, M.known_len(M.length(x)) == 2, 'two sides')
        xa, xb = M.item(x, 0, inside=True), M.item(x, 1, inside=True)
        return shape_ok(xa, da, True), shape_ok(xb, db, True)
    for top in (True, False):
        nm = 'no split left' if top else 'one split and the rest'
        V.scope(Q + 'split_params, ' + nm, lambda: split(top), [Q + 'split_params'])
        V.expected_covers += [Q + 'split_params, ' + nm + ': ' + c for c in (['done'] if top else ['done', 'refused'])]

    # ---- the distribution tool
    # a configuration value of any kind (only the text of a list of ranges is also the text it is parsed from)
    def Value(term, ranges=False):
        return SV(term, ('obj', 'ranges' if ranges else 'setting'))
    M.handlers['ranges'] = lambda o, nm: PARSABLE(o.term) if nm == '__str__' else None
    M.handlers['setting'] = lambda o, nm: SHOWN(o.term) if nm == '__str__' else None
    PARSABLE, SHOWN = z3.Function('PARSABLE_TEXT', U, S), z3.Function('TEXT', U, S)
    PARTS = z3.Function('PARTS', U, U, I, U)
    JOIN = z3.Function('PATH_JOIN', S, S, S)
    ROOT, EXT, BASE = z3.Function('PATH_ROOT', S, S), z3.Function('PATH_EXT', S, S), z3.Function('PATH_BASE', S, S)
    ISDIR = z3.Function('IS_DIR', S, B)
    C = 'configfile:'

    def main(power):
        In.module('distribute_run')
        legal = [k for k, _ in M.dict_items(V.get(C + 'CONFIG_PARAMS_TYPES'))]
        path = V.str('path')
        vals = {}
        for k in legal:
            vals[k] = V.str('hashtable_file') if k == 'hashtable_file' else \
                Value(z3.Const('value_' + k, U), k in ('a_coeffs_range', 'b_coeffs_range'))
        files, dirs = VList([]), VList([])
        k = V.int('k')
        V.assume(k >= 0)
        if power:
            n = POWI(z3.IntVal(2), k)
            V.assume(n >= 1)
        else:
            n = V.int('n')
            V.assume(n >= 1)
        x = V.real('log2_n')
        V.assume(x == z3.ToReal(k) if power else z3.Not(z3.IsInt(x)))

        def log(I_, a, kw):
            need(I_, len(a) == 2 and not kw and to_term(a[0]).eq(to_term(n)) and a[1] == 2, 'log(split_num, 2)')
            return z3.ToReal(k) if power else x

        def init(I_, a, kw):
            d = bind(I_, 'ConfigParser', ['self', 'configfile'], {'configfile': None}, a, kw)
            if d['configfile'] is None:
                I_.setattr(d['self'], 'c20', VDict())
                I_.setattr(d['self'], 'sections', VList([]))
            else:
                V.prove('the given configuration is read', d['configfile'].eq(path) if is_term(d['configfile']) else False)
                I_.setattr(d['self'], 'config', VDict([[q, vals[q]] for q in legal]))
        base = M.modules['configparser'].ns['ConfigParser'].ns

        def set_(I_, a, kw):
            d = bind(I_, 'set', ['self', 'section', 'option', 'value'], {}, a, kw)
            need(I_, d['section'] == 'Setup' and isinstance(d['option'], str), 'section Setup')
            M.dict_set(d['self'].attrs['c20'], d['option'], d['value'])

        def write(I_, a, kw):
            o, fp = a[0], a[1]
            c = o.attrs['c20']
            keys = [q for q, _ in M.dict_items(c)]
            V.prove('every setting is written', set(keys) == set(legal))
            need(I_, set(keys) == set(legal), 'settings')
            val = dict((q, v) for q, v in M.dict_items(c))
            M.append(files, (fp.attrs['name'],) + tuple(val[q] for q in legal))
        base.update(add_section=Native('add_section', lambda I_, a, kw: None), write=Native('write', write))
        filecls = VClass('file', [M.builtins['object']], {
            '__enter__': Native('__enter__', lambda I_, a, kw: a[0]), '__exit__': Native('__exit__', lambda I_, a, kw: None),
            'close': Native('close', lambda I_, a, kw: None)})

        def open_(I_, a, kw):
            d = bind(I_, 'open', ['file', 'mode'], {}, a, kw)
            need(I_, d['mode'] == 'w', 'a file is written')
            return VObj(filecls, {'name': d['file']})
        In.module('distribute_run').ns['open'] = Native('open', open_)
        In.stubs[C + 'ConfigParser.__init__'] = init
        In.stubs[C + 'ConfigParser.set'] = set_
        In.stubs[C + 'ConfigParser.get_config'] = lambda I_, a, kw: a[0].attrs['config']
        In.stubs[C + 'config_val_to_str'] = lambda I_, a, kw: a[0] if isinstance(a[0], z3.SeqRef) else PARSABLE(value_term(a[0]))
        value_term = lambda v: v.term

        def parts(I_, a, kw):
            d = bind(I_, 'split_params', ['ab_coeffs', 'split_num'], {}, a, kw)
            ab = M.concrete_or_none(d['ab_coeffs'])
            need(I_, ab is not None and len(ab) == 2, 'both ranges')
            V.prove('the ranges of the configuration are split into the wanted number of parts',
                    z3.And(M.embed(ab[0]) == vals['a_coeffs_range'].term, M.embed(ab[1]) == vals['b_coeffs_range'].term, power,
                           to_term(d['split_num']) == k))
            u = PARTS(ab[0].term, ab[1].term, k)
            t = z3.Int(E.fresh_name('part'))
            return VList(parts=[SSeq(n, t, [(True, (Value(ITEM(ITEM(u, t), 0), True), Value(ITEM(ITEM(u, t), 1), True)))])])
        In.stubs[Q + 'split_params'] = parts
        osp, mt = M.modules['os.path'].ns, M.modules['math'].ns
        was = dict(osp), dict(mt)
        M.modules['os'].ns['mkdir'] = Native('os.mkdir', lambda I_, a, kw: M.append(dirs, a[0]))

        def splitext(I_, a, kw):
            p = to_term(a[0])
            E.ctx.assume(z3.Concat(ROOT(p), EXT(p)) == p)
            return (ROOT(p), EXT(p))
        osp.update(splitext=Native('splitext', splitext), join=Native('join', lambda I_, a, kw: JOIN(*map(to_term, a))),
                   basename=Native('basename', lambda I_, a, kw: BASE(to_term(a[0]))),
                   isdir=Native('isdir', lambda I_, a, kw: ISDIR(to_term(a[0]))))
        mt.update(log=Native('math.log', log))
        h_ = to_term(vals['hashtable_file'])
        E.ctx.assume(z3.Concat(ROOT(h_), EXT(h_)) == h_)
        try:
            bad, r = V.raises(lambda: V.call(Q + 'main', n, path))
        finally:
            for ns, w in zip((osp, mt), was):
                ns.clear()
                ns.update(w)
            for q in (C + 'ConfigParser.__init__', C + 'ConfigParser.set', C + 'ConfigParser.get_config',
                      C + 'config_val_to_str', Q + 'split_params'):
                del In.stubs[q]
            del In.module('distribute_run').ns['open'], base['add_section'], base['write']
        if not power:
            V.prove('refused with ValueError', bad and r.cls.name == 'ValueError')
            V.prove('nothing is written', to_term(M.b_len(files)) == 0)
            V.prove('no directory is made', to_term(M.b_len(dirs)) == 0)
            V.cover('done')
            return
        V.prove('no error', not bad)
        V.prove('one configuration per part', to_term(M.b_len(files)) == n)
        i, j = V.int('i'), V.int('j')
        V.assume(z3.And(i >= 0, i < j, j < n))
        E.ctx.assume(STRI(i) != STRI(j))
        PCT = z3.Function('PCT_02d', I, S)
        E.ctx.assume(PCT(i) != PCT(j))
        fi, fj = M.item(files, i, inside=True), M.item(files, j, inside=True)
        u = PARTS(vals['a_coeffs_range'].term, vals['b_coeffs_range'].term, k)
        for q, v in zip(legal, fi[1:]):
            if q in ('a_coeffs_range', 'b_coeffs_range'):
                V.prove("the part's ranges: " + q, to_term(v) == PARSABLE(ITEM(ITEM(u, i), int(q[0] == 'b'))))
            elif q == 'hashtable_file':
                w = fj[1 + legal.index(q)]
                V.prove('a hashtable file of its own', z3.And(to_term(v) != to_term(w), to_term(v) != vals[q]))
            else:
                V.prove('the setting is kept: ' + q, to_term(v) == PARSABLE(vals[q].term))
        na, nb = to_term(fi[0]), to_term(fj[0])
        if na.decl().name() == 'PATH_JOIN' == nb.decl().name():
            # (different names in a directory have different paths)
            E.ctx.assume(z3.Implies(z3.And(na == nb, na.arg(0) == nb.arg(0)), na.arg(1) == nb.arg(1)))
        V.prove('a configuration file of its own', na != nb)
        V.cover('done')
    for power in (True, False):
        nm = Q + 'main, ' + ('2^k parts' if power else 'another number of parts')
        V.scope(nm, lambda: main(power), [Q + 'main'])
        V.expected_covers.append(nm + ': done')
