"""C27: the clean-up tool."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['the table has different keys, each with a list of items of its own (pickled by the search, C11); items() and pop() of '
               'the hashtable are those of dict',
               'a polynomial has an integer root as its own function says (C06)',
               'pickle.load and pickle.dump read and write an object from and to the given open file only',
               'os.path.splitext splits a path into two texts that make up the path']
Q = 'fix_hashtable_filter_init_b_root:main'


def run(V):
    """Entry K of the table and its item T are arbitrary but fixed: ghost variables follow what happens to them."""
    In, M, E = V.I, V.M, V.E
    V.expected_covers = []
    KEY = z3.Function('KEY', I, S)
    ENTRY, ITEM = z3.Function('ENTRY', I, U), z3.Function('ITEM', I, I, U)
    N = z3.Function('ITEMS', I, I)
    BAD, WIT = z3.Function('BAD', I, I, B), z3.Function('ROOT_AT', I, I, I)
    NBAD = z3.Function('BAD_BEFORE', I, I, I)
    ROOT = z3.Function('HAS_INTEGER_ROOT', U, B)
    OTHER = z3.Function('LEFT', I, I)
    SHAPE = ('tup', (AB, 'int'))
    PATH_ROOT, PATH_EXT = z3.Function('PATH_ROOT', S, S), z3.Function('PATH_EXT', S, S)

    def main():
        In.module('fix_hashtable_filter_init_b_root')
        path = V.str('path')
        n, K, T = V.int('entries'), V.int('K'), V.int('T')
        V.assume(z3.And(n >= 0, K >= 0, K < n, T >= 0, T < N(K)))
        poly = lambda a, b, p: M.embed(M.item(M.view(ITEM(a, b), SHAPE)[0][1], p, inside=True))
        count = lambda a, b: to_term(M.length(M.view(ITEM(a, b), SHAPE)[0][1]))
        # (by induction: no more items are counted than there are)
        a, b = z3.Int('a'), z3.Int('b')
        step = lambda i, j: NBAD(i, j + 1) == NBAD(i, j) + z3.If(BAD(i, j), 1, 0)
        within = lambda i, j: z3.And(NBAD(i, j) >= 0, NBAD(i, j) <= j)
        E.prove('lemma: no more items are counted than there are', z3.And(
            z3.Implies(NBAD(a, 0) == 0, within(a, 0)), z3.Implies(z3.And(b >= 0, within(a, b), step(a, b)), within(a, b + 1))))

        def known(i, j):
            """Instances of the definitions: different keys, BAD (some numerator has an integer root) and the number of bad items."""
            w = WIT(i, j)
            E.ctx.assume(z3.And(N(i) >= 0, z3.Implies(KEY(i) == KEY(K), i == K), NBAD(i, 0) == 0,
                                z3.Implies(BAD(i, j), z3.And(w >= 0, w < count(i, j), ROOT(poly(i, j, w)))),
                                z3.Implies(j >= 0, z3.And(step(i, j), within(i, j)))))
        par = lambda k: z3.PrefixOf(KEY(k), z3.StringVal('parameters'))
        g = VObj(VClass('ghost', [M.builtins['object']], {}), {'gone': False, 'count': 0, 'dropped': False})
        get = lambda a: (lambda x: x if not isinstance(x, bool) and is_term(x) else z3.BoolVal(x) if isinstance(x, bool) else z3.IntVal(x))(In.getattr(g, a))

        def of(o):
            k = o.term.arg(0)
            need(In, o.term.decl().name() == 'ENTRY', 'items of the table')
            return k

        def pop(o):
            def f(I_, a, kw):
                need(I_, len(a) == 1 and is_intlike(a[0]), 'pop(index)')
                k, x = of(o), to_term(a[0])
                if not I_.truth(k == K):
                    return None
                pos = x + get('count')
                V.prove('what is removed is an item of the list', z3.And(x >= 0, pos < N(K)))
                V.prove('items are removed in their order', z3.Implies(get('gone'), T < pos))
                I_.setattr(g, 'gone', M.simp(z3.Or(get('gone'), T == pos)))
                I_.setattr(g, 'count', M.simp(get('count') + 1))
                return M.view(ITEM(k, pos), SHAPE)
            return Native('pop', f)

        def items(o):
            """The items before any was removed."""
            def f(I_, a, kw):
                need(I_, isinstance(a[0], slice) and a[0].start is a[0].stop is a[0].step is None, 'a copy of the list')
                k = of(o)
                need(I_, E.valid(z3.Implies(k == K, get('count') == 0))[0], 'a copy of the unchanged list')
                t = z3.Int(E.fresh_name('item'))
                return VList(parts=[SSeq(N(k), t, [(True, M.view(ITEM(k, t), SHAPE))], 'list')])
            return Native('__getitem__', f)

        def left(o):
            def f(I_, a, kw):
                k = of(o)
                E.ctx.assume(OTHER(k) >= 0)
                return M.simp(z3.If(k == K, N(K) - get('count'), OTHER(k)))
            return Native('__len__', f)

        def handler(o, nm):
            return {'pop': pop, '__getitem__': items, '__len__': left}.get(nm, lambda o: None)(o)
        M.handlers['entry'] = handler

        def table_items(I_, a, kw):
            t = z3.Int(E.fresh_name('entry'))
            return M.gen_of([SSeq(n, t, [(True, (KEY(t), SV(ENTRY(t), ('obj', 'entry'))))], 'list')])

        def table_pop(I_, a, kw):
            I_.setattr(g, 'dropped', M.simp(z3.Or(get('dropped'), to_term(a[1]) == KEY(K))))
        table = VObj(VClass('table', [M.builtins['object']], {'items': Native('items', table_items), 'pop': Native('pop', table_pop)}), {})
        mitm = VObj(VClass('search object', [M.builtins['object']], {}), {'dec_hashtable': table})
        files, log = [], []
        filecls = VClass('file', [M.builtins['object']], {
            '__enter__': Native('__enter__', lambda I_, a, kw: a[0]),
            '__exit__': Native('__exit__', lambda I_, a, kw: I_.setattr(a[0], 'open', False))})

        def open_(I_, a, kw):
            d = bind(I_, 'open', ['file', 'mode'], {'mode': 'r'}, a, kw)
            files.append((d['mode'], to_term(d['file'])))
            return VObj(filecls, {'name': d['file'], 'mode': d['mode'], 'open': True})

        def load(I_, a, kw):
            need(I_, isinstance(a[0], VObj) and a[0].attrs['open'] and a[0].attrs['mode'] == 'rb', 'pickle.load')
            log.append(('load', to_term(a[0].attrs['name'])))
            return mitm

        def dump(I_, a, kw):
            need(I_, isinstance(a[1], VObj) and a[1].attrs['open'] and a[1].attrs['mode'] == 'wb', 'pickle.dump')
            log.append(('dump', to_term(a[1].attrs['name']), a[0], get('gone'), get('dropped'), get('count')))

        def splitext(I_, a, kw):
            p = to_term(a[0])
            E.ctx.assume(z3.Concat(PATH_ROOT(p), PATH_EXT(p)) == p)
            return (PATH_ROOT(p), PATH_EXT(p))
        osp, dill = M.modules['os.path'].ns, In.module('dill').ns
        was = dict(osp), dict(dill)
        osp['splitext'] = Native('splitext', splitext)
        dill.update(load=Native('load', load), dump=Native('dump', dump))
        ns = In.module('fix_hashtable_filter_init_b_root').ns
        ns['open'] = Native('open', open_)
        R_ = 'enum_poly_params:BasicEnumPolyParams._does_have_integer_roots'

        def root(I_, a, kw):
            p = M.embed(a[0])
            need(I_, len(I_.loopvars) == 3, 'the numerators of an item')
            o, k, x = I_.loopvars
            need(I_, E.valid(p == poly(o, k, x))[0], 'the numerators of the item')
            known(o, k)
            E.ctx.assume(z3.Implies(z3.And(x >= 0, x < count(o, k), ROOT(p)), BAD(o, k)))
            return ROOT(p)
        In.stubs[R_] = root

        def inside(I_, k):
            return len(I_.loopvars) > 1 or len(I_.loopvars) == 1 and not (is_term(k) and k.eq(I_.loopvars[-1]))
        before = lambda k: z3.And(K < to_term(k), z3.Not(par(K)))

        def outer(what):
            def fam(I_, k):
                need(I_, not I_.loopvars, 'the loop over the entries')
                known(to_term(k), N(to_term(k)))
                return {'gone': z3.And(before(k), BAD(K, T)), 'count': z3.If(before(k), NBAD(K, N(K)), 0),
                        'dropped': z3.And(before(k), NBAD(K, N(K)) == N(K))}[what]
            return fam

        def inner(what):
            def fam(I_, k):
                vs = list(I_.loopvars)
                need(I_, len(vs) == 1, 'the loop over the items')
                o, k = vs[0], to_term(k)
                known(o, k)
                here = z3.And(o == K, z3.Not(par(K)))
                return {'all': NBAD(o, k), 'gone': z3.Or(z3.And(before(o), BAD(K, T)), z3.And(here, T < k, BAD(K, T))),
                        'count': z3.If(here, NBAD(K, k), z3.If(before(o), NBAD(K, N(K)), 0))}[what]
            return fam
        def at(f, where):
            f.where = where
            return f
        In.families['*'] = [at(f(q), 'ghost.' + q) for f, q in (
            (outer, 'dropped'), (outer, 'gone'), (outer, 'count'), (inner, 'gone'), (inner, 'count'))] + [at(inner('all'), lambda st: st.loc[0] == 'var')]
        In.families_first = True
        try:
            V.call(Q, path)
        finally:
            osp.clear(), osp.update(was[0]), dill.clear(), dill.update(was[1])
            del ns['open'], In.stubs[R_], In.families['*']
            In.families_first = False
        V.prove('the given file is read', len(log) == 2 and log[0][0] == 'load' and log[1][0] == 'dump' and log[0][1] == path)
        V.prove('the cleaned object is saved', log[1][2] is mitm)
        out = log[1][1]
        V.prove('next to the original', out == z3.Concat(PATH_ROOT(path), z3.StringVal('_fixed'), PATH_EXT(path)))
        E.ctx.assume(z3.Concat(PATH_ROOT(path), PATH_EXT(path)) == path)
        V.prove('the original is only read', z3.And(*[f != path if m != 'rb' else z3.BoolVal(True) for m, f in files] + [out != path]))
        V.prove('one file is written', [m for m, f in files if m != 'rb'] == ['wb'])
        gone, dropped, cnt = log[1][3:]
        V.prove('exactly the items with an integer root are removed', z3.Implies(z3.Not(par(K)), gone == BAD(K, T)))
        V.prove('exactly the keys that become empty are dropped', z3.Implies(z3.Not(par(K)), dropped == (cnt == N(K))))
        V.prove('the parameters of the run are kept', z3.Implies(par(K), z3.And(z3.Not(gone), z3.Not(dropped), cnt == 0)))
        V.cover('done')
    V.scope(Q, main, [Q])
    V.expected_covers.append(Q + ': done')
