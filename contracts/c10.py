"""C10: saving, appending and joining hashtables."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['the methods of dict are those of a map from texts (with the entries of other keys unchanged; keys() gives every key once)',
               'a table is appended to another one (not to itself)',
               'pickle/dill build the object again from what __reduce__ gives: the callable applied to its arguments, then __setstate__ with the state, '
               'list and dict contents equal',
               'os.path.join/os.listdir/open/dill are the file system: a file that is not written keeps its content']
Q = 'decimal_hashtable:'
T = Q + 'DecimalHashTable'
ISLIST = z3.Function('IS_LIST', U, B)


class Single:
    """An entry that is no list."""
    def __init__(self, V, term):
        self.V, self.term = V, term

    def vclass(self, I_):
        return self.V.M.builtins['object']

    def vembed(self, I_):
        return self.term


class Data:
    """The entries of a table: a map from texts. One text X is arbitrary but fixed: ghost variables follow its entry.
    For the other texts, the entry met in an iteration is whatever is there then."""
    def __init__(self, V, name, X, changing):
        self.V, self.X, self.name, self.changing = V, X, name, changing
        self.HAS, self.AT = z3.Function('HAS_' + name, S, B), z3.Function('AT_' + name, S, U)
        self.HASI, self.ATI = z3.Function('HAS_IN_' + name, I, S, B), z3.Function('AT_IN_' + name, I, S, U)
        self.g = VObj(VClass(name, [V.M.builtins['object']], {}), {'has': self.HAS(X), 'value': SV(self.AT(X), 'any')})
        if not changing:
            self.keys = V.seq('keys_' + name, 'str', 'list')

    def get(self, nm):
        v = self.V.I.getattr(self.g, nm)
        return z3.BoolVal(v) if isinstance(v, bool) else v.term if isinstance(v, SV) else v

    def key(self, k):
        if not isinstance(k, (str, z3.SeqRef)):
            self.V.I.unsup('key %r' % (k,))
        return to_term(k)

    def other(self, I_, k, f, fi):
        if not self.changing:
            return f(k)
        need(I_, len(I_.loopvars) == 1 and not getattr(self.V.E.ctx, 'written', None), 'other entries of a changed table')
        return fi(to_term(I_.loopvars[0]), k)

    def value(self, I_, u):
        u = self.V.M.simp(u)
        for c in self.options(u):
            if len(self.options(u)) == 1 or I_.truth(c[0]):
                if I_.truth(ISLIST(c[1])):
                    return SV(c[1], ('seq', 'any', 'list'))
                return Single(self.V, c[1])
        raise PathEnd()

    def options(self, u):
        if z3.is_app_of(u, z3.Z3_OP_ITE):
            c, a, b = u.children()
            return [(self.V.M.simp(z3.And(c, g)), t) for g, t in self.options(a)] + \
                   [(self.V.M.simp(z3.And(z3.Not(c), g)), t) for g, t in self.options(b)]
        return [(z3.BoolVal(True), u)]

    def store(self, v):
        """The abstract value of what is stored."""
        if isinstance(v, (Single, SV)):
            return self.V.M.embed(v)
        if isinstance(v, VList):
            return joined([self.V.M.embed(x) if isinstance(x, SSeq) else WRAP(self.V.M.embed(x)) for p in self.V.M.norm(v.parts)
                           for x in (p.vals if isinstance(p, Items) else [p])])
        self.V.I.unsup('stored value %r' % (v,))

    def vcontains(self, I_, k):
        k = self.key(k)
        if I_.truth(k == self.X):
            return self.get('has')
        return self.other(I_, k, self.HAS, self.HASI)

    def vgetitem(self, I_, k):
        k = self.key(k)
        if not I_.truth(self.vcontains(I_, k)):
            I_.raise_('KeyError', k)
        if I_.truth(k == self.X):
            return self.value(I_, self.get('value'))
        return self.value(I_, self.other(I_, k, self.AT, self.ATI))

    def vsetitem(self, I_, k, v):
        need(I_, self.changing, 'a change of the appended table')
        k, v = self.key(k), self.store(v)
        if I_.truth(k == self.X):
            I_.setattr(self.g, 'has', True)
            I_.setattr(self.g, 'value', SV(v, 'any'))
        else:
            self.V.E.ctx.written = True

    def vparts(self, I_):
        need(I_, not self.changing, 'the entries of the changed table')
        return self.V.M.parts_of(self.keys)

    def vattr(self, I_, name):
        if name == 'keys':
            return Native('keys', lambda I_, a, k: self)
        if name == 'items' and not self.changing:
            f = self.V.spec('items', 'def items(keys):\n    return [(k, at(k)) for k in keys]\n',
                            {'at': Native('at', lambda I_, a, k: self.vgetitem(I_, a[0]))})
            return Native('items', lambda I_, a, k: self.V.call(f, self.keys))
        if name == 'get':
            return Native('get', lambda I_, a, k: self.vgetitem(I_, a[0]) if I_.truth(self.vcontains(I_, a[0])) else (a[1:] + [None])[0])
        self.V.I.unsup('the %s method of a map' % name)


WRAP = z3.Function('LIST_OF_ONE', U, U)
JOIN = z3.Function('JOINED', U, U, U)


def joined(ts):
    r = ts[0]
    for t in ts[1:]:
        r = JOIN(r, t)
    return r


def run(V):
    In, M, E = V.I, V.M, V.E
    V.expected_covers = []
    WAS, AT_ = z3.Function('EARLIER', I, B), z3.Function('EARLIER_AT', I, I)

    def history(nm):
        return V.seq('history_' + nm, 'int', 'list')

    def table(nm, X, changing, acc):
        data = Data(V, nm, X, changing)
        h = history(nm)
        t = VObj(V.get(T), {'__data__': data, 'accuracy': acc, 'accuracy_history': VList(parts=M.parts_of(h))})
        return t, data, h

    def append():
        In.module('decimal_hashtable')
        X, a1, a2 = V.str('X'), V.int('accuracy_1'), V.int('accuracy_2')
        t, d1, h1 = table('first', X, True, a1)
        u, d2, h2 = table('second', X, False, a2)
        key = lambda i: to_term(M.item(d2.keys, i, inside=True))
        n = to_term(M.b_len(d2.keys))
        q, q2 = z3.Ints('q q2')
        place = z3.Function('PLACE', S, I)
        # each key once, and exactly the keys that have an entry
        E.axioms += [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(d2.HAS(key(q)), place(key(q)) == q)), patterns=[key(q)])]
        V.assume(z3.Implies(d2.HAS(X), z3.And(place(X) >= 0, place(X) < n, key(place(X)) == X)))
        A, C = d1.AT(X), d2.AT(X)
        both = joined([z3.If(ISLIST(A), A, WRAP(A)), z3.If(ISLIST(C), C, WRAP(C))])

        def was(k):
            """X is one of the first k keys."""
            return z3.And(d2.HAS(X), place(X) < k)

        def fam(what):
            def f(I_, k):
                need(I_, not I_.loopvars, 'the loop over the keys')
                k = to_term(k)
                return {'has': z3.Or(d1.HAS(X), was(k)),
                        'value': SV(z3.If(z3.And(d1.HAS(X), was(k)), both, z3.If(was(k), C, A)), 'any')}[what]
            f.where = 'first.' + what
            return f
        In.families['*'] = [fam('has'), fam('value')]
        In.families_first = True
        try:
            bad, r = V.raises(lambda: V.method(t, 'append_dict', u))
        finally:
            del In.families['*']
            In.families_first = False
        V.prove('a table is refused exactly when its precision is another', (a1 != a2) == z3.BoolVal(bad))
        V.prove('with a TypeError', not bad or r.cls.name == 'TypeError')
        V.prove('the precision is kept', z3.And(to_term(In.getattr(t, 'accuracy')) == a1, to_term(In.getattr(u, 'accuracy')) == a2))
        V.prove('the entries of the appended table are kept', z3.And(d2.get('has') == d2.HAS(X), d2.get('value') == C))
        V.same('the precisions of the appended table are kept', In.getattr(u, 'accuracy_history'), h2)
        if bad:
            V.prove('no entry changes then', z3.And(d1.get('has') == d1.HAS(X), d1.get('value') == A))
            V.same('and no precision', In.getattr(t, 'accuracy_history'), h1)
            V.cover('refused')
            return
        V.prove('exactly the keys of both tables have entries', d1.get('has') == z3.Or(d1.HAS(X), d2.HAS(X)))
        V.prove('those of one table are kept, a shared key gets the original items, then the appended ones', z3.Implies(d1.get('has'),
                d1.get('value') == z3.If(z3.And(d1.HAS(X), d2.HAS(X)), both, z3.If(d2.HAS(X), C, A))))
        V.same('the earlier precisions of both', In.getattr(t, 'accuracy_history'), V.call(V.spec(
            'hist', 'def hist(h1, h2):\n    return h1 + [a for a in h2 if a not in h1]\n'), h1, h2))
        V.cover('appended')
    V.scope(T + '.append_dict', append, [T + '.append_dict'])
    V.expected_covers += [T + '.append_dict: appended', T + '.append_dict: refused']

    class Copy:
        """What dict(table) gives."""
        def __init__(self, data):
            self.data, self.has, self.value = data, data.get('has'), data.get('value')

    class New:
        """The entries of a new object."""
        def __init__(self):
            self.g = VObj(VClass('new', [M.builtins['object']], {}), {'has': False, 'value': SV(NONE, 'any')})

        def vupdate(self, I_, src):
            need(I_, isinstance(src, Copy), 'update from something else')
            h, v = I_.getattr(self.g, 'has'), I_.getattr(self.g, 'value')
            I_.setattr(self.g, 'has', M.simp(z3.Or(h, src.has)))
            I_.setattr(self.g, 'value', SV(M.simp(z3.If(src.has, src.value, v.term)), 'any'))

        def vattr(self, I_, name):
            if name == 'update':
                return Native('update', lambda I_, a, k: self.vupdate(I_, a[0].attrs['__data__'] if isinstance(a[0], VObj) and '__data__' in a[0].attrs else a[0]))
            I_.unsup('the %s method of a map' % name)

    def reload():
        In.module('decimal_hashtable')
        X, acc = V.str('X'), V.int('accuracy')
        t, d, h = table('saved', X, False, acc)
        d.vcopy = lambda I_: Copy(d)
        r = V.method(t, '__reduce__')
        V.prove('the saved form', isinstance(r, tuple) and len(r) >= 3 and isinstance(r[1], tuple) and all(x is None for x in r[3:]))
        V.prove('has a state', r[2] is not None)

        def reloaded(v):
            """The state, read back: equal, with nothing shared."""
            if isinstance(v, tuple):
                return tuple(reloaded(x) for x in v)
            if isinstance(v, VList):
                return VList(parts=M.copy_parts(M.parts_of(v)))
            if isinstance(v, Copy) or is_num(v) or isinstance(v, (str, z3.SeqRef)) or v is None:
                return v
            raise Unsupported('saved value %r' % (v,))
        o = V.call(r[0], *[reloaded(x) for x in r[1]])
        V.prove('a table again', isinstance(o, VObj) and o.cls is t.cls)
        V.prove('without entries so far', to_term(M.length(In.getattr(o, '__data__'))) == 0)
        n = New()
        o.attrs['__data__'] = n
        V.method(o, '__setstate__', reloaded(r[2]))
        V.prove('the precision', to_term(In.getattr(o, 'accuracy')) == acc)
        V.same('the earlier precisions', In.getattr(o, 'accuracy_history'), h)
        has, v = In.getattr(n.g, 'has'), In.getattr(n.g, 'value')
        V.prove('the keys', to_term(has) == d.HAS(X))
        V.prove('their entries', z3.Implies(d.HAS(X), v.term == d.AT(X)))
        V.prove('the saved table is kept', z3.And(to_term(In.getattr(t, 'accuracy')) == acc, d.get('has') == d.HAS(X), d.get('value') == d.AT(X)))
        V.same('the saved table keeps its earlier precisions', In.getattr(t, 'accuracy_history'), h)
        V.cover('done')
    V.scope(T + ', reloading', reload, [T + '.__reduce__', T + '.__getstate__', T + '.__setstate__', T + '.__init__'])
    V.expected_covers.append(T + ', reloading: done')

    J = 'join_hashtables:main'

    def join(given):
        m = In.module('join_hashtables')
        EXT, ROOT, EXISTS = z3.Function('PATH_EXT', S, S), z3.Function('PATH_ROOT', S, S), z3.Function('EXISTS', S, B)
        folder, out = V.str('folder'), V.str('output') if given else 'joined_hashtable.pkl'
        V.assume(z3.Length(folder) > 0)
        others, rest = V.seq('others', 'str', 'list'), V.seq('rest', 'str', 'list')
        first = V.str('first')
        q = z3.Int('q')
        oth = to_term(M.item(others, q, inside=True))
        E.axioms += [z3.ForAll([q], EXT(oth) != z3.StringVal('.pkl'), patterns=[oth])]
        V.assume(EXT(first) == z3.StringVal('.pkl'))
        files = VList(parts=M.parts_of(others) + [Items([first])] + M.parts_of(rest))
        obj = [M.builtins['object']]
        log = VList([])
        filecls = VClass('file', obj, {
            '__enter__': Native('__enter__', lambda I_, a, kw: a[0]),
            '__exit__': Native('__exit__', lambda I_, a, kw: I_.setattr(a[0], 'open', False)),
            'close': Native('close', lambda I_, a, kw: I_.setattr(a[0], 'open', False))})

        def say(*x):
            M.append(log, tuple(x))

        def open_(I_, a, kw):
            d = bind(I_, 'open', ['file', 'mode'], {'mode': 'r'}, a, kw)
            say('open', d['mode'], d['file'])
            return VObj(filecls, {'name': d['file'], 'mode': d['mode'], 'open': True})

        def load(I_, a, kw):
            need(I_, isinstance(a[0], VObj) and I_.getattr(a[0], 'open') is True and a[0].attrs['mode'] == 'rb', 'pickle.load')
            f = a[0].attrs['name']
            return VObj(search, {'name': f, 'dec_hashtable': VObj(V.get(T), {'name': f})})

        def dump(I_, a, kw):
            need(I_, isinstance(a[1], VObj) and I_.getattr(a[1], 'open') is True and a[1].attrs['mode'] == 'wb', 'pickle.dump')
            need(I_, isinstance(a[0], VObj) and a[0].cls is search, 'a search object')
            say('dump', a[0].attrs['name'], a[1].attrs['name'])

        def append_dict(I_, a, kw):
            say('append', a[0].attrs['name'], a[1].attrs['name'])
        In.module('decimal_hashtable')
        search = VClass('search object', obj, {})

        def splitext(I_, a, kw):
            return (ROOT(to_term(a[0])), EXT(to_term(a[0])))

        def path_join(I_, a, kw):
            need(I_, len(a) == 2, 'os.path.join of two')
            d, f = to_term(a[0]), to_term(a[1])
            p = z3.Concat(d, z3.If(z3.SuffixOf(z3.StringVal('/'), d), z3.StringVal(''), z3.StringVal('/')), f)
            E.ctx.assume(EXT(p) == EXT(f))
            return p

        def listdir(I_, a, kw):
            need(I_, E.valid(to_term(a[0]) == folder)[0], 'the listing of the given folder')
            return VList(parts=M.copy_parts(M.parts_of(files)))
        osp, os_, dill = M.modules['os.path'].ns, M.modules['os'].ns, In.module('dill').ns
        was = dict(osp), dict(os_), dict(dill)
        osp.update(splitext=Native('splitext', splitext), join=Native('join', path_join),
                   exists=Native('exists', lambda I_, a, kw: EXISTS(to_term(a[0]))))
        os_.update(listdir=Native('listdir', listdir))
        dill.update(load=Native('load', load), dump=Native('dump', dump), HIGHEST_PROTOCOL=V.int('protocol'))
        m.ns['open'] = Native('open', open_)
        In.stubs[T + '.append_dict'] = append_dict
        try:
            V.call(J, folder, *([out] if given else []))
        finally:
            for x, y in zip((osp, os_, dill), was):
                x.clear(), x.update(y)
            del m.ns['open'], In.stubs[T + '.append_dict']
        if E.valid(EXISTS(to_term(out)))[0]:
            V.same('an existing file stays as it is', log, VList([]))
            V.cover('existing')
            return
        V.prove('otherwise there is none', z3.Not(EXISTS(to_term(out))))
        want = V.call(V.spec('joined', '''
def joined(folder, first, rest, out):
    log = [('open', 'rb', path(folder, first))]
    for f in rest:
        if splitext(f)[1] == '.pkl':
            log.append(('open', 'rb', path(folder, f)))
            log.append(('append', path(folder, first), path(folder, f)))
    log.append(('open', 'wb', out))
    log.append(('dump', path(folder, first), out))
    return log
''', {'path': Native('join', path_join), 'splitext': Native('splitext', splitext)}), folder, first, rest, out)
        V.same('every table of the folder is read and appended to the first, the result is written once', log, want)
        V.cover('joined')
    for given in (True, False):
        sc = J + ('' if given else ', default output')
        V.scope(sc, lambda given=given: join(given), [J])
        V.expected_covers += [sc + ': existing', sc + ': joined']
