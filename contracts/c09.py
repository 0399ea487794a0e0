"""C09: the decimal hashtable."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['the methods of dict are those of a map from texts (with the entries of other keys unchanged)',
               'mpmath.nstr(x, n, strip_zeros=False, min_fixed=-inf, max_fixed=inf) is the plain decimal expansion of a number x '
               'other than zero with n digits (equal expansions of the digits that are compared: the working precision exceeds the '
               "table's)",
               'the recorded precisions are positive']
Q = 'decimal_hashtable:'
T = Q + 'DecimalHashTable'
HAS = z3.Function('HAS', S, B)
AT = z3.Function('AT', S, U)


class Data:
    """The entries of the table: a map from texts. One text X is arbitrary but fixed: ghost variables follow its entry."""
    def __init__(self, V, X, changing, has=HAS, at=AT):
        self.V, self.X, self.changing, self.HAS, self.AT = V, X, changing, has, at
        self.g = VObj(VClass('entries', [V.M.builtins['object']], {}), {'has': has(X), 'value': at(X)})

    def get(self, nm):
        v = self.V.I.getattr(self.g, nm)
        return z3.BoolVal(v) if isinstance(v, bool) else v

    def key(self, k):
        if not isinstance(k, (str, z3.SeqRef)):
            self.V.I.unsup('key %r' % (k,))
        return to_term(k)

    def vcontains(self, I_, k):
        k = self.key(k)
        # (what else was changed so far is not followed)
        other = self.V.bool(self.V.E.fresh_name('has')) if self.changing else self.HAS(k)
        return self.V.M.simp(z3.If(k == self.X, self.get('has'), other))

    def vgetitem(self, I_, k):
        k = self.key(k)
        if not I_.truth(self.vcontains(I_, k)):
            I_.raise_('KeyError', k)
        if I_.truth(k == self.X):
            v = self.get('value')
            return SV(v, 'any') if is_term(v) else v
        need(I_, not self.changing, 'reading another entry of a changed table')
        return SV(self.AT(k), 'any')

    def vsetitem(self, I_, k, v):
        need(I_, self.changing, 'a method that only reads')
        k, v = self.key(k), self.V.M.embed(v)
        if I_.truth(k == self.X):
            I_.setattr(self.g, 'has', True)
            I_.setattr(self.g, 'value', v)

    def vdelitem(self, I_, k):
        k = self.key(k)
        if not self.changing:
            # (the first change: all entries are known)
            if not I_.truth(self.HAS(k)):
                I_.raise_('KeyError', k)
            I_.setattr(self.g, 'has', self.V.M.simp(z3.And(self.get('has'), k != self.X)))
            return
        if I_.truth(k == self.X):
            if not I_.truth(self.get('has')):
                I_.raise_('KeyError', k)
            I_.setattr(self.g, 'has', False)


def run(V):
    In, M, E = V.I, V.M, V.E
    V.expected_covers = []
    DIGITS = z3.Function('PLAIN_DIGITS', R, I, S)
    WAS = z3.Function('EARLIER', S, I, B)     # the text is one of the first k earlier keys
    AT_ = z3.Function('EARLIER_AT', S, I, I)

    def nstr(I_, a, k):
        d = bind(I_, 'nstr', ['x', 'n', 'strip_zeros', 'min_fixed', 'max_fixed'], {'strip_zeros': True, 'min_fixed': None,
                                                                                   'max_fixed': None}, a, k)
        x = to_real(d['x'])
        V.prove('the digits are written in full', d['strip_zeros'] is False)
        V.prove('never in a scientific notation', d['min_fixed'] is NINF and d['max_fixed'] is PINF)
        V.prove('of a number other than zero', x != 0)
        return DIGITS(x, to_term(d['n']))

    def prefix(text, acc):
        return V.call(V.spec('prefix', 'def prefix(text, acc):\n    return text[:acc+1]\n'), text, acc)

    def table(changing=False):
        In.module('decimal_hashtable')
        h = V.seq('history', 'int', 'list')
        m = to_term(M.b_len(h))
        q = z3.Int('q')
        E.axioms += [z3.ForAll([q], to_term(M.item(h, q, inside=True)) >= 1, patterns=[to_term(M.item(h, q, inside=True))])]
        acc, X = V.int('accuracy'), V.str('X')
        V.assume(acc >= 1)
        data = Data(V, X, changing)
        t = VObj(V.get(T), {'__data__': data, 'accuracy': acc, 'accuracy_history': VList(parts=M.parts_of(h))})
        return t, h, m, acc, X, data

    def a_key(kind):
        """A key and its text."""
        if kind == 'text':
            x = V.str('key')
            return x, x
        mp = In.getattr(In.module('mpmath'), 'mp')
        dps = V.int('dps')
        V.assume(dps > 0)
        In.setattr(mp, 'dps', dps)
        x = V.real('key')
        zeros = z3.String('zeros')
        return x, z3.If(x == 0, z3.Concat(z3.StringVal('0.'), V.call(V.spec('z', "def z(n):\n    return '0' * n\n"), dps)), DIGITS(x, dps))

    def known(X, pre, m, k):
        """Instances of the definition: EARLIER(X, k) iff X is the key at one of the first k precisions."""
        w = AT_(X, k)
        E.ctx.assume(z3.And(z3.Not(WAS(X, 0)), z3.Implies(k >= 0, WAS(X, k + 1) == z3.Or(WAS(X, k), X == pre(k))),
                            z3.Implies(WAS(X, k), z3.And(w >= 0, w < k, X == pre(w)))))

    def with_nstr(f):
        ns = In.module('mpmath').ns
        was = dict(ns)
        ns['nstr'] = Native('nstr', nstr)
        try:
            return f()
        finally:
            ns.clear()
            ns.update(was)

    def keys(kind):
        t, h, m, acc, X, data = table()
        k, text = a_key(kind)
        r = with_nstr(lambda: V.method(t, '_manipulate_key', k))
        r = M.concrete_or_none(r)
        V.prove('the keys at the earlier precisions and the current one', len(r) == 2)
        V.same('the keys at the earlier precisions, in their order', r[0], V.call(V.spec(
            'old', 'def old(text, h):\n    return [text[:i+1] for i in h]\n'), text, h))
        V.prove('the key at the current precision', to_term(r[1]) == prefix(text, acc))
        V.cover('done')

    def other_key():
        t = table()[0]
        bad, e = V.raises(lambda: V.method(t, '_manipulate_key', VList([])))
        V.prove('other keys are refused', bad and e.cls.name == 'TypeError')
        V.cover('done')

    FIND = '''
def find(earlier, current):
    for k in earlier:
        if has(k):
            return k
    return current
'''

    def parts(kind):
        t, h, m, acc, X, data = table()
        k, text = a_key(kind)
        earlier = V.call(V.spec('old', 'def old(text, h):\n    return [text[:i+1] for i in h]\n'), text, h)
        find = lambda: V.call(V.spec('find', FIND, {'has': Native('has', lambda I_, a, kw: HAS(to_term(a[0])))}), earlier, prefix(text, acc))
        return t, k, to_term(find()), X, data

    def contains(kind):
        t, k, where, X, data = parts(kind)
        r = with_nstr(lambda: V.method(t, '__contains__', k))
        V.prove('an entry at one of the precisions', to_term(r) == HAS(where))
        V.prove('nothing is changed', z3.And(data.get('has') == HAS(X), data.get('value') == AT(X)))
        V.cover('done')

    def getitem(kind):
        t, k, where, X, data = parts(kind)
        bad, r = V.raises(lambda: with_nstr(lambda: V.method(t, '__getitem__', k)))
        V.prove('KeyError exactly when there is no entry', HAS(where) == z3.BoolVal(not bad))
        V.prove('of this kind', not bad or r.cls.name == 'KeyError')
        if not bad:
            V.prove('the entry of the oldest precision', M.embed(r) == AT(where))
        V.prove('nothing is changed', z3.And(data.get('has') == HAS(X), data.get('value') == AT(X)))
        V.cover('found' if not bad else 'missing')

    def delitem(kind):
        t, k, where, X, data = parts(kind)
        bad, r = V.raises(lambda: with_nstr(lambda: V.method(t, '__delitem__', k)))
        V.prove('KeyError exactly when there is no entry', HAS(where) == z3.BoolVal(not bad))
        V.prove('of this kind', not bad or r.cls.name == 'KeyError')
        V.prove('the entry of the oldest precision is deleted, no other', data.get('has') == z3.And(HAS(X), z3.BoolVal(bad) if bad else X != where))
        V.prove('values are kept', data.get('value') == AT(X))
        V.cover('found' if not bad else 'missing')

    def setitem(kind):
        t, h, m, acc, X, data = table(changing=True)
        k, text = a_key(kind)
        pre = lambda j: to_term(prefix(text, M.item(h, j, inside=True)))
        v = SV(z3.Const('v', U), 'any')

        def fam(I_, kk):
            kk = to_term(kk)
            need(I_, not I_.loopvars, 'the loop over the earlier keys')
            known(X, pre, m, kk)
            return z3.And(HAS(X), z3.Not(WAS(X, kk)))
        fam.where = 'entries.has'
        In.families['*'] = [fam]
        In.families_first = True
        try:
            with_nstr(lambda: V.method(t, '__setitem__', k, v))
        finally:
            del In.families['*']
            In.families_first = False
        known(X, pre, m, m)
        cur = to_term(prefix(text, acc))
        V.prove('the entry is stored under the current precision, those of the earlier ones are removed, no other is touched',
                data.get('has') == z3.Or(X == cur, z3.And(HAS(X), z3.Not(WAS(X, m)))))
        V.prove('with the value', data.get('value') == z3.If(X == cur, v.term, AT(X)))
        V.cover('done')
    def get(kind, with_default):
        t, k, where, X, data = parts(kind)
        d = SV(z3.Const('d', U), 'any')
        r = with_nstr(lambda: V.method(t, 'get', k, d) if with_default else V.method(t, 'get', k))
        if E.valid(HAS(where))[0]:
            V.prove('the entry of the oldest precision', M.embed(r) == AT(where))
        else:
            V.prove('the default when there is no entry', z3.And(z3.Not(HAS(where)), M.embed(r) == d.term if with_default else r is None))
        V.prove('nothing is changed', z3.And(data.get('has') == HAS(X), data.get('value') == AT(X)))
        V.cover('found' if E.valid(HAS(where))[0] else 'missing')

    def after_set(kind):
        """The state described by the contract of __setitem__: what was stored is found."""
        t, h, m, acc, X, data = table()
        k, text = a_key(kind)
        v = SV(z3.Const('v', U), 'any')
        cur = to_term(prefix(text, acc))
        H, A, OLD = z3.Function('HAS_1', S, B), z3.Function('AT_1', S, U), z3.Function('OLD', S, B)
        s_, q = z3.String('s'), z3.Int('q')
        it = to_term(M.item(h, q, inside=True))
        E.axioms += [z3.ForAll([s_], H(s_) == z3.Or(s_ == cur, z3.And(HAS(s_), z3.Not(OLD(s_)))), patterns=[H(s_)]),
                     z3.ForAll([s_], A(s_) == z3.If(s_ == cur, v.term, AT(s_)), patterns=[A(s_)]),
                     z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), OLD(to_term(prefix(text, it)))), patterns=[it])]
        t = VObj(t.cls, dict(t.attrs, __data__=Data(V, X, False, H, A)))
        V.prove('the table has the key', with_nstr(lambda: V.method(t, '__contains__', k)))
        V.prove('and gives the stored value', M.embed(with_nstr(lambda: V.method(t, '__getitem__', k))) == v.term)
        V.cover('done')

    def setdefault(given):
        """Over the contracts of the three operations it uses."""
        t, h, m, acc, X, data = table()
        k = V.str('key')
        here = V.bool('there is an entry')
        d = SV(z3.Const('d', U), 'any')
        found = SV(z3.Const('found', U), 'any')
        sets = []

        def same_key(I_, a):
            need(I_, a[0] is t and E.valid(to_term(a[1]) == k)[0], 'the given key')

        def contains(I_, a, kw):
            same_key(I_, a)
            return True if sets else here

        def getitem(I_, a, kw):
            same_key(I_, a)
            if sets:
                return sets[-1]
            if not I_.truth(here):
                I_.raise_('KeyError', k)
            return found

        def setitem(I_, a, kw):
            same_key(I_, a)
            sets.append(a[2])
        for q, f in (('__contains__', contains), ('__getitem__', getitem), ('__setitem__', setitem)):
            In.stubs[T + '.' + q] = f
        try:
            r = V.method(t, 'setdefault', k, d) if given else V.method(t, 'setdefault', k)
        finally:
            for q in ('__contains__', '__getitem__', '__setitem__'):
                del In.stubs[T + '.' + q]
        if E.valid(here)[0]:
            V.prove('an existing entry is kept', not sets)
            V.prove('and given', r is found)
        else:
            V.prove('the default is stored once', len(sets) == 1 and E.valid(z3.Not(here))[0])
            V.prove('and given', (sets[0] is d and r is d) if given else (sets[0] is None and r is None))
        V.cover('found' if E.valid(here)[0] else 'missing')

    def precision():
        In.module('decimal_hashtable')
        n, n2 = V.int('n'), V.int('n2')
        V.assume(z3.And(n > 0, n2 > 0))
        t = V.call(T, n)
        k = V.str('key')
        V.prove('a new table is empty', to_term(M.length(In.getattr(t, '__data__'))) == 0)
        r = M.concrete_or_none(V.method(t, '_manipulate_key', k))
        V.prove('no earlier precision', to_term(M.b_len(r[0])) == 0)
        want = lambda x: to_term(V.call(V.spec('digits', "def digits(text, n):\n    return text[:n + 2]\n"), k, x))
        V.prove('as many characters as digits, the point and the digit before it', to_term(r[1]) == want(n))
        V.method(t, 'update_accuracy', n2)
        r = M.concrete_or_none(V.method(t, '_manipulate_key', k))
        V.prove('the new precision', to_term(r[1]) == want(n2))
        old = M.concrete_or_none(r[0])
        V.prove('the earlier precision is remembered', z3.And(len(old) == 1, to_term(old[0]) == want(n)))
        t2, h, m, acc, X, data = table()
        V.method(t2, 'update_accuracy', n2)
        V.same('it is appended to the history', In.getattr(t2, 'accuracy_history'), V.call(V.spec(
            'app', 'def app(h, a):\n    return h + [a]\n'), h, acc))
        V.prove('no entry is changed', z3.And(data.get('has') == HAS(X), data.get('value') == AT(X)))
        V.cover('done')
    V.scope(T + ', precision', precision, [T + '.__init__', T + '.update_accuracy', T + '._manipulate_key'])
    V.expected_covers.append(T + ', precision: done')
    for given in (True, False):
        sc = T + '.setdefault' + ('' if given else ', no default')
        V.scope(sc, lambda given=given: setdefault(given), [T + '.setdefault'])
        V.expected_covers += [sc + ': found', sc + ': missing']
    for kind in ('text', 'number'):
        for given in (True, False):
            sc = '%s.get, %s%s' % (T, kind, '' if given else ', no default')
            V.scope(sc, lambda given=given, kind=kind: get(kind, given), [T + '.get', T + '.__getitem__', T + '.__contains__'])
            V.expected_covers += [sc + ': found', sc + ': missing']
        sc = '%s after storing, %s' % (T, kind)
        V.scope(sc, lambda kind=kind: after_set(kind), [T + '.__getitem__', T + '.__contains__'])
        V.expected_covers.append(sc + ': done')
    for kind in ('text', 'number'):
        for nm, f, f2, covers in (('_manipulate_key', keys, 'dec_to_str', ['done']), ('__contains__', contains, None, ['done']),
                                  ('__getitem__', getitem, None, ['found', 'missing']),
                                  ('__delitem__', delitem, None, ['found', 'missing']), ('__setitem__', setitem, None, ['done'])):
            sc = '%s.%s, %s' % (T, nm, kind)
            V.scope(sc, lambda f=f, kind=kind: f(kind), ['%s.%s' % (T, nm)] + ([Q + f2] if f2 else []))
            V.expected_covers += [sc + ': ' + c for c in covers]
    V.scope(T + '._manipulate_key, another value', other_key, [T + '._manipulate_key'])
    V.expected_covers.append(T + '._manipulate_key, another value: done')
