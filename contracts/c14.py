"""C14: filtering duplicate matches."""
import z3
from pyvc.values import *

ASSUMPTIONS = ['is_equiv of a left-hand side is a function of the two matches without side effects (an arbitrary relation; '
               'C16 and C18 say which)', 'progressbar.progressbar(x) iterates over x unchanged']
Q = 'enum_params:MITM.filter_uniq_params'
EQ = z3.Function('EQUIV', U, U, B)
KEEP = z3.Function('KEEP', I, B)


def matches(V, name='matches'):
    """A list of matches (ab, lhs, function index, convergence info) of arbitrary length."""
    def lhs(o, nm):
        if nm == 'is_equiv':
            return Native('is_equiv', lambda I_, a, k: EQ(V.M.embed(a[0]), V.M.embed(a[1])))
        return None
    V.M.handlers['lhs'] = lhs
    return V.list(name, ('tup', ('any', ('obj', 'lhs'), 'int', 'any')))


def run(V):
    E, M = V.E, V.M

    def setup():
        ms = matches(V)
        n = to_term(M.length(ms))
        o = V.new('enum_params:MITM', filtered_params=ms)
        item = lambda i: M.item(ms, i, inside=True)
        eq = lambda i, j: EQ(M.embed(item(i)), M.embed(item(j)))
        return ms, n, o, item, eq

    def first():
        ms, n, o, item, eq = setup()
        before = VList(parts=list(ms.parts))
        i, j, k = z3.Ints('i_ j_ k_')
        # definition of the kept positions, by course-of-values recursion
        V.define(z3.ForAll([k], KEEP(k) == z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, KEEP(j), eq(j, k)))),
                           patterns=[KEEP(k)]))
        t = E.int('t')
        kept = lambda upto: VList(parts=[Flat(to_term(upto), t, [Cond([(KEEP(t), [Items([item(t)])]), (z3.Not(KEEP(t)), [])])])])
        V.I.families['*'] = [lambda I_, kk: kept(kk)]
        r = V.method(o, 'filter_uniq_params')
        V.prove('returns nothing', r is None)
        V.same('the remaining matches are the kept ones in order', o.attrs['filtered_params'], kept(n))
        V.same('the input list is unchanged', ms, before)
        V.cover('filtered')
        # consequences
        a, b = V.int('a'), V.int('b')
        V.assume(z3.And(a >= 0, a < b, b < n))
        V.prove('no two kept matches are equivalent', z3.Not(z3.And(KEEP(a), KEEP(b), eq(a, b))))
        V.prove('a dropped match has an equivalent kept one before it',
                z3.Implies(z3.Not(KEEP(b)), z3.Exists([j], z3.And(j >= 0, j < b, KEEP(j), eq(j, b)))))
        V.I.families.clear()
    V.scope(Q, first, [Q])

    def again():
        ms, n, o, item, eq = setup()
        i, j = z3.Ints('i_ j_')
        V.define(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(eq(i, j)))))
        t = E.int('t')
        V.I.families['*'] = [lambda I_, kk: VList(parts=[SSeq(to_term(kk), t, [(True, item(t))])])]
        before = VList(parts=list(ms.parts))
        V.method(o, 'filter_uniq_params')
        V.same('a list without equivalent matches stays as it is', o.attrs['filtered_params'], before)
        V.cover('filtered again')
        V.I.families.clear()
    V.scope(Q + ' (filtering again)', again, [Q])
    V.expected_covers = [Q + ': filtered', Q + ' (filtering again): filtered again']
