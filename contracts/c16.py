"""C16: linear-fractional (ULCD) left-hand sides."""
import z3
from pyvc.values import *

ASSUMPTIONS = ['multi-precision arithmetic is treated as real arithmetic (no rounding)',
               'parameters are numbers with l, d nonzero, the target is a nonzero real number']
Q = 'lhs_evaluators:ULCDEvaluator'


def run(V):
    E, M = V.E, V.M

    def params(sfx='', kind='int'):
        mk = V.int if kind == 'int' else V.real
        u, l, c, d = (mk(n + sfx) for n in 'ulcd')
        V.assume(z3.And(l != 0, d != 0))
        return u, l, c, d

    def target():
        x = V.real('x')
        V.assume(x != 0)
        return x

    def value(p, x):
        u, l, c, d = (to_real(t) for t in p)
        return (u / x + x / l + c) / d

    def wellformed(name, o, x):
        """The object invariant: the value is that of the current parameters."""
        p = V.I.unpack(V.method(o, 'get_params'), 4)
        V.prove(name + ': value of the current parameters', V.eq(V.method(o, 'get_val'), value(p, x)))
        V.same(name + ': target', V.method(o, 'get_target_const'), x)
        return p

    for kind in ('int', 'real'):
        def create(kind=kind):
            p, x = params('', kind), target()
            o = V.call(Q, p, x)
            q = wellformed('new object', o, x)
            V.same('parameters', tuple(q), p)
            V.prove('value', V.eq(V.method(o, 'get_val'), value(p, x)))
            V.cover('created')
        V.scope('%s.__init__ (%s parameters)' % (Q, kind), create, [Q + '.__init__', Q + '.reinit_params'])

    def arbitrary(kind='int'):
        """Any object with the invariant."""
        p, x = params('', kind), target()
        return V.new(Q, params=p, target_constant=x, val=value(p, x)), p, x

    def copy():
        o, p, x = arbitrary()
        c = V.call(Q, o)
        V.prove('another object', c is not o)
        q = wellformed('copy', c, x)
        V.same('parameters of the copy', tuple(q), p)
        V.prove('value of the copy', V.eq(V.method(c, 'get_val'), V.method(o, 'get_val')))
        V.method(c, 'flip_sign')
        q = wellformed('original after changing the copy', o, x)
        V.same('parameters of the original', tuple(q), p)
        n = V.int('n')
        V.method(c, 'add_int', n)
        q = wellformed('original after shifting the copy', o, x)
        V.same('parameters of the original after shifting', tuple(q), p)
        V.method(o, 'flip_sign')
        v = V.method(c, 'get_val')
        V.prove('copy unaffected by the original', V.eq(v, -value(p, x) + to_real(n)))
    V.scope(Q + ' copy', copy, [Q + '.__init__'])

    def flip():
        o, p, x = arbitrary()
        before = to_real(V.method(o, 'get_val'))
        V.method(o, 'flip_sign')
        q = wellformed('flipped', o, x)
        V.prove('value negated', V.eq(V.method(o, 'get_val'), -before))
        V.prove('l and d stay nonzero', z3.And(to_term(q[1]) != 0, to_term(q[3]) != 0))
        V.cover('flipped')
    V.scope(Q + '.flip_sign', flip, [Q + '.flip_sign'])

    def shift():
        o, p, x = arbitrary()
        before = to_real(V.method(o, 'get_val'))
        n = V.int('n')
        V.method(o, 'add_int', n)
        q = wellformed('shifted', o, x)
        V.prove('n is added to the value', V.eq(V.method(o, 'get_val'), before + to_real(n)))
        V.prove('l and d stay nonzero', z3.And(to_term(q[1]) != 0, to_term(q[3]) != 0))
        V.cover('shifted')
    V.scope(Q + '.add_int', shift, [Q + '.add_int'])

    def reinit():
        o, p, x = arbitrary()
        p2 = params('_new')
        V.method(o, 'reinit_params', p2)
        q = wellformed('reinitialized', o, x)
        V.same('parameters', tuple(q), p2)
    V.scope(Q + '.reinit_params', reinit, [Q + '.reinit_params'])

    def equiv():
        tt = ('seq', 'int', 'tuple')
        a1, b1, a2, b2 = (V.seq(n, tt, 'tuple') for n in ('a1', 'b1', 'a2', 'b2'))
        x = target()
        o1 = V.new(Q, params=params('1'), target_constant=x, val=V.real('v1'))
        o2 = V.new(Q, params=params('2'), target_constant=x, val=V.real('v2'))
        f1, f2 = V.int('f1'), V.int('f2')
        r = V.I.call(V.I.getattr(V.get(Q), 'is_equiv'), [((a1, b1), o1, f1, None), ((a2, b2), o2, f2, None)])
        if not V.I.truth(r):
            return
        V.cover('declared equivalent')
        V.prove('equal numerators', V.eq(b1, b2))
        p1, p2 = o1.attrs['params'], o2.attrs['params']
        if V.I.truth(z3.Or(f1 != 0, f2 != 0)):
            V.prove('identical denominators (post-processing function involved)', V.eq(a1, a2))
            V.prove('the same post-processing function', f1 == f2)
            V.prove('identical parameters', z3.And(*[to_term(s) == to_term(t) for s, t in zip(p1, p2)]))
            V.cover('declared equivalent with a post-processing function')
            return
        eq = M.eq(a1, a2)
        neg = M.eq(a1, V.call(negated, a2))
        V.prove('denominators equal up to a global sign', z3.Or(to_bool_term(eq), to_bool_term(neg)))
        y = V.real('y')
        V.assume(y != 0)
        v1, v2 = value(p1, y), value(p2, y)
        same_abs(V, p1, p2, y, v1, v2)
        V.cover('declared equivalent without one')
    negated = V.spec('negated', 'def negated(p):\n    return tuple(tuple(-k for k in q) for q in p)\n')
    V.scope(Q + '.is_equiv', equiv, [Q + '.is_equiv'])

    def other_family():
        o1 = V.new(Q, params=params('1'), target_constant=V.real('x'), val=V.real('v1'))
        o2 = V.new('lhs_evaluators:RationalFuncEvaluator', params=None)
        r = V.I.call(V.I.getattr(V.get(Q), 'is_equiv'), [(((), ()), o1, V.int('f1'), None), (((), ()), o2, V.int('f2'), None)])
        V.prove('families differ', V.eq(r, False))
    V.scope('lemma: proportional parameters', lambda: lemma(V))
    V.scope(Q + '.is_equiv against another family', other_family)
    V.expected_covers = [Q + '.is_equiv: declared equivalent with a post-processing function',
                         Q + '.is_equiv: declared equivalent without one', Q + '.flip_sign: flipped', Q + '.add_int: shifted']


def ratio(p, q, s):
    """The parameters are proportional (up to the sign s) after division by |d|."""
    (u1, l1, c1, d1), (u2, l2, c2, d2) = [[to_term(t) for t in r] for r in (p, q)]
    e1, e2 = z3.If(d1 >= 0, d1, -d1), z3.If(d2 >= 0, d2, -d2)
    return u1 * e2 == s * u2 * e1, l1 * e1 == s * l2 * e2, c1 * e2 == s * c2 * e1


def lemma(V):
    """Proportional parameters give the same value up to the sign."""
    for s in (1, -1):
        U1, L1, C1, D1, U2, L2, C2, D2, y = z3.Reals('U1 L1 C1 D1 U2 L2 C2 D2 y')
        a1, a2, p1, p2, w1, w2 = z3.Reals('a1 a2 p1 p2 w1 w2')
        V.assume(z3.And(y != 0, L1 != 0, L2 != 0, D1 > 0, D2 > 0))
        hyp = [U1 * D2 == s * U2 * D1, L1 * D1 == s * L2 * D2, C1 * D2 == s * C2 * D1]

        def step(name, hyps, goal):
            E = V.E
            ok, backend, detail = E.valid(goal, facts=E.ctx.facts + hyps)
            (E.ok(name, backend) if ok else E.fail(name, detail))
        z = z3.Real('z')
        step('no zero divisors', [z * y == 0], z == 0)
        h = a1 * D2 - s * a2 * D1
        step('u terms, times x (sign %d)' % s, [hyp[0], a1 * y == U1, a2 * y == U2, a1 * y * D2 == U1 * D2, a2 * y * D1 == U2 * D1],
             h * y == 0)
        h = p1 * D2 - s * p2 * D1
        step('l terms, times l (sign %d)' % s,
             [hyp[1], p1 * L1 * D2 == y * D2, p2 * L2 * D2 == y * D2, p2 * (L1 * D1) == p2 * (s * L2 * D2)], h * L1 == 0)
        step('sum (sign %d)' % s, [a1 * D2 - s * a2 * D1 == 0, p1 * D2 - s * p2 * D1 == 0, hyp[2]],
             (a1 + p1 + C1) * D2 == s * (a2 + p2 + C2) * D1)
        step('division by |d| (sign %d)' % s, [w1 * D2 == s * w2 * D1, a1 * D1 == w1, a2 * D2 == w2,
                                              (a1 * D1) * D2 == w1 * D2, (a2 * D2) * D1 == w2 * D1],
             (a1 - s * a2) * (D1 * D2) == 0)


def same_abs(V, p1, p2, y, v1, v2):
    """The proportionality is what the path established; the conclusion is the lemma."""
    for s in (1, -1):
        if all(V.E.valid(f)[0] for f in ratio(p1, p2, s)):
            for f in ratio(p1, p2, s):
                V.prove('proportional parameters', f)
            V.E.ok('equal absolute values for every target', 'lemma: proportional parameters')
            return
    V.prove('equal absolute values for every target', z3.Or(v1 == v2, v1 == -v2))
