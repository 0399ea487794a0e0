"""C17: rational left-hand sides."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'multi-precision arithmetic is treated as real arithmetic (no rounding); a number is normal exactly when it is not zero',
    'sympy polynomials (parsing, ring operations, gcd, division, coefficients) behave as the algebra they implement; '
    'the engine lists each law used; a bounded run of the real sympy samples them (h17)',
    'coefficients and the added number are integers, the coefficient lists are nonempty and the denominator is not the '
    'zero polynomial; the target is a real number',
    'a quotient of coprime polynomials is constant exactly when the numerator is zero or both are constants']
Q = 'lhs_evaluators:RationalFuncEvaluator'


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    covers = V.expected_covers

    def same(a, b):
        return z3.BoolVal(True) if a.key == b.key else a.ev('generic') == b.ev('generic')

    def identity(name, P, Q1, k, P2, Q2, k2, point):
        V.prove(name, (P.ev(point) + to_real(k) * Q1.ev(point)) * Q2.ev(point) ==
                (P2.ev(point) + to_real(k2) * Q2.ev(point)) * Q1.ev(point))

    class World:
        def __init__(self, kind='list'):
            self.x = V.real('x')
            self.ps = Polys(V, self.x)
            self.p, self.P = self.ps.coefficients('p', kind)
            self.q, self.Q = self.ps.coefficients('q', kind)
            self.k = V.int('k')
            V.assume(self.Q.ev('generic') != 0)

        def params(self):
            return (self.p, self.q, self.k)

        def function(self, P, Q, k, point='generic'):
            return P.ev(point) / Q.ev(point) + to_real(k)

        def value(self, name, o, P, Q, k):
            """The value is that of the polynomials and the integer."""
            v = V.method(o, 'get_val')
            n, d = P.ev('target'), Q.ev('target')
            if isinstance(v, Special):
                V.prove(name + ': NaN', v is NAN)
                V.prove(name + ': NaN only if one of them is not normal', z3.Or(n == 0, d == 0))
                V.cover('NaN')
                return None
            V.prove(name + ': both are normal', z3.And(n != 0, d != 0))
            V.prove(name + ': the value is p(x)/q(x) + k', to_real(v) == n / d + to_real(k))
            V.cover('value')
            return v

        def wellformed(self, name, o):
            """The object invariant; returns the current polynomials and integer."""
            a = In.unpack(V.method(o, 'get_params'), 3)
            P, Q = self.ps.find(a[0]), self.ps.find(a[1])
            V.prove(name + ': the number is an integer', is_intlike(a[2]))
            v = self.value(name, o, P, Q, a[2])
            V.same(name + ': the target', V.method(o, 'get_target_const'), self.x)
            return P, Q, a[2], v

        def start(self, how):
            """An object in any state of its caches."""
            o = V.call(Q, self.params(), self.x)
            if how in ('cached', 'stale'):
                for n, P in (('numerator', self.P), ('denominator', self.Q)):
                    f = '_should_update_%s_p_symbolic' % n
                    if how == 'cached' and V.get(Q).lookup(n + '_p_symbolic') is not None:
                        In.getattr(o, n + '_p_symbolic')
                    elif how == 'stale' and f in o.attrs:
                        o.attrs[f] = True
                        o.attrs['_%s_p_symbolic' % n] = self.ps.atom('old ' + n, True)
            return o
    def afterwards(w, o, how, P, Qq, k):
        """The caches are not out of date: the canonical form is that of the current parameters."""
        if how == 'cached':
            V.method(o, 'canonalize_params')
            P2, Q2, k2, v = w.wellformed('canonical form afterwards', o)
            V.prove('canonical form afterwards: the denominator is not zero', Q2.ev('generic') != 0)
            identity('canonical form afterwards: the represented function', P, Qq, k, P2, Q2, k2, 'generic')
    STATES = ('new', 'cached', 'stale')

    for kind in ('list', 'tuple'):
        def create(kind=kind):
            w = World(kind)
            o = V.call(Q, w.params(), w.x)
            P, Qq, k, _ = w.wellformed('new object', o)
            V.prove('the parameters are the given ones', P is w.P and Qq is w.Q)
            V.prove('the integer is the given one', M.eq(k, w.k))
        n = Q + '.__init__ (%ss)' % kind
        V.scope(n, create, [Q + '.__init__', Q + '.reinit_params', Q + '._calc_val'])
        covers += [n + ': value', n + ': NaN']

    def flip(how):
        w = World()
        o = w.start(how)
        old = o.attrs.get('val')
        V.method(o, 'flip_sign')
        P, Qq, k, v = w.wellformed('flipped', o)
        V.prove('the function is negated', w.function(P, Qq, k) == -w.function(w.P, w.Q, w.k))
        if v is not None:
            V.prove('the value is negated', to_real(v) == -w.function(w.P, w.Q, w.k, 'target'))
        afterwards(w, o, how, P, Qq, k)

    def shift(how):
        w = World()
        o = w.start(how)
        n = V.int('n')
        V.method(o, 'add_int', n)
        P, Qq, k, v = w.wellformed('shifted', o)
        V.prove('n is added to the function', w.function(P, Qq, k) == w.function(w.P, w.Q, w.k) + to_real(n))
        if v is not None:
            V.prove('n is added to the value', to_real(v) == w.function(w.P, w.Q, w.k, 'target') + to_real(n))
        afterwards(w, o, how, P, Qq, k)

    def reinit(how):
        w = World()
        o = w.start(how)
        p2, P2 = w.ps.coefficients('p2', 'list')
        q2, Q2 = w.ps.coefficients('q2', 'list')
        V.assume(Q2.ev('generic') != 0)
        V.method(o, 'reinit_params', (p2, q2, V.int('k2')))
        P, Qq, k, v = w.wellformed('reinitialized', o)
        V.prove('the parameters are the given ones', z3.And(P is P2, Qq is Q2, M.eq(k, V.int('k2'))))
        afterwards(w, o, how, P, Qq, k)
    for nm, f in (('flip_sign', flip), ('add_int', shift), ('reinit_params', reinit)):
        for how in STATES:
            n = '%s.%s (%s object)' % (Q, nm, how)
            V.scope(n, lambda f=f, how=how: f(how), [Q + '.' + nm, Q + '.update_params', Q + '._calc_val'])
            covers += [n + ': value', n + ': NaN']

    def same_function(w, name, P, Qq, k):
        V.prove(name + ': the denominator is not zero', Qq.ev('generic') != 0)
        identity(name + ': the represented function', w.P, w.Q, w.k, P, Qq, k, 'generic')

    def canonical(w, name, P, Qq):
        V.prove(name + ': no common factor', w.ps.gcd(P, Qq) is w.ps.one)
        c = w.ps.div(P, Qq, True)[0].ev('zero')
        V.prove(name + ': the constant coefficient of the quotient is in (-1, 0]', z3.And(c > -1, c <= 0))

    def canon(how):
        w = World()
        o = w.start(how)
        V.method(o, 'canonalize_params')
        P, Qq, k, v = w.wellformed('canonical form', o)
        same_function(w, 'canonical form', P, Qq, k)
        canonical(w, 'canonical form', P, Qq)
        if v is not None:
            n, d = w.P.ev('target'), w.Q.ev('target')
            if In.truth(z3.And(n != 0, d != 0)):
                identity('the value (cross-multiplied)', w.P, w.Q, w.k, P, Qq, k, 'target')
                V.cover('value kept')
        V.method(o, 'canonalize_params')
        P2, Q2, k2, v2 = w.wellformed('repeated', o)
        V.prove('repeating it keeps the numerator', same(P2, P))
        V.prove('repeating it keeps the denominator', same(Q2, Qq))
        V.prove('repeating it keeps the integer', M.eq(k2, k))
        if v is None:
            V.prove('repeating it keeps NaN', v2 is None)
        else:
            V.prove('repeating it keeps the value', V.eq(v2, v))
    for how in STATES:
        n = '%s.canonalize_params (%s object)' % (Q, how)
        V.scope(n, lambda how=how: canon(how), [Q + '.canonalize_params', Q + '.numerator_p_symbolic', Q + '.denominator_p_symbolic',
                                                'lhs_evaluators:poly2sympoly', 'lhs_evaluators:sympoly2poly'])
        covers += [n + ': value', n + ': NaN', n + ': value kept']

    def degenerate(how):
        w = World()
        o = w.start(how)
        r = In.truth(V.method(o, 'is_degenerate'))
        P, Qq, k, v = w.wellformed('after the test', o)
        same_function(w, 'after the test', P, Qq, k)
        V.prove('no common factor', w.ps.gcd(P, Qq) is w.ps.one)
        n, d = (to_term(M.length(w.ps.all_coeffs(t))) for t in (P, Qq))
        const = z3.Or(P.ev('generic') == 0, z3.And(n == 1, d == 1))
        V.prove('degenerate exactly when the function is constant', const if r else z3.Not(const))
        V.cover('degenerate' if r else 'not degenerate')
    for how in STATES:
        n = '%s.is_degenerate (%s object)' % (Q, how)
        V.scope(n, lambda how=how: degenerate(how), [Q + '.is_degenerate'])
        covers += [n + ': degenerate', n + ': not degenerate']

    def copy(how, op):
        w = World()
        o = w.start(how)
        c = V.call(Q, o)
        V.prove('another object', c is not o)
        P, Qq, k, v = w.wellformed('copy', c)
        V.prove('the copy has the same parameters', z3.And(same(P, w.P), same(Qq, w.Q), M.eq(k, w.k)))
        args = [V.int('n')] if op == 'add_int' else []
        V.method(c, op, *args)
        P, Qq, k, v = w.wellformed('original after changing the copy', o)
        V.prove('the original keeps its parameters', z3.And(same(P, w.P), same(Qq, w.Q), M.eq(k, w.k)))
        V.method(o, op, *args)
        c = V.call(Q, o)
        a, b = w.wellformed('changed', o), w.wellformed('copy of a changed object', c)
        V.prove('the copy of a changed object', z3.And(same(a[0], b[0]), same(a[1], b[1]), M.eq(a[2], b[2])))
        V.method(o, op, *args)
        a = w.wellformed('copy after changing the original', c)
        V.prove('the copy keeps its parameters', z3.And(same(a[0], b[0]), same(a[1], b[1]), M.eq(a[2], b[2])))
    for how in ('new', 'cached'):
        for op in ('flip_sign', 'add_int', 'canonalize_params'):
            n = '%s copy (%s object, %s)' % (Q, how, op)
            V.scope(n, lambda how=how, op=op: copy(how, op), [Q + '.__init__'])
            covers += [n + ': value', n + ': NaN']

    def value_of_poly():
        In.stubs.pop('utils:MathOperations.subs_in_polynom', None)
        c, x = V.list('c', 'int'), V.real('x')
        V.same('the sum of c_j*x**j', V.call('utils:MathOperations.subs_in_polynom', c, x), V.call(total, c, x))
        V.cover('done')
    total = V.spec('total', 'def total(c, x):\n    s = 0\n    for j in range(len(c)):\n        s = s + c[j] * x ** j\n    return s\n')
    n = 'utils:MathOperations.subs_in_polynom'
    V.scope(n, value_of_poly, [n])
    covers.append(n + ': done')

    def negation():
        # by induction on the number of coefficients
        a, b, s, t, y = (V.real(v) for v in 'abcde')
        V.assume(z3.And(a == -b, s == t * y))
        V.prove('no coefficients', z3.RealVal(0) == -z3.RealVal(0))
        V.prove('one more coefficient', a + (-t) * y == -(b + t * y))
        V.cover('done')
    n = 'lemma: negated coefficients have the negated value'
    V.scope(n, negation)
    covers.append(n + ': done')
