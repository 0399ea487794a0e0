"""C05: gcd and substitution in a polynomial."""
import z3
from pyvc.values import *
from pyvc.interp import tb

ASSUMPTIONS = ['Python integers are mathematical integers; a % b has the sign of b (language reference)']

DV = z3.Function('DIVIDES', I, I, B)            # d divides n
CD = z3.Function('COMMON', I, I, z3.ArraySort(I, B))   # set of common divisors


def pymod(x, y):
    return z3.If(y > 0, x % y, -((-x) % (-y)))


def run(V):
    E = V.E

    def lemmas():
        d, a, b, q, m, n = z3.Ints('d a b q m n')
        r = pymod(a, b)
        V.prove('linear closure: d|x and d|y imply d|x-q*y', z3.Implies(z3.And(a == d * m, b == d * n), a - q * b == d * (m - q * n)))
        V.prove('linear closure: d|x and d|y imply d|x+q*y', z3.Implies(z3.And(a == d * m, b == d * n), a + q * b == d * (m + q * n)))
        V.prove('n is a divisor of n and of 0', z3.And(a == a * 1, z3.IntVal(0) == a * 0))
        fl = z3.If(b > 0, a / b, (-a) / (-b))
        V.prove('a mod b = a - b*floor(a/b)', z3.Implies(b != 0, r == a - b * fl))
        V.prove('a mod b lies between 0 and b', z3.Implies(b != 0, z3.If(b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b))))
    V.scope('divisibility lemmas', lemmas)

    # consequences of the lemmas, over DV(d, n) := exists m. n = d*m
    d, a, b = z3.Ints('_d _a _b')
    closure = [
        z3.ForAll([a, b], z3.Implies(b != 0, CD(a, b) == CD(b, pymod(a, b))), patterns=[CD(a, b)]),
        z3.ForAll([a, b, d], z3.Select(CD(a, b), d) == z3.And(DV(d, a), DV(d, b)), patterns=[z3.Select(CD(a, b), d)]),
    ]

    def sets():
        # the step equation, from linear closure
        x, y, e, q, r = z3.Ints('x y e q r')
        V.assume(r == x - q * y)
        V.assume(z3.Implies(z3.And(DV(e, x), DV(e, y)), DV(e, x - q * y)))
        V.assume(z3.Implies(z3.And(DV(e, r), DV(e, y)), DV(e, r + q * y)))
        V.assume(r + q * y == x)
        V.prove('common divisors of (x, y) are those of (y, x - q*y)', z3.And(DV(e, x), DV(e, y)) == z3.And(DV(e, y), DV(e, r)))
    V.scope('step lemma', sets)

    def inv(I_, ent, cur):
        (a0, b0), (a1, b1) = ent, cur
        return [CD(a1, b1) == CD(a0, b0),
                z3.Implies(b0 == 0, z3.And(b1 == 0, a1 == a0)),
                z3.Implies(z3.And(b0 > 0, b1 != 0), b1 > 0), z3.Implies(z3.And(b0 < 0, b1 != 0), b1 < 0),
                z3.Implies(z3.And(b0 > 0, b1 == 0), a1 > 0), z3.Implies(z3.And(b0 < 0, b1 == 0), a1 < 0)]

    def variant(I_, cur):
        return z3.If(cur[1] >= 0, cur[1], -cur[1])
    V.I.relations['utils:MathOperations.gcd'] = [(('a', 'b'), inv, variant)]

    def gcd():
        E.ctx.facts += closure
        for f in closure:
            E.ctx.solver.add(f)
        x, y = V.int('A'), V.int('B')
        g = V.call(V.I.getattr(V.get('utils:MathOperations'), 'gcd'), x, y)
        V.cover('gcd returns')
        g = to_term(g)
        V.assume(DV(g, g))
        V.assume(z3.ForAll([d], DV(d, z3.IntVal(0))))
        e = V.int('E')
        for t in (CD(x, y), CD(g, z3.IntVal(0))):
            for w in (e, g):
                p, q = (x, y) if t.eq(CD(x, y)) else (g, z3.IntVal(0))
                V.assume(z3.Select(t, w) == z3.And(DV(w, p), DV(w, q)))
        V.prove('the result divides both arguments', z3.And(DV(g, x), DV(g, y)))
        V.prove('every common divisor divides the result', z3.Implies(z3.And(DV(e, x), DV(e, y)), DV(e, g)))
        V.prove('the result has the sign of b unless b is zero', z3.And(z3.Implies(y > 0, g > 0), z3.Implies(y < 0, g < 0),
                                                                        z3.Implies(y == 0, g == x)))
    V.scope('utils:MathOperations.gcd', gcd, ['utils:MathOperations.gcd'])
    V.expected_covers = ['utils:MathOperations.gcd: gcd returns']

    for kind, x in (('int', z3.Int('x')), ('real', z3.Real('x'))):
        for cshape in ('int', 'real'):
            def subs(x=x, cshape=cshape):
                cs = V.list('C', cshape)
                r = V.call(V.I.getattr(V.get('utils:MathOperations'), 'subs_in_polynom'), cs, x)
                n = V.M.length(cs)
                i = V.E.int('i')
                c = V.M.item(cs, i, inside=True)
                ints = c.is_int() and x.is_int()
                p = POWI(x, i) if x.is_int() else POWR(x, i)
                if ints:
                    want = SUMI(z3.Lambda([i], c * p), to_term(n))
                else:
                    want = SUMR(z3.Lambda([i], to_real(c) * to_real(p)), to_term(n))
                V.prove('value is the sum of c_j * x**j', V.M.eq(r, want))
            V.scope('utils:MathOperations.subs_in_polynom (%s coefficients, %s x)' % (cshape, kind), subs)

    def empty():
        V.prove('empty list gives 0', V.M.eq(V.call(V.I.getattr(V.get('utils:MathOperations'), 'subs_in_polynom'),
                                                   VList([]), z3.Int('x')), 0))
        a0, a1, a2 = z3.Ints('a0 a1 a2')
        x = z3.Int('x')
        r = V.call(V.I.getattr(V.get('utils:MathOperations'), 'subs_in_polynom'), VList([a0, a1, a2]), x)
        V.prove('three coefficients', to_term(r) == a0 + a1 * x + a2 * x * x)
    V.scope('subs_in_polynom on concrete lengths', empty)
