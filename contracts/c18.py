"""C18: equivalence of rational matches."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'multi-precision arithmetic is treated as real arithmetic (no rounding); a number is normal exactly when it is not zero',
    'bringing an evaluator to canonical form keeps its function and is determined by its parameters (C17)',
    'sympy polynomials (parsing, ring operations, gcd, division, coefficients) behave as the algebra they implement; '
    'the engine lists each law used; a bounded run of the real sympy samples them (h18)',
    'coefficients and the added number are integers, the coefficient lists are nonempty, the denominator is not the '
    'zero polynomial and the represented function is not zero',
    'post-processing functions 2i and 2i+1 are reciprocal to each other (C24)']
Q = 'lhs_evaluators:RationalFuncEvaluator'


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    covers = V.expected_covers
    negated = V.spec('negated', 'def negated(p):\n    return tuple(tuple(-k for k in q) for q in p)\n')
    KINDS = z3.Function('EQUIV_RESULT', I, B)

    def setup():
        x = V.real('x')
        ps = Polys(V, x)
        canonical = {}

        def canon(I_, a, k):
            # C17: the same function with coprime polynomials, determined by the parameters
            o = a[0]
            p, q, m = In.unpack(V.method(o, 'get_params'), 3)
            P, Qq = ps.find(p), ps.find(q)
            key = (P.key, Qq.key, str(m))
            if key in canonical.values():
                return
            if key not in canonical:
                i = len(canonical)
                n, N = ps.coefficients('n%d' % i, 'list')
                d, D = ps.coefficients('d%d' % i, 'list')
                c = V.int('c%d' % i)
                V.assume(z3.And(D.ev('generic') != 0, N.ev('generic') + to_real(c) * D.ev('generic') != 0))
                canonical[key] = (N.key, D.key, str(c))
                forms[canonical[key]] = (n, d, c, N, D)
                origin[(P.key, Qq.key, str(m))] = canonical[key]
            n, d, c = forms[canonical[key]][:3]
            V.method(o, 'reinit_params', (n, d, c))
        forms, origin = {}, {}
        ps.forms, ps.canonical = forms, canonical
        In.stubs[Q + '.canonalize_params'] = canon
        # the values play no role
        v = V.real('some value')
        V.assume(v != 0)
        In.stubs['utils:MathOperations.subs_in_polynom'] = lambda I_, a, k: v
        return ps

    def lhs(ps, sfx):
        p, P = ps.coefficients('p' + sfx, 'list')
        q, Qq = ps.coefficients('q' + sfx, 'list')
        k = V.int('k' + sfx)
        V.assume(Qq.ev('generic') != 0)
        o = V.call(Q, (p, q, k), ps.x)
        o2 = V.call(Q, (p, q, k), ps.x)
        V.method(o2, 'canonalize_params')
        n, d, c = forms = In.unpack(V.method(o2, 'get_params'), 3)
        n, d = ps.find(n), ps.find(d)
        return o, (n.vbinop(In, 'Add', d.vbinop(In, 'Mult', c)), d), c

    def ab(sfx):
        t = ('seq', 'int', 'tuple')
        return V.seq('a' + sfx, t, 'tuple'), V.seq('b' + sfx, t, 'tuple')

    def equiv(m1, m2):
        return In.call(In.getattr(V.get(Q), 'is_equiv'), [m1, m2])

    def sound(known):
        ps = setup()
        o1, f1, c1 = lhs(ps, '1')
        o2, f2, c2 = lhs(ps, '2')
        (a1, b1), (a2, b2) = ab('1'), ab('2')
        i, j = V.int('i'), V.int('j')
        n = len(V.get('postprocfuncs:POSTPROC_FUNCS').concrete())
        V.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        r = equiv(((a1, b1), o1, i, None), ((a2, b2), o2, j, ('exp', (2, 1))))
        if not In.truth(r):
            V.cover('not declared equivalent')
            return
        V.prove('equal numerator polynomials', V.eq(b1, b2))
        V.prove('denominator polynomials equal up to one sign',
                z3.Or(to_bool_term(M.eq(a1, a2)), to_bool_term(M.eq(a1, V.call(negated, a2)))))
        rec = z3.And(i != j, i / 2 == j / 2)
        V.prove('the post-processing functions are the same or reciprocal', z3.Or(i == j, rec))
        same = In.truth(i == j)
        g = f2 if same else (f2[1], f2[0])
        V.cover('declared equivalent' + ('' if same else ' to a reciprocal'))
        # an integer m with f1 - g == m (as functions: at a transcendental point)
        qs = [0] + [ps.at_zero(t) for t in ps.quotients]
        (n1, d1), (n2, d2) = [(t[0].ev('generic'), t[1].ev('generic')) for t in (f1, g)]
        for s in qs:
            for t in qs:
                for m in (c1 - (c2 if same else 0) + s - t,):
                    if E.valid(n1 * d2 == (n2 + to_real(m) * d2) * d1)[0]:
                        V.prove('the functions differ by an integer', n1 * d2 == (n2 + to_real(m) * d2) * d1)
                        return
        V.prove('the functions differ by an integer', False)
    n = Q + '.is_equiv'
    V.scope(n, lambda: sound(None), [n, Q + '.canonalize_params'])
    covers += [n + c for c in (': not declared equivalent', ': declared equivalent', ': declared equivalent to a reciprocal')]

    def itself(copy):
        ps = setup()
        o1, f1, c1 = lhs(ps, '1')
        o2 = V.call(Q, o1) if copy else o1
        x = ab('1')
        i = V.int('i')
        n = len(V.get('postprocfuncs:POSTPROC_FUNCS').concrete())
        V.assume(z3.And(i >= 0, i < n))
        V.prove('equivalent to itself', equiv((x, o1, i, None), (x, o2, i, None)))
        V.cover('done')
    for copy in (False, True):
        n = Q + '.is_equiv of a match and %s' % ('an equal one' if copy else 'itself')
        V.scope(n, lambda copy=copy: itself(copy), [Q + '.is_equiv'])
        covers.append(n + ': done')

    def other(first):
        ps = setup()
        o1, f1, c1 = lhs(ps, '1')
        u = [V.int(c) for c in 'ulcd']
        V.assume(z3.And(u[1] != 0, u[3] != 0, ps.x != 0))
        o2 = V.call('lhs_evaluators:ULCDEvaluator', tuple(u), ps.x)
        m1, m2 = (ab('1'), o1, V.int('i'), None), (ab('2'), o2, V.int('j'), None)
        if first:
            m1, m2 = m2, m1
        for c in ('RationalFuncEvaluator', 'ULCDEvaluator'):
            r = In.call(In.getattr(V.get('lhs_evaluators:' + c), 'is_equiv'), [m1, m2])
            V.prove('different families are not equivalent for ' + c, neg(to_bool_term(In.truth_term(r))))
        V.cover('done')
    for first in (False, True):
        n = 'families, %s first' % ('ULCD' if first else 'rational')
        V.scope(n, lambda first=first: other(first), [Q + '.is_equiv', 'lhs_evaluators:ULCDEvaluator.is_equiv'])
        covers.append(n + ': done')


def neg(t):
    return z3.Not(t) if is_term(t) else z3.BoolVal(not t)
