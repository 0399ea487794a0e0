"""C07: the polynomials of the indexed, sparse and plain families."""
import z3
from pyvc.values import *
from pyvc.contractlib import *
from pyvc.compare import same

ASSUMPTIONS = ['scipy.special.binom(n, k) is the exact binomial coefficient (exact in double arithmetic up to degree 50)',
               'binomial theorem: the coefficient of x^j in (x + i)^n is binom(n, j) i^(n-j)',
               'Python integers are mathematical integers']
Q = 'enum_poly_params:'
BINOM = z3.Function('BINOM', I, I, I)
COEF = z3.Function('COEF', I, I, I, I)       # (polynomial, power, number of parameters added so far)


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    In.module('enum_poly_params').ns['binom'] = Native('binom', lambda I_, a, k: z3.ToReal(BINOM(to_term(a[0]), to_term(a[1]))))

    def indexed():
        ps = V.seq('ps', POLY)
        side = V.str('side')
        par = lambda m: M.item(ps, m, inside=True)
        size = lambda m: to_term(M.b_len(par(m)))
        t = z3.Int('t?')

        def term(m, j, i):
            return to_term(M.item(par(m), i, inside=True)) * BINOM(size(m) - 1, j) * POWI(i, size(m) - 1 - j)

        def unfold(m, i):
            V.define(z3.ForAll([t], COEF(m, t, 0) == 0, patterns=[COEF(m, t, 0)]))
            V.define(z3.ForAll([t], COEF(m, t, i + 1) == COEF(m, t, i) + term(m, t, i), patterns=[COEF(m, t, i + 1)]))

        def outer(I_, k):
            vs = [v for v in I_.loopvars if not (is_term(k) and v.eq(to_term(k)))]
            if len(vs) != 1:
                return None
            m, k = vs[0], to_term(k)
            unfold(m, k)
            return VList(parts=[SSeq(size(m), t, [(True, COEF(m, t, k))])])

        def inner(I_, k):
            vs = [v for v in I_.loopvars if not (is_term(k) and v.eq(to_term(k)))]
            if len(vs) != 2:
                return None
            (m, i), k = vs, to_term(k)
            unfold(m, i)
            return VList(parts=[SSeq(size(m), t, [(True, z3.If(t < k, COEF(m, t, i + 1), COEF(m, t, i)))])])
        In.families['*'] = [inner, outer]
        cls = V.get(Q + 'IndexedParameterEnumPolyParams')
        r = V.call(V.spec('all_of', 'def all_of(g):\n    return [x for x in g]\n'), V.method(cls, 'manipulate_poly', ps, side))
        V.prove('one version', to_term(M.b_len(r)) == 1)
        r = M.item(r, 0, inside=True)
        V.prove('as many polynomials', to_term(M.b_len(r)) == to_term(M.b_len(ps)))
        m, j = V.int('m'), V.int('j')
        V.assume(z3.And(m >= 0, m < to_term(M.b_len(ps)), j >= 0, j < size(m)))
        p = M.item(r, m, inside=True)
        V.prove('as many coefficients as parameters', to_term(M.b_len(p)) == size(m))
        V.prove('coefficients', to_term(M.item(p, j, inside=True)) == COEF(m, j, size(m)))
        del In.families['*']
        V.cover('done')
    nm = Q + 'IndexedParameterEnumPolyParams.manipulate_poly'
    V.scope(nm, indexed, [nm])
    V.expected_covers.append(nm + ': done')

    # ---- sparse polynomials: the chosen degrees of one polynomial are a mask
    MASKS = ('seq', POLY, 'tuple')
    fun = {nm: z3.Function(nm, *sorts) for nm, sorts in (
        ('COMBINATIONS', (U, I, U)), ('COMBINATIONS_R', (U, I, U)), ('PERMUTATIONS', (U, I, U)), ('PRODUCT_R', (U, I, U)),
        ('DISTINCT', (U, U)), ('SPREAD', (U, U, I, U)))}

    def contents(x):
        return M.embed(M.seq_from_parts(M.parts_of(x), 'tuple') if not isinstance(x, SV) else x)

    def tool(nm, elem, r='r'):
        def f(I_, a, k):
            d = bind(I_, nm, ['iterable', r], {}, a, k)
            n = to_term(d[r])
            need(I_, E.valid(n >= 0)[0], 'sizes are not negative')
            return M.gen_of(M.parts_of(M.view(fun[nm](contents(d['iterable']), n), ('seq', elem, 'list'))))
        return Native(nm, f)
    tools = dict(combinations=tool('COMBINATIONS', POLY), combinations_with_replacement=tool('COMBINATIONS_R', MASKS),
                 permutations=tool('PERMUTATIONS', MASKS), product=tool('PRODUCT_R', MASKS, 'repeat'))

    def distinct(I_, a, k):
        d = bind(I_, 'set', ['iterable'], {}, a, k)
        return M.view(fun['DISTINCT'](contents(d['iterable'])), ('seq', MASKS, 'list'))
    names = dict(tools, set=Native('set', distinct), spread=Native('spread', lambda I_, a, k: spread(I_, a, k)))

    def spread(I_, a, k):
        return M.view(fun['SPREAD'](contents(a[0]), contents(a[1]), to_term(a[2])), MASKS)
    S = Q + 'SparseParameterEnumPolyParams'
    WANT = '''
def placements(poly, n):
    for masks in combinations_with_replacement(combinations(range(n), len(poly[0])), len(poly)):
        for order in set(permutations(masks, len(poly))):
            yield spread(poly, order, n)

def placements_2(poly, n):
    for order in product(combinations(range(n), len(poly[0])), repeat=len(poly)):
        yield spread(poly, order, n)
'''

    def sparse(side):
        ps = V.seq('ps', POLY)
        V.assume(to_term(M.b_len(ps)) > 0)
        na, nb = V.int('na'), V.int('nb')
        V.assume(z3.And(na >= 0, nb >= 0))
        it = M.modules['itertools'].ns
        was = dict(it)
        en = V.call(S, special_params=(na, nb))
        it.update(tools)
        In.module('enum_poly_params').ns['set'] = names['set']
        In.stubs[S + '._apply_poly_template_on_coeffs_list'] = lambda I_, a, k: spread(I_, [bind(
            I_, '_apply_poly_template_on_coeffs_list', ['self', 'coeffs_list', 'poly_masks', 'n'], {}, a, k)[x]
            for x in ('coeffs_list', 'poly_masks', 'n')], {})
        all_of = V.spec('all_of', 'def all_of(g):\n    return [x for x in g]\n')
        try:
            r = V.call(all_of, V.method(en, 'manipulate_poly', ps, side))
            n = na if side == 'a' else nb
            want = [V.call(all_of, V.call(V.spec(f, WANT, names), ps, n)) for f in ('placements_2', 'placements')]
            if same(In, r, want[0]):
                E.ok('every placement once', 'z3')
            else:
                V.same('every placement once', r, want[1])
        finally:
            it.clear()
            it.update(was)
            del In.module('enum_poly_params').ns['set'], In.stubs[S + '._apply_poly_template_on_coeffs_list']
        V.cover('done')
    for side in ('a', 'b'):
        nm = S + '.manipulate_poly, ' + ('numerators' if side == 'b' else 'denominators')
        V.scope(nm, lambda: sparse(side), [S + '.manipulate_poly', S + '.__init__'])
        V.expected_covers.append(nm + ': done')

    def template():
        ps, ms = V.seq('ps', POLY), V.seq('ms', POLY)
        n, m, j = V.int('n'), V.int('m'), V.int('j')
        L = to_term(M.b_len(ps))
        V.assume(z3.And(n >= 0, to_term(M.b_len(ms)) == L))
        x, i, i2 = z3.Int('x?'), z3.Int('i2?'), z3.Int('i3?')
        par, msk = (lambda y: M.item(ps, y, inside=True)), (lambda y: M.item(ms, y, inside=True))
        size = lambda y: to_term(M.b_len(msk(y)))
        at = lambda s, y: to_term(M.item(s, y, inside=True))
        V.define(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < L), size(x) == to_term(M.b_len(par(x))))))
        V.define(z3.ForAll([x, i, i2], z3.Implies(z3.And(x >= 0, x < L, i >= 0, i < i2, i2 < size(x)),
                                                  at(msk(x), i) < at(msk(x), i2))))
        o = V.call(S, special_params=(n, n))
        r = V.method(o, '_apply_poly_template_on_coeffs_list', ps, ms, n)
        V.prove('as many polynomials', to_term(M.b_len(r)) == L)
        V.assume(z3.And(m >= 0, m < L, j >= 0, j < n))
        p = M.item(r, m, inside=True)
        V.prove('the size limit', to_term(M.b_len(p)) == n)
        c = M.item(p, j, inside=True)
        w = V.int('w')
        V.assume(z3.And(w >= 0, w < size(m)))
        E.instantiate(m)
        V.prove('a parameter is placed at its degree', z3.Implies(at(msk(m), w) == j, to_term(c) == at(par(m), w)))
        V.prove('zeros elsewhere', z3.Implies(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < size(m)), at(msk(m), x) != j)),
                                              to_term(c) == 0))
        V.cover('done')
    nm = S + '._apply_poly_template_on_coeffs_list'
    V.scope(nm, template, [nm])
    V.expected_covers.append(nm + ': done')

    def plain():
        ps, side = V.seq('ps', POLY), V.str('side')
        r = V.call(V.spec('all_of', 'def all_of(g):\n    return [x for x in g]\n'),
                   V.method(V.get(Q + 'BasicEnumPolyParams'), 'manipulate_poly', ps, side))
        V.same('the plain family changes nothing', r, VList([ps]))
        V.cover('done')
    nm = Q + 'BasicEnumPolyParams.manipulate_poly'
    V.scope(nm, plain, [nm])
    V.expected_covers.append(nm + ': done')
