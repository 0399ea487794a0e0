"""C06: enumeration of polynomials."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['Python integers are mathematical integers',
               'whether a polynomial has an integer root and its degree are functions of its coefficients (C08 says which)',
               'the versions a family makes of a choice of coefficients are a function of the choice and the side (C07 says which)',
               'iterating a fraction stops with ZeroB exactly if a numerator vanishes within the given number of iterations (C04), '
               'which is a function of the coefficients and that number',
               'scipy.special.binom(n, k) is the exact number of k-subsets of n',
               'a yielded fraction is observed at the moment it is yielded']
Q = 'enum_poly_params:'
ROOTS = z3.Function('HAS_ROOTS', U, B)
DEG = z3.Function('DEGREE', U, I)
MANIP = z3.Function('VERSIONS', U, S, U)
BINOM = z3.Function('BINOM', I, I, I)
ZERO = z3.Function('VANISHES', U, U, I, B)
POLYS2 = ('seq', POLY, 'tuple')
SPEC = '''
def choices(ranges):
    return product(*[product(*[range(*r) for r in p]) for p in ranges])

def single(ps):
    if len(ps) > 1 and all([q == ps[0] for q in ps]):
        return (ps[0],)
    return ps

def enumerate_all(ra, rb, roots, exp, avoid, fractions, n):
    res = []
    for ca in choices(ra):
        for pa in versions(ca, 'a'):
            for cb in choices(rb):
                for pb in versions(cb, 'b'):
                    if roots and any([has_root(q) for q in pb]):
                        continue
                    a, b = single(pa), single(pb)
                    if exp and len(a) == 1 and len(b) == 1 and degree(b[0]) > 2 * degree(a[0]):
                        continue
                    if fractions:
                        if avoid and vanishes(a, b, n):
                            continue
                        res.append(((a, b, n), a, b))
                    else:
                        res.append((a, b))
    return res

def total(ranges):
    n = 1
    for p in ranges:
        for lo, hi in p:
            n = n * (hi - lo)
    return n

def announced(ra, rb):
    return total(ra) * total(rb)

def placements(na, nb, ra, rb):
    return choose(na, len(ra[0])) ** len(ra) * choose(nb, len(rb[0])) ** len(rb)

def announced_sparse(na, nb, ra, rb):
    return announced(ra, rb) * placements(na, nb, ra, rb)
'''


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    cls = Q + 'BasicEnumPolyParams'
    has_root = Native('has_root', lambda I_, a, k: ROOTS(M.embed(a[0])))
    degree = Native('degree', lambda I_, a, k: DEG(M.embed(a[0])))

    def versions(I_, a, k):
        d = bind(I_, 'manipulate_poly', ['poly', 'is_a_or_b_poly'], {}, a, k)
        need(I_, d['is_a_or_b_poly'] in ('a', 'b'), 'a side')
        return M.view(MANIP(M.embed(d['poly']), z3.StringVal(d['is_a_or_b_poly'])), ('seq', POLYS2, 'list'))
    choose = Native('choose', lambda I_, a, k: BINOM(to_term(a[0]), to_term(a[1])))
    In.module('enum_poly_params').ns['binom'] = Native('binom', lambda I_, a, k: z3.ToReal(BINOM(to_term(a[0]), to_term(a[1]))))
    names = {'has_root': has_root, 'degree': degree, 'versions': Native('versions', versions),
             'vanishes': Native('vanishes', lambda I_, a, k: ZERO(M.embed(a[0]), M.embed(a[1]), to_term(a[2]))),
             'product': M.modules['itertools'].ns['product']}
    In.stubs[cls + '._does_have_integer_roots'] = lambda I_, a, k: I_.call(has_root, list(a), k)
    In.stubs[cls + '._polynom_degree'] = lambda I_, a, k: I_.call(degree, list(a), k)

    def init(I_, a, k):
        d = bind(I_, 'ContFrac', ['self', 'a_coeffs', 'b_coeffs', 'avoid_zero_b'], {'avoid_zero_b': True}, a, k)
        I_.setattr(d['self'], 'c06', None)
        I_.setattr(d['self'], 'c06n', None)
        I_.setattr(d['self'], 'c06avoid', d['avoid_zero_b'])

    def reinit(I_, a, k):
        d = bind(I_, 'reinitialize', ['self', 'a_coeffs', 'b_coeffs'], {}, a, k)
        I_.setattr(d['self'], 'c06', (d['a_coeffs'], d['b_coeffs']))
        I_.setattr(d['self'], 'c06n', None)

    def gen(I_, a, k):
        d = bind(I_, 'gen_iterations', ['self', 'num_of_iters'], {}, a, k)
        o = d['self']
        need(I_, o.attrs['c06'] is not None and o.attrs['c06n'] is None, 'a fraction is initialized before it is iterated')
        x, y = o.attrs['c06']
        if I_.truth(o.attrs['c06avoid']) and I_.truth(ZERO(M.embed(x), M.embed(y), to_term(d['num_of_iters']))):
            I_.raise_(V.get('cont_fracs:ZeroB'), 'zero numerator')
        I_.setattr(o, 'c06n', d['num_of_iters'])
    In.stubs['cont_fracs:ContFrac.__init__'] = init
    In.stubs['cont_fracs:ContFrac.reinitialize'] = reinit
    In.stubs['basic_representation_types:BasicContFracAlgo.gen_iterations'] = gen
    RANGES = ('seq', ('seq', ('tup', ('int', 'int')), 'list'), 'list')

    def enum(fractions, roots, exp, avoid):
        In.stubs[cls + '.manipulate_poly'] = versions
        ra, rb = V.list('ra', RANGES[1]), V.list('rb', RANGES[1])
        n = V.int('n')
        V.assume(n >= 0)
        en = V.call(cls, n, exp, roots, fractions, avoid)
        gen, ln = V.call(V.spec('two', 'def two(x):\n    a, b = x\n    return [a, b]\n'),
                         V.method(en, 'polys_generator', ra, rb)).concrete()
        view = V.spec('view', 'def view(objects):\n    return [((cf.c06[0], cf.c06[1], cf.c06n), a, b) for cf, a, b in objects]\n'
                      if fractions else 'def view(pairs):\n    return [(a, b) for a, b in pairs]\n')
        V.same('exactly the choices no filter excludes, in order', V.call(view, gen),
               V.call(V.spec('enumerate_all', SPEC, names), ra, rb, roots, exp, avoid, fractions, n))
        V.cover('done')

    def plain():
        ra, rb = V.list('ra', RANGES[1]), V.list('rb', RANGES[1])
        r = V.call(V.spec('two', 'def two(x):\n    a, b = x\n    return b\n'), V.method(V.call(cls), 'polys_generator', ra, rb))
        r2 = V.call(V.spec('announced', SPEC, names), ra, rb)
        V.prove('announced length', V.eq(r, r2))
        V.cover('done')

    def sparse():
        sp = Q + 'SparseParameterEnumPolyParams'
        In.stubs[sp + '.manipulate_poly'] = versions
        ra, rb = V.list('ra', RANGES[1]), V.list('rb', RANGES[1])
        na, nb = V.int('na'), V.int('nb')
        V.assume(z3.And(na >= 0, nb >= 0, to_term(M.b_len(ra)) > 0, to_term(M.b_len(rb)) > 0))
        en = V.call(sp, special_params=(na, nb))
        r = V.call(V.spec('two', 'def two(x):\n    a, b = x\n    return b\n'), V.method(en, 'polys_generator', ra, rb))
        V.prove('announced length', V.eq(r, V.call(V.spec('announced_sparse', SPEC, dict(names, choose=choose)), na, nb, ra, rb)))
        V.cover('done')
    nm = cls + ': announced length'
    V.scope(nm, plain, [cls + '.__init__', Q + '_len_decorator'])
    V.expected_covers.append(nm + ': done')
    nm = Q + 'SparseParameterEnumPolyParams: announced length'
    V.scope(nm, sparse, [Q + 'SparseParameterEnumPolyParams.__init__', Q + '_len_decorator'])
    V.expected_covers.append(nm + ': done')
    for roots in (True, False):
        for exp in (True, False):
            for fractions, avoid in ((True, True), (True, False), (False, None)):
                nm = cls + '.polys_generator, filters: ' + \
                    (' '.join(n for n, x in (('roots', roots), ('exponential', exp), ('zeros', avoid),
                                             ('(with fractions)', fractions)) if x) or 'none')
                V.scope(nm, lambda: enum(fractions, roots, exp, V.bool('avoid') if avoid is None else avoid), [cls + '.polys_generator', cls + '.__init__'])
                V.expected_covers.append(nm + ': done')
