"""C19: enumeration of left-hand sides."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['the target value is a real number (the linear-fractional family: a nonzero one)',
               'the bounds of a rational range are ordered (lower <= upper)',
               'a yielded object is observed at the moment it is yielded (consumers copy it, C12)',
               'the rational evaluator built from (parameters, target) has these parameters and this target (C17)']
L = 'lhs_evaluators:'


def run(V):
    E, M, In = V.E, V.M, V.I

    def form(kind, name):
        """(value given for a range, the values it means) - d is the divisor"""
        a, b, s = V.int(name + '_a'), V.int(name + '_b'), V.int(name + '_s')
        div = name == 'd'
        if kind == 'n':
            V.assume(a >= 0)
            return a, (M.b_range([1, a + 1]) if div else M.b_range([-a, a + 1]))
        if kind in ('list2', 'tuple2'):
            return (VList([a, b]) if kind == 'list2' else (a, b)), M.b_range([a, b])
        if kind in ('list3', 'tuple3'):
            V.assume(s > 0)
            return (VList([a, b, s]) if kind == 'list3' else (a, b, s)), M.b_range([a, b, s])
        v = V.seq('values_' + name, 'int', 'tuple' if kind == 'values' else 'list')
        if kind == 'valuelist':
            v = VList(parts=M.parts_of(v))
        n = to_term(M.length(v))
        V.assume(z3.And(n != 2, n != 3))
        return v, v
    SPEC = '''
def ulcd(us, ls, cs, ds, x):
    res = []
    for u in us:
        for l in ls:
            for c in cs:
                for d in ds:
                    if l != 0 and d != 0 and abs(c) < abs(d):
                        res.append(((u, l, c, d), x, (u / x + x / l + c) / d))
    return res

def size(us, ls, cs, ds):
    return len(us) * len(ls) * len(cs) * len(ds)
'''
    view = V.spec('view', '''
def view(objects):
    return [(o.get_params(), o.get_target_const(), o.get_val()) for o in objects]
''')
    qs = [L + 'ULCDEnumerator.__init__', L + 'ULCDEnumerator.generator', L + 'LHSEnumerator.__len__',
          L + 'ULCDEvaluator.reinit_params']
    V.expected_covers = []

    def ulcd(kinds):
        x = V.real('x')
        V.assume(x != 0)
        given, mean = zip(*[form(k, n) for k, n in zip(kinds, 'ulcd')])
        en = V.call(L + 'ULCDEnumerator', given if kinds[0] == 'n' else VList(list(given)), x)
        out = V.method(en, 'generator')
        V.same('exactly the admissible parameters, in product order, with the values of these parameters',
               V.call(view, out), V.call(V.spec('ulcd', SPEC), *mean, x))
        V.prove('the announced length is the size of the product',
                M.eq(M.b_len(en), V.call(V.spec('size', SPEC), *mean)))
        V.cover('done')
    base = ['n', 'list2', 'tuple3', 'values']
    todo = [(k,) * 4 for k in ('n', 'list2', 'tuple2', 'list3', 'tuple3', 'values', 'valuelist')]
    todo += [tuple((base * 2)[i:i + 4]) for i in range(4)]
    for kinds in todo:
        nm = L + 'ULCDEnumerator ' + '/'.join(kinds)
        V.scope(nm, lambda: ulcd(kinds), qs)
        V.expected_covers.append(nm + ': done')

    # ---- rational functions
    def init(I_, a, k):
        d = bind(I_, 'RationalFuncEvaluator', ['self', 'lhs_evaluator_params', 'target_constant'],
                 {'target_constant': None}, a, k)
        I_.setattr(d['self'], 'params', d['lhs_evaluator_params'])
        I_.setattr(d['self'], 'target_constant', d['target_constant'])
        I_.setattr(d['self'], 'val', 0)
    In.stubs[L + 'RationalFuncEvaluator.__init__'] = init
    RAT = '''
def size_of(p):
    return len(list(dropwhile(lambda t: t == 0, reversed(p))))

def rational(P, Q, bigger, x):
    res = []
    for p in product(*[range(*c) for c in P]):
        for q in product(*[range(*c) for c in Q]):
            if not any(p) or not any(q):
                continue
            n, m = size_of(p), size_of(q)
            if n < 2 and m < 2:
                continue
            if bigger and n < m:
                continue
            if value(p, x) == 0 or value(q, x) == 0:
                continue
            res.append(((p, q, 0), x, 0))
    return res

def size(P, Q):
    n = P[0][1] - P[0][0]
    for c in P[1:]:
        n = n * (c[1] - c[0])
    m = Q[0][1] - Q[0][0]
    for c in Q[1:]:
        m = m * (c[1] - c[0])
    return n * m
'''
    # the value of a polynomial: its contract here, discharged below
    VAL = z3.Function('VAL', U, z3.RealSort(), z3.RealSort())
    value = Native('value', lambda I_, a, k: VAL(M.embed(a[0]), to_real(to_term(a[1]))))
    subs = L.replace('lhs_evaluators', 'utils') + 'MathOperations.subs_in_polynom'
    In.stubs[subs] = lambda I_, a, k: I_.call(value, list(a), k)
    it = M.modules['itertools'].ns
    names = {'value': value, 'dropwhile': it['dropwhile'], 'product': it['product']}

    def args():
        M.dropwhile_facts = False
        P, Q = V.list('P', ('tup', ('int', 'int'))), V.list('Q', ('tup', ('int', 'int')))
        V.assume(z3.And(to_term(M.length(P)) >= 1, to_term(M.length(Q)) >= 1))
        return P, Q, V.bool('bigger'), V.real('x')
    REDUCE = Native('reduce', lambda I_, a, k: E.int('size'))

    def rational():
        # (the announced length does not matter to what is generated: it has its own scope)
        ns = In.module('lhs_evaluators').ns
        old = ns.get('reduce')
        if old is not None:
            ns['reduce'] = REDUCE
        try:
            P, Q, bigger, x = args()
            en = V.call(L + 'RationalFuncEnumerator', VList([P, Q, bigger]), x)
            out = V.method(en, 'generator')
            V.same('exactly the admissible pairs of coefficients, in product order', V.call(view, out),
                   V.call(V.spec('rational', RAT, names), P, Q, bigger, x))
        finally:
            if old is not None:
                ns['reduce'] = old
        V.cover('done')

    def rational_size():
        P, Q, bigger, x = args()
        en = V.call(L + 'RationalFuncEnumerator', VList([P, Q, bigger]), x)
        V.prove('the announced length is the size of the product', M.eq(M.b_len(en), V.call(V.spec('size', RAT, names), P, Q)))
        V.cover('done')
    nm = L + 'RationalFuncEnumerator'
    V.scope(nm, rational, [nm + '.__init__', nm + '.generator'])
    V.expected_covers.append(nm + ': done')
    V.scope(nm + ' length', rational_size, [nm + '.__init__', L + 'LHSEnumerator.__len__'])
    V.expected_covers.append(nm + ' length: done')

    def polyval():
        In.stubs.pop(subs)
        p, x = V.seq('p', 'int', 'tuple'), V.real('x')
        V.same('the value of a polynomial is the sum of its coefficients times the powers', V.call(subs, p, x),
               V.call(V.spec('value', 'def value(p, x):\n    return sum([p[j] * x ** j for j in range(len(p))])\n'), p, x))
        V.cover('done')
    V.scope('utils:MathOperations.subs_in_polynom', polyval, [subs])
    V.expected_covers.append('utils:MathOperations.subs_in_polynom: done')

    # what size_of means
    def meaning():
        M.dropwhile_facts = True
        p = V.seq('p', 'int', 'tuple')
        n = to_term(V.call(V.spec('size_of', RAT, names), p))
        m = to_term(M.length(p))
        i = m - 1 - V.int('j')
        V.prove('the size is at most the number of coefficients', z3.And(n >= 0, n <= m))
        V.assume(z3.And(i >= 0, i < m))
        c = to_term(M.getitem(p, i))
        E.prove('coefficients from the size on are zero', z3.Implies(i >= n, c == 0), 40000)
        V.prove('the last coefficient below the size is not zero', z3.Implies(i == n - 1, c != 0))
        V.cover('done')
    V.scope('the size of a polynomial is its degree plus one', meaning)
    V.expected_covers.append('the size of a polynomial is its degree plus one: done')
