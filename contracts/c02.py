"""C02: the state of a continued fraction depends only on coefficients and iteration count."""
import z3
from pyvc.values import *
from pyvc.values import Poison
from pyvc.core import Unsupported
from pyvc.contractlib import *
from pyvc.compare import same

ASSUMPTIONS = ['Python integers are mathematical integers', 'coefficients are integers, every polynomial has one at least',
               'the multi-precision quotient p/q is the mathematical quotient (rounding is not modelled)',
               'the default first matrix is used, re-initialization is given coefficients only, no accuracy is asked for, '
               'and iterations are finalized (the default)']
C = 'cont_fracs:ContFrac'


def run(V):
    E, M, In = V.E, V.M, V.I
    F = Fractions(V)
    qs = [C + '.' + f for f in ('__init__', 'reinitialize', 'iteration_algorithm', 'finalize_iterations',
                                '_default_promo_mat_gen', '_autogen_first_iter_matrix')]
    qs += ['basic_representation_types:' + f for f in
           ('BasicRecursiveConstRepresenter.__init__', 'BasicRecursiveConstRepresenter.reinitialize',
            'BasicRecursiveConstRepresenter.gen_iterations', 'BasicRecursiveConstRepresenter.add_iterations',
            'BasicRecursiveConstRepresenter.get_num_of_executed_iters',
            'BasicContFracAlgo.gen_iterations', 'BasicContFracAlgo.add_iterations')]
    V.expected_covers = []
    POLYLIST = ('seq', ('seq', 'int', 'list'), 'list')

    def new(a, b, avoid, logging=False):
        return V.call(C, a, b, avoid_zero_b=avoid, target_val=V.real('target'), logging=logging)

    def observe(cf):
        return (V.method(cf, 'get_p_q'), V.method(cf, 'get_num_of_executed_iters'), V.method(cf, 'get_result'))

    def snapshot(cf):
        return {k: (VDict([list(x) for x in v.items]) if isinstance(v, VDict) else v) for k, v in cf.attrs.items()}

    def names():
        """The attributes that iterating changes, and those that classifying changes (found by doing it)."""
        one = (1, 1)
        cf = new((one,), (one,), False)
        before = snapshot(cf)
        V.method(cf, 'gen_iterations', 2)
        it = [k for k, v in cf.attrs.items() if k not in before or not same(In, v, before[k])]
        before = snapshot(cf)
        V.method(cf, 'set_approach_type_and_params', ('exp', (2, 3)))
        return it, [k for k, v in cf.attrs.items() if k not in before or not same(In, v, before[k])]

    def untouched(what, cf, before, but):
        for k in sorted(set(before) | set(cf.attrs)):
            if k not in but and isinstance(before.get(k), BoundMethod):
                f = cf.attrs.get(k)
                V.prove('%s leaves %s alone' % (what, k), isinstance(f, BoundMethod) and f.func is before[k].func and
                        f.self_ is cf)
            elif k not in but:
                V.same('%s leaves %s alone' % (what, k), cf.attrs.get(k), before.get(k))

    def history(logging, which):
        """An object with an arbitrary past is given new coefficients and iterated: as a new object."""
        a, b = F.setup('tuples')
        n, avoid = V.int('n'), V.bool('avoid')
        V.assume(n >= 0)
        olda, oldb = M.view(z3.Const('old_a', U), POLYS), M.view(z3.Const('old_b', U), POLYS)
        V.assume(z3.And(to_term(M.length(olda)) >= 1, to_term(M.length(oldb)) >= 1))
        V.assume(to_term(M.length(M.getitem(olda, 0))) >= 1)
        start = (a if which in ('b', 'none') else olda, b if which in ('a', 'none') else oldb)
        cf = new(start[0], start[1], avoid, logging)
        # what iterating changes is unknown (any number of iterations, exceptions on the way), and reading it is an error
        vol, cls = names()
        for k in list(cf.attrs):
            if k in vol:
                In.setattr_raw(cf, k, Poison(('attr', cf, k)))
        V.method(cf, 'set_approach_type_and_params', ('exp', (V.real('base'), V.real('coeff'))))
        if which == 'ab':
            V.method(cf, 'reinitialize', a, b)
        elif which == 'a':
            V.method(cf, 'reinitialize', a)
        elif which == 'b':
            V.method(cf, 'reinitialize', b_coeffs=b)
        else:
            V.method(cf, 'reinitialize')
        V.same('an earlier classification is forgotten', V.method(cf, 'get_approach_type_and_params'), ('undefined', 0))
        ref = new(a, b, avoid, logging)
        before = snapshot(ref)
        untouched('the past', cf, before, vol + cls)
        if logging:
            # everything that is read is what a new object has (nothing of the past is readable), so all that follows is
            # what a new object does
            r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
            V.cover('exception' if r else 'value')
            if not r:
                observe(cf)
                V.prove('the results are there', True)
            return
        r0, x0 = V.raises(lambda: V.method(ref, 'gen_iterations', n))
        r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
        V.prove('ends as a new object does', r == r0)
        if r:
            V.same('with the same exception', In.getattr(x, 'args'), In.getattr(x0, 'args'))
            V.cover('exception')
        else:
            V.same('numerator, denominator, count and result of a new object', observe(cf), observe(ref))
            V.cover('value')
        untouched('generating', cf, before, vol + cls)
    for logging in (False, True):
        for which in ('ab', 'a', 'b', 'none'):
            nm = 're-initialized (%s given)%s' % (which, ', logging' if logging else '')
            V.scope(nm, lambda: history(logging, which), qs)
            V.expected_covers += [nm + ': value', nm + ': exception']

    def continued(logging):
        """Generating n iterations and adding m more."""
        a, b = F.setup('tuples')
        n, m, avoid = V.int('n'), V.int('m'), V.bool('avoid')
        V.assume(z3.And(n >= 0, m >= 0))
        cf = new(a, b, avoid, logging)
        before = snapshot(cf)
        r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
        if r:
            return
        F.offset = n
        F.res0 = V.method(cf, 'get_result')
        r, x = V.raises(lambda: V.method(cf, 'add_iterations', m))
        if not logging:
            untouched('adding', cf, before, names()[0])
        if r:
            V.cover('exception')
            return
        # what generating n + m iterations gives (C01)
        N = z3.simplify(n + m)
        F.index(N)
        p, q = V.method(cf, 'get_p_q')
        V.prove('the numerator is p_(n+m)', M.eq(p, F.P(N)))
        V.prove('the denominator is q_(n+m)', M.eq(q, F.Q(N)))
        V.prove('the number of iterations is n + m', M.eq(V.method(cf, 'get_num_of_executed_iters'), N))
        r = V.method(cf, 'get_result')
        if isinstance(r, Special):
            V.prove('NaN only if the denominator is zero', z3.And(r is NAN, F.Q(N) == 0))
        else:
            V.prove('the denominator is not zero', F.Q(N) != 0)
            V.same('the quotient', r, QUOT(z3.ToReal(F.P(N)), z3.ToReal(F.Q(N))))
        V.cover('continued')
    V.bounded.append('iterating further with logging is only sampled (harness)')
    for logging in (False,):
        nm = 'continued' + (', logging' if logging else '')
        V.scope(nm, lambda: continued(logging), qs)
        V.expected_covers += [nm + ': continued', nm + ': exception']
