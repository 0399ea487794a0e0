"""C01: iterating a continued fraction computes its exact convergents."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['Python integers are mathematical integers',
               'the multi-precision quotient p/q is the mathematical quotient (rounding is not modelled); a multi-precision '
               'number is normal exactly when it is neither zero nor special',
               'coefficients are integers']
C = 'cont_fracs:ContFrac'


def run(V):
    E, M, In = V.E, V.M, V.I
    F = Fractions(V)
    qs = [C + '.' + f for f in ('__init__', 'iteration_algorithm', 'finalize_iterations', '_default_promo_mat_gen',
                                '_autogen_first_iter_matrix', 'get_result', 'get_p_q')]
    qs += ['basic_representation_types:' + f for f in
           ('BasicRecursiveConstRepresenter.__init__', 'BasicRecursiveConstRepresenter.gen_iterations',
            'BasicRecursiveConstRepresenter.add_iterations', 'BasicContFracAlgo.gen_iterations',
            'BasicContFracAlgo.add_iterations')]
    V.expected_covers = []

    def result_is(name, r, i):
        if isinstance(r, Special):
            V.prove(name + ': NaN only if the denominator is zero', z3.And(r is NAN, F.Q(i) == 0))
            V.cover('NaN')
        else:
            V.prove(name + ': the denominator is not zero', F.Q(i) != 0)
            V.same(name + ': the quotient', r, QUOT(z3.ToReal(F.P(i)), z3.ToReal(F.Q(i))))
            V.cover('quotient')

    def iterate(form):
        a, b = F.setup(form)
        n, avoid = V.int('n'), V.bool('avoid')
        V.assume(n >= 0)
        cf = V.call(C, a, b, avoid_zero_b=avoid, target_val=V.real('target'))
        r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
        if r:       # (which runs these are: C04)
            V.prove('the only exception is the refusal of a zero numerator', z3.And(avoid, x.cls is V.get('cont_fracs:ZeroB')))
            return
        F.index(n)
        p, q = V.method(cf, 'get_p_q')
        V.prove('the numerator is p_n', M.eq(p, F.P(n)))
        V.prove('the denominator is q_n', M.eq(q, F.Q(n)))
        V.prove('the number of iterations is n', M.eq(V.method(cf, 'get_num_of_executed_iters'), n))
        result_is('the result', V.method(cf, 'get_result'), n)
    for form in ('tuples', 'lists', 'single'):
        nm = 'convergents of ' + form
        V.scope(nm, lambda: iterate(form), qs)
        V.expected_covers += [nm + ': NaN', nm + ': quotient']

    def logged(form):
        a, b = F.setup(form)
        n, avoid = V.int('n'), V.bool('avoid')
        V.assume(n >= 1)
        cf = V.call(C, a, b, avoid_zero_b=avoid, target_val=V.real('target'), logging=True)
        r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
        if r:       # (which runs these are: C04)
            V.prove('the only exception is the refusal of a zero numerator', z3.And(avoid, x.cls is V.get('cont_fracs:ZeroB')))
            return
        F.index(n)
        log = In.getitem(In.getattr(cf, '_params_log'), 'contfrac_res')
        mats = In.getattr(cf, 'iter_matrices')
        V.prove('every iteration is logged', z3.And(M.eq(M.length(log), n + 1), M.eq(M.length(mats), n + 1)))
        i = V.int('i')
        V.assume(z3.And(i >= 1, i <= n))
        F.state(i)
        m = M.getitem(mats, i)
        V.prove('logged p_i and q_i', M.eq(m, F.state(i)))
        result_is('logged result', M.getitem(log, i), i)
        p, q = V.method(cf, 'get_p_q')
        V.prove('the final p_n and q_n', z3.And(M.eq(p, F.P(n)), M.eq(q, F.Q(n))))
        F.state(n)
        result_is('final result', V.method(cf, 'get_result'), n)
        V.prove('the number of iterations is n', M.eq(V.method(cf, 'get_num_of_executed_iters'), n))
    for form in ('tuples', 'lists', 'single'):
        nm = 'logged convergents of ' + form
        V.scope(nm, lambda: logged(form), qs)
        V.expected_covers += [nm + ': NaN', nm + ': quotient']

    def first():
        # by induction on the number of coefficients
        c = z3.Function('c', I, I)
        S = z3.Function('S', I, I)
        m, j = V.int('m'), V.int('j')
        term = lambda j: c(j) * POWI(0, j)
        V.assume(POWI(0, 0) == 1)
        V.assume(z3.Implies(m > 0, POWI(0, m) == 0))
        V.assume(S(0) == 0)
        V.assume(S(1) == S(0) + term(0))
        V.prove('one coefficient', S(1) == c(0))
        V.assume(z3.And(m >= 1, S(m) == c(0), S(m + 1) == S(m) + term(m)))
        V.prove('one more coefficient', S(m + 1) == c(0))
        V.cover('done')
    V.scope('the value of a polynomial at 0 is its first coefficient', first)
    V.expected_covers.append('the value of a polynomial at 0 is its first coefficient: done')
