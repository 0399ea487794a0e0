"""C04: truncated continued fractions are refused exactly when a numerator vanishes."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['Python integers are mathematical integers', 'coefficients are integers']
C = 'cont_fracs:ContFrac'


def run(V):
    E, M, In = V.E, V.M, V.I
    F = Fractions(V)
    qs = [C + '.' + f for f in ('iteration_algorithm', '_default_promo_mat_gen')]
    qs += ['basic_representation_types:' + f for f in
           ('BasicRecursiveConstRepresenter.gen_iterations', 'BasicRecursiveConstRepresenter.add_iterations',
            'BasicContFracAlgo.gen_iterations', 'BasicContFracAlgo.add_iterations')]
    V.expected_covers = []
    j = V.int('j')             # an arbitrary index

    def outcome(what, avoid, r, x, lo, hi):
        """Exactly when a numerator between lo (exclusive) and hi vanishes, and with the first such index."""
        if not r:
            F.index(j)
            E.instantiate(j - 1 - lo, j - 1, j)
            V.prove(what + ': completes only if avoidance is off or no numerator vanishes',
                    z3.Implies(z3.And(avoid, j > lo, j <= hi), F.B(j) != 0))
            V.cover(what + ' completes')
            return
        V.prove(what + ': the exception is ZeroB', x.cls is V.get('cont_fracs:ZeroB'))
        V.prove(what + ': only with avoidance', avoid)
        i = to_term(M.getitem(In.getattr(x, 'args'), 0))
        V.prove(what + ': the index is in range', z3.And(i > lo, i <= hi))
        F.index(i)
        F.index(j)
        V.prove(what + ': the numerator vanishes', F.B(i) == 0)
        E.instantiate(j - 1 - lo, j - 1, j)
        V.prove(what + ': it is the first one', z3.Implies(z3.And(j > lo, j < i), F.B(j) != 0))
        V.cover(what + ' raises')

    def refuse(form, logging):
        a, b = F.setup(form)
        n, m, avoid = V.int('n'), V.int('m'), V.bool('avoid')
        V.assume(z3.And(n >= 0, m >= 0))
        cf = V.call(C, a, b, avoid_zero_b=avoid, target_val=V.real('target'), logging=logging)
        r, x = V.raises(lambda: V.method(cf, 'gen_iterations', n))
        outcome('generating', avoid, r, x, 0, n)
        if r or logging:
            return
        F.offset = n
        F.res0 = V.method(cf, 'get_result')
        r, x = V.raises(lambda: V.method(cf, 'add_iterations', m))
        outcome('adding', avoid, r, x, n, n + m)
    for form in ('tuples', 'lists', 'single'):
        for logging in (False, True):
            nm = 'zero numerators of ' + form + (' (logging)' if logging else '')
            V.scope(nm, lambda: refuse(form, logging), qs)
            for w in ('generating',) if logging else ('generating', 'adding'):
                V.expected_covers += [nm + ': %s %s' % (w, x) for x in ('completes', 'raises')]
