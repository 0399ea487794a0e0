"""C24: the post-processing functions, position by position, for every real argument."""
import z3
from pyvc.values import *
from pyvc.libs import LN, rfun
from pyvc.models import SQRT

ASSUMPTIONS = ['mpmath\'s sin, cos, tan, cot, exp, log and sqrt are the mathematical functions where these are defined '
               '(uninterpreted functions; sqrt with its defining equation)',
               'multi-precision arithmetic is treated as real arithmetic (no rounding)',
               'eval of a text is the evaluation of the expression it spells (language reference)']

# the documented order, as functions of a real number: (name, domain condition, value)
ORDER = [('identity', None, lambda x: x), ('square', None, lambda x: x * x), ('cube', None, lambda x: x * x * x),
         ('fourth power', None, lambda x: x * x * x * x), ('fifth power', None, lambda x: x * x * x * x * x),
         ('square root', lambda x: x >= 0, lambda x: SQRT(x)),
         ('sine', None, rfun('sin')), ('cosine', None, rfun('cos')), ('tangent', None, rfun('tan')),
         ('cotangent', None, rfun('cot')), ('exponential', None, rfun('exp')),
         ('natural logarithm', lambda x: x > 0, LN)]


def run(V):
    E = V.E

    def fns():
        fs = V.get('postprocfuncs:EVALUATED_POSTPROC_FUNCS')
        return V.I.concrete_list(fs)

    def count():
        V.prove('twelve functions, each followed by its reciprocal', len(fns()) == 2 * len(ORDER))
        V.prove('as many texts as functions', len(V.I.concrete_list(V.get('postprocfuncs:POSTPROC_FUNCS'))) == 2 * len(ORDER))
    V.scope('positions', count)

    for i, (name, dom, val) in enumerate(ORDER):
        for inverse in (False, True):
            def one(i=i, name=name, dom=dom, val=val, inverse=inverse):
                x = V.real('x')
                f = fns()[2 * i + inverse]
                r = V.I.call(f, [x])
                if dom is not None and not V.I.truth(V.M.simp(dom(x))):
                    V.prove('not a number outside the domain', r is NAN)
                    V.cover('outside the domain')
                    return
                y = val(x)
                if name == 'square root':
                    V.assume(z3.And(y >= 0, y * y == x))
                if name == 'exponential' or not inverse:
                    pass
                if not inverse:
                    V.same('value', r, y)
                    V.cover('inside the domain')
                elif V.I.truth(y == 0):
                    V.prove('reciprocal of zero is infinity', r is PINF)
                    V.cover('zero')
                else:
                    V.same('value', r, 1 / y)
                    V.cover('inside the domain')
            V.scope('position %d: %s%s' % (2 * i + inverse, 'reciprocal of the ' if inverse else '', name), one,
                    ['postprocfuncs:POSTPROC_FUNCS[%d]' % (2 * i + inverse)])

    def helpers():
        x = V.real('x')
        r = V.call('postprocfuncs:safe_inverse', x)
        if V.I.truth(x == 0):
            V.prove('safe_inverse(0) is infinity', r is PINF)
        else:
            V.prove('safe_inverse', V.eq(V.M.binop('Mult', r, x), 1))
    V.scope('safe_inverse', helpers)

    def pairs():
        ps = V.I.concrete_list(V.get('postprocfuncs:INVERSE_POSTPROC_PAIRS'))
        ps = [tuple(V.I.concrete_list(p)) for p in ps]
        want = set((2 * i + a, 2 * i + 1 - a) for i in range(len(ORDER)) for a in (0, 1))
        V.prove('exactly the function/reciprocal pairs, in both orders', set(ps) == want)
        V.prove('no duplicates', len(ps) == len(set(ps)))
    V.scope('INVERSE_POSTPROC_PAIRS', pairs)

    def latex():
        d = V.get('postprocfuncs:POSTPROC_FUNCS_LATEX')
        keys = [k for k, v in d.items]
        for i, f in enumerate(V.I.concrete_list(V.get('postprocfuncs:POSTPROC_FUNCS'))):
            V.prove('position %d has a LaTeX form' % i, f in keys)
            V.prove('position %d is the first with its text' % i,
                    V.I.concrete_list(V.get('postprocfuncs:POSTPROC_FUNCS')).index(f) == i)
    V.scope('POSTPROC_FUNCS_LATEX', latex)
    V.expected_covers = ['position %d: %s: inside the domain' % (2 * i, n) for i, (n, d, v) in enumerate(ORDER)] + \
        ['position 10: square root: outside the domain', 'position 1: reciprocal of the identity: zero']
