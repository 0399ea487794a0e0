from common import *
import postprocfuncs as P
RULE = 'every function at random positive / negative / zero / tiny / huge / special values; non-trivial: every trial'
BASE = [lambda x: x, lambda x: x ** 2, lambda x: x ** 3, lambda x: x ** 4, lambda x: x ** 5,
        lambda x: mpmath.sqrt(x) if x >= 0 else mpmath.nan, mpmath.sin, mpmath.cos, mpmath.tan, mpmath.cot, mpmath.exp,
        lambda x: mpmath.log(x) if x > 0 else mpmath.nan]


def want(i, x):
    v = BASE[i // 2](x)
    if i % 2:
        v = mpmath.inf if v == 0 else 1 / v
    return v


def trial(h):
    r = h.r
    h.check(len(P.EVALUATED_POSTPROC_FUNCS) == len(P.POSTPROC_FUNCS) == 24, 'number of functions')
    i = r.randrange(24)
    x = r.choice([mpf(r.randint(-40, 40)) / r.randint(1, 12), mpf(r.random()) - 0.5, mpf(0), mpf(1), mpf(-1),
                  mpf(r.randint(-9, 9)) * mpf(10) ** -r.randint(5, 30), mpmath.pi * 1, mpf(r.randint(1, 99)) ** 3])
    mp.dps = r.choice([15, 50])
    x = mpf(x)
    h.note(function=P.POSTPROC_FUNCS[i], index=i, x=x)
    st, v = safe(P.EVALUATED_POSTPROC_FUNCS[i], x)
    if st == 'exc':
        # cot has a pole at 0
        h.check(isinstance(v, ZeroDivisionError) and x == 0 and i in (18, 19), 'raises %r', v)
        return
    try:
        with dps(mp.dps + 30):
            w = want(i, x)
    except ZeroDivisionError:
        return
    if mpmath.isnan(w):
        h.check(mpmath.isnan(v), 'gives %r instead of NaN', v)
    elif mpmath.isinf(w):
        h.check(mpmath.isinf(v) and (v > 0) == (w > 0), 'gives %r instead of %r', v, w)
    else:
        h.check(not mpmath.isnan(v) and not mpmath.isinf(v), 'gives %r instead of %r', v, w)
        h.check(abs(v - w) <= abs(w) * mpf(10) ** (-mp.dps + 5), 'gives %r instead of %r', v, w)
    pairs = {(2 * k, 2 * k + 1) for k in range(12)} | {(2 * k + 1, 2 * k) for k in range(12)}
    h.check(set(map(tuple, P.INVERSE_POSTPROC_PAIRS)) == pairs, 'reciprocal pairs %r', P.INVERSE_POSTPROC_PAIRS)
    h.check(set(P.POSTPROC_FUNCS_LATEX) == set(P.POSTPROC_FUNCS), 'LaTeX forms')
    h.check(all(callable(f) for f in P.POSTPROC_FUNCS_LATEX.values()), 'LaTeX forms')
