from common import *
import cont_fracs
RULE = 'random (interlaced) integer coefficient lists, 0..60 iterations, logging on/off; non-trivial: at least 1 iteration'


def shape(r, ps):
    """Ways to hand over coefficients: lists, tuples, a single polynomial flat."""
    k = r.randint(0, 3)
    if len(ps) == 1 and k == 0:
        return list(ps[0])
    if k == 1:
        return tup(ps)
    return [list(p) for p in ps]


def trial(h):
    r = h.r
    a, b = rpolys(r), rpolys(r)
    if r.random() < 0.2:
        b = [[r.choice([-1, 1, 0])] for _ in b]
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 60, r.randint(0, 40)])
    logging = r.random() < 0.5
    mp.dps = r.choice([15, 50, 80])
    sa, sb = shape(r, a), shape(r, b)
    h.note(a=sa, b=sb, n=n, logging=logging, dps=mp.dps)
    h.trivial = n == 0
    cf = cont_fracs.ContFrac(sa, sb, avoid_zero_b=False, logging=logging)
    cf.gen_iterations(n)
    conv = convergents(a, b, n)
    h.check(tuple(cf.get_p_q()) == conv[n], 'p, q after %d iterations: %r instead of %r', n, cf.get_p_q(), conv[n])
    h.check(cf.get_num_of_executed_iters() == n, 'executed iterations %r', cf.get_num_of_executed_iters())

    def result(res, i, what):
        p, q = conv[i]
        if q == 0:
            h.check(mpmath.isnan(res), '%s is %r although q=0', what, res)
        else:
            h.check(not mpmath.isnan(res) and not mpmath.isinf(res), '%s is %r although q=%d', what, res, q)
            e = F(p, q)
            h.check(abs(exact(res) - e) <= abs(e) * F(1, 10 ** (mp.dps - 2)), '%s %r is not %s', what, res, e)
            if e.denominator == 1 and max(abs(p), abs(q)) < 10 ** 10:
                h.check(exact(res) == e, '%s %r is not exactly %s', what, res, e)
    if n or not logging:
        result(cf.get_result(), n, 'result')
    if logging and n:
        log = cf._params_log['contfrac_res']
        mats = cf.iter_matrices
        h.check(len(mats) == n + 1, '%d logged states for %d iterations', len(mats), n)
        for i in range(n + 1):
            (p, p1), (q, q1) = mats[i]
            h.check((p, q) == conv[i], 'logged p, q of iteration %d: %r', i, (p, q))
            if i:
                h.check((p1, q1) == conv[i - 1], 'logged previous p, q of iteration %d', i)
        h.check(len(log) == n + 1, '%d logged results', len(log))
        for i in range(1, n + 1):
            result(log[i], i, 'logged result %d' % i)
