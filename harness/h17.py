from common import *
import lhs_evaluators as L
from h18 import pdivmod, pgcd, trim
RULE = 'random histories of construct / copy / reinit / flip / add / canonalize on small polynomials (many with common factors or large quotients); non-trivial: every trial'
AXIS = ['3.14159265358979323846264338327950288419716939937510582', '2.5', '-0.5', '1', '2', '0.25']


def pmul(p, q):
    res = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            res[i + j] += a * b
    return res


def rpq(r):
    p, q = rcoefs(r, r.randint(0, 3), 4), rcoefs(r, r.randint(0, 2), 4, True)
    if r.random() < 0.4:
        g = rcoefs(r, r.randint(0, 2), 3, True)
        p, q = pmul(p, g), pmul(q, g)
    if r.random() < 0.1:
        p = [r.randint(-3, 3) * c for c in q]
    return p, q


def same_function(a, b):
    """p/q + k as functions."""
    (p, q, k), (p2, q2, k2) = a, b
    n1 = [x + k * y for x, y in zip(list(p) + [0] * 20, list(q) + [0] * 20)]
    n2 = [x + k2 * y for x, y in zip(list(p2) + [0] * 20, list(q2) + [0] * 20)]
    return trim(pmul(n1, list(q2))) == trim(pmul(n2, list(q)))


def value(par, x):
    p, q, k = par
    n, d = poly(p, x), poly(q, x)
    return None if n == 0 or d == 0 else F(n) / d + k


def trial(h):
    r = h.r
    x = mpf(r.choice(AXIS))
    xe = exact(x)
    p, q = rpq(r)
    k = r.choice([0, 0, r.randint(-5, 5)])
    if r.random() < 0.3:
        p, q = tuple(p), tuple(q)
    par = (p, q, k)
    objs = [(L.RationalFuncEvaluator(par, x), par)]
    h.note(target=x, params=par, ops=[])

    def verify(what):
        for n, (o, par) in enumerate(objs):
            cur = o.get_params()
            h.check(len(cur) == 3 and isinstance(cur[2], int) and all(isinstance(c, int) for c in list(cur[0]) + list(cur[1])),
                    '%s: object %d has parameters %r', what, n, cur)
            h.check(same_function(cur, par), '%s: object %d has parameters %r, expected the function of %r', what, n, cur, par)
            v = value(cur, xe)
            got = o.get_val()
            if v is None:
                h.check(mpmath.isnan(got), '%s: object %d has value %s instead of NaN', what, n, got)
            else:
                h.check(not mpmath.isnan(got) and abs(exact(got) - v) < F(1, 10 ** 40) * (1 + abs(v)),
                        '%s: object %d has value %s instead of %s', what, n, got, float(v))
            h.check(o.get_target_const() == x, '%s: target of object %d', what, n)
    verify('construction')
    for _ in range(r.randint(1, 7)):
        n = r.randrange(len(objs))
        o, par = objs[n]
        op = r.choice(['flip', 'add', 'copy', 'reinit', 'canon', 'canon', 'canon', 'degenerate'])
        h.inputs['ops'].append((n, op))
        if op == 'flip':
            old = o.get_params()
            o.flip_sign()
            objs[n] = (o, (par[0], [-c for c in par[1]], -par[2]))
        elif op == 'add':
            m = r.choice([r.randint(-9, 9), r.randint(-999, 999)])
            h.inputs['ops'][-1] = (n, op, m)
            o.add_int(m)
            objs[n] = (o, (par[0], par[1], par[2] + m))
        elif op == 'copy':
            c = L.RationalFuncEvaluator(o)
            h.check(repr(c.get_params()) == repr(o.get_params()) and c is not o, 'copy has parameters %r', c.get_params())
            objs.append((c, par))
        elif op == 'reinit':
            p, q = rpq(r)
            par = (p, q, r.randint(-3, 3))
            h.inputs['ops'][-1] = (n, op, par)
            o.reinit_params(par)
            objs[n] = (o, par)
        elif op == 'canon':
            v = value(o.get_params(), xe)
            o.canonalize_params()
            cp, cq, ck = o.get_params()
            h.check(len(pgcd(cp, cq)) == 1, 'canonical form %r has a common factor', (cp, cq))
            quo, _ = pdivmod(cp, cq)
            h.check(-1 < quo[0] <= 0 if quo else True, 'canonical form %r has constant quotient coefficient %r', (cp, cq), quo and quo[0])
            v2 = value((cp, cq, ck), xe)
            if v is not None and v2 is not None:
                h.check(v == v2, 'canonical form %r changed the value', (cp, cq, ck))
            one = repr(o.get_params())
            o.canonalize_params()
            h.check(repr(o.get_params()) == one, 'canonical form %s changed to %r', one, o.get_params())
            c = L.RationalFuncEvaluator((cp, cq, ck), x)
            c.canonalize_params()
            h.check(same_function(c.get_params(), (cp, cq, ck)) and c.get_params()[2] == ck and
                    list(map(int, c.get_params()[0])) == list(map(int, cp)), 'canonical form of canonical form %s is %r', one, c.get_params())
        else:
            cur = o.get_params()
            h.check(bool(o.is_degenerate()) == _const(cur[0], cur[1]), 'degenerate: %r', cur)
        verify(str(h.inputs['ops'][-1]))


def _const(p, q):
    n = max(len(p), len(q))
    p, q = list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q))
    return all(p[i] * q[j] == p[j] * q[i] for i in range(n) for j in range(n))
