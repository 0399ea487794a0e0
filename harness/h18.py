from common import *
import lhs_evaluators as L
RULE = 'pairs of rational matches, many made equal, inverse, shifted or sign-changed and then perturbed; non-trivial: every trial'


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def pdivmod(p, q):
    p, q = [F(c) for c in trim(p)], [F(c) for c in trim(q)]
    quo = [F(0)] * max(len(p) - len(q) + 1, 0)
    while len(p) >= len(q):
        f = p[-1] / q[-1]
        k = len(p) - len(q)
        quo[k] = f
        for i, c in enumerate(q):
            p[i + k] -= f * c
        p = trim(p[:-1]) if len(p) else p
    return quo, p


def pgcd(p, q):
    p, q = trim(p), trim(q)
    while q:
        p, q = q, pdivmod(p, q)[1]
    return p


def pmul(p, q):
    res = [0] * (len(p) + len(q) - 1) if p and q else []
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            res[i + j] += a * b
    return res


def padd(p, q, k=1):
    n = max(len(p), len(q))
    return [a + k * b for a, b in zip(list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q)))]


def integer_difference(f, g):
    """f - g is an integer constant, for f, g = (numerator, denominator)."""
    num = trim(padd(pmul(f[0], g[1]), pmul(g[0], f[1]), -1))
    den = trim(pmul(f[1], g[1]))
    if not num:
        return True
    if len(num) != len(den):
        return False
    c = F(num[-1]) / den[-1]
    return c.denominator == 1 and not trim(padd(num, den, -c))


def trial(h):
    r = h.r
    x = mpf('3.14159265358979323846264338327950288419716939937510582')
    lim = r.choice([1, 2, 3])
    p, q, k = rcoefs(r, r.randint(0, 2), lim, True), rcoefs(r, r.randint(0, 2), lim, True), r.choice([0, 0, 1, -2])
    p2, q2, k2 = p, q, k
    how = r.randint(0, 6)
    i = r.choice([0, 1, 2, 5, 10, 20])
    j = r.choice([i, i, i ^ 1, i ^ 1, i + 1, 0])
    if how == 0:
        p2, q2, k2 = rcoefs(r, r.randint(0, 2), lim, True), rcoefs(r, r.randint(0, 2), lim, True), r.choice([0, 1])
    elif how == 1:
        p2, k2 = padd(p, q, r.randint(-2, 2)), r.randint(-2, 2)
        if not any(p2):
            p2 = p
    elif how == 2:
        g = rcoefs(r, 1, 2, True)
        p2, q2 = pmul(p, g), pmul(q, g)
    elif how in (3, 4):
        p2, q2 = q, p
        if how == 4:
            k2 = r.choice([0, 1])
        else:
            k = k2 = 0
        j = i ^ 1
    elif how == 5:
        s = r.choice([1, -1])
        p2, q2 = [r.choice([s, s, s, 1]) * c for c in p], [s * c for c in q]
    neg = lambda ps: [[-t for t in w] for w in ps]
    a, b = rpolys(r, 2, 1, 2), rpolys(r, 2, 1, 2)
    a2, b2 = a, b
    w = r.random()
    if w < 0.2:
        a2 = neg(a)
    elif w < 0.3:
        b2 = neg(b)
    elif w < 0.4:
        a2 = rpolys(r, 2, 1, 2)
    elif w < 0.5:
        a2 = [neg(a)[0]] + a[1:]
    o1 = L.RationalFuncEvaluator((p, q, k), x)
    other = r.random() < 0.05
    o2 = L.ULCDEvaluator((1, 2, 3, 4), x) if other else L.RationalFuncEvaluator((p2, q2, k2), x)
    m1, m2 = ((tup(a), tup(b)), o1, i, None), ((tup(a2), tup(b2)), o2, j, ('exp', (2, 1)))
    h.note(first=(p, q, k, i, tup(a), tup(b)), second=(other or (p2, q2, k2), j, tup(a2), tup(b2)))
    if not other and not any(padd(p2, q2, k2)) or not any(padd(p, q, k)):
        raise Skip('zero function')
    got = bool(L.RationalFuncEvaluator.is_equiv(m1, m2))
    f1 = (padd(p, q, k), q)
    f2 = (padd(p2, q2, k2), q2)
    rec = i // 2 == j // 2 and i != j
    if rec:
        f2 = f2[::-1]
    ok = not other and b == b2 and a2 in (a, neg(a)) and (i == j or rec) and bool(trim(f2[1])) and integer_difference(f1, f2)
    h.check(ok or not got, 'declared equivalent')
    h.check(L.RationalFuncEvaluator.is_equiv(m1, m1), 'a match is not equivalent to itself')
    h.check(L.RationalFuncEvaluator.is_equiv(m1, (m1[0], L.RationalFuncEvaluator((p, q, k), x), i, None)),
            'a match is not equivalent to an equal one')
    if other:
        h.check(not L.ULCDEvaluator.is_equiv(m2, m1), 'left-hand sides of different families are equivalent')
