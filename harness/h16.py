from common import *
import lhs_evaluators as L
RULE = 'random histories of construct / copy / reinit / flip / add on random parameters, and pairs of matches (many nearly equivalent); non-trivial: every trial'
AXIS = ['3.14159265358979323846264338327950288419716939937510582', '2.5', '-0.75', '1.1', '123.5']


def val(p, x):
    u, l, c, d = p
    return (F(u) / x + x / l + c) / F(d)


def rpar(r, lim=6):
    nz = lambda n: r.choice([-1, 1]) * r.randint(1, n)
    if r.random() < 0.1:
        lim = 10 ** r.randint(3, 20)
    return r.randint(-lim, lim), nz(lim), r.randint(-lim, lim), nz(lim)


def same_abs(p, q):
    """|value| equal for every target."""
    def vec(p):
        u, l, c, d = p
        return [F(u, d), F(1, l * d), F(c, d)]
    a, b = vec(p), vec(q)
    return a == b or a == [-t for t in b]


def history(h):
    r = h.r
    x = mpf(r.choice(AXIS))
    xe = exact(x)
    p = rpar(r)
    objs = [(L.ULCDEvaluator(p, x), p, val(p, xe), True)]
    h.note(target=x, params=p, ops=[])

    def verify(what):
        for k, (o, p, v, known) in enumerate(objs):
            if known:
                h.check(tuple(o.get_params()) == tuple(p), '%s: object %d has parameters %r instead of %r', what, k, o.get_params(), p)
            cur = o.get_params()
            size = max(abs(F(t)) for t in cur) + abs(v) + 1
            h.check(abs(exact(o.get_val()) - v) <= size * F(1, 10 ** 44), '%s: object %d has value %s instead of %s', what, k, o.get_val(), float(v))
            h.check(abs(exact(o.get_val()) - val(cur, xe)) <= size * F(1, 10 ** 44), '%s: value of object %d is not that of its parameters %r', what, k, cur)
            h.check(o.get_target_const() == x, '%s: target of object %d', what, k)
    verify('construction')
    for _ in range(r.randint(1, 7)):
        k = r.randrange(len(objs))
        o, p, v, known = objs[k]
        op = r.choice(['flip', 'flip', 'add', 'add', 'copy', 'reinit'])
        if op == 'flip':
            o.flip_sign()
            objs[k] = (o, p, -v, False)
        elif op == 'add':
            n = r.choice([r.randint(-9, 9), r.randint(-999, 999)])
            o.add_int(n)
            objs[k] = (o, p, v + n, False)
            op = op, n
        elif op == 'copy':
            c = L.ULCDEvaluator(o)
            h.check(tuple(c.get_params()) == tuple(o.get_params()) and c is not o, 'copy has parameters %r', c.get_params())
            objs.append((c, c.get_params(), v, False))
        else:
            p = rpar(r)
            o.reinit_params(p)
            objs[k] = (o, p, val(p, xe), True)
            op = op, p
        h.inputs['ops'].append((k, op))
        verify(str(op))


def pair(h):
    r = h.r
    x = mpf(r.choice(AXIS))
    p = rpar(r)
    u, l, c, d = p
    m = r.choice([1, 2, 3, 5, 7])
    s, t = r.choice([1, -1]), r.choice([1, -1])
    how = r.randint(0, 6)
    if how == 0:
        q = rpar(r)
    elif how == 1:
        q = (s * u, s * l, s * c, t * d)
    elif how == 2:
        q = (s * u * m, l * s, s * c * m, t * d * m)
    elif how == 3:
        l = l * m
        p = (u, l, c, d)
        q = (s * u * m, s * l // m, s * c * m, t * d * m)
    elif how == 4:
        q = tuple(k * r.choice([1, 1, 1, -1]) for k in p)
    elif how == 5:
        q = (u * m, l * m, c * m, d * m)
    else:
        q = (u + r.choice([0, 1]), l, c + r.choice([0, 0, 1]), d * t)
    a = rpolys(r, 2, 1, 2)
    b = rpolys(r, 2, 1, 2)
    neg = lambda ps: [[-k for k in w] for w in ps]
    a2, b2 = a, b
    w = r.random()
    if w < 0.3:
        a2 = neg(a)
    elif w < 0.4:
        b2 = neg(b)
    elif w < 0.5:
        a2 = rpolys(r, 2, 1, 2)
    elif w < 0.6:
        a2 = [neg(a)[0]] + a[1:]
    elif w < 0.65:
        a2 = a + a
    i = r.choice([0, 0, 0, 1, 5])
    j = r.choice([i, i, 0, 1])
    o1 = L.ULCDEvaluator(p, x)
    o2 = L.ULCDEvaluator(q, x) if r.random() < 0.95 else L.RationalFuncEvaluator(([1, 2], [1], 0), x)
    h.note(first=(p, tup(a), tup(b), i), second=(q if isinstance(o2, L.ULCDEvaluator) else 'rational', tup(a2), tup(b2), j))
    got = L.ULCDEvaluator.is_equiv(((tup(a), tup(b)), o1, i, None), ((tup(a2), tup(b2)), o2, j, True))
    ok = isinstance(o2, L.ULCDEvaluator) and b == b2 and a2 in (a, neg(a)) and same_abs(p, q)
    if i or j:
        ok = ok and p == q and i == j and a == a2
    h.check(ok or not got, 'declared equivalent')
    if (p, a, b, i) == (q, a2, b2, j) and isinstance(o2, L.ULCDEvaluator):
        h.check(got, 'identical matches are not equivalent')
    if i == j == 0 and b == b2 and a2 in (a, neg(a)) and isinstance(o2, L.ULCDEvaluator):
        for s in (1, -1):
            if q[:3] == tuple(s * k for k in p[:3]) and abs(q[3]) == abs(p[3]):
                h.check(got, 'matches up to sign are not equivalent')


def trial(h):
    if h.r.random() < 0.5:
        history(h)
    else:
        pair(h)
