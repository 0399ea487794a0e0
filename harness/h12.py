from common import *
import enum_params, lhs_evaluators as L
RULE = 'tables filled at the values of some enumerated left-hand sides (and others), both families, truncation on/off; non-trivial: some match'


def fill(h, r, kind, target):
    if kind == 'ulcd':
        params = [r.choice([2, [-2, 3], [0, 3]]), r.choice([2, [1, 3]]), r.choice([1, [0, 2]]), r.choice([2, [1, 3], 3])]
    else:
        rng = lambda: [[lo, lo + r.choice([1, 2, 3])] for lo in [r.randint(-2, 1) for _ in range(r.randint(1, 3))]]
        params = [rng(), rng(), r.random() < 0.5]
    return params


def const_ratio(p, q):
    """Is p/q constant as a function?"""
    n = max(len(p), len(q))
    p, q = list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q))
    return all(p[i] * q[j] == p[j] * q[i] for i in range(n) for j in range(n))


def trial(h):
    r = h.r
    kind = r.choice(['ulcd', 'rationalfunc'])
    target = mpf(r.choice(['3.14159265358979323846264338327950288419716939937510582', '2.5', '1.7',
                           '0.5772156649015328606065120900824024310421593359399']))
    params = fill(h, r, kind, target)
    size = 1
    if kind == 'rationalfunc':
        for q in params[:2]:
            for lo, hi in q:
                size *= hi - lo
        if size > 50:
            raise Skip('too large')
    trunc = r.random() < 0.7
    prec = r.randint(3, 12)
    h.note(kind=kind, params=params, target=target, trunc=trunc, prec=prec)
    cls = L.LHS_TYPES[kind]
    m = enum_params.MITM(target_generator=lambda: target, trunc_integer=trunc, hashtable_prec=prec)
    objs = []
    for o in cls['enum'](params, target).generator():
        p = o.get_params()
        if kind == 'ulcd':
            v = (F(p[0]) / exact(target) + exact(target) / F(p[1]) + p[2]) / p[3]
            deg = o.is_degenerate()
        else:
            x = exact(target)
            v = poly(p[0], x) / poly(p[1], x) + p[2]
            deg = const_ratio(p[0], p[1])
        objs.append((p, o.get_val(), v, deg))
        if len(objs) > 300:
            raise Skip('too large')
    table = {}

    def frac(v):
        v = abs(v)
        if trunc:
            v -= int(v)
        return v
    items = 0
    for p, val, v, deg in objs:
        if v == 0:
            continue
        sc = frac(v) * 10 ** 25
        if abs(sc - round(sc)) < F(1, 10 ** 6):
            if deg:
                continue
            raise Skip('digit boundary')
        if trunc and min(abs(v - round(v)), 1) < F(1, 10 ** 14):
            raise Skip('integer value')
        if r.random() < 0.3 or (r.random() < 0.2):
            k = digits(frac(v), 40)[:prec + 2]
            if r.random() < 0.2:
                k = k[:-1] + str((int(k[-1]) + 1) % 10 if k[-1].isdigit() else '0')
            its = table.setdefault(k, [])
            for _ in range(r.randint(1, 2)):
                items += 1
                its.append(((((items,),), ((items, 1),)), r.randint(0, 5)))
    h.note(table=table)
    for k, v in table.items():
        m.dec_hashtable[k] = list(v)
    m.find_clicks(cls, params)
    want = []
    for p, val, v, deg in objs:
        k = digits(frac(v), 40)[:prec + 2]
        if k in table and not deg:
            for ab, i in table[k]:
                want.append((ab, i, v))
    got = m.get_filtered_params()
    h.check(len(got) == len(want), '%d matches instead of %d', len(got), len(want))
    for g, w in zip(got, want):
        h.check(g[0] == w[0] and g[2] == w[1], 'match %r instead of %r', g, w[:2])
        h.check(close(g[1].get_val(), w[2], 30), 'left-hand side value %r instead of %s', g[1].get_val(), float(w[2]))
        h.check(isinstance(g[1], cls['eval']), 'left-hand side of type %r', type(g[1]))
    h.check({k: v for k, v in dict.items(m.dec_hashtable)} == table, 'the table changed')
    h.trivial = not want
    if len(got) > 1:
        j = r.randrange(len(got))
        before = [exact(g[1].get_val()) for g in got]
        pars = [repr(g[1].get_params()) for g in got]
        got[j][1].flip_sign()
        got[j][1].add_int(3)
        for i, g in enumerate(got):
            if i != j:
                h.check(exact(g[1].get_val()) == before[i] and repr(g[1].get_params()) == pars[i],
                        'changing match %d changed match %d', j, i)
