from common import *
import itertools
import lhs_evaluators as L
RULE = 'random ranges in all formats, both families, targets with vanishing values; non-trivial: something is yielded'


def lens(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return len(p)


def trial(h):
    r = h.r
    x = mpf(r.choice(['3.14159265358979323846264338327950288419716939937510582', '2', '-1', '0.5']))
    if r.random() < 0.5:
        def rng(lo, d):
            w = r.randint(0, 5)
            if w == 0:
                n = r.randint(0 if not d else 1, 3)
                return n, list(range(1, n + 1) if d else range(-n, n + 1))
            if w == 1:
                a = [r.randint(-3, 1), r.randint(0, 4)]
                a = r.choice([list, tuple])(a)
                return a, list(range(*a))
            if w == 2:
                a = r.choice([list, tuple])([r.randint(-4, 0), r.randint(0, 4), r.choice([1, 2, 3])])
                return a, list(range(*a))
            if w == 3:
                a = r.choice([list, tuple])(r.choice([[r.randint(-4, 4)], [1, 5, -2, 7], []]))
                return a, list(a)
            if w == 4:
                a = {r.randint(-3, 3), r.randint(-3, 3)}
                return a, list(a)
            a = range(r.randint(-3, 0), r.randint(1, 3))
            return a, list(a)
        rs = [rng(0, k == 3) for k in range(4)]
        h.note(kind='ulcd', target=x, ranges=[t[0] for t in rs])
        en = L.LHS_TYPES['ulcd']['enum']([t[0] for t in rs], x)
        full = list(itertools.product(*[t[1] for t in rs]))
        want = [(u, l, c, d) for u, l, c, d in full if l != 0 and d != 0 and abs(c) < abs(d)]
        got = []
        for o in en.generator():
            got.append(tuple(o.get_params()))
            u, l, c, d = got[-1]
            h.check(l != 0 and d != 0, 'yields %r', got[-1])
            h.check(close(o.get_val(), (u / exact(x) + exact(x) / l + c) / d, 40), 'value of %r', got[-1])
            h.check(isinstance(o, L.LHS_TYPES['ulcd']['eval']) and o.get_target_const() == x, 'type or target')
    else:
        rng = lambda: [[lo, lo + r.choice([1, 2, 3])] for lo in [r.randint(-2, 1) for _ in range(r.randint(1, 3))]]
        P, Q, force = rng(), rng(), r.random() < 0.5
        h.note(kind='rationalfunc', target=x, ranges=(P, Q, force))
        en = L.LHS_TYPES['rationalfunc']['enum']([P, Q, force], x)
        prod = lambda R: list(itertools.product(*[range(*c) for c in R]))
        full = list(itertools.product(prod(P), prod(Q)))
        want = [(p, q) for p, q in full if any(p) and any(q) and not (lens(p) < 2 and lens(q) < 2)
                and not (force and lens(p) < lens(q)) and poly(p, exact(x)) != 0 and poly(q, exact(x)) != 0]
        got = []
        for o in en.generator():
            p, q, k = o.get_params()
            got.append((tuple(p), tuple(q)))
            h.check(k == 0, 'added integer %r', k)
            h.check(close(o.get_val(), F(poly(p, exact(x))) / poly(q, exact(x)), 40), 'value of %r', got[-1])
            h.check(isinstance(o, L.LHS_TYPES['rationalfunc']['eval']) and o.get_target_const() == x, 'type or target')
    h.check(len(en) == len(full), 'announced length %r instead of %d', len(en), len(full))
    h.check(got == want, 'yields %r instead of %r', [g for g in got if g not in want][:5] or got[:5],
            [w for w in want if w not in got][:5] or want[:5])
    h.trivial = not want
