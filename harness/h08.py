from common import *
import enum_poly_params as epp
B = epp.BasicEnumPolyParams
RULE = 'integer polynomials built from (linear factors, powers of x, random coefficients, zero padding); non-trivial: not the zero polynomial'


def mul(p, q):
    s = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            s[i + j] += a * b
    return s


def trial(h):
    r = h.r
    kind = r.choice(['factors', 'factors', 'random', 'long', 'zero'])
    if kind == 'factors':
        p = [r.choice([-3, -1, 1, 1, 2, 7])]
        for _ in range(r.randint(0, 2)):
            if r.random() < 0.7:
                p = mul(p, [-r.choice([1, 2, 3, -1, -2, r.randint(-60, 60)]), r.choice([1, 1, -1])])
            else:
                p = mul(p, [r.randint(-30, 30), r.choice([2, 3, -5])])
    elif kind == 'random':
        p = rcoefs(r, r.randint(0, 2), r.choice([3, 10, 500]))
    elif kind == 'long':
        p = rcoefs(r, r.randint(3, 6), 6)
    else:
        p = [0] * r.randint(0, 3)
    core = list(p)
    p = [0] * r.choice([0, 0, 1, 3]) + p + [0] * r.choice([0, 0, 1, 2])
    if r.random() < 0.5:
        p = tuple(p)
    h.note(poly=p)
    h.trivial = not any(p)
    want_deg = max([i for i, c in enumerate(p) if c] or [-1])
    if hasattr(B, '_polynom_degree'):
        h.check(B._polynom_degree(p) == want_deg, 'degree %r instead of %d', B._polynom_degree(p), want_deg)
    while core and core[-1] == 0:
        core.pop()
    while core and core[0] == 0:
        core.pop(0)
    if hasattr(B, '_factor_out_polynom'):
        f = B._factor_out_polynom(p)
        h.check(list(f) == core, 'without powers of x: %r instead of %r', f, core)
    if hasattr(B, '_does_have_integer_roots'):
        got = bool(B._does_have_integer_roots(p))
    else:
        en = B(avoid_int_roots=True, should_gen_contfrac=False)
        if not p:
            return
        got = not list(en.polys_generator([[[1, 2]]], [[[c, c + 1] for c in p]])[0])
    if len(core) > 3:
        h.check(not got, 'reported although more than 3 coefficients remain')
    elif not core:
        h.check(got, 'the zero polynomial is not reported')
    else:
        roots = [t for t in range(-abs(core[0]), abs(core[0]) + 1) if t and poly(core, t) == 0]
        if any(t > 0 for t in roots):
            h.check(got, 'positive integer roots %r are not detected', roots)
        if not roots:
            h.check(not got, 'reported although there is no integer root')
