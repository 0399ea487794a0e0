from common import *
import enum_params, lhs_evaluators as L, math
from h24 import want as postproc
RULE = 'true and nearly true matches for both families, all functions, both evaluation variants; non-trivial: some kept and decided'


def trial(h):
    r = h.r
    x = mpf(r.choice(['3.14159265358979323846264338327950288419716939937510582', '1.3', '2.7182818284590452353602874713527']))
    xe = exact(x)
    trunc = r.random() < 0.7
    acc = r.randint(4, 20)
    variant = r.choice(['const', 'const', 'conv'])
    clicks, plan = [], []
    m = enum_params.MITM(target_generator=lambda: x, trunc_integer=trunc, prec=50)
    depth = r.randint(2, 40)
    for j in range(r.randint(1, 4)):
        a, b = rpolys(r, 2, 1, 4), rpolys(r, 2, 1, 4)
        if variant == 'conv':
            b = [[c or 1 for c in p[:1]] for p in b]
        i = r.choice([0, 1, 2, 3, 4, 5, 10, 11, 12, 20])
        conv = None
        d = depth
        if variant == 'conv':
            d = depth + 1
            if r.random() < 0.5:
                base = mpf(r.choice([2, 5, 30, 1000]))
                conv = ('exp', (base, mpf(1)))
                need = math.ceil(abs(mpmath.log(mpf(10) ** -(acc + 100) / base) / mpmath.log(base)))
                d = min(depth, need) + 1
        av, bv = [at(a, k) for k in range(d)], [at(b, k) for k in range(1, d)]
        zero = False
        try:
            v = nested(av, bv)
        except ZeroDivisionError:
            zero = True
            v = F(1)
            # (iteration does not divide on the way)
            if variant == 'conv' or any(t.denominator & (t.denominator - 1) for t in []):
                raise Skip('division by zero in the oracle only')
            # an exact zero may be missed by rounding, unless everything is an integer quotient by powers of two
            raise Skip('division by zero')
        if v == 0 or abs(v) < F(1, 10 ** 20) or abs(v) > 10 ** 12:
            raise Skip('close to zero')
        with dps(120):
            w = postproc(i, to_mpf(v))
        normal = not (mpmath.isnan(w) or mpmath.isinf(w))
        if normal and (abs(w) < mpf(10) ** -15 or abs(w) > mpf(10) ** 15):
            raise Skip('magnitude')
        if not normal and not (i // 2 == 5 and v < 0):
            raise Skip('special value')
        we = exact(w) if normal else F(5, 7)
        # a left-hand side close to the value (up to sign and an integer): p/q with p+q x = integers approximating
        if not normal or r.random() < 0.25:
            lhs_val = F(r.randint(-999, 999), 777) + F(1, 10 ** 5)
        else:
            lhs_val = we * r.choice([1, -1])
            if trunc:
                lhs_val = (abs(we) + r.randint(0, 3)) * r.choice([1, -1])
            e = r.choice([0, 0, 0, 1, 2])
            if e:
                lhs_val += F(r.choice([-1, 1]) * r.randint(1, 9), 10 ** (acc + r.choice([-3, -1, 0, 1, 3])))
        # realise the value: rational (A + x)/(B) ... with a large common denominator
        D = 10 ** 60
        if r.random() < 0.5:
            # (N + x*0 ...)/D as rational function with constant + x
            N = int(round((lhs_val - xe) * D))
            obj = L.RationalFuncEvaluator(([N, D], [D], 0), x)
            real = F(N, D) + xe
            # keep the polynomials unreduced: canonical form may change them
        else:
            # (u/x + x/l + c)/d with d = D
            c = int(round(lhs_val * D - xe))
            obj = L.ULCDEvaluator((0, 1, c, D), x)
            real = (xe + c) / D
        clicks.append((tuple(map(tuple, [[j]])) and (tup(a), tup(b)), obj, i, conv))
        plan.append((normal, we, real, obj))
    if variant == 'conv' and r.random() < 0.1:
        # a numerator that vanishes on the way: no value at this depth, the match is dropped
        root = r.randint(1, depth)
        clicks.append((((1, r.randint(1, 3)),), None, 0, None))
        clicks[-1] = (((tuple([r.randint(1, 4), r.randint(1, 4)]),), ((-root, 1),)), L.ULCDEvaluator((0, 1, 1, 1), x), 0, None)
        plan.append((False, F(1), F(1), clicks[-1][1]))
    h.note(x=x, trunc=trunc, accuracy=acc, variant=variant, depth=depth,
           matches=[(c[0], c[2], c[3], p[0], float(p[1]), float(p[2])) for c, p in zip(clicks, plan)])
    keep = []
    for c, (normal, we, real, obj) in zip(clicks, plan):
        if not normal:
            continue
        l, w = abs(real), abs(we)
        if trunc:
            l, w = l - int(l), w - int(w)
        tol = F(1, 10 ** 35)
        s = []
        for t in (l, w):
            # undecided when rounding may change a digit
            sc = (t * 10 ** (acc + 3))
            if abs(sc - round(sc)) < F(1, 10 ** 6) or t < F(1, 10 ** 10):
                raise Skip('digit boundary')
            s.append(digits(t, 50)[:acc + 2])
        if s[0] == s[1]:
            keep.append((c, we, real))
    m.filtered_params = list(clicks)
    if variant == 'const':
        m.refine_clicks_with_const_num_of_iters(accuracy=acc, num_of_iterations=depth)
    else:
        m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=depth)
    got = m.get_filtered_params()
    h.check(len(got) == len(keep), '%d matches kept instead of %d', len(got), len(keep))
    for g, (c, we, real) in zip(got, keep):
        h.check(g[0] == c[0] and g[2] == c[2] and g[3] == c[3], 'match changed to %r', g)
        v = exact(g[1].get_val())
        s = -1 if (we > 0) != (real > 0) else 1
        d = v - s * real
        h.check(abs(d - round(d)) < F(1, 10 ** 30), 'adjusted value %s is not %s%s plus an integer', float(v),
                '-' if s < 0 else '', float(real))
        tol = 2 * F(10) ** -(acc - 1 if trunc else acc - 1 - len(str(int(abs(we)))))
        h.check(abs(v - we) <= tol, 'adjusted value %s does not match %s', float(v), float(we))
        h.check(round(d) == round(we - s * real), 'shifted by %s instead of %s', round(d), round(we - s * real))
    h.trivial = not keep
