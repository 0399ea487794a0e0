from common import *
import itertools, math
import enum_poly_params as epp
from h06 import expand
RULE = 'random interlaced parameters of degree 0..8 for the indexed and the sparse family (sizes up to 6); non-trivial: some nonzero parameter'


def trial(h):
    r = h.r
    kind = r.choice(['normal', 'indexed', 'indexed', 'sparse', 'sparse'])
    if kind == 'sparse':
        na, nb = r.randint(1, 5), r.randint(1, 5)
        which = r.choice('ab')
        n = na if which == 'a' else nb
        k = r.randint(1, n)
        m = r.choice([1, 1, 2, 2, 3])
        if math.comb(n, k) ** m > 1500:
            raise Skip('too large')
        ps = tuple(tuple(r.choice([r.randint(1, 50), r.randint(-5, 5)]) for _ in range(k)) for _ in range(m))
        h.note(kind=kind, special_params=(na, nb), which=which, poly=ps)
        en = epp.SparseParameterEnumPolyParams(special_params=(na, nb), prec=30)
        got = [tup(p) for p in en.manipulate_poly(ps, which)]
        want = expand(kind, ps, n)
        h.check(sorted(got) == sorted(want), 'expands to %d polynomials %r..., expected %d', len(got), got[:3], len(want))
    else:
        lim = r.choice([3, 40, 10 ** 6])
        ps = tuple(tuple(rcoefs(r, r.randint(0, 8), lim)) for _ in range(r.randint(1, 3)))
        cls = epp.BasicEnumPolyParams if kind == 'normal' else epp.IndexedParameterEnumPolyParams
        h.note(kind=kind, poly=ps)
        got = [tup(p) for p in cls.manipulate_poly(ps, r.choice('ab'))]
        want = expand(kind, ps, 0)
        h.check(got == want, 'expands to %r instead of %r', got, want)
        if kind == 'indexed':
            for p, q in zip(ps, got[0]):
                for x in (0, 1, -2, 7):
                    d = len(p) - 1
                    h.check(poly(q, x) == sum(a * (x + i) ** d for i, a in enumerate(p)), 'value at %d', x)
                h.check(all(isinstance(c, int) for c in q), 'coefficients %r are not integers', q)
    h.trivial = not any(any(p) for p in ps)
