from common import *
import enum_params, cont_fracs, itertools
RULE = 'random match lists with controlled classifications (also failing ones) and numerators built from roots; non-trivial: something is dropped'


class Fake(cont_fracs.ContFrac):
    """The real class with the classification decided by a table."""
    table = {}

    def __init__(self, a_coeffs, b_coeffs, *a, **k):
        self.key = tup(a_coeffs)
        super().__init__(a_coeffs, b_coeffs, *a, **k)

    def is_convergence_fast(self, *a, **k):
        v = self.table[self.key][0]
        if v is None:
            raise cont_fracs.ZeroB(3)
        return v

    def estimate_approach_type_and_params(self, *a, **k):
        t = self.table[self.key][1]
        if t == 'fail':
            raise r_exc()
        self.set_approach_type_and_params((t, ('param', t)))


def r_exc():
    return ZeroDivisionError('classification fails')


def trial(h):
    r = h.r
    kind = r.choice(['fast', 'type', 'roots'] * 10 + ['real'])
    m = enum_params.MITM()
    n = r.randint(0, 7)
    if kind == 'roots':
        ms, want = [], []
        for j in range(n):
            polys, bad = [], False
            for _ in range(r.randint(1, 3)):
                p = [r.choice([1, -1, 2])]
                used = set()
                for _ in range(r.randint(0, 3)):
                    t = r.random()
                    if t < 0.25:
                        root = r.choice([1, 2, 3, 5])
                        f = [-root, 1]
                        bad = True
                    elif t < 0.45:
                        root = -r.choice([1, 2, 4])
                        f = [-root, 1]
                    elif t < 0.6:
                        root = F(2 * r.randint(0, 4) + 1, 2)
                        f = [-root.numerator, root.denominator]
                    elif t < 0.75:
                        root = ('c', r.randint(-3, 3), r.randint(1, 3))
                        f = [root[1] ** 2 + root[2], -2 * root[1], 1]     # complex roots t +- i sqrt
                    elif t < 0.85:
                        root = F(r.choice([2005, 1995, 3010]), 1000)
                        f = [-root.numerator, root.denominator]
                    else:
                        root = r.choice([F(20003, 10000), F(9997, 10000)])
                        f = [-root.numerator, root.denominator]
                        bad = True
                    if any(isinstance(u, (int, F)) and isinstance(root, (int, F)) and abs(u - root) < F(1, 2) or u == root for u in used):
                        raise Skip('multiple roots')
                    used.add(root)
                    q = [0] * (len(p) + len(f) - 1)
                    for x, c in enumerate(p):
                        for y, e in enumerate(f):
                            q[x + y] += c * e
                    p = q
                if r.random() < 0.15:
                    p = [0] + p           # a root at 0 is not positive
                polys.append(tuple(p))
            click = ((((j, 1),), tuple(polys)), object(), j, ('exp', j))
            ms.append(click)
            if not bad:
                want.append(click)
        h.note(kind=kind, numerators=[c[0][1] for c in ms])
        m.filtered_params = list(ms)
        m.filter_pos_integer_roots_numerators()
    elif kind == 'real':
        ms = [((tup(rpolys(r, 2, 1, 4)), tup([[c or 2 for c in rcoefs(r, r.randint(0, 1), 4)] for _ in range(r.randint(1, 2))])),
               object(), j, None) for j in range(r.randint(1, 3))]
        want = []
        for c in ms:
            try:
                if cont_fracs.ContFrac(c[0][0], c[0][1]).is_convergence_fast():
                    want.append(c)
            except cont_fracs.ZeroB:
                pass
        h.note(kind=kind, matches=[c[0] for c in ms])
        m.filtered_params = list(ms)
        m.filter_only_exp_convergence()
    else:
        types = ['exp', 'super_exp', 'fast', 'undefined', 'mixed', 'poly2sympoly', 'fail', None]
        ms, want, tab = [], [], {}
        for j in range(n):
            tab[((j, 1),)] = (r.choice([True, False, True, False, None]), r.choice(types))
            ms.append(((((j, 1),), ((3, j),)), object(), j, None))
        h.note(kind=kind, classes=tab)
        m.filtered_params = list(ms)
        Fake.table = tab
        with patched((cont_fracs.ContFrac, Fake)):
            if kind == 'fast':
                pr = r.random() < 0.3
                st, e = safe(m.filter_only_exp_convergence, *([pr] if pr else []))
                if pr and any(t[1] == 'fail' and not t[0] for t in tab.values()):
                    raise Skip('printing needs the classification')
                h.check(st == 'ok', 'raises %r', e)
                want = [c for c in ms if tab[c[0][0]][0]]
            else:
                w = r.choice([None, [], ['exp'], ['exp', 'super_exp', 'fast'], ['mixed', 'undefined']])
                b = r.choice([None, None, [], ['exp'], ['undefined', 'mixed', 'poly2sympoly']])
                use_default = r.random() < 0.3
                h.note(white=w, black=b, default=use_default)
                kw = {} if use_default else {'whitelist': w, 'blacklist': b}
                st, e = safe(m.filter_clicks_by_approach_type, **kw)
                if use_default:
                    w, b = ['exp', 'super_exp', 'fast'], None
                if bool(w) == bool(b):
                    h.check(st == 'exc' and isinstance(e, ValueError), 'white list %r and black list %r accepted', w, b)
                    h.check(m.get_filtered_params() == ms, 'rejected call changed the matches')
                    return
                h.check(st == 'ok', 'raises %r', e)
                for c in ms:
                    t = tab[c[0][0]][1]
                    if t == 'fail':
                        continue
                    if (t in w) if w else (t not in b):
                        want.append(c[:3] + ((t, ('param', t)),))
    got = m.get_filtered_params()
    h.check(len(got) == len(want), 'kept %r instead of %r', [g[2] for g in got], [w[2] for w in want])
    for g, w in zip(got, want):
        h.check(g[0] == w[0] and g[1] is w[1] and g[2] == w[2] and (g[3] == w[3]), 'match %r instead of %r', g, w)
    h.trivial = len(want) == n
