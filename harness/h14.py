from common import *
import enum_params
RULE = 'random match lists with an arbitrary (also asymmetric) equivalence relation; non-trivial: something is dropped'


class Lhs:
    def __init__(self, rel):
        self.rel = rel

    def is_equiv(self, p1, p2):
        return self.rel(p1, p2)


def trial(h):
    r = h.r
    n = r.randint(0, 10) if r.random() < 0.7 else r.randint(40, 300)
    cls = [r.randint(0, max(4, n * 2 // 3)) for _ in range(n)]
    kind = r.choice(['equivalence', 'equivalence', 'relation'])
    dens = min(0.25, 2.5 / max(n, 1))
    tab = {(i, j): r.random() < dens for i in range(n) for j in range(n)}
    idx = {}

    def rel(p1, p2):
        i, j = p1[2], p2[2]
        return cls[i] == cls[j] if kind == 'equivalence' else (i == j or tab[i, j])
    ms = [(((i,),), Lhs(rel), i, ('exp', i)) for i in range(n)]
    h.note(kind=kind, classes=cls, relation=[k for k, v in tab.items() if v][:400] if kind == 'relation' else None)
    m = enum_params.MITM()
    m.filtered_params = list(ms)
    m.filter_uniq_params()
    got = m.get_filtered_params()
    want = []
    for p in ms:
        if not any(rel(q, p) for q in want):
            want.append(p)
    h.check([g[2] for g in got] == [w[2] for w in want], 'kept %r instead of %r', [g[2] for g in got], [w[2] for w in want])
    for g, w in zip(got, want):
        h.check(g[0] == w[0] and g[1] is w[1] and g[3] == w[3], 'match %r changed', g)
    m.filter_uniq_params()
    h.check([g[2] for g in m.get_filtered_params()] == [w[2] for w in want], 'filtering again changes the result')
    h.trivial = len(want) == n
