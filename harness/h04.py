from common import *
import cont_fracs
RULE = 'numerator polynomials with planted roots (also at 0), generate then add in random portions, logging on/off; non-trivial: a numerator vanishes'


def trial(h):
    r = h.r
    a = rpolys(r)
    b = []
    for _ in range(r.randint(1, 3)):
        p = [r.choice([-2, -1, 1, 3])]
        for _ in range(r.randint(0, 2)):
            t = r.choice([0, 1, 2, 3, 5, r.randint(-3, 12)])
            q = [0] * (len(p) + 1)
            for i, c in enumerate(p):
                q[i] -= t * c
                q[i + 1] += c
            p = q
        if r.random() < 0.1:
            p = [0] * r.randint(1, 2)
        b.append(p)
    avoid = r.random() < 0.8
    logging = r.random() < 0.4
    portions = [r.randint(0, 6) for _ in range(r.randint(1, 4))]
    h.note(a=a, b=b, avoid=avoid, logging=logging, portions=portions)
    kw = {'avoid_zero_b': avoid}
    if avoid and r.random() < 0.3:
        kw = {}                      # avoidance is the default
    if r.random() < 0.2:
        cf = cont_fracs.ContFrac([[5, 1], [1]], [[2, 1]], logging=logging, **kw)
        cf.gen_iterations(r.randint(0, 4))
        cf.reinitialize(a, b)
    else:
        cf = cont_fracs.ContFrac(a, b, logging=logging, **kw)
    done = 0
    h.trivial = True
    for j, k in enumerate(portions):
        f = (lambda: cf.gen_iterations(k)) if j == 0 else (lambda: cf.add_iterations(k))
        first = next((i for i in range(done + 1, done + k + 1) if at(b, i) == 0), None)
        st, e = safe(f)
        if avoid and first is not None:
            h.trivial = False
            h.check(st == 'exc' and isinstance(e, cont_fracs.ZeroB), 'b_%d = 0 but got %r', first, e)
            h.check(e.args and e.args[0] == first, 'ZeroB carries %r instead of %d', e.args, first)
            return
        h.check(not (st == 'exc' and isinstance(e, cont_fracs.ZeroB)), 'ZeroB %r although no numerator in %d..%d is 0',
                e, done + 1, done + k)
        h.check(st == 'ok', 'raised %r', e)
        if first is not None:
            h.trivial = False
        done += k
    if at(b, 0) == 0:
        h.trivial = False
