from common import *
import itertools, math
import enum_poly_params as epp
import cont_fracs
RULE = 'random small coefficient ranges for 1..3 interlaced polynomials, all three families, all filters; non-trivial: something is yielded'


def expand(cls, ps, n):
    """All manipulated versions (as the family defines them, see C07)."""
    if cls == 'normal':
        return [tuple(ps)]
    if cls == 'indexed':
        out = []
        for p in ps:
            d = len(p) - 1
            out.append(tuple(sum(a * math.comb(d, j) * (i ** (d - j)) for i, a in enumerate(p)) for j in range(d + 1)))
        return [tuple(out)]
    places = list(itertools.combinations(range(n), len(ps[0])))
    res = []
    for choice in itertools.product(places, repeat=len(ps)):
        q = []
        for p, pl in zip(ps, choice):
            c = [0] * n
            for v, i in zip(p, pl):
                c[i] = v
            q.append(tuple(c))
        res.append(tuple(q))
    return res


def int_root(p):
    """True / False / None (the property leaves it open: only negative roots, or too many coefficients)."""
    if not any(p):
        return True
    c = list(p)
    while c[-1] == 0:
        c.pop()
    while c[0] == 0:
        c.pop(0)
    if len(c) > 3:
        return False
    if len(c) == 1:
        return False
    roots = [t for t in range(-abs(c[0]), abs(c[0]) + 1) if t and poly(c, t) == 0]
    if any(t > 0 for t in roots):
        return True
    return None if roots else False


def deg(p):
    return max([i for i, c in enumerate(p) if c] or [-1])


def trial(h):
    r = h.r
    kind = r.choice(['normal', 'normal', 'indexed', 'sparse'])
    cls = {'normal': epp.BasicEnumPolyParams, 'indexed': epp.IndexedParameterEnumPolyParams,
           'sparse': epp.SparseParameterEnumPolyParams}[kind]
    na, nb = r.randint(1, 3), r.randint(1, 3)

    def ranges(maxp, n):
        k = r.randint(1, min(2, n))
        res = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3][:maxp])):
            kk = k if kind == 'sparse' else r.randint(1, 3)
            rs = []
            for _ in range(kk):
                lo = r.randint(-2, 2)
                rs.append([lo, lo + r.choice([1, 1, 2, 3])])
            res.append(rs)
        return res
    ra, rb = ranges(6, na), ranges(6, nb)
    size = 1
    for q in ra + rb:
        for lo, hi in q:
            size *= hi - lo
    if size > 400:
        raise Skip('too large')
    opt = dict(enum_only_exp_conv=r.random() < 0.5, avoid_int_roots=r.random() < 0.5, avoid_zero_b=r.random() < 0.5,
               should_gen_contfrac=r.random() < 0.4, num_of_iterations=r.choice([0, 1, 3, 6]))
    h.note(kind=kind, range_a=ra, range_b=rb, n=(na, nb), **opt)
    en = cls(special_params=(na, nb) if kind == 'sparse' else None, prec=30, **opt)
    gen, ln = en.polys_generator(ra, rb) if r.random() < 0.5 else en.polys_generator(range_a=ra, range_b=rb)
    want_len = size
    if kind == 'sparse':
        want_len = size * math.comb(na, len(ra[0])) ** len(ra) * math.comb(nb, len(rb[0])) ** len(rb)
    h.check(ln == want_len, 'announced length %r instead of %r', ln, want_len)
    want = []
    for ca in itertools.product(*[itertools.product(*[range(lo, hi) for lo, hi in q]) for q in ra]):
        for pas in expand(kind, ca, na):
            for cb in itertools.product(*[itertools.product(*[range(lo, hi) for lo, hi in q]) for q in rb]):
                for pbs in expand(kind, cb, nb):
                    if opt['avoid_int_roots']:
                        v = [int_root(p) for p in pbs]
                        v = [cls._does_have_integer_roots(p) if t is None else t for t, p in zip(v, pbs)]
                        if any(v):
                            continue
                    pa, pb = pas, pbs
                    if len(set(pa)) == 1:
                        pa = pa[:1]
                    if len(set(pb)) == 1:
                        pb = pb[:1]
                    if opt['enum_only_exp_conv'] and len(pa) == len(pb) == 1 and deg(pb[0]) > 2 * deg(pa[0]):
                        continue
                    if opt['should_gen_contfrac'] and opt['avoid_zero_b'] and \
                            any(at(pb, i) == 0 for i in range(1, opt['num_of_iterations'] + 1)):
                        continue
                    want.append((pa, pb))
    got = []
    for item in gen:
        if opt['should_gen_contfrac']:
            cf, pa, pb = item
            h.check(tuple(cf.get_p_q()) == convergents(pa, pb, opt['num_of_iterations'])[-1],
                    'the fraction of %r does not carry these coefficients', (pa, pb))
            h.check(cf.get_num_of_executed_iters() == opt['num_of_iterations'], 'iterations of the fraction')
        else:
            pa, pb = item
        got.append((tup(pa), tup(pb)))
        h.check(len(got) <= len(want), 'yields %r in addition', got[-1])
    if kind == 'sparse':
        # the order of placements is free, except that a comes before b
        h.check(sorted(got) == sorted(want), 'yielded %r instead of %r', sorted(got)[:5], sorted(want)[:5])
    else:
        h.check(got == want, 'yielded %r instead of %r', got[:5], want[:5])
    h.trivial = not want
