from common import *
import enum_params, enum_poly_params as epp
from h24 import want as postproc
RULE = 'random small ranges, families, depths, function selections; builds, extensions with and without validation, changed precision; non-trivial: something is stored'


def expected(mitm, ra, rb, funcs, depth, trunc):
    """{(pair, function index): value} and the pairs that are numerically undecided."""
    sure, open_ = {}, set()
    gen, _ = mitm.rhs_polys_enumer.polys_generator(range_a=ra, range_b=rb)
    for pa, pb in gen:
        pa, pb = tup(pa), tup(pb)
        try:
            v = nested([at(pa, i) for i in range(depth)], [at(pb, i) for i in range(1, depth)])
        except ZeroDivisionError:
            if any(i in (20, 21) for i in funcs):
                raise Skip('exponential beyond the machine')
            open_.add((pa, pb))
            continue
        if v == 0 or abs(v) < F(1, 10 ** 25):
            if any(i in (20, 21) for i in funcs):
                raise Skip('exponential beyond the machine')
            open_.add((pa, pb))
            continue
        with dps(100):
            x = to_mpf(v)
            if abs(v) > 10 ** 4 and any(i in (20, 21) for i in funcs):
                raise Skip('exponential beyond the machine')
            for i in funcs:
                w = postproc(i, x)
                if mpmath.isnan(w) or mpmath.isinf(w):
                    if i // 2 in (5, 11) and v < 0:
                        continue              # certainly NaN
                    open_.add((pa, pb, i))
                    continue
                if abs(w) < mpf(10) ** -25 or abs(w) > mpf(10) ** 25:
                    open_.add((pa, pb, i))
                    continue
                w = abs(w)
                sure[((pa, pb), i)] = (w - int(w)) if trunc else w
    return sure, open_


def entries(mitm):
    out = []
    for k, v in dict.items(mitm.dec_hashtable):
        if 'parameters'.startswith(k):
            continue
        for ab, i in v:
            out.append((k, (tup(ab[0]), tup(ab[1])), i))
    return out


def matches(k, w, trunc):
    if '.' not in k:
        # a large value, cut in its integral part
        return any(str(int(exact(w) * F(10 ** 12 + e, 10 ** 12))).startswith(k) for e in (0, 1, -1)) or \
            any(str(int(exact(w)) + e).startswith(k) for e in (-1, 1))
    kv = F(k)
    d = F(1, 10 ** (len(k) - 1 - k.index('.'))) if '.' in k else F(1)
    w = exact(w)
    diff = abs(w - kv)
    if trunc:
        diff = min(diff, abs(diff - 1))
    return diff <= d * F(11, 10) + F(1, 10 ** 20)


def trial(h):
    r = h.r
    kind = r.choice(['normal', 'normal', 'indexed', 'sparse'])
    cls = {'normal': epp.BasicEnumPolyParams, 'indexed': epp.IndexedParameterEnumPolyParams,
           'sparse': epp.SparseParameterEnumPolyParams}[kind]
    depth = r.randint(1, 12)
    trunc = r.random() < 0.7
    prec = r.randint(4, 15)

    def ranges():
        res = []
        for _ in range(r.choice([1, 1, 2])):
            rs = []
            for _ in range(1 if kind == 'sparse' else r.randint(1, 3)):
                lo = r.randint(-2, 3)
                rs.append([lo, lo + r.choice([1, 1, 2, 3])])
            res.append(rs)
        return res
    pool = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 20, 21, 22, 23]
    funcs = r.sample(pool, r.randint(1, 4))
    ra, rb = ranges(), ranges()
    h.note(kind=kind, depth=depth, trunc=trunc, prec=prec, funcs=funcs, range_a=ra, range_b=rb)

    def size(ra, rb):
        s = 1
        for q in ra + rb:
            for lo, hi in q:
                s *= hi - lo
        return s
    if size(ra, rb) > 60:
        raise Skip('too large')
    mitm = enum_params.MITM(postproc_funcs_filter=funcs, trunc_integer=trunc, hashtable_prec=prec, ab_poly_class=cls,
                            ab_poly_special_params=(2, 2) if kind == 'sparse' else None,
                            enum_only_exp_conv=r.random() < 0.5, num_of_iterations=depth, prec=50)
    sure, open_ = expected(mitm, ra, rb, funcs, depth, trunc)
    mitm.build_hashtable(ra, rb)

    def verify(sure, open_, what, doubles=()):
        es = entries(mitm)
        seen = {}
        for k, ab, i in es:
            if (ab, i) in sure:
                h.check(matches(k, sure[ab, i], trunc), '%s: %r, %d stored under %s instead of %s', what, ab, i, k,
                        mpmath.nstr(sure[ab, i], 20))
            else:
                h.check(ab in open_ or ab + (i,) in open_, '%s: %r, %d stored under %s in addition', what, ab, i, k)
            h.check((k, ab, i) not in seen, '%s: %r, %d twice under %s', what, ab, i, k)
            seen[k, ab, i] = 1
        cnt = {}
        for k, ab, i in es:
            cnt[ab, i] = cnt.get((ab, i), 0) + 1
        for e in sure:
            h.check(e in cnt, '%s: %r, %d is missing', what, e[0], e[1])
            if e not in doubles:
                h.check(cnt[e] == 1, '%s: %r, %d stored %d times', what, e[0], e[1], cnt[e])
        return es
    first = verify(sure, open_, 'build')
    h.trivial = not first
    if r.random() < 0.5:
        return
    # extension
    mitm.dec_hashtable['parameters'] = {'target_name': 'pi'}
    funcs2 = r.sample(pool, r.randint(1, 3)) + (r.sample(funcs, 1) if r.random() < 0.7 else [])
    funcs2 = list(dict.fromkeys(funcs2))
    prec2 = r.choice([prec, prec, prec + 2, max(1, prec - 2)])
    ra2, rb2 = (ra, rb) if r.random() < 0.6 else (ranges(), ranges())
    if size(ra2, rb2) > 60:
        raise Skip('too large')
    validate = r.random() < 0.7
    h.note(extension=(funcs2, prec2, ra2, rb2, validate))
    mitm.redefine_settings(postproc_funcs_filter=funcs2, trunc_integer=trunc, hashtable_prec=prec2,
                           ab_poly_class=cls, ab_poly_special_params=(2, 2) if kind == 'sparse' else None, prec=50)
    s2, o2 = expected(mitm, ra2, rb2, funcs2, depth, trunc)
    if validate and r.random() < 0.5:
        mitm.build_hashtable(ra2, rb2)
    else:
        mitm.build_hashtable(ra2, rb2, validate_entry_doesnt_exist=validate)
    doubles = () if validate or prec2 == prec else set(s2)
    after = verify(dict(sure, **{}) | s2 if False else {**sure, **s2}, open_ | o2, 'extension', doubles)
    now = set(after)
    for e in first:
        h.check(e in now, 'entry %r was lost or moved', e)
