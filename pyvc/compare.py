"""Equality of values (code against specification), decided structurally and by the solver."""
import z3
from .core import *
from .values import *


def conjb(*xs):
    return all(xs)


def same(I, a, b, rec=None, memo=None):
    """Whether a and b are equal on the current path. With rec (a name), every leaf becomes an obligation."""
    E = I.E
    memo = memo if memo is not None else set()

    def leaf(f):
        if rec is not None:
            return E.prove(rec, f)
        return E.valid(f)[0]

    def no(why):
        if rec is not None:
            E.fail(rec, why)
        return False

    def yes():
        if rec is not None:
            E.ok(rec)
        return True
    if a is b:
        return yes()
    if isinstance(a, list) and isinstance(b, list):      # parts
        return same_parts(I, a, b, rec, memo)
    if isinstance(a, Special) or isinstance(b, Special):
        return yes() if a is b else no('%r is not %r' % (a, b))
    if is_bool(a) and is_bool(b):
        return leaf(z3.BoolVal(a) == b if isinstance(a, bool) else a == b)
    if is_num(a) and is_num(b):
        x, y = to_term(a), to_term(b)
        if x.is_int() != y.is_int():
            x, y = to_real(x), to_real(y)
        if is_quot(x) and is_quot(y) and all(E.valid(u == v)[0] for u, v in zip(x.children(), y.children())):
            # (a quotient is a function of its arguments)
            return yes()
        return leaf(x == y)
    from .interp import MISSING
    if a is MISSING or b is MISSING or a is None or b is None:
        return no('%s against %s' % (short(a), short(b)))
    strs = (str, StrCat, z3.SeqRef)
    if isinstance(a, strs) and isinstance(b, strs):
        f = I.M.str_eq(a, b)
        if isinstance(f, bool):
            return yes() if f else no('%s against %s' % (short(a), short(b)))
        return leaf(f)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return no('%s against %s' % (short(a), short(b)))
        if not a:
            return yes()
        return all([same(I, x, y, rec, memo) for x, y in zip(a, b)])
    if isinstance(a, SV) and isinstance(b, SV):
        return leaf(a.term == b.term)
    seqs = (tuple, SSeq, VList, VGen)
    if isinstance(a, SV) or isinstance(b, SV):
        try:
            x, y = I.M.embed(a), I.M.embed(b)
        except Unsupported as e:
            return no(str(e))
        return leaf(x == y)
    if isinstance(a, seqs) and isinstance(b, seqs):
        ka, kb = I.M.kind(a), I.M.kind(b)
        if ka != kb:
            return no('a %s against a %s' % (ka, kb))
        if isinstance(a, SSeq) and isinstance(b, SSeq) and a.origin is not None and b.origin is not None:
            if E.valid(a.origin == b.origin)[0]:
                return yes()
        return same_parts(I, I.M.parts_of(a), I.M.parts_of(b), rec, memo)
    if isinstance(a, VSet) and isinstance(b, VSet):
        return same_parts(I, a.parts, b.parts, rec, memo)
    if isinstance(a, VDict) and isinstance(b, VDict):
        ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
        if len(ka) != len(kb):
            return no('dictionary keys %s against %s' % (short(ka), short(kb)))
        res = []
        for k, v in a.items:
            for k2, v2 in b.items:
                if k is k2 or (not is_term(k) and not is_term(k2) and type(k) is type(k2) and k == k2):
                    res.append(same(I, v, v2, rec, memo))
                    break
            else:
                return no('dictionary key %s' % short(k))
        return all(res) if res else yes()
    if isinstance(a, VObj) and isinstance(b, VObj):
        if (id(a), id(b)) in memo:
            return True
        memo.add((id(a), id(b)))
        if a.cls is not b.cls:
            return no('a %s against a %s' % (a.cls.name, b.cls.name))
        ka, kb = set(a.attrs), set(b.attrs)
        if ka != kb:
            return no('%s: attributes %s' % (a.cls.name, ka ^ kb))
        if getattr(a, 'volatile', False) != getattr(b, 'volatile', False):
            return no('%s: a shared object that changes later against an independent one' % a.cls.name)
        res = [same(I, a.attrs[k], b.attrs[k], rec and '%s.%s' % (rec, k), memo) for k in sorted(ka)]
        return all(res) if res else yes()
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return a.func is b.func and same(I, a.self_, b.self_, rec, memo) or no('methods')
    if isinstance(a, VFunc) and isinstance(b, VFunc) and a.node is b.node:
        return yes()
    return no('%s against %s' % (short(a), short(b)))


def is_quot(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV


def short(v):
    try:
        return repr(v)[:300]
    except Exception:
        return '<%s>' % type(v).__name__


def same_parts(I, pa, pb, rec, memo):
    E = I.E

    def no(why):
        if rec is not None:
            E.fail(rec, why)
        return False

    def thunk():
        return walk(list(pa), list(pb))

    def head(ps):
        """First element or block, with alternatives resolved by branching."""
        while ps:
            h = ps[0]
            if isinstance(h, Items):
                if not h.vals:
                    ps.pop(0)
                    continue
                return h
            if isinstance(h, Cond):
                ps[0:1] = list(I.pick(h.alts))
                continue
            if isinstance(h, (SSeq, Flat)):
                n = I.M.known_len(h.n)
                if n is not None and n <= 0:
                    ps.pop(0)
                    continue
                if n is not None and n <= 8:
                    exp = []
                    for i in range(n):
                        exp += block_item(I, h, i)
                    ps[0:1] = exp
                    continue
                return h
            return h
        return None

    def walk(a, b):
        while True:
            x, y = head(a), head(b)
            if x is None and y is None:
                if rec is not None:
                    E.ok(rec)
                return True
            if isinstance(x, Items) and isinstance(y, Items):
                m = min(len(x.vals), len(y.vals))
                for u, v in zip(x.vals[:m], y.vals[:m]):
                    if not same(I, u, v, rec, memo):
                        return False
                a[0], b[0] = Items(x.vals[m:]), Items(y.vals[m:])
                continue
            if isinstance(x, Mark) and isinstance(y, Mark) and x.lst is y.lst:
                a.pop(0), b.pop(0)
                continue
            if isinstance(x, (SSeq, Flat)) and isinstance(y, (SSeq, Flat)):
                f = to_term(x.n) == to_term(y.n)
                if E.valid(f)[0]:
                    if rec is not None:
                        E.prove(rec, f)
                    if isinstance(x, SSeq) and isinstance(y, SSeq) and x.origin is not None and \
                            y.origin is not None and E.valid(x.origin == y.origin)[0]:
                        a.pop(0), b.pop(0)
                        continue
                    i = E.int('e')

                    def inner():
                        return walk(block_item(I, x, i), block_item(I, y, i))
                    rs = E.explore(inner, base=E.ctx.facts + [i >= 0, i < to_term(x.n)])
                    if not all(r for _, r in rs):
                        return False
                    a.pop(0), b.pop(0)
                    continue
            if isinstance(x, (SSeq, Flat)) and isinstance(y, (SSeq, Flat)):
                # blocks of different length: the longer one is split
                cut = False
                for ps, h, o in ((a, x, y), (b, y, x)):
                    if E.valid(z3.And(to_term(o.n) >= 0, to_term(o.n) <= to_term(h.n)))[0]:
                        ps[0:1] = [resized(h, o.n), shift_block(I, h, to_term(o.n))]
                        cut = True
                        break
                if cut:
                    continue
            done = False
            for ps, h in ((a, x), (b, y)):
                if isinstance(h, (SSeq, Flat)):
                    if E.valid(to_term(h.n) <= 0)[0]:
                        ps.pop(0)
                        done = True
                        break
            if done:
                continue
            # a block no index of which contributes anything
            for ps, h, o in ((a, x, y), (b, y, x)):
                if isinstance(h, Flat) and o is None:
                    i = E.int('e')
                    rs = E.explore(lambda: same_parts(I, block_item(I, h, i), [], None, memo),
                                   base=E.ctx.facts + [i >= 0, i < to_term(h.n)])
                    if all(r for _, r in rs):
                        ps.pop(0)
                        done = True
            if done:
                continue
            # split off a first element
            for ps, h, o in ((a, x, y), (b, y, x)):
                if isinstance(h, (SSeq, Flat)) and o is not None and E.valid(to_term(h.n) >= 1)[0]:
                    first = block_item(I, h, 0)
                    rest = shift_block(I, h, 1)
                    ps[0:1] = first + [rest]
                    done = True
                    break
            if done:
                continue
            # a conditional emptiness: split the path
            for ps, h in ((a, x), (b, y)):
                if isinstance(h, (SSeq, Flat)):
                    if E.ctx.branch(to_term(h.n) <= 0):
                        ps.pop(0)
                    done = True
                    break
            if done and getattr(E.ctx, 'splits', 0) < 6:
                E.ctx.splits = getattr(E.ctx, 'splits', 0) + 1
                continue
            return no('%s against %s' % (short(x), short(y)))
    rs = E.explore(thunk)
    return all(r for _, r in rs)


def block_item(I, h, i):
    """Parts contributed by index i of a block."""
    pr = [(h.var, to_term(i))]
    if isinstance(h, SSeq):
        if len(h.alts) == 1:
            return [Items([subst(h.alts[0][1], pr)])]
        return [Cond([(subst(g, pr), [Items([subst(v, pr)])]) for g, v in h.alts])]
    return subst(h.parts, pr)


def shift_block(I, h, d):
    pr = [(h.var, h.var + d)]
    n = z3.simplify(to_term(h.n) - d)
    if isinstance(h, SSeq):
        return SSeq(n, h.var, [(subst(g, pr), subst(v, pr)) for g, v in h.alts], h.kind)
    return Flat(n, h.var, subst(h.parts, pr))


def resized(h, n):
    if isinstance(h, SSeq):
        return SSeq(n, h.var, h.alts, h.kind)
    return Flat(n, h.var, h.parts)
