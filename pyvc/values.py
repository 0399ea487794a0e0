"""Symbolic values: abstract terms, symbolic sequences, mutable objects."""
from fractions import Fraction
import z3
from .core import Unsupported

U = z3.DeclareSort('U')
I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
AIU, AIR, AII = z3.ArraySort(I, U), z3.ArraySort(I, R), z3.ArraySort(I, I)

LEN = z3.Function('LEN', U, I)
ITEM = z3.Function('ITEM', U, I, U)
UI = z3.Function('UI', U, I)          # int value of an abstract value
UR = z3.Function('UR', U, R)
UB = z3.Function('UB', U, B)
US = z3.Function('US', U, S)
MKI = z3.Function('MKI', I, U)
MKR = z3.Function('MKR', R, U)
MKB = z3.Function('MKB', B, U)
MKS = z3.Function('MKS', S, U)
SEQ = z3.Function('SEQ', AIU, I, U)   # sequence from element function and length
NONE = z3.Const('NONE', U)
NANU, PINFU, NINFU = (z3.Const(n, U) for n in ('NANU', 'PINFU', 'NINFU'))
SUMI = z3.Function('SUMI', AII, I, I)
SUMR = z3.Function('SUMR', AIR, I, R)
POWI = z3.Function('POWI', I, I, I)
POWR = z3.Function('POWR', R, I, R)
PROD = z3.Function('PROD', U, U)      # itertools.product of a sequence of iterables
_u, _i = z3.Const('_u', U), z3.Int('_i')


# products, quotients and remainders of two unknowns as unknown functions (where only their equality matters)
MULI, MULR = z3.Function('MULI', I, I, I), z3.Function('MULR', R, R, R)
QUOT, MODI = z3.Function('QUOT', R, R, R), z3.Function('MODI', I, I, I)


def is_value(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def mul_axioms():
    x, y, a, b = z3.Int('_x'), z3.Int('_y'), z3.Real('_a'), z3.Real('_b')
    return [z3.ForAll([x, y], MULI(x, y) == MULI(y, x), patterns=[MULI(x, y)]),
            z3.ForAll([a, b], MULR(a, b) == MULR(b, a), patterns=[MULR(a, b)])]


def base_axioms():
    x, n, i = z3.Real('_x'), z3.Int('_n'), z3.Int('_i')
    return [z3.ForAll([_u], LEN(_u) >= 0, patterns=[LEN(_u)]),
            z3.ForAll([i, n], z3.Implies(z3.And(i > 0, n >= 0), POWI(i, n) > 0), patterns=[POWI(i, n)]),
            z3.ForAll([x, n], z3.Implies(x > 0, POWR(x, n) > 0), patterns=[POWR(x, n)])]


TUPF = {}


def TUP(n):
    """Constructor of n-tuples of abstract values."""
    if n not in TUPF:
        TUPF[n] = z3.Function('TUP%d' % n, *([U] * n + [U])) if n else z3.Const('TUP0', U)
    return TUPF[n]


class Special:
    """NaN / infinities (of the multi-precision or float type)."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN, PINF, NINF = Special('nan'), Special('inf'), Special('-inf')


class Poison:
    def __init__(self, loc):
        self.loc = loc


class Either:
    """A location that holds value b if h (and then c holds), a otherwise; decided when it is read."""
    def __init__(self, a, b, c, h):
        self.a, self.b, self.c, self.h = a, b, c, h

    def resolve(self, E):
        return self.b if E.ctx.branch(z3.And(self.h, self.c)) else self.a


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class SV:
    """An opaque abstract value."""
    def __init__(self, term, shape):
        self.term, self.shape = term, shape

    def __repr__(self):
        return 'SV(%s)' % self.term


class SSeq:
    """Immutable sequence of symbolic length: element at index var is given by exhaustive guarded alternatives."""
    def __init__(self, n, var, alts, kind='list', origin=None, eshape=None, minlen=0):
        self.n, self.var, self.alts, self.kind, self.origin, self.eshape = n, var, alts, kind, origin, eshape

    def with_kind(self, kind):
        return SSeq(self.n, self.var, self.alts, kind, self.origin, self.eshape)

    def __repr__(self):
        return 'SSeq[%s](n=%s, %s -> %s)' % (self.kind, self.n, self.var, self.alts)


class Items:
    def __init__(self, vals):
        self.vals = list(vals)

    def __repr__(self):
        return 'Items%r' % (self.vals,)


class Cond:
    def __init__(self, alts):
        self.alts = alts           # [(guard, [parts])], exhaustive

    def __repr__(self):
        return 'Cond%r' % (self.alts,)


class Flat:
    """Concatenation of parts(var) for var = 0..n-1."""
    def __init__(self, n, var, parts):
        self.n, self.var, self.parts = n, var, parts

    def __repr__(self):
        return 'Flat(n=%s, %s, %r)' % (self.n, self.var, self.parts)


class Mark:
    """Placeholder for the (unread) earlier content of a list that a loop body only appends to."""
    def __init__(self, lst):
        self.lst = lst


class Serial:
    """Mutable objects carry their creation time."""
    count = 0

    def stamp(self):
        Serial.count += 1
        self.serial = Serial.count


class VList(Serial):
    """Python list object. parts: list of Items / SSeq / Cond / Flat."""
    def __init__(self, vals=None, parts=None):
        self.stamp()
        self.parts = parts if parts is not None else [Items(vals or [])]

    def concrete(self):
        """The list of values, or None if the length is not concrete."""
        out = []
        for p in self.parts:
            if isinstance(p, Items):
                out += p.vals
            else:
                return None
        return out

    def __repr__(self):
        return 'VList%r' % (self.parts,)


class VDict(Serial):
    """Dictionary with (mostly) concrete keys: association list in insertion order."""
    def __init__(self, items=None):
        self.stamp()
        self.items = list(items or [])       # [[key, value]]

    def __repr__(self):
        return 'VDict%r' % (self.items,)


class VSet(Serial):
    """Set: distinct values of the parts, in no particular order."""
    def __init__(self, parts=None):
        self.stamp()
        self.parts = list(parts or [])

    def __repr__(self):
        return 'VSet%r' % (self.parts,)


class VObj(Serial):
    def __init__(self, cls, attrs=None):
        self.stamp()
        self.cls, self.attrs = cls, attrs if attrs is not None else {}
        self.volatile = False

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, {k: v for k, v in self.attrs.items() if not isinstance(v, VObj)})


class VClass:
    def __init__(self, name, bases, ns, meta=None, module=None, qual=None):
        self.name, self.bases, self.ns, self.meta, self.module = name, bases, ns, meta, module
        self.qual = qual or name
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent mro')
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def lookup_after(self, after, name):
        mro = self.mro
        for c in mro[mro.index(after) + 1:]:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class VFunc:
    def __init__(self, node, env, module, name, qual, defaults, kwdefaults, cls=None, is_gen=False):
        self.node, self.env, self.module, self.name, self.qual = node, env, module, name, qual
        self.defaults, self.kwdefaults, self.cls, self.is_gen = defaults, kwdefaults, cls, is_gen
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Native:
    def __init__(self, name, fn, pure=True):
        self.name, self.fn, self.pure = name, fn, pure

    def __repr__(self):
        return '<native %s>' % self.name


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class Property:
    def __init__(self, get, set_=None):
        self.get, self.set_ = get, set_


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VModule:
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns if ns is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class VGen(Serial):
    """A generator that was not started yet."""
    def __init__(self, run, env=None):
        self.stamp()
        self.pos = 0         # 1: used up
        self.run = run       # () -> parts
        self.cached = None
        self.env = env


class VIter(Serial):
    """Iterator over concrete values with a position."""
    def __init__(self, vals):
        self.stamp()
        self.vals, self.pos = list(vals), 0


class Env(Serial):
    def __init__(self, parent=None, fn=None):
        self.stamp()
        self.vars, self.parent, self.fn = {}, parent, fn
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.is_class = False


class StrCat:
    """String made of concrete pieces and formatted symbolic pieces ('num', term) / ('str', value)."""
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, StrCat):
                ps = p.pieces
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' or not isinstance(q, str):
                    out.append(q)
        self.pieces = out

    def __repr__(self):
        return 'StrCat%r' % (self.pieces,)


def is_term(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_intlike(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_reallike(v):
    return isinstance(v, (Fraction, float)) or (isinstance(v, z3.ArithRef) and v.is_real())


def to_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(Fraction(v))
    if isinstance(v, str):
        return z3.StringVal(v)
    if is_term(v):
        return v
    raise Unsupported('no term for %r' % (v,))


def to_real(v):
    t = to_term(v)
    if isinstance(t, z3.BoolRef):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.is_int():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def to_bool_term(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def conc(t):
    """Back to a Python number when the term is a literal."""
    if isinstance(t, z3.ArithRef):
        if z3.is_int_value(t):
            return t.as_long()
    return t


def envs_of(f):
    """The local environments a closure refers to (not that of its module)."""
    e = f.env
    while e is not None and e.parent is not None:
        yield e
        e = e.parent


def subst(v, pairs):
    """Substitution of z3 constants in a value, structurally. Objects become fresh copies (templates)."""
    if not pairs:
        return v
    memo = {}

    def go(v):
        if is_term(v):
            return z3.substitute(v, *pairs)
        if v is None or isinstance(v, (bool, int, float, Fraction, str, bytes, Special, Native, VClass, VModule, Mark)):
            return v
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, SV):
            return SV(go(v.term), v.shape)
        if isinstance(v, StrCat):
            return StrCat([go(p) if not isinstance(p, str) else p for p in v.pieces])
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, SSeq):
            r = SSeq(go(v.n), v.var, [(go(g), go(x)) for g, x in v.alts], v.kind,
                     go(v.origin) if v.origin is not None else None, v.eshape)
        elif isinstance(v, Items):
            r = Items(go(v.vals))
        elif isinstance(v, Cond):
            r = Cond([(go(g), go(p)) for g, p in v.alts])
        elif isinstance(v, Flat):
            r = Flat(go(v.n), v.var, go(v.parts))
        elif isinstance(v, VList):
            r = memo[id(v)] = VList(parts=None)
            r.parts = go(v.parts)
            return r
        elif isinstance(v, VDict):
            r = memo[id(v)] = VDict()
            r.items = [[go(k), go(x)] for k, x in v.items]
            return r
        elif isinstance(v, VSet):
            r = memo[id(v)] = VSet()
            r.parts = go(v.parts)
            return r
        elif isinstance(v, VObj):
            r = memo[id(v)] = VObj(v.cls, {})
            r.volatile = v.volatile
            if hasattr(v, 'keep'):
                r.keep = v.keep
            r.attrs = {k: go(x) for k, x in v.attrs.items()}
            return r
        elif isinstance(v, Either):
            r = Either(go(v.a), go(v.b), go(v.c), go(v.h))
        elif isinstance(v, BoundMethod):
            r = BoundMethod(go(v.func), go(v.self_))
        elif isinstance(v, VGen) and v.cached is not None:
            r = VGen(None)
            r.cached = go(v.cached)
        elif isinstance(v, (VFunc, VGen)):
            # a closure is kept as it is; so what it refers to must not depend on what is replaced
            vs = {x.decl().name() for x, _ in pairs}
            from .loops import loose
            for e in envs_of(v):
                if vs & loose([x for x in e.vars.values() if not isinstance(x, (Poison, VFunc, VClass, Env))]):
                    raise Unsupported('a function or generator made in a loop that refers to the loop variable')
            return v
        elif isinstance(v, (Env, VIter, SuperProxy)):
            return v
        else:
            raise Unsupported('substitution in %r' % (v,))
        memo[id(v)] = r
        return r
    return go(v)


FREE = {}       # id of a term -> (names of its constants, the term)


def free_consts(t, acc=None):
    """Names of uninterpreted constants in a z3 term."""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.get_id() in FREE:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            kids = [x.body()]
        elif z3.is_app(x):
            kids = x.children()
        else:
            kids = []
        todo = [c for c in kids if c.get_id() not in FREE]
        if todo:
            stack += todo
            continue
        stack.pop()
        if kids:
            sets = {FREE[c.get_id()][0] for c in kids}
            r = sets.pop() if len(sets) == 1 else frozenset().union(*sets)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([x.decl().name()])
        else:
            r = frozenset()
        FREE[x.get_id()] = (r, x)
    r = FREE[t.get_id()][0]
    if acc is None:
        return r
    acc |= r
    return acc


def value_consts(v, acc=None):
    """Names of constants anywhere in a value."""
    acc = set() if acc is None else acc
    seen = set()

    def go(v):
        if is_term(v):
            free_consts(v, acc)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, SV):
            free_consts(v.term, acc)
        elif isinstance(v, StrCat):
            for p in v.pieces:
                go(p)
        elif id(v) in seen:
            return
        else:
            seen.add(id(v))
            if isinstance(v, SSeq):
                go(v.n)
                for g, x in v.alts:
                    go(g), go(x)
                if v.origin is not None:
                    go(v.origin)
            elif isinstance(v, Items):
                go(v.vals)
            elif isinstance(v, Cond):
                for g, p in v.alts:
                    go(g), go(p)
            elif isinstance(v, Flat):
                go(v.n), go(v.parts)
            elif isinstance(v, VList):
                go(v.parts)
            elif isinstance(v, VDict):
                for k, x in v.items:
                    go(k), go(x)
            elif isinstance(v, VSet):
                go(v.parts)
            elif isinstance(v, VObj):
                go(list(v.attrs.values()))
    go(v)
    return acc
