"""Pieces shared by several contract files."""
import z3
from .core import *
from .values import *

POLY = ('seq', 'int', 'tuple')
POLYS = ('seq', POLY, 'tuple')
AB = ('tup', (POLYS, POLYS))


def bind(I, what, names, defaults, args, kw):
    """Arguments of an assumed function, by the names of its parameters."""
    if len(args) > len(names) or any(k not in names for k in kw):
        I.raise_('TypeError', 'arguments of %s' % what)
    d = dict(zip(names, args))
    for k in kw:
        if k in d:
            I.raise_('TypeError', 'arguments of %s' % what)
    d.update(kw)
    for k in names:
        if k not in d:
            if k not in defaults:
                I.raise_('TypeError', 'arguments of %s' % what)
            d[k] = defaults[k]
    return d


def need(I, cond, what):
    """A precondition of an assumed function that is decided structurally."""
    if not cond:
        I.unsup('precondition of an assumed contract: ' + what)


def sig(V, qual):
    """Parameter names and constant defaults of a function of the repository, read from its current source."""
    f = V.get(qual)
    if isinstance(f, (ClassMethod, StaticMethod)):
        f = f.f
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names, f


class Table:
    """A decimal hashtable seen from outside (C09 says what it does): an arbitrary map from numbers to lists of items."""
    def __init__(self, V, name='table', item=None):
        self.V = V
        self.HAS = z3.Function(name + '_HAS', R, B)
        self.AT = z3.Function(name + '_AT', R, U)
        self.item = item or ('tup', (AB, 'int'))

    def key(self, k):
        M = self.V.M
        if not is_num(k):
            M.I.unsup('key %r of the table' % (k,))
        return to_real(k)

    def vcontains(self, I, x):
        return self.HAS(self.key(x))

    def vgetitem(self, I, x):
        k = self.key(x)
        if not I.truth(self.HAS(k)):
            I.raise_('KeyError', 'not in the table')
        return self.V.M.view(self.AT(k), ('seq', self.item, 'list'))

    def vattr(self, I, name):
        if name == 'get':
            def get(I_, a, k):
                d = bind(I_, 'get', ['key', 'default'], {'default': None}, a, k)
                return self.vgetitem(I_, d['key']) if I_.truth(self.vcontains(I_, d['key'])) else d['default']
            return Native('get', get)
        if name == '__contains__':
            return Native(name, lambda I_, a, k: self.vcontains(I_, *a))
        if name == '__getitem__':
            return Native(name, lambda I_, a, k: self.vgetitem(I_, *a))
        return None


def fresh_copy(V, name='COPY'):
    """A copy made of an opaque object, told apart by the iterations of the loops it is made in."""
    def f(I, a, k):
        u = V.M.embed(a[0])
        vs = list(I.loopvars)
        return SV(z3.Function('%s_%d' % (name, len(vs)), *([U] + [z3.IntSort()] * len(vs) + [U]))(u, *vs), ('obj', 'lhs'))
    return Native(name, f)


class Fractions:
    """A continued fraction: values A(i), B(i) of the coefficients, convergents P(i)/Q(i), and the loop invariants of
    iterating it. The value of a polynomial at a point is the assumed contract of subs_in_polynom (C05)."""
    def __init__(self, V):
        self.V = V
        M = V.M
        self.VAL = z3.Function('VAL', U, I, I)
        self.P, self.Q = z3.Function('P', I, I), z3.Function('Q', I, I)
        self.A, self.B = z3.Function('A', I, I), z3.Function('B', I, I)
        V.I.stubs['utils:MathOperations.subs_in_polynom'] = self.subs
        # products and quotients of unknowns are unknown functions: the recurrence only needs equal arguments
        M.opaque_mul = True
        V.E.axioms += mul_axioms()

    def at(self, c, i):
        """The polynomial responsible for index i."""
        M = self.V.M
        if self.form == 'single':
            return M.embed(c)
        return M.embed(M.item(c, M.arith('Mod', to_term(i), to_term(M.length(c))), inside=True))

    def subs(self, I_, a, k):
        d = bind(I_, 'subs_in_polynom', ['coeffs', 'x'], {}, a, k)
        x = to_term(d['x'])
        need(I_, x.is_int(), 'an integer point')
        I_.E.use('the value of a polynomial with integer coefficients at an integer is the integer sum of c_j*x**j (C05)')
        return self.VAL(self.V.M.embed(d['coeffs']), x)

    def setup(self, form):
        V, M = self.V, self.V.M
        out = []
        self.form = form
        for name, f in (('a', self.A), ('b', self.B)):
            if form == 'single':
                c = V.list(name, 'int')
                V.assume(to_term(M.length(c)) >= 1)
                first = M.getitem(c, 0)
            else:
                c = V.seq(name, POLYS if form == 'tuples' else ('seq', ('seq', 'int', 'list'), 'list'),
                          'tuple' if form == 'tuples' else 'list')
                c = V.M.view(z3.Const(name, U), POLYS) if form == 'tuples' else \
                    V.list(name, ('seq', 'int', 'list'))
                n = to_term(M.length(c))
                V.assume(n >= 1)
                if name == 'a':
                    V.assume(to_term(M.length(M.getitem(c, 0))) >= 1)
                    first = M.getitem(M.getitem(c, 0), 0)
            if name == 'a':
                # the value at 0 of a polynomial is its first coefficient (lemma of C01)
                V.define(f(z3.IntVal(0)) == to_term(first))
                V.define(self.VAL(self.at(c, z3.IntVal(0)), 0) == to_term(first))
            out.append(c)
        for X, x0, x1 in ((self.P, self.A(z3.IntVal(0)), 1), (self.Q, z3.IntVal(1), 0)):
            V.define(X(-1) == x1)
            V.define(X(0) == x0)
        self.coeffs = out
        self.iterating()
        return out

    def iterating(self, offset=0, res0=1):
        """What the loops that iterate the fraction compute, having computed offset iterations before."""
        self.V.I.families['*'] = [lambda I_, k: self.state(k + self.offset), lambda I_, k: self.params(k + self.offset)]
        self.offset, self.res0 = offset, res0

    def unfold(self, i):
        """The defining equations at i (instances of the recursive definition, for i >= 1)."""
        i = z3.simplify(to_term(i))
        a, b = self.coeffs
        self.V.define(z3.Implies(i >= 1, z3.And([X(i) == MULI(X(z3.simplify(i - 1)), self.A(i)) +
                                                 MULI(X(z3.simplify(i - 2)), self.B(i)) for X in (self.P, self.Q)])))
        self.index(i)

    def index(self, i):
        a, b = self.coeffs
        self.V.define(z3.Implies(i >= 0, z3.And(self.A(i) == self.VAL(self.at(a, i), i), self.B(i) == self.VAL(self.at(b, i), i))))

    def state(self, k):
        k = to_term(k)
        k = z3.simplify(to_term(k))
        self.unfold(k + 1)
        j = z3.simplify(k - 1)
        return ((self.P(k), self.P(j)), (self.Q(k), self.Q(j)))

    def res(self, k):
        """The result of iteration k, with logging."""
        I_, k = self.V.I, z3.simplify(to_term(k))
        if I_.truth(k <= 0):
            return self.res0
        if I_.truth(self.Q(k) == 0):
            return NAN
        return QUOT(z3.ToReal(self.P(k)), z3.ToReal(self.Q(k)))

    def params(self, k):
        a, b = [c if self.form != 'single' else VList([c]) for c in self.coeffs]
        return VDict([['a_coeffs', a], ['b_coeffs', b], ['contfrac_res', self.res(k)]])


POINTS = ('generic', 'target', 'zero')


class Poly:
    """A polynomial over Z or Q: a sum of coefficients (integers or reals) times products of unknown polynomials."""
    def __init__(self, ps, terms):
        self.ps = ps
        self.terms = {}
        E = ps.V.E
        for mono, c in terms.items():
            c = ps.V.M.simp(to_term(c)) if is_term(c) else c
            if is_term(c) and E.valid(c == 0)[0]:
                c = 0
            if is_term(c) and E.valid(c == 1)[0]:
                c = 1
            if is_term(c) or c != 0:
                self.terms[mono] = c
        self.key = tuple(sorted((m, str(c)) for m, c in self.terms.items()))

    def integral(self):
        return all(to_term(c).is_int() and all(self.ps.atoms[a].int for a in m) for m, c in self.terms.items())

    def ev(self, point):
        t = z3.RealVal(0)
        for m, c in self.terms.items():
            p = to_real(c)
            for a in m:
                p = p * self.ps.atoms[a].ev[point]
            t = t + p
        return z3.simplify(t)

    def vbinop(self, I, op, b):
        if is_num(b) and not isinstance(b, Special):
            b = Poly(self.ps, {(): b})
        if not isinstance(b, Poly) or op not in ('Add', 'Sub', 'Mult'):
            I.unsup('%s of polynomials' % op)
        I.E.use('polynomials of sympy form a ring; the value of a sum or product is that of the values')
        out = {}
        M = self.ps.V.M
        if op == 'Mult':
            for m, c in self.terms.items():
                for n, d in b.terms.items():
                    k = tuple(sorted(m + n))
                    out[k] = M.arith('Add', out.get(k, 0), M.arith('Mult', c, d))
        else:
            out = dict(self.terms)
            for n, d in b.terms.items():
                out[n] = M.arith(op, out.get(n, 0), d)
        return Poly(self.ps, out)

    def vrbinop(self, I, op, a):
        if op == 'Sub':
            return self.vbinop(I, 'Mult', -1).vbinop(I, 'Add', a)
        return self.vbinop(I, op, a)

    def veq(self, I, b):
        if is_num(b) and not isinstance(b, Special):
            b = Poly(self.ps, {(): b})
        if not isinstance(b, Poly):
            return False
        return self.ps.equal(self, b)

    def vcall(self, I, args, kw):
        need(I, len(args) == 1 and not kw and isinstance(args[0], int) and args[0] == 0, 'a polynomial is evaluated at 0')
        return self.ps.at_zero(self)

    def vattr(self, I, name):
        ps = self.ps

        def bound(f):
            return Native('Poly.' + name, f)
        if name == 'gcd':
            return bound(lambda I_, a, k: ps.gcd(self, *a))
        if name in ('div', 'quo', 'rem'):
            def div(I_, a, k):
                d = bind(I_, name, ['g', 'auto'], {'auto': True}, a, k)
                need(I_, isinstance(d['auto'], bool), 'auto is a constant')
                r = ps.div(self, d['g'], d['auto'])
                return r if name == 'div' else r[name == 'rem']
            return bound(div)
        if name == 'all_coeffs':
            return bound(lambda I_, a, k: ps.all_coeffs(self))
        if name in ('eval', '__call__'):
            return bound(lambda I_, a, k: self.vcall(I_, a, k))
        if name == 'is_zero':
            return ps.V.M.simp(self.ev('generic') == 0)
        return None


class Polys:
    """The polynomials of sympy seen from outside. A polynomial is known by its value at a transcendental point (which
    determines it: equal values there are equal polynomials), at the target and at 0."""
    class Atom:
        def __init__(self, name, integral):
            self.int = integral
            self.ev = {p: z3.Real('%s at %s' % (name, p)) for p in POINTS}

    def __init__(self, V, x):
        self.V, self.x = V, x
        self.atoms, self.lists, self.divided, self.gcds, self.coprime, self.zeros = {}, [], {}, {}, [], {}
        self.quotients = []          # integer parts at 0 of the quotients over Z
        self.one = Poly(self, {(): 1})
        In, M = V.I, V.M
        ns = M.modules['sympy'].ns
        ns['poly'] = Native('sympy.poly', self.parse)
        ns['Poly'] = Native('sympy.Poly', self.of_list)
        In.stubs['utils:MathOperations.subs_in_polynom'] = self.subs
        self.negated = V.spec('negated_', 'def negated_(p):\n    return [-c for c in p]\n')
        self.backwards = V.spec('backwards', 'def backwards(p):\n    return [c for c in reversed(p)]\n')
        self.text = V.spec('text', "def text(p):\n    return '+'.join('%d*x**%d' % (c, i) for i, c in enumerate(p))\n")

    def atom(self, name, integral):
        n = name
        while n in self.atoms:
            n += "'"
        self.atoms[n] = Polys.Atom(n, integral)
        return Poly(self, {(n,): 1})

    def coefficients(self, name, kind):
        """An arbitrary nonempty sequence of integers and its polynomial."""
        V = self.V
        c = V.list(name, 'int') if kind == 'list' else V.M.view(z3.Const(name, U), ('seq', 'int', 'tuple'))
        V.assume(to_term(V.M.length(c)) >= 1)
        p = self.atom(name, True)
        self.lists.append((c, p))
        return c, p

    def find(self, c):
        """The polynomial with the given coefficients, lowest first."""
        V, M = self.V, self.V.M
        if isinstance(c, (VList, tuple)) and M.concrete_or_none(c) is not None and len(M.concrete_or_none(c)) <= 1:
            cs = M.concrete_or_none(c)
            return Poly(self, {(): cs[0]} if cs else {})
        for d, p in self.lists:
            if c is d:
                return p
        for d, p in list(self.lists):
            for e, q in ((d, p), (V.call(self.negated, d), p.vbinop(V.I, 'Mult', -1))):
                if V.E.valid(to_bool_term(self.equal_lists(c, e)))[0]:
                    self.lists.append((c, q))
                    return q
        V.I.unsup('coefficients of an unknown polynomial')

    def equal_lists(self, c, d):
        M = self.V.M
        tup = lambda s: M.b_tuple([s], {}) if hasattr(M, 'b_tuple') else M.builtins['tuple']
        f = self.V.spec('tup_', 'def tup_(p):\n    return [c for c in p]\n')
        return M.eq(self.V.call(f, c), self.V.call(f, d))

    def subs(self, I_, a, k):
        d = bind(I_, 'subs_in_polynom', ['coeffs', 'x'], {}, a, k)
        need(I_, is_num(d['x']) and I_.E.valid(to_real(d['x']) == to_real(self.x))[0], 'polynomials are evaluated at the target')
        I_.E.use('subs_in_polynom(c, x) is the value at x of the polynomial with coefficients c (C05); negated coefficients '
                 'have the negated value')
        return self.find(d['coeffs']).ev('target')

    def parse(self, I_, a, k):
        t = a[0]
        need(I_, len(a) == 2 and set(k) <= {'domain'} and k.get('domain', 'ZZ') == 'ZZ', 'sympy.poly(text, x, domain)')
        need(I_, isinstance(a[1], VObj) and a[1].attrs.get('name') == 'x', 'a polynomial in x')
        I_.E.use("sympy.poly parses the text 'c_0*x**0+c_1*x**1+...' to the polynomial with these coefficients over Z")
        for d, p in self.lists:
            if I_.E.valid(to_bool_term(self.V.M.eq(t, self.V.call(self.text, d))))[0]:
                return p
        I_.unsup('text of an unknown polynomial')

    def of_list(self, I_, a, k):
        need(I_, len(a) == 2 and set(k) <= {'domain'} and k.get('domain', 'ZZ') == 'ZZ', 'sympy.Poly(list, x, domain)')
        return self.find(self.V.call(self.backwards, a[0]))

    # ---- algebra
    def equal(self, a, b):
        if a.key == b.key:
            return True
        E = self.V.E
        f = a.ev('generic') == b.ev('generic')
        E.use('polynomials with equal values at a transcendental point are equal')
        self.V.assume(z3.Implies(f, z3.And(*[a.ev(p) == b.ev(p) for p in POINTS])))
        return self.V.M.simp(f)

    def at_zero(self, p):
        """The constant coefficient."""
        t = p.ev('zero')
        if not p.integral():
            return t
        if p.key not in self.zeros:
            i = z3.Int('constant coefficient %d' % len(self.zeros))
            self.zeros[p.key] = i
            self.V.E.use('a polynomial over Z has integer coefficients')
            self.V.assume(z3.ToReal(i) == t)
        return self.zeros[p.key]

    def all_coeffs(self, p):
        V, M = self.V, self.V.M
        for k, c in getattr(self, 'coeffs', []):
            if k == p.key:
                return M.clone(c) if hasattr(M, 'clone') else c
        name = 'coefficients %d' % len(getattr(self, 'coeffs', []))
        c = V.list(name, 'int' if p.integral() else 'real')
        n = to_term(M.length(c))
        V.assume(n >= 1)
        V.E.use('all_coeffs lists the coefficients, highest first: the last is the value at 0, a single one is the value '
                'everywhere, the zero polynomial has the single coefficient 0')
        last = to_real(M.getitem(c, -1))
        V.assume(last == p.ev('zero'))
        V.assume(z3.Implies(n == 1, z3.And(*[p.ev(q) == last for q in POINTS])))
        V.assume(z3.Implies(p.ev('generic') == 0, z3.And(n == 1, *[p.ev(q) == 0 for q in POINTS])))
        self.coeffs = getattr(self, 'coeffs', []) + [(p.key, c)]
        if p.integral():
            self.lists.append((V.call(self.backwards, c), p))
        return c

    def shift(self, a, b, c):
        """k with a == b + k*c, if k is a constant."""
        d = a.vbinop(self.V.I, 'Sub', b)
        if not d.terms:
            return 0
        m = next(iter(c.terms)) if len(c.terms) == 1 else None
        if m is None or set(d.terms) != {m} or c.terms[m] != 1:
            return None
        return d.terms[m]

    def gcd(self, a, b):
        V = self.V
        need(V.I, isinstance(b, Poly) and a.integral() and b.integral(), 'greatest common divisor over Z')
        V.E.use('gcd over Z[x]: g divides both polynomials exactly and leaves polynomials whose gcd is 1; adding an integer '
                'multiple of one to the other does not change it')
        for n, d in self.coprime:
            for s, t in ((a, b), (b, a)):
                if t.key == d.key:
                    k = self.shift(s, n, d)
                    if k is not None and to_term(k).is_int():
                        return self.one
        key = (a.key, b.key)
        if key not in self.gcds:
            g, n, d = (self.atom(t, True) for t in ('gcd', 'reduced numerator', 'reduced denominator'))
            for p in POINTS:
                V.assume(a.ev(p) == g.ev(p) * n.ev(p))
                V.assume(b.ev(p) == g.ev(p) * d.ev(p))
            V.assume(z3.Implies(z3.Or(a.ev('generic') != 0, b.ev('generic') != 0), g.ev('generic') != 0))
            self.divided[(a.key, g.key, False)] = (n, Poly(self, {}))
            self.divided[(b.key, g.key, False)] = (d, Poly(self, {}))
            self.coprime.append((n, d))
            self.gcds[key] = g
        return self.gcds[key]

    def div(self, a, b, auto):
        V = self.V
        need(V.I, isinstance(b, Poly), 'division by a polynomial')
        if V.I.truth(b.ev('generic') == 0):
            V.I.raise_('ZeroDivisionError', 'polynomial division')
        if b.key == self.one.key:
            return a, Poly(self, {})
        over_q = auto or not (a.integral() and b.integral())
        for (k1, k2, q), r in self.divided.items():
            if (k1, k2) == (a.key, b.key) and q in (over_q, False) and (q is over_q or not r[1].terms):
                return r
        if over_q:
            V.E.use('division over Q: the quotient and remainder are unique, so adding a multiple k of the divisor adds k to '
                    'the quotient')
            for n, d, q in getattr(self, 'rational', []):
                if d.key == b.key:
                    k = self.shift(a, n, d)
                    if k is not None:
                        q = q.vbinop(V.I, 'Add', k)
                        return q, a.vbinop(V.I, 'Sub', q.vbinop(V.I, 'Mult', b))
        V.E.use('division of polynomials: dividend = quotient * divisor + remainder')
        q = self.atom('quotient', not over_q)
        r = a.vbinop(V.I, 'Sub', q.vbinop(V.I, 'Mult', b))
        self.divided[(a.key, b.key, over_q)] = (q, r)
        if over_q:
            self.rational = getattr(self, 'rational', []) + [(a, b, q)]
        else:
            self.quotients.append(q)
        return q, r


class Texts:
    """os.path for texts that are partly unknown; `plain` are unknown texts without a slash."""
    def __init__(self, plain):
        self.plain = plain

    def pieces(self, p):
        if isinstance(p, str):
            return [p] if p else []
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [q for c in p.children() for q in self.pieces(c)]
        if z3.is_string_value(p):
            return [p.as_string()] if p.as_string() else []
        return [p]

    def text(self, ps):
        out = []
        for p in ps:
            if out and isinstance(p, str) and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and not p):
                out.append(p)
        if not out:
            return ''
        return out[0] if len(out) == 1 else z3.Concat(*[z3.StringVal(p) if isinstance(p, str) else p for p in out])

    def known(self, p):
        return isinstance(p, str) or any(p.eq(x) for x in self.plain)

    def join(self, I_, a, kw):
        r = self.pieces(a[0])
        for x in a[1:]:
            x = self.pieces(x)
            need(I_, not r or self.known(r[-1]), 'os.path.join')
            need(I_, not x or self.known(x[0]), 'os.path.join')
            if x and isinstance(x[0], str) and x[0].startswith('/'):
                r = x
            else:
                r = r + (['/'] if r and not (isinstance(r[-1], str) and r[-1].endswith('/')) else []) + x
        return self.text(r)

    def split(self, I_, a, kw):
        ps = self.pieces(a[0])
        tail = []
        while ps and not (isinstance(ps[-1], str) and '/' in ps[-1]):
            need(I_, self.known(ps[-1]), 'os.path.split')
            tail.insert(0, ps.pop())
        if not ps:
            return ('', self.text(tail))
        h, t = ps[-1].rsplit('/', 1)
        head = self.text(ps[:-1] + [h])
        need(I_, not h.endswith('/') and (h or ps[:-1]), 'os.path.split')
        return (head, self.text([t] + tail))
