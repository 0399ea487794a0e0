from common import *
import re, csv, ast
import enum_params, latex, lhs_evaluators as L, postprocfuncs as P
from h24 import want as postproc
RULE = 'LaTeX of random fractions, left-hand sides and functions evaluated by a parser, exports of random match lists; non-trivial: every trial'


class Tex:
    """Evaluates the LaTeX subset; anything else is rejected."""
    FUN = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'cot': mpmath.cot, 'exp': mpmath.exp, 'ln': mpmath.log}

    def __init__(self, s, name=None, x=None):
        self.s, self.name, self.x, self.i = s, name, x, 0

    def bad(self, what):
        raise Bad('LaTeX %r: %s at %d' % (self.s, what, self.i))

    def peek(self):
        while self.i < len(self.s) and self.s[self.i] in ' \n\t':
            self.i += 1
        if self.i >= len(self.s):
            return None
        if self.name and self.s.startswith(self.name, self.i):
            after = self.s[self.i + len(self.name):][:1]
            if not (self.name[-1].isalpha() and after.isalpha()):
                return 'NAME', self.name
        m = re.compile(r'\\[a-zA-Z]+|[0-9]+(?:\.[0-9]+)?|.').match(self.s, self.i)
        return 'T', m.group()

    def take(self, t=None):
        p = self.peek()
        if p is None or (t is not None and p[1] != t):
            self.bad('expected %s' % t)
        self.i += len(p[1])
        return p

    def group(self):
        self.take('{')
        v = self.sum('}')
        self.take('}')
        return v

    def paren(self):
        self.take('\\left')
        self.take('(')
        v = self.sum('\\right')
        self.take('\\right')
        self.take(')')
        return v

    def sum(self, end):
        v = self.term()
        while True:
            p = self.peek()
            if p is None or p[1] == end:
                return v
            if p[1] == '+':
                self.take()
                v = v + self.term()
            elif p[1] == '-':
                self.take()
                v = v - self.term()
            else:
                self.bad('unexpected %s' % p[1])

    def term(self):
        sign = 1
        while self.peek() is not None and self.peek()[1] in '+-' and self.peek()[0] == 'T':
            if self.take()[1] == '-':
                sign = -sign
        v = self.factor()
        number = self.number
        while True:
            p = self.peek()
            if p is None or p[1] in ('+', '-', '}', '\\right', '='):
                return sign * v
            if p[1] == '\\cdot':
                self.take()
                v = v * self.factor()
            else:
                if number and p[1][0].isdigit():
                    self.bad('adjacent numbers')
                v = v * self.factor()
            number = self.number

    def factor(self):
        kind, t = self.take()
        self.number = False
        if kind == 'NAME':
            v = self.x
        elif t[0].isdigit():
            v, self.number = (mpf(t) if '.' in t else F(int(t))), True
        elif t == '\\dots':
            v = F(0)
        elif t == '\\frac':
            n = self.arg()
            d = self.arg()
            self.number = False
            v = div(n, d)
        elif t == '\\sqrt':
            v = self.group()
            v = mpmath.sqrt(M(v)) if v >= 0 else mpmath.nan
        elif t == '\\left':
            self.i -= len(t)
            v = self.paren()
        elif t == '{':
            self.i -= 1
            v = self.group()
        elif t[1:] in self.FUN:
            f, v = self.FUN[t[1:]], self.paren()
            v = mpmath.nan if t == '\\ln' and v <= 0 else f(M(v))
        else:
            self.bad('unexpected %s' % t)
        p = self.peek()
        if p is not None and p[1] == '^':
            self.take()
            if self.peek()[1] == '{':
                e = self.group()
            else:
                c = self.s[self.i]
                if not c.isdigit():
                    self.bad('exponent')
                self.i += 1
                e = int(c)
            if not (isinstance(e, (int, F)) and e == int(e)):
                self.bad('exponent')
            v = v ** int(e)
            self.number = False
        if kind != 'NAME' and t != '\\dots' and not t[0].isdigit():
            self.number = False
        return v

    def arg(self):
        if self.peek()[1] == '{':
            return self.group()
        self.bad('argument')


def M(v):
    return to_mpf(v) if isinstance(v, (int, F)) else v


def div(n, d):
    if isinstance(n, (int, F)) and isinstance(d, (int, F)):
        return F(n) / F(d)
    if M(d) == 0:
        raise ZeroDivisionError()
    return M(n) / M(d)


def value(s, name=None, x=None):
    t = Tex(s, name, x)
    v = t.sum(None)
    if t.peek() is not None:
        t.bad('rest')
    return v


def near(u, v, eps=30):
    u, v = M(u), M(v)
    if mpmath.isnan(v) or mpmath.isinf(v):
        return bool(mpmath.isnan(u) or mpmath.isinf(u))
    return abs(u - v) <= mpf(10) ** -eps * max(1, abs(v))


def rlhs(r, x):
    if r.random() < 0.5:
        p = (r.choice([0, 1, -1, r.randint(-12, 12)]), r.choice([1, -1, 2, -3, 11]), r.choice([0, 0, r.randint(-12, 12)]),
             r.choice([1, -1, 2, -5, 12]))
        return L.ULCDEvaluator(p, x), (F(p[0]) / exact(x) + exact(x) / p[1] + p[2]) / p[3]
    while True:
        p = rcoefs(r, r.choice([0, 1, 2, 3, 11]), 3, True)
        q = rcoefs(r, r.choice([0, 1, 2, 3]), r.choice([1, 3]), True)
        if r.random() < 0.3:
            q = [r.choice([1, -1])]
        if poly(p, exact(x)) and poly(q, exact(x)):
            break
    k = r.choice([0, 0, 1, -3, 12])
    return L.RationalFuncEvaluator((p, q, k), x), F(poly(p, exact(x))) / poly(q, exact(x)) + k


def wrap_inner(text, i, y):
    """Value of a function's LaTeX around a fraction that has the value y."""
    return value(text, 'FRACTION', y)


def trial(h):
    r = h.r
    kind = r.choice(['frac', 'lhs', 'func', 'eqns', 'csv'])
    if kind == 'frac':
        n = r.randint(1, 7)
        a = [r.choice([r.randint(-9, 9), r.randint(-999, 999)]) for _ in range(n)]
        b = [r.choice([r.randint(-9, 9), r.randint(-999, 999)]) for _ in range(n - 1 + r.choice([0, 1]) if n > 1 else 1)]
        h.note(kind=kind, a=a, b=b)
        try:
            w = nested(a, b[len(b) - (n - 1):])
        except ZeroDivisionError:
            raise Skip
        s = latex.latex_cont_frac(list(a), list(b))
        h.note(text=s)
        h.check('\\dots' in s, 'no dots in %r', s)
        v = value(s)
        h.check(v == w, '%r is %s instead of %s', s, v, w)
        return
    x = mpf(r.choice(['3.14159265358979323846264338327950288419716939937510582', '1.125', '0.57721566490153286060651209008240243104']))
    if kind == 'lhs':
        name = r.choice([r'\pi', 'x', r'\varphi', 'euler_masch', 'feig, 2', 'e'])
        o, w = rlhs(r, x)
        ops = []
        for _ in range(r.randint(0, 2)):
            if r.random() < 0.5:
                o.flip_sign()
                w = -w
                ops.append('flip')
            else:
                j = r.randint(-15, 15)
                o.add_int(j)
                w += j
                ops.append(j)
        h.note(kind=kind, params=o.get_params(), name=name, ops=ops)
        if isinstance(o, L.RationalFuncEvaluator) and o.is_degenerate():
            raise Skip('constant')
        s = o.get_latex_exp(name)
        h.note(text=s)
        v = value(s, name, x)
        h.check(near(v, w, 28), '%r is %s instead of %s', s, mpmath.nstr(M(v), 15), float(w))
        return
    if kind == 'func':
        i = r.randrange(len(P.POSTPROC_FUNCS))
        y = mpf(r.randint(1, 3000)) / 997
        h.note(kind=kind, function=P.POSTPROC_FUNCS[i])
        lhs, rhs = P.POSTPROC_FUNCS_LATEX[P.POSTPROC_FUNCS[i]]('LEFT', 'FRACTION')
        h.check(lhs == 'LEFT', 'left-hand side changed to %r', lhs)
        h.check(near(value(rhs, 'FRACTION', y), postproc(i, y)), '%r is not function %d', rhs, i)
        lhs, rhs = P.POSTPROC_FUNCS_LATEX[P.POSTPROC_FUNCS[i]]('LEFT', '%d+FRACTION' % 2)
        h.check(lhs == 'LEFT' and near(value(rhs, 'FRACTION', y), postproc(i, y + 2)), '%r is not function %d of a sum', rhs, i)
        return
    tname = r.choice(['pi', 'phi', 'e', 'euler_masch', 'feig, 1', 'zeta'])
    m = enum_params.MITM(target_generator=lambda: x, target_name=tname, prec=50)
    ms = []
    for j in range(r.randint(0, 4)):
        a = rpolys(r, 2, 2, 5)
        b = rpolys(r, 2, 2, 5)
        if kind == 'csv':
            b = [[t[0] or 1] + [abs(c) for c in t[1:]] for t in b]
            b = [[abs(t[0])] + t[1:] for t in b]
        o, w = rlhs(r, x)
        i = r.choice([0, 1, 2, 3, 4, 8, 9, 12, 13, 14, 16, 18])
        try:
            zero = [n for n in range(1, 401) if at(b, n) == 0]
            p, q = (1, 1) if zero else convergents(a, b, 400)[-1]
            if p == 0 or q == 0:
                raise Skip
            with dps(80):
                val = postproc(i, mpf(p) / q)
            if not mpmath.isnan(val) and (abs(val) > 10 ** 8 or abs(val) < mpf(10) ** -8 or abs(F(p, q)) > 10 ** 8):
                raise Skip
        except ZeroDivisionError:
            raise Skip
        ms.append((((tup(a), tup(b)), o, i, r.choice([('exp', (mpf(2), mpf(1))), ('super_exp', (mpf('1.5'), mpf('2.5'))), ('fast', ())])),
                   zero, val, w))
    m.filtered_params = [t[0] for t in ms]
    h.note(kind=kind, target=tname, matches=[(t[0][0], t[0][1].get_params(), t[0][2], t[0][3][0]) for t in ms])
    if kind == 'csv':
        with scratch():
            m.export_to_csv('out.csv')
            h.check(os.listdir('.') == ['out.csv'], 'files %r', os.listdir('.'))
            with open('out.csv', newline='') as f:
                rows = list(csv.reader(f))
        h.check(rows[0] == ['target_name', tname], 'first row %r', rows[0])
        h.check(len(rows) == 2 + len(ms), '%d rows for %d matches', len(rows) - 2, len(ms))
        for row, (mt, _, val, w) in zip(rows[2:], ms):
            (pa, pb), o, i, info = mt
            h.check(len(row) == 9, 'row %r', row)
            h.check(tup(ast.literal_eval(row[0])) == pa and tup(ast.literal_eval(row[1])) == pb, 'polynomials of row %r', row)
            h.check(row[2] == P.POSTPROC_FUNCS[i], 'function of row %r', row)
            h.check(row[3] == ('ulcd' if isinstance(o, L.ULCDEvaluator) else 'rationalfunc'), 'type of row %r', row)
            h.check(repr(ast.literal_eval(row[4])) == repr(o.get_params()), 'parameters of row %r', row)
            h.check(row[5] == info[0] and row[6] == str(info[1]), 'convergence of row %r', row)
            h.check(near(mpf(row[7]), val) and near(mpf(row[8]), w), 'values of row %r', row)
        return
    for t in ms:
        if isinstance(t[0][1], L.RationalFuncEvaluator) and t[0][1].is_degenerate():
            raise Skip('constant')
    depth = r.choice([None, 1, 2, 7])
    eqns = m.get_results_as_eqns(P.POSTPROC_FUNCS, **({} if depth is None else {'depth': depth}))
    rest = [t for t in ms if not t[1]]
    h.check(len(eqns) == len(rest), '%d equations for %d matches', len(eqns), len(rest))
    name = {'pi': r'\pi', 'phi': r'\varphi'}.get(tname, tname)
    for eq, ((pa, pb), o, i, info), (zero, val, w) in [(e, t[0], t[1:]) for e, t in zip(eqns, rest)]:
        sides = eq.split(' = ')
        h.check(len(sides) == 2, 'equation %r', eq)
        h.check(near(value(sides[0], name, x), w, 28), 'left-hand side of %r is not %s', eq, float(w))
        n = depth or 5
        ok = False
        for n in ([depth] if depth else range(2, 40)):
            try:
                y = to_mpf(nested([at(pa, k) for k in range(n)], [at(pb, k) for k in range(1, n)]))
                with dps(60):
                    got, exp = value(sides[1]), postproc(i, y)
            except ZeroDivisionError:
                ok = True
                break
            if near(got, exp, 25):
                ok = True
                break
        h.check(ok, 'right-hand side of %r is not the fraction of %r', eq, (pa, pb))
