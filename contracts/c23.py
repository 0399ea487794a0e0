"""C23: the LaTeX of fractions, left-hand sides and functions."""
import re
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'the texts are read by an evaluator of the LaTeX subset they use (sums, products by juxtaposition and \\cdot, \\frac, \\sqrt, '
    'powers, functions applied to \\left( .. \\right)); a text outside it fails',
    'str and format of an integer give its decimal text, with a sign if it is negative',
    'the name of the target is a token of its own that does not start or end with a letter next to another letter',
    'the canonical form of a rational left-hand side keeps its function (C17)',
    'polynomials are substituted as C05 says; coefficients are integers']
PI = r'\pi'


class Tex:
    """The denotation of a partly symbolic text; whole: unknown texts that denote a whole expression."""
    def __init__(self, I, pieces, whole, name=None, x=None):
        self.I, self.toks = I, []
        prev = ''
        for p in pieces:
            if not isinstance(p, str):
                if p.decl().name() == 'STRI':
                    need(I, not (self.toks and self.toks[-1][0] in ('N', 'I') and not self.space), 'a number next to a number')
                    self.toks.append(('I', p.arg(0)))
                elif name is not None and p.eq(name):
                    need(I, not (self.toks and self.toks[-1][0] == 'T' and self.toks[-1][1][-1].isalpha() and not self.space),
                         'the name next to a letter')
                    self.toks.append(('X', x))
                else:
                    w = [v for t, v in whole if t.eq(p)]
                    need(I, bool(w), 'an unknown text')
                    self.toks.append(('W', w[0]))
                self.space = False
                continue
            need(I, not (self.toks and self.toks[-1][0] == 'I' and p[0].isdigit()), 'a digit after a number')
            need(I, not (self.toks and self.toks[-1][0] == 'X' and p[0].isalpha()), 'a letter after the name')
            for m in re.finditer(r'\\[a-zA-Z]+|[0-9]+|\s+|.', p):
                t = m.group()
                self.space = t.isspace()
                if not self.space:
                    self.toks.append(('N', z3.IntVal(int(t))) if t.isdigit() else ('T', t))
        self.i = 0

    space = False

    def bad(self, what):
        raise Unreadable('%s at %r' % (what, self.toks[self.i:self.i + 3]))

    def peek(self, k=0):
        return self.toks[self.i + k] if 0 <= self.i + k < len(self.toks) else None

    def at(self, *ts):
        p = self.peek()
        return p is not None and p[0] == 'T' and p[1] in ts

    def take(self, t=None):
        p = self.peek()
        if p is None or (t is not None and p != ('T', t)):
            self.bad('expected %s' % t)
        self.i += 1
        return p

    def all(self):
        v = self.sum()
        if self.peek() is not None:
            self.bad('rest')
        return v

    def group(self):
        self.take('{')
        v = self.sum()
        self.take('}')
        return v

    def sum(self):
        v = self.term()
        while self.at('+', '-'):
            if self.peek()[1] == '+':
                self.take()
                v = v + self.term()
            else:
                v = v + self.term()
        return v

    def term(self):
        neg = False
        first = True
        while self.at('+', '-'):
            neg ^= self.take()[1] == '-'
        v, number = self.factor(True)
        while not (self.peek() is None or self.at('+', '-', '}', '\\right', '=')):
            if self.at('\\cdot'):
                self.take()
                u, number = self.factor(False)
            else:
                n2 = self.peek()[0] in ('N', 'I')
                if number and n2:
                    self.bad('adjacent numbers')
                u, number = self.factor(False)
            v = v * u
        return -v if neg else v

    def factor(self, first):
        k, t = self.take()
        number = k in ('N', 'I')
        if k == 'W':
            before, after = self.peek(-2), self.peek()
            if not (before is None or before in (('T', '{'), ('T', '('))) or not (after is None or after in (('T', '}'), ('T', '\\right'))):
                self.bad('an expression without brackets')
            return t, False
        if k == 'X':
            v = t
        elif number:
            if k == 'I' and not (first and not (self.peek() == ('T', '^'))) and not self.I.E.valid(t >= 0)[0]:
                self.bad('a number that may be negative')
            v = z3.ToReal(t)
        elif t == '\\dots':
            return z3.RealVal(0), False
        elif t == '\\frac':
            n, d = self.group(), self.group()
            v = n / d
        elif t == '\\sqrt':
            v = fun('sqrt')(self.group())
        elif t == '\\left':
            self.take('(')
            v = self.sum()
            self.take('\\right')
            self.take(')')
        elif t == '{':
            self.i -= 1
            v = self.group()
        elif t in ('\\sin', '\\cos', '\\tan', '\\cot', '\\exp', '\\ln'):
            if not self.at('\\left'):
                self.bad('a function without brackets')
            v = fun(t[1:])(self.factor(True)[0])
            return v, False
        else:
            self.i -= 1
            self.bad('unexpected')
        if self.at('^'):
            self.take()
            if self.at('{'):
                self.take()
                e = self.take()
                self.take('}')
            else:
                e = self.take()
            n = e[1] if e[0] == 'N' else None
            if n is None:
                self.bad('exponent')
            u = v
            for _ in range(n.as_long() - 1):
                u = u * v
            v = u if n.as_long() else z3.RealVal(1)
        return v, number


class Unreadable(Exception):
    pass


def fun(n):
    return z3.Function('TEX_' + n, R, R)


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    texts = Texts([])

    def denotes(what, text, want, whole=(), name=None, x=None, wrap=None):
        try:
            if isinstance(text, SV):
                text = text.term
            got = Tex(In, texts.pieces(text), whole, name, x).all()
        except Unreadable as e:
            V.prove('%s: readable (%s)' % (what, e), False)
            return
        V.prove(what, (wrap or (lambda g, w: g == w))(got, want))

    def plain(q):
        # digits and a sign, or the name of the target: no '^', no space at its ends
        return q.decl().name() in ('STRI', 'name')

    def replace(o, old, new, *n):
        # not in the text: a '^' in it is not followed by what follows it in `old`
        ps, olds = texts.pieces(o), texts.pieces(old)
        lits = [q for q in olds if isinstance(q, str) and '^' in q[:-1]]
        need(In, bool(lits) and all(isinstance(q, str) or plain(q) for q in ps), 'replacement in a text')
        i = lits[0].index('^')
        for q in ps:
            if isinstance(q, str):
                need(In, lits[0][i:i + 2] not in q and not q.endswith('^'), 'replacement in a text')
        return o

    def strip(o):
        ps = texts.pieces(o)
        need(In, all(isinstance(q, str) or plain(q) for q in ps), 'strip of a text')
        if ps and isinstance(ps[0], str):
            ps = [ps[0].lstrip()] + ps[1:]
        if ps and isinstance(ps[-1], str):
            ps = ps[:-1] + [ps[-1].rstrip()]
        t = texts.text(ps)
        if len(ps) == 1 and is_term(t) and t.decl().name() == 'STRI':
            if In.truth(t.arg(0) == 1):
                return '1'
            V.assume(t != '1')
        return t
    M.str_replace, M.str_strip = replace, strip

    # ---------------------------------------------------------------- functions
    P = 'postprocfuncs:'
    base = [lambda w: w, lambda w: w * w, lambda w: w * w * w, lambda w: w * w * w * w, lambda w: w * w * w * w * w] + \
        [fun(n) for n in ('sqrt', 'sin', 'cos', 'tan', 'cot', 'exp', 'ln')]

    def function(i):
        lhs, rhs, w = V.str('lhs'), V.str('rhs'), V.real('value')
        names = In.concrete_list(V.get(P + 'POSTPROC_FUNCS'))
        f = M.getitem(V.get(P + 'POSTPROC_FUNCS_LATEX'), names[i])
        r = In.call(f, [lhs, rhs])
        l, t = In.concrete_list(r)
        V.prove('the left-hand side is unchanged', M.eq(l, lhs))
        v = base[i // 2](w)
        denotes('the function of the fraction', t, z3.RealVal(1) / v if i % 2 else v, [(rhs, w)])
        V.cover('read')
    for i in range(24):
        n = 'function %d' % i
        V.scope(n, lambda i=i: function(i), [P + 'POSTPROC_FUNCS_LATEX[%d]' % i])
        V.expected_covers.append(n + ': read')

    # ---------------------------------------------------------------- fractions
    Q = 'latex:latex_cont_frac'

    def fraction(n, more):
        a = [V.int('a%d' % k) for k in range(n)]
        b = [V.int('b%d' % k) for k in range(n - 1 + more)]
        la, lb = VList(list(a)), VList(list(b))
        t = V.call(Q, la, lb)
        v = z3.ToReal(a[-1])
        for k in range(1, n):
            v = z3.ToReal(a[-k - 1]) + z3.ToReal(b[-k]) / v
        denotes('the fraction', t, v)
        ps = texts.pieces(t)
        V.prove('it goes on', any(isinstance(p, str) and '\\dots' in p for p in ps))
        V.same('a is left alone', la, VList(list(a)))
        V.same('b is left alone', lb, VList(list(b)))
        V.cover('read')
    for n in range(1, 8):
        for more in (0, 1):
            if n > 1 or more:
                s = 'fraction of %d terms%s' % (n, ', one more numerator' if more else '')
                V.scope(s, lambda n=n, more=more: fraction(n, more), [Q])
                V.expected_covers.append(s + ': read')

    def step():
        """One step of the recursion, for lists of every length; a fraction written without recursion is covered up to the depths above."""
        a, b = V.seq('a', 'int'), V.seq('b', 'int')
        n = to_term(M.length(a))
        m = to_term(M.length(b))
        V.assume(z3.And(n >= 2, z3.Or(m == n - 1, m == n)))
        cur, w = V.str('inner'), V.real('inner value')
        V.assume(z3.Length(cur) > 0)
        calls = []
        f = V.get(Q)

        def rec(I_, args, kw):
            calls.append(I_.bind_args(f, list(args), kw))
            return z3.Const('OUTER', S)
        In.stubs[Q] = rec
        try:
            r = In.run_func(f, [a, b, cur], {})
        finally:
            In.stubs.pop(Q, None)
        need(In, len(calls) == 1, 'a recursion with one call')
        V.prove('the result of the recursion', M.eq(r, z3.Const('OUTER', S)))
        d = calls[0]
        a2, b2, c2 = (d[x.arg] for x in f.node.args.args[:3])
        for q, l, l2, k in (('a', a, a2, n), ('b', b, b2, m)):
            V.prove('%s loses its last' % q, M.eq(M.length(l2), k - 1))
            j = V.int('j')
            if In.truth(z3.And(j >= 0, j < k - 1)):
                V.prove('the rest of %s' % q, M.eq(M.item(l2, j, inside=True), M.item(l, j, inside=True)))
        x, y = M.item(a, n - 2, inside=True), M.item(b, m - 1, inside=True)
        denotes('the inner expression', c2, z3.ToReal(to_term(x)) + z3.ToReal(to_term(y)) / w, [(cur, w)])
        V.prove('it is not empty', z3.Length(to_term(c2)) > 0 if is_term(c2) else bool(c2))
        V.cover('step')

    def last():
        a, b = V.int('a'), V.seq('b', 'int')
        cur = V.str('inner')
        V.assume(z3.Length(cur) > 0)
        V.prove('a single term gives what was built', M.eq(V.call(Q, VList([a]), b, cur), cur))
        V.cover('last')
    import ast
    recursive = any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'latex_cont_frac'
                    for x in ast.walk(V.get(Q).node)) and len(V.get(Q).node.args.args) == 3
    if recursive:
        V.scope('fraction: step', step, [Q])
        V.scope('fraction: last step', last, [Q])
        V.expected_covers += ['fraction: step: step', 'fraction: last step: last']
    else:
        V.bounded.append('latex_cont_frac is not recursive: depths up to 7 only')

    # ---------------------------------------------------------------- left-hand sides
    L = 'lhs_evaluators:'

    def ulcd():
        u, l, c, d = (V.int(q) for q in 'ulcd')
        name, x = V.str('name'), V.real('target')
        V.assume(z3.And(l != 0, d != 0, x != 0))
        o = V.new(L + 'ULCDEvaluator', params=(u, l, c, d))
        t = V.method(o, 'get_latex_exp', name)
        q = z3.ToReal
        denotes('the value', t, (q(u) / x + x / q(l) + q(c)) / q(d), (), name, x)
        V.same('the parameters', In.getattr(o, 'params'), (u, l, c, d))
        V.cover('read')
    V.scope('linear-fractional', ulcd, [L + 'ULCDEvaluator.get_latex_exp'])
    V.expected_covers.append('linear-fractional: read')

    def rational(dp, dq):
        p = [V.int('p%d' % k) for k in range(dp + 1)]
        q = [V.int('q%d' % k) for k in range(dq + 1)]
        j = V.int('added')
        name, x = V.str('name'), V.real('target')
        V.assume(z3.And(z3.Or(*[c != 0 for c in p]), z3.Or(*[c != 0 for c in q])))
        po = lambda cs: horner(cs, x)
        V.assume(po(q) != 0)
        V.assume(z3.And(name != '1', z3.Length(name) > 0))
        o = V.new(L + 'RationalFuncEvaluator', numerator_p=tuple(p), denominator_p=tuple(q), added_int=j)
        In.stubs[L + 'RationalFuncEvaluator.canonalize_params'] = lambda I_, a, k: None
        try:
            t = V.method(o, 'get_latex_exp', name)
        finally:
            del In.stubs[L + 'RationalFuncEvaluator.canonalize_params']
        denotes('the value', t, po(p) / po(q) + z3.ToReal(j), (), name, x)
        V.cover('read')

    def horner(cs, x):
        v, y = z3.RealVal(0), z3.RealVal(1)
        for c in cs:
            v = v + z3.ToReal(c) * y
            y = y * x
        return v
    for dp in range(5):
        for dq in range(4):
            if dp > 2 and dq or dq > 1 and dp:
                continue
            s = 'rational, degrees %d and %d' % (dp, dq)
            V.scope(s, lambda dp=dp, dq=dq: rational(dp, dq), [L + 'RationalFuncEvaluator.get_latex_exp'])
            V.expected_covers.append(s + ': read')
    V.bounded.append('RationalFuncEvaluator.get_latex_exp: degrees up to (2, 1), (4, 0) and (0, 3) (all integer coefficients)')

    # ---------------------------------------------------------------- exports
    T = 'enum_params:MITM.'
    MATCH = ('tup', (AB, ('obj', 'lhs'), 'int', ('tup', ('str', 'any'))))
    TRUNC = z3.Function('TRUNCATED', U, U, B)
    RESULT = z3.Function('RESULT', U, U, I, U)
    SUBST = z3.Function('SUBST', U, I, I)
    CF = z3.Function('FRACTION', U, U, S)
    LEFT = z3.Function('LHS_TEX', U, S, S)
    PAR = z3.Function('LHS_PARAMS', U, U)
    VAL = z3.Function('LHS_VALUE', U, U)
    STR = z3.Function('TEXT', U, S)
    TYP = z3.Function('LHS_TYPE', U, S)
    NAME = z3.Function('FUNCTION_TEXT', I, S)
    WL, WR = z3.Function('WRAPPED_LEFT', S, S, S, S), z3.Function('WRAPPED_RIGHT', S, S, S, S)
    ZeroB = V.get('cont_fracs:ZeroB')

    def lhs_attr(o, nm):
        def left(I_, a, k):
            d = bind(I_, 'get_latex_exp', ['target_constant_name'], {}, a, k)
            return LEFT(o.term, to_term(d['target_constant_name']))
        return {'get_latex_exp': Native(nm, left), 'get_params': Native(nm, lambda I_, a, k: SV(PAR(o.term), 'any')),
                'get_val': Native(nm, lambda I_, a, k: SV(VAL(o.term), ('obj', 'number')))}.get(nm)
    M.handlers['lhs'] = lhs_attr
    M.handlers['number'] = lambda o, nm: STR(o.term) if nm == '__str__' else None
    M.handlers['lhstype'] = lambda o, nm: TYP(o.term) if nm == '__str__' else None

    def build(I_, a, k):
        d = bind(I_, 'build_contfrac_from_params', ['self', 'params', 'iterations'], {'iterations': 400}, a, k)
        ab, lhs, i, info = I_.concrete_list(d['params'])
        x, y = (M.embed(t) for t in I_.concrete_list(ab))
        if I_.truth(TRUNC(x, y)):
            I_.raise_(ZeroB, 'zero numerator')
        return (SV(z3.Const('unused fraction', U), 'any'), SV(RESULT(x, y, to_term(i)), ('obj', 'number')), lhs)

    class Funcs:
        def vgetitem(self, I_, i):
            i = to_term(i)
            need(I_, i.is_int() if hasattr(i, 'is_int') else False, 'a position in the functions')
            return NAME(i)

    class Forms:
        def vgetitem(self, I_, q):
            need(I_, is_term(q), 'the text of a function')
            return Native('form', lambda I2, a, k: (WL(q, to_term(a[0]), to_term(a[1])), WR(q, to_term(a[0]), to_term(a[1]))))
    names = {
        'TRUNCATED': Native('T', lambda I_, a, k: TRUNC(M.embed(a[0]), M.embed(a[1]))),
        'SUB': Native('SUB', lambda I_, a, k: SUBST(M.embed(a[0]), to_term(a[1]))),
        'CF': Native('CF', lambda I_, a, k: CF(M.embed(a[0]), M.embed(a[1]))),
        'LEFT': Native('LEFT', lambda I_, a, k: LEFT(to_term(M.embed(a[0])), to_term(a[1]))),
        'NAME': Native('NAME', lambda I_, a, k: NAME(to_term(a[0]))),
        'WL': Native('WL', lambda I_, a, k: WL(*[to_term(x) for x in a])),
        'WR': Native('WR', lambda I_, a, k: WR(*[to_term(x) for x in a])),
        'TYPE': Native('TYPE', lambda I_, a, k: TYP(M.embed(a[0]))),
        'PARAMS': Native('PARAMS', lambda I_, a, k: SV(PAR(M.embed(a[0])), 'any')),
        'RESULT': Native('RESULT', lambda I_, a, k: STR(RESULT(M.embed(a[0]), M.embed(a[1]), to_term(a[2])))),
        'VALUE': Native('VALUE', lambda I_, a, k: STR(VAL(M.embed(a[0]))))}

    def cf(I_, a, k):
        d = bind(I_, 'latex_cont_frac', ['a', 'b', 'current_expression'], {'current_expression': ''}, a, k)
        need(I_, d['current_expression'] == '', 'the whole fraction')
        return CF(M.embed(d['a']), M.embed(d['b']))

    def value():
        IT = z3.Function('VALUE_OF_FRACTION', U, U, I, R)
        POST = z3.Function('POST', I, R, R)

        class Post:
            def vgetitem(self, I_, i):
                return Native('post', lambda I2, a, k: POST(to_term(i), to_real(a[0])))
        a, b = M.view(z3.Const('pa', U), POLYS), M.view(z3.Const('pb', U), POLYS)
        made = []

        def init(I_, x, k):
            d = bind(I_, 'ContFrac', ['self', 'a_coeffs', 'b_coeffs'], {}, x, k)
            I_.setattr(d['self'], 'c23', (d['a_coeffs'], d['b_coeffs']))
            I_.setattr(d['self'], 'c23n', 0)
            made.append(d['self'])

        def gen(I_, x, k):
            need(I_, len(x) == 2 and not k, 'gen_iterations')
            I_.setattr(x[0], 'c23n', M.binop('Add', x[0].attrs['c23n'], x[1]))

        def result(I_, x, k):
            o = x[0]
            return IT(M.embed(o.attrs['c23'][0]), M.embed(o.attrs['c23'][1]), to_term(o.attrs['c23n']))
        st = {'cont_fracs:ContFrac.__init__': init, 'cont_fracs:ContFrac.get_result': result,
              'basic_representation_types:BasicContFracAlgo.gen_iterations': gen, 'basic_representation_types:BasicRecursiveConstRepresenter.gen_iterations': gen}
        i, n = V.int('function'), V.int('iterations')
        V.assume(n >= 1)
        lhs = SV(z3.Const('lhs', U), ('obj', 'lhs'))
        o = V.new('enum_params:MITM', postproc_funcs=Post())
        In.stubs.update(st)
        try:
            c, v, l = In.concrete_list(V.method(o, 'build_contfrac_from_params', ((a, b), lhs, i, SV(z3.Const('info', U), 'any')), n))
        finally:
            for q in st:
                del In.stubs[q]
        V.prove('the fraction', len(made) == 1 and c is made[0])
        V.prove('the function of its value', M.eq(v, POST(i, IT(M.embed(a), M.embed(b), n))))
        V.same('the left-hand side', l, lhs)
        V.cover('done')
    V.scope('value', value, [T + 'build_contfrac_from_params'])
    V.expected_covers.append('value: done')

    def setup(tname):
        ms = V.list('matches', MATCH)
        n = to_term(M.length(ms))
        j = z3.Int('j')
        ab = M.getitem(M.item(ms, j, inside=True), 0)
        for q in (0, 1):
            V.assume(z3.ForAll([j], to_term(M.length(M.getitem(ab, q))) >= 1))
        o = V.new('enum_params:MITM', filtered_params=ms, target_name=tname, postproc_funcs_text=Funcs(), postproc_funcs_latex=Forms())
        return ms, VList(parts=list(ms.parts)), o
    STUBS = {T + 'build_contfrac_from_params': build, 'latex:latex_cont_frac': cf,
             'utils:MathOperations.subs_in_polynom': lambda I_, a, k: SUBST(M.embed(a[-2]), to_term(a[-1]))}

    def eqns(depth, tname):
        t = V.str('target') if tname is None else tname
        if tname is None:
            V.assume(z3.And(t != 'pi', t != 'phi'))
        shown = {'pi': '\\pi', 'phi': '\\varphi'}.get(tname, t)
        ms, before, o = setup(t)
        if depth == 'given':
            depth = V.int('depth')
            V.assume(depth >= 1)
        In.stubs.update(STUBS)
        try:
            r = V.method(o, 'get_results_as_eqns', Funcs(), **({} if depth is None else {'depth': depth}))
        finally:
            for q in STUBS:
                del In.stubs[q]
        want = V.call(V.spec('eqns', """
def eqns(ms, tname, depth):
    res = []
    for ab, lhs, i, info in ms:
        pa, pb = ab
        if TRUNCATED(pa, pb):
            continue
        a = [SUB(pa[k % len(pa)], k) for k in range(depth)]
        b = [SUB(pb[k % len(pb)], k) for k in range(depth)]
        l, r = LEFT(lhs, tname), CF(a, b)
        res.append(WL(NAME(i), l, r) + ' = ' + WR(NAME(i), l, r))
    return res
""", names), before, shown, 5 if depth is None else depth)
        V.same('one equation for each match in order', r, want)
        V.same('the matches are left alone', In.getattr(o, 'filtered_params'), before)
        V.cover('done')
    for depth in (None, 'given'):
        for tname in ('pi', 'phi', None):
            q = 'equations, depth %s, target %s' % (depth or 'not given', tname or 'another')
            V.scope(q, lambda depth=depth, tname=tname: eqns(depth, tname), [T + 'get_results_as_eqns'])
            V.expected_covers.append(q + ': done')

    Buffer = V.spec('Buffer', """
class Buffer:
    def __init__(self, newline=None):
        self.rows = []
        self.pos = 0
        self.name = None
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass
    def seek(self, n):
        self.pos = n
""")
    Writer = V.spec('Writer', """
class Writer:
    def __init__(self, buf):
        self.buf = buf
    def writerow(self, row):
        self.buf.rows.append(tuple(row))
    def writerows(self, rows):
        for row in rows:
            self.buf.rows.append(tuple(row))
""")

    def rows():
        tname, path = V.str('target'), V.str('file')
        ms, before, o = setup(tname)
        files = []

        def open_(I_, a, k):
            d = bind(I_, 'open', ['file', 'mode', 'newline'], {'mode': 'r', 'newline': None}, a, k)
            need(I_, d['mode'] == 'w', 'open for writing')
            V.prove('rows end as written', d['newline'] == '')
            f = In.call(Buffer, [])
            I_.setattr(f, 'name', d['file'])
            files.append(f)
            return f

        def copy(I_, a, k):
            need(I_, len(a) == 2 and not k, 'copyfileobj')
            need(I_, I_.getattr(a[0], 'pos') == 0, 'copy from the beginning')
            I_.call(I_.getattr(I_.getattr(a[1], 'rows'), 'extend'), [I_.getattr(a[0], 'rows')])

        def build2(I_, a, k):
            d = bind(I_, 'build', ['self', 'params', 'iterations'], {'iterations': 400}, a, k)
            ab = I_.concrete_list(d['params'])[0]
            E.ctx.assume(z3.Not(TRUNC(*[M.embed(t) for t in I_.concrete_list(ab)])))
            return build(I_, a, k)
        ns = In.module('enum_params').ns
        csv_, io_, sh = (In.module(q).ns for q in ('csv', 'io', 'shutil'))
        was = [(m, dict(m)) for m in (ns, csv_, io_, sh)]
        ns.update(open=Native('open', open_), type=Native('type', lambda I_, a, k: SV(to_term(M.embed(a[0])), ('obj', 'lhstype'))))
        csv_['writer'] = Native('csv.writer', lambda I_, a, k: In.call(Writer, [a[0]]))
        io_['StringIO'] = Native('StringIO', lambda I_, a, k: In.call(Buffer, []))
        sh['copyfileobj'] = Native('copyfileobj', copy)
        In.stubs.update(STUBS)
        In.stubs[T + 'build_contfrac_from_params'] = build2
        try:
            V.method(o, 'export_to_csv', path)
        finally:
            for m, w in was:
                m.clear()
                m.update(w)
            for q in STUBS:
                del In.stubs[q]
        V.prove('one file', len(files) == 1)
        V.prove('the given file', M.eq(In.getattr(files[0], 'name'), path))
        got = In.getattr(files[0], 'rows')
        want = V.call(V.spec('rows', """
def rows(ms):
    return [(ab[0], ab[1], NAME(i), TYPE(lhs), PARAMS(lhs), info[0], info[1], RESULT(ab[0], ab[1], i), VALUE(lhs)) for ab, lhs, i, info in ms]
""", names), before)
        V.same('the first row names the target', M.getitem(got, 0), ('target_name', tname))
        V.same('one row for each match in order', V.call(V.spec('rest', 'def rest(rows):\n    return rows[2:]\n'), got), want)
        V.same('the matches are left alone', In.getattr(o, 'filtered_params'), before)
        V.cover('done')
    V.scope('rows', rows, [T + 'export_to_csv'])
    V.expected_covers.append('rows: done')
