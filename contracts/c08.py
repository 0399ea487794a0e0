"""C08: integer roots, degree, removed powers of x."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['double arithmetic on the discriminant and the quotients is exact where it is decided whether a number is an '
               'integer (coefficients up to 10^6 in absolute value); Python integers are mathematical integers']
C = 'enum_poly_params:BasicEnumPolyParams.'
POWER = z3.Function('POWERS', U, I)       # the number of leading zeros that are removed


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []

    def poly(kind):
        p = V.seq('p', 'int') if kind == 'tuple' else V.list('p', 'int')
        n = to_term(M.b_len(p))
        return p, n, lambda i: to_term(M.item(p, i, inside=True))

    def degree(kind):
        p, n, at = poly(kind)
        d = V.method(V.get('enum_poly_params:BasicEnumPolyParams'), '_polynom_degree', p)
        V.prove('the degree is a number of type int', is_num(d) and is_intlike(d))
        d = to_term(d)
        V.prove('the degree is -1 or an index', z3.And(d >= -1, d < n))
        i = V.int('i')
        E.instantiate(i), E.instantiate(n - 1 - i)
        V.prove('all coefficients above the degree vanish', z3.Implies(z3.And(i > d, i >= 0, i < n), at(i) == 0))
        V.prove('the coefficient of the degree does not vanish', z3.Implies(d >= 0, at(d) != 0))
        V.cover('done')
    for kind in ('tuple', 'list'):
        V.scope('degree of a %s' % kind, lambda: degree(kind), [C + '_polynom_degree'])
        V.expected_covers.append('degree of a %s: done' % kind)

    def extent(p, n, at):
        """Where the coefficients between the zeros at both ends begin and end (names for numbers that exist)."""
        s, t, j = V.int('begin'), V.int('end'), V.int('j')
        V.define(z3.And(0 <= s, s <= t, t <= n, z3.Implies(s < n, at(s) != 0), z3.Implies(t > s, at(t - 1) != 0),
                        (s == n) == (s == t)))
        V.define(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s), at(j) == 0)))
        V.define(z3.ForAll([j], z3.Implies(z3.And(j >= t, j < n), at(j) == 0)))
        return s, t

    def factor(kind):
        p, n, at = poly(kind)
        r = V.method(V.get('enum_poly_params:BasicEnumPolyParams'), '_factor_out_polynom', p)
        V.prove('the result is a list', isinstance(r, VList))
        m = to_term(M.b_len(r))
        s, t = extent(p, n, at)
        i = V.int('i')
        for x in (s, n - t, t - 1, n - 1 - s):
            E.instantiate(x)
        V.prove('exactly the zeros at both ends are removed', m == t - s)
        if not V.I.truth(m > 0):
            V.cover('nothing left')
            return
        E.ctx.assume(z3.And(i >= 0, i < m))
        V.prove('all coefficients in between are kept', to_term(M.item(r, i, inside=True)) == at(s + i))
        V.cover('done')
    for kind in ('tuple', 'list'):
        V.scope('powers of x removed from a %s' % kind, lambda: factor(kind), [C + '_factor_out_polynom'])
        V.expected_covers += ['powers of x removed from a %s: %s' % (kind, c) for c in ('done', 'nothing left')]

    # ---- the root test, on what factoring out leaves
    def factored(I_, a, k):
        d = bind(I_, '_factor_out_polynom', ['poly'], {}, a, k)
        need(I_, d['poly'] is state['p'], 'the given polynomial')
        return state['r']
    state = {}

    def lemma(name, f, *terms):
        """A fact about arbitrary reals, proved and used for the given ones."""
        cs = [z3.Real('lemma%d' % i) for i in range(len(terms))]
        if name not in state.setdefault('proved', {}):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(z3.Not(f(*cs)))
            state['proved'][name] = s.check() == z3.unsat
        (E.ok(name + ' (lemma)', 'z3') if state['proved'][name] else V.prove(name + ' (lemma)', f(*cs)))
        V.define(z3.simplify(f(*terms)))
        V.define(f(*terms))

    def roots(kind, size):
        p = V.seq('p', 'int') if kind == 'tuple' else V.list('p', 'int')
        state['p'] = p
        if size is None:
            r = state['r'] = V.list('r', 'int')
            V.assume(to_term(M.b_len(r)) > 3)
            c = None
        else:
            c = [V.int('c%d' % i) for i in range(size)]
            r = state['r'] = VList(list(c))
            if c:
                V.assume(z3.And(c[0] != 0, c[-1] != 0))
        In.stubs[C + '_factor_out_polynom'] = factored
        res = V.method(V.get('enum_poly_params:BasicEnumPolyParams'), '_does_have_integer_roots', p)
        del In.stubs[C + '_factor_out_polynom']
        V.prove('the answer is a boolean', isinstance(res, bool) or is_term(res) and z3.is_bool(res))
        t = to_bool_term(res)
        x = V.int('x')
        re = [to_real(y) for y in c or []]
        val = lambda y: sum((re[i] * y ** i for i in range(2, size)), re[0] + re[1] * y)
        y = to_real(x)
        if size == 0:
            V.prove('the zero polynomial has integer roots', t)
        elif size in (None, 1):
            V.prove('no root is reported', z3.Not(t))
        elif size == 2:
            q = re[0] / re[1]
            lemma('quotient', lambda a, b, u: z3.Implies(b != 0, (a + b * u == 0) == (a / b == -u)), re[0], re[1], y)
            lemma('sign', lambda a, b, u: z3.Implies(z3.And(a + b * u == 0, u > 0, b != 0), (a > 0) != (b > 0)), re[0], re[1], y)
            V.prove('every positive integer root is detected', z3.Implies(z3.And(val(y) == 0, x > 0), t))
            V.prove('a reported root is an integer', z3.Implies(t, z3.IsInt(q)))
            V.prove('a reported root is a root', z3.Implies(z3.And(t, y == -q), z3.And(val(y) == 0, x != 0)))
        else:
            disc = re[1] * re[1] - 4 * re[0] * re[2]
            w = M.sqrt(disc)
            q1, q2 = (w - re[1]) / (2 * re[2]), (-w - re[1]) / (2 * re[2])
            lemma('completing the square', lambda a, b, c, u: z3.Implies(
                a + b * u + c * u * u == 0, (2 * c * u + b) * (2 * c * u + b) == b * b - 4 * a * c), *re, y)
            lemma('equal squares', lambda a, b: z3.Implies(a * a == b * b, z3.Or(a == b, a == -b)), w, 2 * re[2] * y + re[1])
            lemma('squares', lambda a: a * a >= 0, 2 * re[2] * y + re[1])
            for sg in (1, -1):
                lemma('quotient', lambda a, b, c, u: z3.Implies(c != 0, (a == 2 * c * u + b) == ((a - b) / (2 * c) == u)),
                      sg * w, re[1], re[2], y)
            first = z3.Implies(val(y) == 0, z3.Or(q1 == y, q2 == y))
            V.prove('an integer root is one of the two candidates', first)
            V.define(first)
            for q in (q1, q2):
                whole = z3.Implies(q == y, z3.IsInt(q))
                V.prove('a candidate that is an integer', whole)
                V.define(whole)
            V.prove('every integer root is detected', z3.Implies(val(y) == 0, t))
            V.prove('a reported root is an integer', z3.Implies(t, z3.Or(z3.IsInt(q1), z3.IsInt(q2))))
            for q in (q1, q2):
                lemma('quadratic formula', lambda a, b, c, v, u: z3.Implies(z3.And(
                    v * v == b * b - 4 * a * c, c != 0, z3.Or(2 * c * u + b == v, 2 * c * u + b == -v)), a + b * u + c * u * u == 0),
                    *re, w, y)
                V.prove('a reported root is a root', z3.Implies(z3.And(t, y == q), z3.And(val(y) == 0, x != 0)))
        V.cover('done')
    for kind in ('tuple', 'list'):
        for size in (0, 1, 2, 3, None):
            nm = 'integer roots, %s coefficients left of a %s' % ('more than three' if size is None else size, kind)
            V.scope(nm, lambda: roots(kind, size), [C + '_does_have_integer_roots'])
            V.expected_covers.append(nm + ': done')
