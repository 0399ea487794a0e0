"""C03: direct evaluation agrees with the nested fraction and with iteration."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = ['Python integers are mathematical integers',
               'multi-precision numbers (and floats) are mathematical reals (rounding is not modelled)',
               'lists to evaluate are nonempty (nothing is said of an empty list of terms)',
               'coefficients are integers; the multi-precision number made of an integer is that integer',
               'the value of a polynomial with real coefficients that are integers is its integer value (C05)']


def run(V):
    E, M, In = V.E, V.M, V.I
    F = Fractions(V)
    T = z3.Function('T', I, R)          # the nested tails: T(N) = a_N, T(j) = a_j + b_{j+1}/T(j+1)
    V.expected_covers = []
    q = ['cont_fracs:eval_contfrac']

    def tails(N, A, B):
        """Definitions; they are given for the indices at which the loop looks."""
        V.define(T(N) == A(N))

        def unfold(j):
            j = z3.simplify(to_term(j))
            V.define(z3.Implies(z3.And(j >= 0, j < N), T(j) == A(j) + QUOT(B(z3.simplify(j + 1)), T(z3.simplify(j + 1)))))
            return T(j)

        def fam(I_, k):
            k = to_term(k)
            unfold(N - k - 1)
            return unfold(N - k)
        V.I.families['*'] = [fam]
        return unfold

    def judge(N, call, want, zero=True):
        """A value exactly if no tail that is divided by vanishes."""
        r, x = V.raises(call)
        j = V.int('j')
        if r:
            V.prove('only a division by zero is an error', x.cls is M.builtins['ZeroDivisionError'])
            V.cover('division by zero')
            E.ctx.assume(z3.ForAll([_j], z3.Implies(z3.And(_j >= (1 if zero else 0), _j <= N), T(_j) != 0), patterns=[T(_j)]))
            V.prove('there is a vanishing tail', False)
            return None
        V.assume(z3.And(j >= (1 if zero else 0), j <= N))
        E.instantiate(z3.simplify(N - j), z3.simplify(N - j - 1))
        V.prove('no tail vanishes', T(j) != 0)
        V.cover('value')
        return x
    _j = z3.Int('_j')

    def lists(shape, kind, b_is):
        a = V.seq('a', shape, kind)
        n = to_term(M.length(a))
        V.assume(n >= 1)
        N = z3.simplify(n - 1)
        b = V.seq('b', shape, kind)
        m = to_term(M.length(b))
        el = lambda s, i: to_real(to_term(M.item(s, z3.simplify(to_term(i)), inside=True)))
        A = lambda i: el(a, i)
        if b_is == 'n-1':
            V.assume(m == n - 1)
            B = lambda i: el(b, i - 1)
        elif b_is == 'n':
            V.assume(m == n)
            B = lambda i: el(b, i)
        elif b_is == 'none':
            b = None
            B = lambda i: z3.RealVal(1)
        else:
            V.assume(z3.And(m != n, m != n - 1))
            r, x = V.raises(lambda: V.call('cont_fracs:eval_contfrac', a, b))
            V.prove('refused', r and x.cls is M.builtins['ValueError'])
            V.cover('refused')
            return
        unfold = tails(N, A, B)
        if b_is == 'none':
            args = [a] if E.ctx.branch(z3.Bool('left out')) else [a, None]
        else:
            args = [a, b]
        res = judge(N, lambda: V.call('cont_fracs:eval_contfrac', *args), None, b_is != 'n')
        if res is not None:
            unfold(0)
            want = T(0)
            if b_is == 'n':
                want = QUOT(B(z3.IntVal(0)), T(0))
            V.prove('the value is that of the nested fraction', to_real(to_term(res)) == want)
    for shape in ('real', 'int'):
        for kind in ('list', 'tuple'):
            for b_is in ('n-1', 'n', 'none', 'another length'):
                nm = 'evaluating %ss of %ss, %s numerators' % (kind, shape, b_is)
                V.scope(nm, lambda: lists(shape, kind, b_is), q)
                V.expected_covers += [nm + ': ' + c for c in (['refused'] if b_is == 'another length' else
                                                              ['value', 'division by zero'])]

    # ---- polynomials
    def subs(I_, a, k):
        """As for integers; coefficients that are integers made multi-precision numbers have the same values."""
        d = bind(I_, 'subs_in_polynom', ['coeffs', 'x'], {}, a, k)
        ps = M.parts_of(d['coeffs'])
        if len(ps) == 1 and isinstance(ps[0], SSeq) and len(ps[0].alts) == 1:
            g, e = ps[0].alts[0]
            if is_term(e) and e.is_real():
                need(I_, z3.is_app_of(e, z3.Z3_OP_TO_REAL), 'integer coefficients')
                s = SSeq(ps[0].n, ps[0].var, [(g, e.arg(0))], 'tuple')
                return z3.ToReal(F.subs(I_, [s, d['x']], {}))
        return F.subs(I_, a, k)
    qp = ['cont_fracs:eval_contfrac_by_polys', 'cont_fracs:eval_dec_contfrac_by_polys', 'cont_fracs:eval_contfrac',
          'cont_fracs:ContFrac.gen_iterations']

    def polys(f, form):
        In.stubs['utils:MathOperations.subs_in_polynom'] = subs
        a, b = F.setup(form)
        if form != 'single':
            V.assume(to_term(M.length(M.getitem(b, 0))) >= 1)
        depth = V.int('depth')
        V.assume(depth >= 1)
        N = z3.simplify(depth - 1)

        def val(X):
            def g(i):
                F.index(i)
                return z3.ToReal(X(z3.simplify(to_term(i))))
            return g
        A, B = val(F.A), val(F.B)
        unfold = tails(N, A, B)
        res = judge(N, lambda: V.call('cont_fracs:' + f, a, b, depth), None)
        if res is None:
            return
        unfold(0)
        V.prove('the value is that of the nested fraction', to_real(to_term(res)) == T(0))
        V.cover('direct')
        # iterating
        E.ctx.assume(z3.And(F.Q(N) != 0, QUOT(z3.ToReal(F.P(N)), z3.ToReal(F.Q(N))) == T(0)))      # the lemma below
        F.iterating()
        cf = V.call('cont_fracs:ContFrac', a, b, avoid_zero_b=False)
        V.method(cf, 'gen_iterations', N)
        V.same('iterating gives the same', V.method(cf, 'get_result'), res)
        V.cover('iterated')
    for f in ('eval_contfrac_by_polys', 'eval_dec_contfrac_by_polys'):
        for form in ('tuples', 'lists', 'single'):
            nm = '%s of %s' % (f, form)
            V.scope(nm, lambda: polys(f, form), qp)
            V.expected_covers += [nm + ': ' + c for c in ('value', 'division by zero', 'direct', 'iterated')]

    def lemma():
        """By induction on j from N down: P(N) = E(j+1)*(T(j)*P(j-1) + B_j*P(j-2)), E(j) being T(j)*...*T(N)."""
        X1, X2 = z3.Real('X(j-1)'), z3.Real('X(j-2)')      # X is P or Q
        a, b, b1, t, t1, e2, xn = [z3.Real(s) for s in ('a_j', 'b_j', 'b_j+1', 'T(j)', 'T(j+1)', 'E(j+2)', 'X(N)')]
        x = a * X1 + b * X2
        V.prove('at N: T(N) = a_N, E(N+1) = 1', z3.Implies(z3.And(t == a, xn == x, e2 == 1), xn == e2 * (t * X1 + b * X2)))
        V.prove('from j+1 to j', z3.Implies(z3.And(t1 != 0, t == a + b1 / t1, xn == e2 * (t1 * x + b1 * X1)),
                                            xn == (t1 * e2) * (t * X1 + b * X2)))
        a0, b1, t0, t1, e2, p, q = [z3.Real(s) for s in ('a_0', 'b_1', 'T(0)', 'T(1)', 'E(2)', 'P(N)', 'Q(N)')]
        V.prove('the quotient, N > 0', z3.Implies(z3.And(t1 != 0, e2 != 0, t0 == a0 + b1 / t1, p == e2 * (t1 * a0 + b1 * 1),
                                                         q == e2 * (t1 * 1 + b1 * 0)), z3.And(q != 0, p / q == t0)))
        V.prove('the quotient, N = 0', z3.Implies(z3.And(t0 == a0, p == a0, q == 1), z3.And(q != 0, p / q == t0)))
        V.prove('a product of nonzero tails is not zero', z3.Implies(z3.And(t1 != 0, e2 != 0), t1 * e2 != 0))
        V.cover('done')
    nm = 'if no tail vanishes, the last convergent is the nested fraction'
    V.scope(nm, lemma)
    V.expected_covers.append(nm + ': done')
