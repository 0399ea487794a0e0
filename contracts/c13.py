"""C13: refinement of matches."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'eval_dec_contfrac_by_polys(a, b, n) is a function of its arguments whose value is a number, NaN or an infinity, or it '
    'stops with ZeroDivisionError (C03 says which value)',
    'gen_iterations of the base class runs the given number of iterations or stops with ZeroB; get_result is then a function '
    'of the coefficients and that number (C01, C02, C04)',
    'a post-processing function maps numbers to numbers, NaN or infinities (C24); it may stop with ZeroDivisionError',
    'left-hand sides keep a real value that flip_sign negates, add_int shifts and canonalize_params leaves alone (C16, C17); '
    'different matches own different objects (C12)',
    'dec_to_str is a function of the number (C09)',
    'the convergence rate in a classification exp / super_exp is greater than 1',
    'progressbar.progressbar(x) iterates over x unchanged']
M1 = 'enum_params:MITM.'
KIND = z3.Function('CF_KIND', U, U, I, I)       # 0 number, 1 NaN, 2 inf, 3 -inf, 4 division by zero
VALUE = z3.Function('CF_VALUE', U, U, I, R)
IKIND = z3.Function('ITER_KIND', U, U, I, I)    # 5: a zero numerator
IVALUE = z3.Function('ITER_VALUE', U, U, I, R)
PKIND = z3.Function('POST_KIND', I, R, I)
PVALUE = z3.Function('POST_VALUE', I, R, R)
SKIND = z3.Function('POST_SPECIAL_KIND', I, I, I)
SVALUE = z3.Function('POST_SPECIAL_VALUE', I, I, R)
TEXT = z3.Function('TEXT', R, S)
SRC = z3.Function('LHS_VALUE', U, R)
CONV = z3.Function('CONV_KIND', U, I)
CTYPE = z3.Function('CONV_TYPE', U, S)
CBASE = z3.Function('CONV_BASE', U, R)
CCOEF = z3.Function('CONV_COEFF', U, R)
CPAR = z3.Function('CONV_PARAMS', U, U)
LHS = '''
class Lhs:
    def __init__(self, source, value):
        self.source = source
        self.value = value

    def get_val(self):
        return self.value

    def flip_sign(self):
        self.value = -self.value

    def add_int(self, n):
        if not isinstance(n, int):
            raise TypeError('not an integer')
        self.value = self.value + n

    def canonalize_params(self):
        pass

    def __str__(self):
        return 'left-hand side'
'''
SPEC = '''
def refine(matches, evaluate, post, trunc, accuracy):
    kept = []
    for ab, lhs, f, conv in matches:
        try:
            w = post[f](evaluate(ab, conv))
        except ZeroDivisionError:
            continue
        except ZeroB:
            continue
        if not isnormal(w):
            continue
        v = lhs.get_val()
        r, l = abs(w), abs(v)
        if trunc:
            r, l = r - floor(r), l - floor(l)
        if TEXT(r)[:accuracy + 2] != TEXT(l)[:accuracy + 2]:
            continue
        if v * w < 0:
            lhs.flip_sign()
            v = -v
        lhs.add_int(nint(w - v))
        kept.append((ab, lhs, f, conv))
    return kept
'''


def special(I_, kind, value):
    """A number, NaN, an infinity or a division by zero."""
    if I_.truth(kind == 0):
        return value
    if I_.truth(kind == 1):
        return NAN
    if I_.truth(kind == 2):
        return PINF
    if I_.truth(kind == 3):
        return NINF
    I_.raise_('ZeroDivisionError', 'division by zero')


class Post:
    """The list of post-processing functions."""
    def __init__(self, V):
        self.V = V

    def vgetitem(self, I_, i):
        def f(I2, a, k):
            x = a[0]
            if isinstance(x, Special):
                c = {'nan': 1, 'inf': 2, '-inf': 3}[str(x)]
                return special(I2, SKIND(to_term(i), c), SVALUE(to_term(i), c))
            return special(I2, PKIND(to_term(i), to_real(x)), PVALUE(to_term(i), to_real(x)))
        return Native('post', f)


def run(V):
    E, M, In = V.E, V.M, V.I
    classification = [0]
    Lhs = V.spec('Lhs', LHS)
    ZeroB = V.get('cont_fracs:ZeroB')

    def ev(I_, a, k):
        d = bind(I_, 'eval_dec_contfrac_by_polys', ['a', 'b', 'calculation_depth'], {}, a, k)
        x = M.embed(d['a']), M.embed(d['b']), to_term(d['calculation_depth'])
        return special(I_, KIND(*x), VALUE(*x))
    In.stubs['cont_fracs:eval_dec_contfrac_by_polys'] = ev
    In.stubs['decimal_hashtable:dec_to_str'] = lambda I_, a, k: TEXT(to_real(a[0]))

    def init(I_, a, k):
        d = bind(I_, 'ContFrac', ['self', 'a_coeffs', 'b_coeffs'], {}, a, k)
        o = d['self']
        I_.setattr(o, 'c13', (d['a_coeffs'], d['b_coeffs']))
        I_.setattr(o, '_approach_type', 'undefined')
        I_.setattr(o, '_approach_params', 0)
        I_.setattr(o, 'c13n', None)

    def gen(I_, a, k):
        d = bind(I_, 'gen_iterations', ['self', 'num_of_iters', 'iteration_algorithm', 'exec_finalize', 'print_calc'],
                 {'exec_finalize': True, 'print_calc': False}, a, k)
        need(I_, d['exec_finalize'] is True and d['print_calc'] is False, 'gen_iterations finalizes')
        o = d['self']
        alg = d['iteration_algorithm']
        need(I_, isinstance(alg, BoundMethod) and alg.self_ is o and alg.func is o.cls.lookup('iteration_algorithm'),
             'gen_iterations uses its own algorithm')
        x = [M.embed(t) for t in o.attrs['c13']] + [to_term(d['num_of_iters'])]
        if I_.truth(IKIND(*x) == 5):
            I_.raise_(ZeroB, 'zero numerator')
        I_.setattr(o, 'c13n', d['num_of_iters'])

    def result(I_, a, k):
        o = a[0]
        need(I_, o.attrs['c13n'] is not None, 'get_result after gen_iterations')
        x = [M.embed(t) for t in o.attrs['c13']] + [to_term(o.attrs['c13n'])]
        kd = IKIND(*x)
        return IVALUE(*x) if I_.truth(kd == 0) else NAN
    In.stubs['cont_fracs:ContFrac.__init__'] = init
    In.stubs['basic_representation_types:BasicRecursiveConstRepresenter.gen_iterations'] = gen
    In.stubs['cont_fracs:ContFrac.get_result'] = result
    ns = M.modules['mpmath'].ns
    names = {'TEXT': Native('TEXT', lambda I_, a, k: TEXT(to_real(a[0]))), 'isnormal': ns['isnormal'], 'nint': ns['nint'],
             'floor': ns['floor'], 'ZeroB': ZeroB, 'ln': ns['ln'], 'ceil': M.modules['math'].ns['ceil'],
             'EVAL': Native('EVAL', lambda I_, a, k: ev(I_, a, k)),
             'ITER': Native('ITER', lambda I_, a, k: iterate(I_, a))}

    def iterate(I_, a):
        x = M.embed(a[0]), M.embed(a[1]), to_term(a[2])
        if I_.truth(IKIND(*x) == 5):
            I_.raise_(ZeroB, 'zero numerator')
        return IVALUE(*x) if I_.truth(IKIND(*x) == 0) else NAN

    def matches(conv):
        u = z3.Const('matches', U)
        base = V.seq('matches', ('tup', (AB, ('obj', 'lhs'), 'int', ('obj', 'conv'))))
        k = E.int('m')
        n = to_term(M.length(base))
        t = M.view(ITEM(u, k), ('tup', (AB, ('obj', 'lhs'), 'int', ('obj', 'conv'))))
        t = tuple(M.elements(t)) if not isinstance(t, tuple) else t
        w = t[3].term
        lhs = lambda: VObj(Lhs, {'source': t[1], 'value': SRC(t[1].term)})
        if not conv:
            alts = [(True, (t[0], lhs(), t[2], t[3]))]
        else:
            exp = (CTYPE(w), (CBASE(w), CCOEF(w)))
            other = (CTYPE(w), M.view(CPAR(w), 'any'))
            isexp = z3.Or(CTYPE(w) == 'exp', CTYPE(w) == 'super_exp')
            c0, c1 = CONV(w) == 0, z3.And(CONV(w) != 0, isexp)
            alts = [(c0, (t[0], lhs(), t[2], None)),
                    (c1, (t[0], lhs(), t[2], exp)),
                    (z3.Not(z3.Or(c0, c1)), (t[0], lhs(), t[2], other))]
            x = z3.Const('x_', U)
            V.define(z3.ForAll([x], CBASE(x) > 1))
        return VList(parts=[SSeq(n, k, alts)])

    def go(method, conv, evaluate, printing):
        acc, depth = V.int('accuracy'), V.int('depth')
        V.assume(z3.And(acc >= 1, depth >= 1))
        trunc = V.bool('trunc')
        post = Post(V)
        ms, ms2 = matches(conv), matches(conv)
        target = V.real('target')
        o = V.new('enum_params:MITM', filtered_params=ms, trunc_integer=trunc, postproc_funcs=post,
                  target_generator=Native('target', lambda I_, a, k: target))
        attrs = dict(o.attrs)
        want = V.call(V.spec('refine', SPEC, names), ms2, V.call(V.spec('evaluate', evaluate, names), acc, depth), post, trunc, acc)
        V.method(o, method, acc, depth, **({} if printing is None else {'print_clicks': printing}))
        V.same('exactly the confirmed matches, in order, with adjusted left-hand sides', o.attrs['filtered_params'], want)
        V.prove('nothing else changes', all(o.attrs.get(k) is attrs[k] for k in attrs if k != 'filtered_params') and
                set(o.attrs) == set(attrs))
        V.cover('done')

    const = '''
def evaluate(accuracy, depth):
    return lambda ab, conv: EVAL(ab[0], ab[1], depth)
'''
    rate = '''
def evaluate(accuracy, depth):
    def run(ab, conv):
        n = depth
        if conv is not None and (conv[0] == 'exp' or conv[0] == 'super_exp'):
            q = conv[1][0]
            m = ceil(abs(ln(10 ** -(accuracy + 100) / q) / ln(q)))
            n = m if m < n else n
        return ITER(ab[0], ab[1], n)
    return run
'''
    Q = M1 + '_refine_clicks'
    for printing in (None, True):
        p = '' if printing is None else ' printing'
        n = M1 + 'refine_clicks_with_const_num_of_iters' + p
        V.scope(n, lambda: go('refine_clicks_with_const_num_of_iters', False, const, printing),
                [n.split(' ')[0], Q, M1 + 'compare_dec_with_accuracy'])
        V.expected_covers = getattr(V, 'expected_covers', []) + [n + ': done']
        if printing:
            continue
        n = M1 + 'refine_clicks_with_convergence_info'
        V.scope(n, lambda: go('refine_clicks_with_convergence_info', True, rate, printing),
                [n.split(' ')[0], 'basic_representation_types:BasicContFracAlgo.gen_iterations'])
        V.expected_covers.append(n + ': done')

    # the adjusted left-hand side itself matches the right-hand side
    for sv in (1, -1):
        for sw in (1, -1):
            def adjusted(sv=sv, sw=sw):
                r, l = V.real('r'), V.real('l')          # absolute values
                v, w = sv * l, sw * r
                V.assume(z3.And(r > 0, l > 0))
                s = -v if sv != sw else v
                A, B = V.int('A'), V.int('B')
                fr, fl = V.real('fr'), V.real('fl')
                V.assume(z3.And(r == A + fr, l == B + fl, fr >= 0, fl >= 0, fr < 1, fl < 1))
                V.assume(z3.And(2 * (fr - fl) < 1, 2 * (fl - fr) < 1))
                V.prove('floor', z3.And(z3.ToInt(r) == A, z3.ToInt(l) == B))
                V.prove('the shift', to_term(M.nint(w - s)) == sw * (A - B))
                V.prove('the adjusted value differs from the right-hand side by the difference of the fractional parts',
                        w - (s + to_real(M.nint(w - s))) == sw * (fr - fl))
                V.cover('lemma')
            nm = 'the adjusted value matches (signs %+d %+d)' % (sv, sw)
            V.scope(nm, adjusted)
            V.expected_covers.append(nm + ': lemma')
