"""C25: the built-in constants and their selection."""
from fractions import Fraction as F
from math import factorial
import mpmath
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'mpf of a literal text is the nearest number of the working precision at that moment (computed with the real mpmath); later '
    'operations are exact (the product with 1 rounds to the working precision)',
    'pi by Machin\'s formula and e by its series, with the usual bounds of their remainders; the zeta values and the Euler-Mascheroni '
    'constant by the Euler-Maclaurin formula, whose remainder is smaller than the first omitted term (completely monotone functions)',
    '2 sin(pi/18) is the only root of x^3 - 3x + 1 in (0, 1) and the golden ratio the positive root of x^2 - x - 1; the thresholds are '
    '1 - 2 sin(pi/18) and 2 sin(pi/18)',
    'the constants of Feigenbaum have no closed definition: only their published leading digits']
G, Q = 'gen_consts:', 'main:'
FUN = {'pi': 'gen_pi_const', 'e': 'gen_e_const', 'phi': 'gen_phi_const', 'euler_masch': 'gen_euler_masch_const',
       'apery': 'gen_apery_const', 'percolation': 'gen_percolation_consts', 'zeta': 'gen_zeta_consts', 'feig': 'gen_feig_consts'}
INDICES = {'percolation': range(2), 'zeta': range(2, 21), 'feig': range(4)}
GIVEN = {'pi': 145, 'e': 145, 'phi': 98, 'euler_masch': 97, 'apery': 98, 'feig': 11}
FEIG = ['0.832367236905', '1.831258984937', '2.831509004740', '1.554618047064']
KINDS = [(q, i) for q in FUN for i in INDICES.get(q, [None])]


def bernoulli(n):
    b = [F(0)] * (n + 1)
    a = [F(0)] * (n + 1)
    for m in range(n + 1):
        a[m] = F(1, m + 1)
        for j in range(m, 0, -1):
            a[j - 1] = j * (a[j - 1] - a[j])
        b[m] = a[0]
    return b


def atan_inv(q, n):
    """Bounds of arctan(1/q)."""
    s = sum(F((-1) ** k, (2 * k + 1) * q ** (2 * k + 1)) for k in range(n))
    t = F(1, (2 * n + 1) * q ** (2 * n + 1))
    return s - t, s + t


def enclosure(name, i):
    """Rational bounds of a constant (None: it is the root of a polynomial)."""
    if name == 'pi':
        a, b = atan_inv(5, 120), atan_inv(239, 40)
        return 16 * a[0] - 4 * b[1], 16 * a[1] - 4 * b[0]
    if name == 'e':
        s = sum(F(1, factorial(k)) for k in range(110))
        return s, s + F(2, factorial(110))
    if name == 'feig':
        return F(FEIG[i]) - F(1, 10 ** 12), F(FEIG[i]) + F(1, 10 ** 12)
    if name in ('zeta', 'apery'):
        s = 3 if name == 'apery' else i
        N, m = 64, 60
        b = bernoulli(2 * m + 2)
        t = sum(F(1, k ** s) for k in range(1, N)) + F(1, (s - 1) * N ** (s - 1)) + F(1, 2 * N ** s)
        rising = s
        for k in range(1, m + 2):
            x = b[2 * k] * rising / factorial(2 * k) / F(N) ** (s + 2 * k - 1)
            if k > m:
                return t - abs(x), t + abs(x)
            t += x
            rising *= (s + 2 * k - 1) * (s + 2 * k)
    if name == 'euler_masch':
        p, m = 6, 60
        N = 2 ** p
        b = bernoulli(2 * m + 2)
        n2 = 400
        l2 = sum(F(1, k * 2 ** k) for k in range(1, n2))
        l2 = (l2, l2 + F(1, 2 ** (n2 - 1)))
        t = sum(F(1, k) for k in range(1, N + 1)) - F(1, 2 * N)
        for k in range(1, m + 1):
            t += b[2 * k] / (2 * k * F(N) ** (2 * k))
        x = abs(b[2 * m + 2] / ((2 * m + 2) * F(N) ** (2 * m + 2)))
        return t - p * l2[1] - x, t - p * l2[0] + x
    return None


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    for q in [q for q in In.stubs if q.startswith(G)]:
        del In.stubs[q]
    real_new = M.mpf.ns['__native_new__']

    def new(I_, a, k):
        d = M.mp.attrs['dps']
        if len(a) == 2 and isinstance(a[1], str) and not k:
            if type(d) is not int:
                I_.unsup('the precision of a literal')
            with mpmath.workdps(d):
                x = mpmath.mpf(a[1])
            n, m = x.man_exp
            return F(n) * F(2) ** m
        return real_new.fn(I_, a, k)
    M.mpf.ns['__native_new__'] = Native('mpf', new)
    In.module('gen_consts')
    num = lambda x: z3.RealVal('%d/%d' % (F(x).numerator, F(x).denominator))

    def right(what, v, name, i):
        """v is the constant up to its digits."""
        if isinstance(v, (int, F)):
            v = num(v)
        need(In, is_term(v), 'the constant is a number')
        v = to_real(v)
        eps = num(F(1, 10 ** GIVEN.get(name, 96)))
        if name in ('phi', 'percolation'):
            x = E.real('x') if hasattr(E, 'real') else z3.Real(E.fresh_name('x'))
            if name == 'phi':
                V.assume(z3.And(x > 0, x * x - x - 1 == 0))
            else:
                V.assume(z3.And(x > 0, x < 1, x * x * x - 3 * x + 1 == 0))
                x = 1 - x if i == 0 else x
            V.prove(what, z3.And(v - x < eps, x - v < eps))
            return
        lo, hi = enclosure(name, i)
        V.prove(what, z3.And(v - num(lo) < eps, num(hi) - v < eps))

    def direct(name, i, how):
        w = V.int('working_precision')
        V.assume(w >= 1)
        was = M.mp.attrs['dps']
        M.mp.attrs['dps'] = w
        try:
            f = V.get(G + FUN[name])
            rest = [] if i is None else [i]
            if how == 'omitted':
                v = In.call(f, [], {'i': i}) if rest else In.call(f, [])
                want = w
            elif how == 'none':
                v = In.call(f, [None] + rest)
                want = w
            else:
                p = V.int('precision')
                V.assume(p >= 1)
                v = In.call(f, [p] + rest)
                want = p
            d = M.mp.attrs['dps']
        finally:
            M.mp.attrs['dps'] = was
        V.prove('the working precision', M.eq(d, want))
        right('the constant', v, name, i)
        V.cover('made')

    def selected(name, i, op):
        In.module('main')
        legal = [k for k, _ in M.dict_items(V.get('configfile:CONFIG_PARAMS_TYPES'))]
        vals = {k: SV(z3.Const('value_' + k, U), ('obj', 'setting')) for k in legal}
        vals.update(hashtable_file_operation=op, hashtable_file=V.str('file'), i=V.int('i') if i is None else i, gen_hashtable_only=True)
        if name is None:
            vals['const'] = V.str('const')
            V.assume(z3.And(*[vals['const'] != q for q in FUN]))
        else:
            vals['const'] = name
        M.handlers['setting'] = lambda o, nm: z3.Function('TEXT', U, S)(o.term) if nm == '__str__' else None
        M.handlers['duration'] = M.handlers['setting']
        real = V.get('enum_params:MITM').ns
        seen = []

        def take(nm):
            def call(I_, a, kw):
                d = I_.bind_args(real[nm], list(a), kw)
                seen.append((nm, d.get('target_generator')))
                I_.raise_('KeyboardInterrupt')
            return Native(nm, call)
        search = VClass('search object', [M.builtins['object']], {
            q: take(q) for q, f in real.items() if isinstance(f, VFunc) and not q.startswith('__')})
        filecls = VClass('file', [M.builtins['object']], {
            '__enter__': Native('__enter__', lambda I_, a, kw: a[0]), '__exit__': Native('__exit__', lambda I_, a, kw: None),
            'close': Native('close', lambda I_, a, kw: None)})
        C = 'configfile:ConfigParser.'
        stubs = {C + '__init__': lambda I_, a, kw: None, C + 'get_config': lambda I_, a, kw: VDict([[q, vals[q]] for q in legal])}
        ns, en, dl = In.module('main').ns, In.module('enum_params').ns, In.module('dill').ns
        ts = In.module('datetime').ns
        was = dict(ns), dict(en), dict(dl), dict(ts)
        ns['open'] = Native('open', lambda I_, a, kw: VObj(filecls, {}))
        en['MITM'] = Native('MITM', lambda I_, a, kw: take('__init__').fn(I_, [None] + list(a), kw))
        dl['load'] = Native('load', lambda I_, a, kw: VObj(search, {}))
        ts['timedelta'] = Native('timedelta', lambda I_, a, kw: SV(z3.Const(E.fresh_name('t'), U), ('obj', 'duration')))
        In.stubs.update(stubs)
        try:
            bad, r = V.raises(lambda: V.call(Q + 'main', 'config.ini'))
        finally:
            for m, w in zip((ns, en, dl, ts), was):
                m.clear()
                m.update(w)
            for q in stubs:
                del In.stubs[q]
        if name is None:
            V.prove('an unknown constant is rejected with ValueError', bad and r.cls.name == 'ValueError')
            V.prove('nothing is done', not seen)
            V.cover('rejected')
            return
        V.prove('the search gets its target', len(seen) == 1 and seen[0][0] == ('__init__' if op == 'generate' else 'redefine_settings'))
        if not seen:
            return
        w = V.int('working_precision')
        V.assume(w >= 1)
        d0 = M.mp.attrs['dps']
        M.mp.attrs['dps'] = w
        try:
            v = In.call(seen[0][1], [])
            d = M.mp.attrs['dps']
        finally:
            M.mp.attrs['dps'] = d0
        V.prove('the working precision stays', M.eq(d, w))
        right('the selected constant', v, name, i)
        V.cover('selected')
    for name, i in KINDS:
        label = name if i is None else '%s %d' % (name, i)
        for how in ('omitted', 'none', 'given'):
            n = '%s, precision %s' % (label, how)
            V.scope(n, lambda name=name, i=i, how=how: direct(name, i, how), [G + FUN[name], G + 'set_precision', G + 'set_precision_decor'])
            V.expected_covers.append(n + ': made')
        for op in ('generate', 'expand'):
            n = '%s, run %s' % (label, op)
            V.scope(n, lambda name=name, i=i, op=op: selected(name, i, op), [Q + 'main', G + FUN[name]])
            V.expected_covers.append(n + ': selected')
    for op in ('generate', 'expand', 'use'):
        V.scope('unknown constant, run ' + op, lambda op=op: selected(None, None, op), [Q + 'main'])
        V.expected_covers.append('unknown constant, run %s: rejected' % op)
