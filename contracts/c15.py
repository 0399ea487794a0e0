"""C15: the filters by convergence speed, convergence type and numerator roots."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'ContFrac(a, b).is_convergence_fast() with default arguments is an arbitrary function of the coefficients that may '
    'instead stop with ZeroB (the classification itself is a heuristic without an independent definition)',
    'ContFrac(a, b).estimate_approach_type_and_params() with default arguments attaches an arbitrary type (a text or None) '
    'and parameters that are functions of the coefficients, or fails with an exception',
    'with print_surprising_nonexp_contfracs the printed classification does not fail (a debugging aid the program never uses)',
    'progressbar.progressbar(x) iterates over x unchanged']
FAST = z3.Function('FAST', U, U, B)
ZERO = z3.Function('ZERO_B', U, U, B)
FAIL = z3.Function('CLASS_FAILS', U, U, B)
NONE = z3.Function('TYPE_NONE', U, U, B)
TYPE = z3.Function('TYPE', U, U, S)
PAR = z3.Function('TYPE_PARAMS', U, U, U)
M1 = 'enum_params:MITM.'


def run(V):
    E, M, I = V.E, V.M, V.I
    MATCH = ('tup', (AB, ('obj', 'lhs'), 'int', 'any'))
    M.handlers['lhs'] = lambda o, nm: None

    classifies = []

    # assumed contracts of the continued fraction
    def key(o):
        p = o.attrs['c15']
        return M.embed(p[0]), M.embed(p[1])

    def init(I_, a, k):
        d = bind(I_, 'ContFrac', ['self', 'a_coeffs', 'b_coeffs'], {}, a, k)
        I_.setattr(d['self'], 'c15', (d['a_coeffs'], d['b_coeffs']))
        I_.setattr(d['self'], '_approach_type', 'undefined')
        I_.setattr(d['self'], '_approach_params', 0)

    def fast(I_, a, k):
        need(I_, len(a) == 1 and not k, 'is_convergence_fast() with default arguments')
        x = key(a[0])
        if I_.truth(ZERO(*x)):
            I_.raise_(V.get('cont_fracs:ZeroB'), 'truncated')
        return FAST(*x)

    def estimate(I_, a, k):
        need(I_, len(a) == 1 and not k, 'estimate_approach_type_and_params() with default arguments')
        x = key(a[0])
        if classifies:
            E.ctx.assume(z3.Not(FAIL(*x)))
        elif I_.truth(FAIL(*x)):
            kind = E.ctx.choose(3)
            I_.raise_(('ValueError', 'ZeroDivisionError', V.get('cont_fracs:ZeroB'))[kind], 'cannot classify')
        t = None if I_.truth(NONE(*x)) else TYPE(*x)
        I_.setattr(a[0], '_approach_type', t)
        I_.setattr(a[0], '_approach_params', M.view(PAR(*x), 'any'))
    I.stubs['cont_fracs:ContFrac.__init__'] = init
    I.stubs['cont_fracs:ContFrac.is_convergence_fast'] = fast
    I.stubs['cont_fracs:ContFrac.estimate_approach_type_and_params'] = estimate
    names = {'FAST': Native('FAST', lambda I_, a, k: FAST(*[M.embed(x) for x in a])),
             'ZERO': Native('ZERO', lambda I_, a, k: ZERO(*[M.embed(x) for x in a])),
             'FAILS': Native('FAILS', lambda I_, a, k: FAIL(*[M.embed(x) for x in a])),
             'NONE': Native('NONE', lambda I_, a, k: NONE(*[M.embed(x) for x in a])),
             'TYPE': Native('TYPE', lambda I_, a, k: TYPE(*[M.embed(x) for x in a])),
             'PARAMS': Native('PARAMS', lambda I_, a, k: M.view(PAR(*[M.embed(x) for x in a]), 'any')),
             'ROOTS': M.modules['numpy'].ns['roots'], 'nint': M.modules['mpmath'].ns['nint']}

    def setup():
        ms = V.list('matches', MATCH)
        return ms, VList(parts=list(ms.parts)), V.new('enum_params:MITM', filtered_params=ms)

    def frame(ms, before, o):
        V.same('the given list is unchanged', ms, before)
        V.prove('only filtered_params changes', set(o.attrs) == {'filtered_params'})

    # ---- speed
    for printing in (None, False, True):
        def speed(printing=printing):
            classifies[:] = [1] if printing else []
            ms, before, o = setup()
            want = V.call(V.spec('speed', '''
def speed(ms):
    return [m for m in ms if not ZERO(m[0][0], m[0][1]) and FAST(m[0][0], m[0][1])]
''', names), before)
            V.method(o, 'filter_only_exp_convergence', *([] if printing is None else [printing]))
            V.same('exactly the matches classified fast are kept, in order', o.attrs['filtered_params'], want)
            frame(ms, before, o)
            V.cover('done')
        V.scope(M1 + 'filter_only_exp_convergence' + ('' if printing is None else ' printing=%s' % printing), speed,
                [M1 + 'filter_only_exp_convergence'])

        classifies[:] = []

    # ---- type
    src = '''
def kind(ms, white, black):
    res = []
    for m in ms:
        a, b = m[0]
        if FAILS(a, b):
            continue
        if NONE(a, b):
            if not white:
                res.append((m[0], m[1], m[2], (None, PARAMS(a, b))))
            continue
        t = TYPE(a, b)
        if white:
            if t in white:
                res.append((m[0], m[1], m[2], (t, PARAMS(a, b))))
        elif t not in black:
            res.append((m[0], m[1], m[2], (t, PARAMS(a, b))))
    return res
'''
    def lists():
        w, b = V.list('white', 'str'), V.list('black', 'str')
        return w, b

    def check_type(white, black, args, kw):
        ms, before, o = setup()
        # every way of failing, one after the other
        want = V.call(V.spec('kind', src, names), before, white, black)
        V.method(o, 'filter_clicks_by_approach_type', *args, **kw)
        V.same('exactly the matches of the right type are kept, with the classification', o.attrs['filtered_params'], want)
        frame(ms, before, o)
        V.cover('done')

    def white():
        w, _ = lists()
        V.assume(to_term(M.length(w)) > 0)
        check_type(w, None, [w], {})

    def white_kw():
        w, _ = lists()
        V.assume(to_term(M.length(w)) > 0)
        check_type(w, None, [], {'whitelist': w, 'blacklist': None})

    def black():
        _, b = lists()
        V.assume(to_term(M.length(b)) > 0)
        check_type(None, b, [], {'whitelist': None, 'blacklist': b})

    def default():
        check_type(VList(['exp', 'super_exp', 'fast']), None, [], {})
    T = M1 + 'filter_clicks_by_approach_type'
    V.scope(T + ' (white list)', white, [T])
    V.scope(T + ' (white list by name)', white_kw, [T])
    V.scope(T + ' (black list)', black, [T])
    V.scope(T + ' (default white list)', default, [T])

    def rejected():
        ms, before, o = setup()
        w, b = lists()
        both = z3.And(to_term(M.length(w)) > 0, to_term(M.length(b)) > 0)
        neither = z3.And(to_term(M.length(w)) == 0, to_term(M.length(b)) == 0)
        V.assume(z3.Or(both, neither))
        bad, ex = V.raises(lambda: V.method(o, 'filter_clicks_by_approach_type', whitelist=w, blacklist=b))
        V.prove('both or neither list is rejected with ValueError', bad and ex.cls.name == 'ValueError')
        V.same('nothing changes', o.attrs['filtered_params'], before)
        V.cover('rejected')
    V.scope(T + ' (illegal lists)', rejected, [T])

    def none_given():
        ms, before, o = setup()
        bad, ex = V.raises(lambda: V.method(o, 'filter_clicks_by_approach_type', None, None))
        V.prove('no list is rejected with ValueError', bad and ex.cls.name == 'ValueError')
        V.same('nothing changes', o.attrs['filtered_params'], before)
        V.cover('rejected')
    V.scope(T + ' (no list)', none_given, [T])

    # ---- roots
    def roots():
        ms, before, o = setup()
        want = V.call(V.spec('rooted', '''
def bad(r):
    return abs(r.imag) < 0.001 and abs(r.real - nint(r.real)) < 0.001 and r.real > 0.001

def rooted(ms):
    return [m for m in ms if not any([any([bad(r) for r in ROOTS(p[::-1])]) for p in m[0][1]])]
''', names), before)
        V.method(o, 'filter_pos_integer_roots_numerators')
        V.same('exactly the matches without positive near-integer real numerator root are kept, in order',
               o.attrs['filtered_params'], want)
        frame(ms, before, o)
        V.cover('done')
    N = M1 + 'filter_pos_integer_roots_numerators'
    V.scope(N, roots, [N])
    V.expected_covers = [N + ': done', T + ' (white list): done', T + ' (black list): done', T + ' (illegal lists): rejected',
                         T + ' (no list): rejected', T + ' (default white list): done', M1 + 'filter_only_exp_convergence: done']
