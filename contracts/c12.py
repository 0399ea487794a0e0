"""C12: click search."""
import z3
from pyvc.values import *
from pyvc.contractlib import *

ASSUMPTIONS = [
    'the hashtable is an arbitrary map from numbers to lists of items (C09 says when two numbers address the same entry)',
    'the enumeration of left-hand sides is an arbitrary finite sequence of objects (C19), their values are arbitrary real '
    'numbers (C16, C17; C19 excludes NaN and infinity) and degeneracy is an arbitrary predicate (C17)',
    'the evaluator class called with one object returns an independent copy of it (C16, C17)',
    'progressbar.progressbar(x) iterates over x unchanged']
VAL = z3.Function('VALUE', U, R)
DEG = z3.Function('DEGENERATE', U, B)
GEN = z3.Function('ENUMERATED', U, R, U)
LENG = z3.Function('ANNOUNCED', U, R, I)
Q = 'enum_params:MITM.find_clicks'


def run(V):
    E, M, In = V.E, V.M, V.I

    def lhs(o, nm):
        if nm == 'get_val':
            return Native(nm, lambda I_, a, k: VAL(o.term))
        if nm == 'is_degenerate':
            return Native(nm, lambda I_, a, k: DEG(o.term))
        return None
    M.handlers['lhs'] = lhs
    copy = fresh_copy(V)
    names = {'ALL': Native('ALL', lambda I_, a, k: M.view(GEN(M.embed(a[0]), to_real(a[1])), ('seq', ('obj', 'lhs'), 'list'))),
             'HOWMANY': Native('HOWMANY', lambda I_, a, k: LENG(M.embed(a[0]), to_real(a[1]))),
             'VALUE': Native('VALUE', lambda I_, a, k: VAL(a[0].term)),
             'DEGENERATE': Native('DEG', lambda I_, a, k: DEG(a[0].term)),
             'COPY': copy, 'floor': M.modules['mpmath'].ns['floor']}

    def clicks():
        params = SV(z3.Const('lhs_params', U), 'any')
        target = V.real('target')
        t = Table(V)
        trunc = V.bool('trunc')
        old = V.list('old', 'any')
        o = V.new('enum_params:MITM', filtered_params=old, trunc_integer=trunc, dec_hashtable=t,
                  target_generator=Native('target', lambda I_, a, k: target))
        enum = V.spec('Enum', '''
class Enum:
    def __init__(self, params, target):
        self.params = params
        self.target = target

    def generator(self):
        return ALL(self.params, self.target)

    def __len__(self):
        n = HOWMANY(self.params, self.target)
        return n if n >= 0 else 0
''', names)
        want = V.call(V.spec('search', '''
def search(objects, table, trunc):
    res = []
    for o in objects:
        v = abs(VALUE(o))
        if trunc:
            v = v - floor(v)
        if v in table and not DEGENERATE(o):
            for ab, f in table[v]:
                res.append((ab, COPY(o), f, None))
    return res
''', names), M.view(GEN(params.term, target), ('seq', ('obj', 'lhs'), 'list')), t, trunc)
        attrs = dict(o.attrs)
        V.method(o, 'find_clicks', VDict([['enum', enum], ['eval', copy]]), params)
        V.same('one match per item of every addressed entry, in order, each with its own copy', o.attrs['filtered_params'], want)
        V.prove('nothing else changes', all(o.attrs.get(k) is attrs[k] for k in attrs if k != 'filtered_params') and
                set(o.attrs) == set(attrs))
        V.cover('done')
    V.scope(Q, clicks, [Q])
    V.expected_covers = [Q + ': done']
