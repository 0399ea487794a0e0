"""C11: building the hashtable."""
import z3
from pyvc.values import *
from pyvc.contractlib import *
from pyvc.models import APPF, KINDU

ASSUMPTIONS = ['the table is a map from numbers to lists of entries as in C09: get, setdefault and `in` address the entry that the key of the '
               'number selects, an entry is only added by setdefault',
               'the key of a number is never a beginning of the word parameters',
               'the value of a continued fraction depends on the pair, the depth and the working precision (C01-C04); evaluation raises nothing '
               'but ZeroDivisionError',
               'post-processing functions are functions of their argument and raise nothing (C24)',
               'the enumerator gives the enumerated pairs (C05-C08)',
               'a set is visited in some order, each member at least once (what is proved does not depend on the order)']
Q = 'enum_params:MITM._iter2hashtalbe'
PAIR = ('tup', ('any', 'any'))


def run(V):
    """Pair P, function index F and table entry X are arbitrary but fixed: ghost variables follow how often (P, F) is stored at X,
    and what is remembered about P."""
    In, M, E = V.I, V.M, V.E
    V.expected_covers = []
    fn = z3.Function
    KEY, ENTRY = fn('KEY', I, S), fn('ENTRY', I, U)
    SLOT = fn('ENTRY_OF', R, I)
    IN, INP = fn('STORED_IN', I, I, B), fn('PAIR_STORED_IN', I, I, B)
    SB, HP = fn('STORED_BEFORE', I, B), fn('PAIR_STORED_BEFORE', I, B)
    WAS, EF = fn('ENUMERATED_BEFORE', I, B), fn('FUNCTION_BEFORE', I, B)
    EFW = fn('FUNCTION_AT', I, I)
    VALU, ZD = fn('FRACTION_VALUE', U, I, U), fn('FRACTION_UNDEFINED', U, I, B)
    LISTOF, FOUND = fn('LIST_AT', I, U), fn('REMEMBERED_FOR', U, U)

    def iter2(validate, trunc):
        In.module('enum_params')
        PA, PB, F, X = z3.Const('PA', U), z3.Const('PB', U), V.int('F'), V.int('X')
        P = M.embed((SV(PA, 'any'), SV(PB, 'any')))

        def is_pair(k):
            if not (isinstance(k, tuple) and len(k) == 2):
                return z3.BoolVal(False)
            return z3.And(M.embed(k[0]) == PA, M.embed(k[1]) == PB)

        def is_entry(v):
            return z3.And(is_pair(v[0]), to_term(v[1]) == F) if isinstance(v, tuple) and len(v) == 2 and is_intlike(v[1]) else z3.BoolVal(False)
        funcs, filt = V.seq('functions', ('fun', 'ext'), 'list'), V.seq('selected', 'int', 'tuple')
        itr = V.seq('pairs', PAIR, 'list')
        n, nf, nt = to_term(M.b_len(itr)), to_term(M.b_len(filt)), V.int('entries')
        depth, C0 = V.int('depth'), V.int('stored already')
        V.assume(z3.And(nt >= 0, C0 >= 0, depth >= 1))
        q = z3.Int('q')
        fi = lambda j: to_term(M.item(filt, j, inside=True))
        E.axioms += [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nf), z3.And(fi(q) >= 0, fi(q) < to_term(M.b_len(funcs)))), patterns=[fi(q)])]
        pair = lambda k: is_pair(M.item(itr, k, inside=True))
        shape = ('seq', ('tup', (PAIR, 'int')), 'list')
        entry = lambda o, j: M.item(M.sv_seq(SV(ENTRY(o), shape)), j, inside=True)
        cnt = lambda o: LEN(ENTRY(o))
        par = lambda o: z3.PrefixOf(KEY(o), z3.StringVal('parameters'))
        # (by induction: an entry of the pair is remembered together with the pair)
        a, b = z3.Int('a'), z3.Int('b')

        def steps(o, j):
            x = entry(o, j)
            ispair = is_pair(x[0])
            return [z3.Not(IN(o, 0)), z3.Not(INP(o, 0)), z3.Not(SB(0)), z3.Not(HP(0)),
                    IN(o, j + 1) == z3.Or(IN(o, j), z3.And(ispair, to_term(x[1]) == F)), INP(o, j + 1) == z3.Or(INP(o, j), ispair)]
        outer = lambda o: [SB(o + 1) == z3.Or(SB(o), z3.And(z3.Not(par(o)), IN(o, cnt(o)))), HP(o + 1) == z3.Or(HP(o), z3.And(z3.Not(par(o)), INP(o, cnt(o))))]
        E.prove('lemma: an entry is remembered with its pair (in a list)', z3.And(
            z3.Implies(z3.And(*steps(a, b)), z3.Implies(IN(a, 0), INP(a, 0))),
            z3.Implies(z3.And(*steps(a, b), z3.Implies(IN(a, b), INP(a, b))), z3.Implies(IN(a, b + 1), INP(a, b + 1)))))
        E.prove('lemma: an entry is remembered with its pair', z3.And(
            z3.Implies(z3.And(*steps(a, b)), z3.Implies(SB(0), HP(0))),
            z3.Implies(z3.And(*outer(a), z3.Implies(IN(a, cnt(a)), INP(a, cnt(a))), z3.Implies(SB(a), HP(a))), z3.Implies(SB(a + 1), HP(a + 1)))))

        def known_entry(o, j):
            E.ctx.assume(z3.And(*steps(o, j), z3.Implies(IN(o, j), INP(o, j))))

        def known_entries(o):
            E.ctx.assume(z3.And(*outer(o), *[z3.Implies(x, y) for x, y in ((IN(o, cnt(o)), INP(o, cnt(o))), (SB(o), HP(o)), (SB(o + 1), HP(o + 1)))]))
            known_entry(o, cnt(o))

        def known_pair(k):
            E.ctx.assume(z3.And(z3.Not(WAS(0)), z3.Implies(k >= 0, WAS(k + 1) == z3.Or(WAS(k), pair(k)))))

        def known_function(j):
            w = EFW(j)
            E.ctx.assume(z3.And(z3.Not(EF(0)), z3.Implies(j >= 0, EF(j + 1) == z3.Or(EF(j), fi(j) == F)),
                                z3.Implies(EF(j), z3.And(w >= 0, w < j, fi(w) == F)), z3.Implies(z3.And(EF(j), j <= nf), EF(nf)),
                                # (an index that was not met so far)
                                z3.ForAll([q], z3.Implies(z3.And(z3.Not(EF(j)), q >= 0, q < j), fi(q) != F), patterns=[fi(q)])))
        # what is to be stored
        val = VALU(P, depth)
        fval = APPF(1)(ITEM(M.embed(funcs), F), MKR(UR(val)))
        mag = z3.If(UR(fval) >= 0, UR(fval), -UR(fval))
        key = z3.simplify(mag - z3.ToReal(z3.ToInt(mag))) if trunc else mag
        good = lambda x: z3.And(KINDU(x) == 0, UR(x) != 0)
        G = z3.And(z3.Not(ZD(P, depth)), good(val), EF(nf), good(fval), SLOT(key) == X, *([z3.Not(SB(nt))] if validate else []))
        stored = lambda g: z3.If(C0 > 0, C0, z3.If(g, z3.IntVal(1), z3.IntVal(0)))
        g = VObj(VClass('ghost', [M.builtins['object']], {}), {'count': C0, 'pair': False, 'entry': False})

        def get(nm):
            v = In.getattr(g, nm)
            return z3.BoolVal(v) if isinstance(v, bool) else to_term(v)

        # ---- the map from pairs to the function indices that are stored with them
        def remembered(o, nm):
            def add(I_, a_, kw):
                I_.setattr(g, 'entry', M.simp(z3.Or(get('entry'), z3.And(o.term == FOUND(P), to_term(a_[0]) == F))))

            def contains(I_, a_, kw):
                return M.simp(z3.If(z3.And(o.term == FOUND(P), to_term(a_[0]) == F), get('entry'), fn('OTHER_REMEMBERED', U, I, B)(o.term, to_term(a_[0]))))
            return {'add': Native('add', add), '__contains__': Native('__contains__', contains)}.get(nm)
        M.handlers['indices'] = remembered

        def has_pair(I_, k):
            return M.simp(z3.If(is_pair(k), get('pair'), V.bool(E.fresh_name('known'))))

        def indices(k):
            u = M.embed(k)
            E.ctx.assume((FOUND(u) == FOUND(P)) == is_pair(k))
            return SV(FOUND(u), ('obj', 'indices'))

        def setdefault(I_, a_, kw):
            need(I_, len(a_) == 3 and isinstance(a_[2], VSet) and not a_[2].parts or all(not p.vals for p in a_[2].parts), 'setdefault to an empty set')
            I_.setattr(g, 'pair', M.simp(z3.Or(get('pair'), is_pair(a_[1]))))
            return indices(a_[1])

        def lookup(I_, a_, kw):
            if I_.truth(z3.And(is_pair(a_[1]), z3.Not(get('pair')))):
                I_.raise_('KeyError', a_[1])
            return indices(a_[1])

        def lookup_or(I_, a_, kw):
            if I_.truth(has_pair(I_, a_[1])):
                return indices(a_[1])
            return (list(a_[2:]) + [None])[0]
        mapcls = VClass('map', [M.builtins['object']], {
            '__contains__': Native('__contains__', lambda I_, a_, kw: has_pair(I_, a_[1])), 'setdefault': Native('setdefault', setdefault),
            '__getitem__': Native('__getitem__', lookup), 'get': Native('get', lookup_or)})
        In.fresh_dict[Q] = lambda I_: VObj(mapcls, {})

        # ---- the hashtable
        def items(I_, a_, kw):
            t = z3.Int(E.fresh_name('entry'))
            return M.gen_of([SSeq(nt, t, [(True, (KEY(t), SV(ENTRY(t), shape)))], 'list')])

        def slot_list(o, nm):
            x = o.term.arg(0)

            def contains(I_, a_, kw):
                return M.simp(z3.If(z3.And(x == X, is_entry(a_[0])), get('count') > 0, V.bool(E.fresh_name('other'))))

            def append(I_, a_, kw):
                v = a_[0]
                V.prove('what is stored is a pair of polynomials and a function index', isinstance(v, tuple) and len(v) == 2 and
                        isinstance(v[0], tuple) and len(v[0]) == 2 and is_intlike(v[1]))
                I_.setattr(g, 'count', M.simp(get('count') + z3.If(z3.And(x == X, is_entry(v)), 1, 0)))
            return {'__contains__': Native('__contains__', contains), 'append': Native('append', append)}.get(nm)
        M.handlers['entries'] = slot_list

        def present(I_, k):
            """Whether there is an entry: unknown, but there is one where something is stored."""
            here = V.bool(E.fresh_name('present'))
            E.ctx.assume(z3.Implies(z3.And(SLOT(k) == X, get('count') > 0), here))
            return here

        def table_get(I_, a_, kw):
            k = to_real(a_[1])
            if I_.truth(present(I_, k)):
                return SV(LISTOF(SLOT(k)), ('obj', 'entries'))
            return (list(a_[2:]) + [None])[0]

        def table_setdefault(I_, a_, kw):
            k = to_real(a_[1])
            need(I_, len(a_) == 3 and isinstance(a_[2], VList) and a_[2].concrete() == [], 'setdefault to an empty list')
            return SV(LISTOF(SLOT(k)), ('obj', 'entries'))
        tablecls = VClass('table', [M.builtins['object']], {'items': Native('items', items), 'get': Native('get', table_get),
                          'setdefault': Native('setdefault', table_setdefault),
                          '__contains__': Native('__contains__', lambda I_, a_, kw: present(I_, to_real(a_[1])))})

        # ---- evaluation
        def evaluate(I_, a_, kw):
            d = bind(I_, 'eval_dec_contfrac_by_polys', ['a', 'b', 'calculation_depth'], {}, a_, kw)
            p = M.embed((d['a'], d['b']))
            dd = to_term(d['calculation_depth'])
            if I_.truth(ZD(p, dd)):
                I_.raise_('ZeroDivisionError')
            return M.view(VALU(p, dd), 'ext')
        EV = 'cont_fracs:eval_dec_contfrac_by_polys'
        In.stubs[EV] = evaluate

        # ---- what holds in the loops
        def f_list(what):
            def fam(I_, k):
                vs, k = list(I_.loopvars), to_term(k)
                need(I_, len(vs) <= 1, 'the loops over the table')
                if vs:
                    o = to_term(vs[0])
                    known_entries(o), known_entry(o, k)
                    return z3.Or(*[{'entry': SB, 'pair': HP}[what](o), z3.And(z3.Not(par(o)), {'entry': IN, 'pair': INP}[what](o, k))])
                known_entries(k)
                return {'entry': SB, 'pair': HP}[what](k)
            fam.where, fam.only = 'ghost.' + what, True
            return fam

        def f_count(I_, k):
            vs, k = list(I_.loopvars), to_term(k)
            need(I_, len(vs) <= 1, 'the loops over the pairs')
            known_function(nf)
            if vs:
                o = to_term(vs[0])
                known_pair(o), known_function(k)
                return stored(z3.And(G, z3.Or(WAS(o), z3.And(pair(o), EF(k)))))
            known_pair(k)
            return stored(z3.And(G, WAS(k)))
        f_count.where, f_count.only = 'ghost.count', True
        In.families['*'] = [f_list('entry'), f_list('pair'), f_count]
        In.families_first = True
        mitm = VObj(V.get('enum_params:MITM'), {'postproc_funcs': funcs, 'postproc_funcs_filter': filt, 'dec_hashtable': VObj(tablecls, {}),
                    '_polys_enumer_num_of_iterations': depth, 'trunc_integer': trunc})
        try:
            V.method(mitm, '_iter2hashtalbe', itr, V.int('itr_len'), validate)
        finally:
            del In.stubs[EV], In.families['*'], In.fresh_dict[Q]
            In.families_first = False
        known_pair(n), known_function(nf)
        V.prove('an entry that is there stays, one is added exactly for an enumerated pair and a selected function with normal values, '
                'under its value%s, and only once' % (', unless it is stored anywhere' if validate else ''),
                get('count') == stored(z3.And(G, WAS(n))))
        V.cover('done')
    for validate in (True, False):
        for trunc in (True, False):
            sc = '%s%s%s' % (Q, ', validated' if validate else '', ', truncated' if trunc else '')
            V.scope(sc, lambda validate=validate, trunc=trunc: iter2(validate, trunc), [Q])
            V.expected_covers.append(sc + ': done')

    def build(given):
        """The enumerated pairs are what is recorded."""
        BH = 'enum_params:MITM.build_hashtable'
        In.module('enum_params')
        ra, rb, check = SV(z3.Const('range_a', U), 'any'), SV(z3.Const('range_b', U), 'any'), V.bool('check')
        pairs, size = V.seq('pairs', PAIR, 'list'), V.int('estimate')
        calls = []

        def polys_generator(I_, a_, kw):
            d = bind(I_, 'polys_generator', ['range_a', 'range_b', 'prec'], {'prec': None}, a_, kw)
            need(I_, d['range_a'] is ra and d['range_b'] is rb, 'the given ranges')
            return (pairs, size)

        def record(I_, a_, kw):
            d = I_.bind_args(real, a_, kw)
            calls.append(d)
        enum = VObj(VClass('enumerator', [M.builtins['object']], {}), {'polys_generator': Native('polys_generator', polys_generator)})
        real = V.get(Q)
        mitm = VObj(V.get('enum_params:MITM'), {'rhs_polys_enumer': enum})
        In.stubs[Q] = record
        try:
            V.method(mitm, 'build_hashtable', *([ra, rb, check] if given else [ra, rb]))
        finally:
            del In.stubs[Q]
        V.prove('the enumerated pairs are recorded, once', len(calls) == 1)
        d = calls[0]
        V.prove('of this object', d['self'] is mitm)
        V.same('all of them', d['itr'], pairs)
        V.prove('with validation if asked for (it is the default)', to_bool_term(d['validate_entry_doesnt_exist']) == (check if given else z3.BoolVal(True)))
        V.cover('done')
    for given in (True, False):
        sc = 'enum_params:MITM.build_hashtable' + ('' if given else ', by default')
        V.scope(sc, lambda given=given: build(given), ['enum_params:MITM.build_hashtable'])
        V.expected_covers.append(sc + ': done')
