"""Assumed contracts of the libraries the repository uses, and the methods of builtin values."""
from fractions import Fraction
import math as _math
import z3
from .core import *
from .values import *
from .values import Poison, PoisonRead

LN = z3.Function('LN', R, R)
FUNS = {}


def rfun(name):
    if name not in FUNS:
        FUNS[name] = z3.Function(name.upper(), R, R)
    return FUNS[name]


def norm_num(M, x):
    """Reals for the numeric values the libraries accept."""
    if is_bool(x):
        x = M.b_int([x], {})
    return x


def need_num(M, x):
    x = norm_num(M, x)
    if isinstance(x, Special) or is_num(x):
        return x
    if isinstance(x, SV):
        v = M.view(x.term, 'real')
        return v
    M.I.raise_('TypeError', 'cannot create mpf', why='number from %r' % (x,))


def positive(M, x):
    """Sign analysis of products and quotients."""
    if not is_term(x):
        return isinstance(x, (int, Fraction)) and x > 0
    kd = x.decl().kind()
    if kd in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL) or x.decl().name() == 'POWR':
        # (exponents of POWI are never negative)
        if all(positive(M, c) for c in x.children()[:1 if x.decl().name() == 'POWR' else None]):
            return True
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return z3.is_true(z3.simplify(x > 0))
    return M.E.valid(x > 0)[0]


def install(M):
    I = M.I
    E = M.E
    mods = M.modules

    def mod(name, **ns):
        m = VModule(name, dict(ns))
        mods[name] = m
        return m

    def nat(name):
        def deco(fn):
            return Native(name, lambda I_, a, k: fn(*a, **k))
        return deco

    # ------------------------------------------------------------------ mpmath
    def mpf_new(I_, a, k):
        if len(a) < 2:
            return Fraction(0)
        x = a[1]
        if isinstance(x, str):
            return M.b_float([x], {})
        if isinstance(x, z3.SeqRef):
            E.use('mpmath.mpf of a text is the number the text spells')
            return M.b_float([x], {})
        x = need_num(M, x)
        if isinstance(x, Special):
            return x
        return M.real(x)
    M.mpf = VClass('mpf', [M.builtins['object']], {'__native_new__': Native('mpf', mpf_new)})
    mpcls = VClass('MPContext', [M.builtins['object']], {})
    mp = VObj(mpcls, {'dps': 15})
    M.mp = mp

    def isnormal(x):
        x = need_num(M, x)
        if isinstance(x, Special):
            return False
        return M.simp(to_term(x) != 0) if is_term(x) else x != 0

    def isnan(x):
        return need_num(M, x) is NAN

    def isint(x):
        x = need_num(M, x)
        if isinstance(x, Special):
            return False
        if is_intlike(x):
            return True
        return M.simp(z3.IsInt(x)) if is_term(x) else Fraction(x).denominator == 1

    def log(x, base=None):
        x = need_num(M, x)
        if base is not None:
            return M.binop('Div', log(x), log(base))
        if isinstance(x, Special):
            if x is NINF:
                I.unsup('log of -inf')
            return x
        if positive(M, x):
            return LN(to_real(x))
        c = M.compare('Eq', x, 0)
        if I.truth(c):
            return NINF
        if not I.truth(M.compare('Gt', x, 0)):
            return NegLog(x)
        return LN(to_real(x))

    def fun1(name):
        def f(x):
            x = need_num(M, x)
            if isinstance(x, Special):
                return M.special_fun(name, x) if hasattr(M, 'special_fun') else I.unsup('%s of %r' % (name, x))
            if is_term(x) or True:
                return rfun(name)(to_real(x))
        return f

    ns = {n: nat('mpmath.' + n)(fun1(n)) for n in ('sin', 'cos', 'tan', 'cot', 'exp', 'atan', 'asin', 'acos')}
    ns.update(mpf=M.mpf, mp=mp, inf=PINF, nan=NAN,
              isnormal=nat('mpmath.isnormal')(isnormal), isnan=nat('mpmath.isnan')(isnan),
              isint=nat('mpmath.isint')(isint), log=nat('mpmath.log')(log), ln=nat('mpmath.ln')(log),
              sqrt=nat('mpmath.sqrt')(lambda x: M.sqrt(need_num(M, x))),
              nint=nat('mpmath.nint')(lambda x: M.nint(need_num(M, x))),
              floor=nat('mpmath.floor')(lambda x: M.floor(need_num(M, x)) if not isinstance(x, Special) else x),
              ceil=nat('mpmath.ceil')(lambda x: M.negate(M.floor(M.negate(x)))),
              fabs=nat('mpmath.fabs')(lambda x: M.b_abs(x)))

    def nstr(x, n=15, **kw):
        x = need_num(M, x)
        if isinstance(x, Special):
            return 'nan' if x is NAN else '+inf' if x is PINF else '-inf'
        E.use('mpmath.nstr(x, n, strip_zeros=False, min_fixed=-inf, max_fixed=inf) is the positional decimal text of x '
              'with n significant digits (mpmath contract)')
        key = ','.join('%s=%s' % (a, kw[a]) for a in sorted(kw))
        f = z3.Function('NSTR[%s]' % key, R, I_SORT, S)
        return f(to_real(x), to_term(n))
    ns['nstr'] = nat('mpmath.nstr')(nstr)
    mod('mpmath', **ns)

    # ------------------------------------------------------------------ math, operator, functools
    def mfloor(x):
        x = norm_num(M, x)
        if isinstance(x, Special):
            I.raise_('ValueError' if x is NAN else 'OverflowError')
        if is_intlike(x):
            return x
        if is_term(x):
            return M.simp(z3.ToInt(x))
        return Fraction(x).__floor__()

    def mceil(x):
        x = norm_num(M, x)
        if isinstance(x, Special):
            I.raise_('ValueError' if x is NAN else 'OverflowError')
        if is_intlike(x):
            return x
        if is_term(x):
            return M.simp(-z3.ToInt(-x))
        return Fraction(x).__ceil__()

    def mlog(x, base=None):
        x = norm_num(M, x)
        if base is not None:
            if isinstance(x, int) and isinstance(base, int) and x > 0 and base > 1:
                e, y = 0, x
                while y % base == 0:
                    y //= base
                    e += 1
                if y == 1:
                    return Fraction(e)
            return M.binop('Div', mlog(x), mlog(base))
        if isinstance(x, Special):
            return x if x is not NINF else I.raise_('ValueError')
        if not I.truth(M.compare('Gt', x, 0)):
            I.raise_('ValueError', 'math domain error')
        return LN(to_real(x))
    mod('math', floor=nat('math.floor')(mfloor), ceil=nat('math.ceil')(mceil), log=nat('math.log')(mlog),
        sqrt=nat('math.sqrt')(lambda x: M.sqrt(x)), inf=PINF, nan=NAN,
        gcd=nat('math.gcd')(lambda a, b: z3.Function('GCD', I_SORT, I_SORT, I_SORT)(to_term(a), to_term(b))))
    ops = {}
    for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'),
                   ('mod', 'Mod'), ('pow', 'Pow')):
        ops[nm] = nat('operator.' + nm)(lambda a, b, op=op: M.binop(op, a, b))
    for nm, op in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')):
        ops[nm] = nat('operator.' + nm)(lambda a, b, op=op: M.compare(op, a, b))
    ops['neg'] = nat('operator.neg')(lambda a: M.negate(a))
    ops['itemgetter'] = nat('operator.itemgetter')(
        lambda *i: nat('itemgetter')(lambda x: I.getitem(x, i[0]) if len(i) == 1 else tuple(I.getitem(x, j) for j in i)))
    ops['attrgetter'] = nat('operator.attrgetter')(lambda n: nat('attrgetter')(lambda x: I.getattr(x, n)))
    mod('operator', **ops)

    def reduce(f, it, *init):
        c = M.concrete_or_none(it)
        if c is None:
            return reduce_sym(f, M.parts_of(it), init)
        if not c and not init:
            I.raise_('TypeError', 'reduce() of empty sequence with no initial value')
        acc = init[0] if init else c.pop(0)
        for x in c:
            acc = I.call(f, [acc, x])
        return acc

    def reduce_sym(f, parts, init):
        """As the loop it is."""
        import ast
        src = ('def reduce_loop(f, it, acc):\n    for x in it:\n        acc = f(acc, x)\n    return acc\n'
               'def reduce_loop0(f, it):\n    acc = it[0]\n    for x in it[1:]:\n        acc = f(acc, x)\n    return acc\n')
        env = lib_env(I, 'reduce', src)
        lst = VList(parts=list(parts))
        if init:
            return I.call(env.vars['reduce_loop'], [f, lst, init[0]])
        if not I.truth(M.compare('Gt', M.length(lst), 0)):
            I.raise_('TypeError', 'reduce() of empty sequence with no initial value')
        return I.call(env.vars['reduce_loop0'], [f, lst])

    def wraps(f):
        return nat('wraps')(lambda g: g)

    def partial(f, *a, **k):
        return Native('partial', lambda I_, b, kk: I.call(f, list(a) + list(b), dict(k, **kk)))
    mod('functools', reduce=nat('functools.reduce')(reduce), wraps=nat('functools.wraps')(wraps),
        partial=nat('functools.partial')(partial), lru_cache=nat('lru_cache')(lambda *a, **k: nat('lru')(lambda f: f)))

    # ------------------------------------------------------------------ itertools
    def nested(pss, acc):
        """Parts of the product of several iterables, as nested concatenations."""
        if not pss:
            return [Items([acc])]
        out = []
        for p in pss[0]:
            if isinstance(p, Items):
                for v in p.vals:
                    out += nested(pss[1:], acc + (v,))
            elif isinstance(p, SSeq):
                n = M.known_len(p.n)
                if n is not None and n <= 40:
                    for i in range(n):
                        out += nested(pss[1:], acc + (M.item(p, i, inside=True),))
                    continue
                k = E.int('p')
                alts = [(subst(g, [(p.var, k)]), subst(v, [(p.var, k)])) for g, v in p.alts]
                res = [(g, nested(pss[1:], acc + (v,))) for g, v in alts]
                if len(res) == 1:
                    if len(pss) == 1:
                        out.append(SSeq(p.n, k, [(True, res[0][1][0].vals[0])]))
                    else:
                        out.append(Flat(p.n, k, res[0][1]))
                else:
                    out.append(Flat(p.n, k, [Cond(res)]))
            elif isinstance(p, Cond):
                out.append(Cond([(g, nested([q] + pss[1:], acc)) for g, q in p.alts]))
            elif isinstance(p, Flat):
                out.append(Flat(p.n, p.var, nested([p.parts] + pss[1:], acc)))
            else:
                I.unsup('product of %r' % (p,))
        return out

    def product(I_, a, k):
        from .interp import StarArg
        if any(isinstance(x, StarArg) for x in a):
            if len(a) != 1 or k:
                I.unsup('itertools.product of a symbolic number of iterables')
            E.use('itertools.product(*iterables) yields every tuple of one element per iterable once, '
                  'in lexicographic order (standard library contract)')
            return M.product_sym(a[0].v)
        rep = k.get('repeat', 1)
        pss = [M.parts_of(x) for x in a] * rep
        return M.gen_of(nested(pss, ()))

    def product_sym(v):
        """Product of a symbolic number of iterables: the abstract sequence PROD(iterables)."""
        shape = M.elem_shape_of_iterables(v)
        u = E.named(PROD(M.embed_iterables(v)))
        return M.gen_of(M.parts_of(SV(u, ('seq', ('seq', shape, 'tuple'), 'list'))))
    M.product_sym = product_sym

    def contents(x):
        """An iterable as the sequence of its elements."""
        return M.seq_from_parts(M.parts_of(x), 'list') if isinstance(x, VGen) else x

    def embed_iterables(v):
        ps = []
        for p in M.parts_of(v):
            if isinstance(p, SSeq):
                ps.append(SSeq(p.n, p.var, [(g, contents(x)) for g, x in p.alts], p.kind))
            elif isinstance(p, Items):
                ps.append(Items([contents(x) for x in p.vals]))
            else:
                ps.append(p)
        return M.embed(VList(parts=ps))
    M.embed_iterables = embed_iterables

    def elem_shape_of_iterables(v):
        """Shape of the elements of the iterables."""
        s = 'int'
        for p in M.parts_of(v):
            for g, x in (p.alts if isinstance(p, SSeq) else []):
                c = contents(x)
                for q in M.parts_of(c):
                    if isinstance(q, SSeq) and q.eshape is not None:
                        s = q.eshape
        return s
    M.elem_shape_of_iterables = elem_shape_of_iterables

    def chain(*its):
        return M.gen_of([p for it in its for p in M.parts_of(it)])

    def dropwhile(pred, it):
        src = ('def drop(pred, it):\n    out = []\n    dropping = True\n    for x in it:\n        if dropping and pred(x):\n'
               '            continue\n        dropping = False\n        out.append(x)\n    return out\n')
        c = M.concrete_or_none(it)
        if c is not None:
            i = 0
            while i < len(c) and I.truth(I.call(pred, [c[i]])):
                i += 1
            return M.gen_of([Items(c[i:])])
        return M.dropwhile_sym(pred, it)

    def dropwhile_sym(pred, it):
        """dropwhile on a sequence of symbolic length: the suffix from the first element not satisfying pred."""
        s = M.seq_from_parts(M.parts_of(it), 'list')
        n = to_term(M.length(s))
        lst = s if isinstance(s, VList) else VList(parts=M.parts_of(s))
        d = E.int('drop')
        q = E.int('dq')

        def test(j):
            rs = E.explore(lambda: I.truth_term(I.call(pred, [M.item(lst, j, inside=True)])),
                           base=E.ctx.facts + [j >= 0, j < n])
            t = None
            for fs, v in rs:
                b = to_bool_term(v)
                t = b if t is None else z3.If(z3.And(*fs) if fs else z3.BoolVal(True), b, t)
            return t
        body = test(q)
        # the drop count is a function of the sequence and the predicate, not a fresh unknown: so two calls agree
        F = z3.Function('DROPCOUNT', z3.ArraySort(I_SORT, B), I_SORT, I_SORT)
        d = F(lam(q, body), n)
        E.ctx.assume(z3.And(d >= 0, d <= n))
        if M.dropwhile_facts:
            E.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < d), body)))
            E.ctx.assume(z3.Implies(d < n, z3.Not(z3.substitute(body, (q, d)))))
        return M.gen_of(M.cut(M.norm(M.parts_of(lst)), d, n))
    M.dropwhile_sym = dropwhile_sym
    M.dropwhile_facts = True     # (a contract may leave the facts about the dropped prefix out)

    def zip_longest(*its, fillvalue=None):
        cs = [M.concrete_or_none(x) for x in its]
        if any(c is None for c in cs):
            I.unsup('zip_longest of symbolic length')
        n = max([len(c) for c in cs] or [0])
        return M.gen_of([Items([tuple(c[i] if i < len(c) else fillvalue for c in cs) for i in range(n)])])

    def combi(name):
        import itertools

        def f(it, *a):
            c = M.concrete_or_none(it)
            if c is None or any(not isinstance(x, int) for x in a):
                I.unsup('itertools.%s of symbolic size' % name)
            return M.gen_of([Items(list(getattr(itertools, name)(c, *a)))])
        return nat('itertools.' + name)(f)
    mod('itertools', product=Native('itertools.product', product), chain=nat('itertools.chain')(chain),
        dropwhile=nat('itertools.dropwhile')(dropwhile), zip_longest=nat('itertools.zip_longest')(zip_longest),
        combinations=combi('combinations'), permutations=combi('permutations'),
        combinations_with_replacement=combi('combinations_with_replacement'))

    # ------------------------------------------------------------------ time, system
    def now():
        t = E.real('time')
        return t
    mod('time', time=nat('time.time')(now), perf_counter=nat('time.perf_counter')(now), sleep=nat('time.sleep')(lambda x: None))
    stream = VObj(VClass('stream', [M.builtins['object']], {
        'flush': nat('flush')(lambda *a: None), 'write': nat('write')(lambda *a: None)}), {})
    class Mods:
        def vgetitem(self, I_, name):
            return I.module(name)
    mod('sys', modules=Mods(), stdout=stream, stderr=stream, argv=VList([]), exit=nat('sys.exit')(lambda *a: I.raise_('SystemExit')),
        maxsize=2 ** 63 - 1, version_info=(3, 9, 18))

    def getmembers(o, pred=None):
        if not isinstance(o, VModule):
            I.unsup('inspect.getmembers of %r' % (o,))
        out = []
        for k in sorted(o.ns):
            if isinstance(o.ns[k], Poison):
                continue
            if pred is None or I.truth(I.call(pred, [o.ns[k]])):
                out.append((k, o.ns[k]))
        return VList(out)
    mod('inspect', getmembers=nat('inspect.getmembers')(getmembers),
        isclass=nat('inspect.isclass')(lambda v: isinstance(v, VClass)))

    def groupby(it, key=None):
        c = M.concrete_or_none(it)
        if c is None:
            I.unsup('groupby of symbolic size')
        out = []
        for x in c:
            k = I.call(key, [x]) if key is not None else x
            if out and I.truth(M.eq(out[-1][0], k)):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return M.gen_of([Items([(k, M.gen_of([Items(v)])) for k, v in out])])
    mods['itertools'].ns['groupby'] = nat('itertools.groupby')(groupby)

    def deepcopy(v, memo=None):
        return clone(v, {})

    def clone(v, memo):
        if isinstance(v, tuple):
            return tuple(clone(x, memo) for x in v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, VList):
            r = memo[id(v)] = VList(parts=None)
            r.parts = clone_parts(v.parts, memo)
        elif isinstance(v, VDict):
            r = memo[id(v)] = VDict()
            r.items = [[clone(k, memo), clone(x, memo)] for k, x in M.dict_items(v)]
        elif isinstance(v, VSet):
            r = memo[id(v)] = VSet(parts=clone_parts(v.parts, memo))
        elif isinstance(v, VObj):
            r = memo[id(v)] = VObj(v.cls, {})
            r.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
        elif hasattr(v, 'vclone'):
            r = memo[id(v)] = v.vclone(I)
        else:
            return v
        return r

    def clone_parts(ps, memo):
        out = []
        for p in ps:
            if isinstance(p, Items):
                out.append(Items([clone(x, memo) for x in p.vals]))
            elif isinstance(p, SSeq):
                out.append(SSeq(p.n, p.var, [(g, clone(x, memo)) for g, x in p.alts], p.kind, p.origin, p.eshape))
            elif isinstance(p, Cond):
                out.append(Cond([(g, clone_parts(q, memo)) for g, q in p.alts]))
            elif isinstance(p, Flat):
                out.append(Flat(p.n, p.var, clone_parts(p.parts, memo)))
            else:
                out.append(p)
        return out
    M.clone = deepcopy
    mod('copy', deepcopy=nat('copy.deepcopy')(deepcopy), copy=nat('copy.copy')(lambda v: shallow(M, v)))
    mod('progressbar', progressbar=nat('progressbar.progressbar')(lambda it, **k: it))
    mod('pprint', pprint=nat('pprint.pprint')(lambda *a, **k: None))

    def binom(n, k):
        f = z3.Function('BINOM', I_SORT, I_SORT, R)
        if isinstance(n, int) and isinstance(k, int):
            return Fraction(_math.comb(n, k))
        return f(to_term(n), to_term(k))
    roots = z3.Function('ROOTS', U, U)

    def root(o, nm):
        if nm in ('real', 'imag'):
            return z3.Function('ROOT_' + nm, U, R)(o.term)
        return None
    M.handlers['root'] = root

    def np_roots(p):
        E.use('numpy.roots(p) is an arbitrary list of complex numbers, a function of p')
        return M.view(roots(M.embed(p)), ('seq', ('obj', 'root'), 'list'))
    mod('numpy', roots=nat('numpy.roots')(np_roots))
    sp = mod('scipy.special', binom=nat('scipy.special.binom')(binom))
    st = mod('scipy.stats')
    mod('scipy', special=sp, stats=st)

    def decimal(x='0'):
        if isinstance(x, str) and x.strip().lower() == 'nan':
            return NAN
        I.unsup('decimal.Decimal')
    mod('decimal', Decimal=nat('decimal.Decimal')(decimal))
    symcls = VClass('Symbol', [M.builtins['object']], {})
    mod('sympy', symbols=nat('sympy.symbols')(lambda n: VObj(symcls, {'name': n})))

    def split_path(p):
        if isinstance(p, str):
            import os
            return os.path.splitext(p)
        I.unsup('os.path.splitext of symbolic text')
    path = mod('os.path', splitext=nat('os.path.splitext')(split_path), sep='/')
    mod('os', path=path, sep='/')
    missing = lambda nm: nat(nm)(lambda *a, **k: I.unsup('%s without a contract' % nm))
    mod('configparser', ConfigParser=VClass('ConfigParser', [M.builtins['object']], {}))
    mod('json', loads=missing('json.loads'), dumps=missing('json.dumps'),
        JSONDecodeError=VClass('JSONDecodeError', [M.builtins['ValueError']], {}))


I_SORT = z3.IntSort()


class NegLog:
    """Logarithm of a negative number (complex)."""
    def __init__(self, x):
        self.x = x


def lib_env(I, name, src):
    import ast
    key = ('lib', name)
    cache = I.__dict__.setdefault('_libs', {})
    if key not in cache:
        from .interp import Interp
        env = Env()
        env.module = VModule('pyvc_' + name)
        saved, I.log = I.log, []       # (the definitions outlive the path they were first needed on)
        try:
            I.block(ast.parse(src).body, env)
        finally:
            I.log = saved
        cache[key] = env
    return cache[key]


def shallow(M, v):
    if isinstance(v, VList):
        return VList(parts=list(v.parts))
    if isinstance(v, VDict):
        return VDict([list(x) for x in M.dict_items(v)])
    if isinstance(v, VObj):
        return VObj(v.cls, dict(v.attrs))
    return v


# ---------------------------------------------------------------------- methods of builtin values

def attribute(M, o, name):
    I = M.I

    def nat(fn, nm=name):
        return Native(nm, lambda I_, a, k: fn(*a, **k))
    h = getattr(o, 'vattr', None)
    if h is not None:
        return h(I, name)
    if isinstance(o, VList) and M.kind(o) == 'list':
        f = LIST.get(name)
        if f is not None:
            return nat(lambda *a, **k: f(M, o, *a, **k))
        return None
    if isinstance(o, VDict):
        f = DICT.get(name)
        if f is not None:
            return nat(lambda *a, **k: f(M, o, *a, **k))
        return None
    if isinstance(o, VSet):
        f = SET.get(name)
        if f is not None:
            return nat(lambda *a, **k: f(M, o, *a, **k))
        return None
    if isinstance(o, (str, z3.SeqRef)):
        return str_attr(M, o, name, nat)
    if isinstance(o, (tuple, SSeq)) or isinstance(o, SV) and isinstance(o.shape, tuple) and o.shape[0] == 'seq':
        if name == 'index':
            return nat(lambda x: list_index(M, VList(parts=M.parts_of(o)), x))
        if name == 'count':
            return nat(lambda x: list_count(M, VList(parts=M.parts_of(o)), x))
        return None
    if is_num(o) or isinstance(o, Special):
        if name == 'real':
            return o
        if name == 'imag':
            return 0
        if name == 'conjugate':
            return nat(lambda: o)
        if is_intlike(o):
            if name == 'numerator':
                return o
            if name == 'denominator':
                return 1
            if name == 'bit_length' and isinstance(o, int):
                return nat(lambda: o.bit_length())
            return None
        if name == 'round':
            return nat(lambda: M.real(M.nint(o)) if not isinstance(o, Special) else o)
        if name == 'is_integer':
            return nat(lambda: M.simp(z3.IsInt(o)) if is_term(o) else Fraction(o).denominator == 1)
        if name == 'sqrt':
            return nat(lambda: M.sqrt(o))
        return None
    if isinstance(o, SV) and isinstance(o.shape, tuple) and o.shape[0] == 'obj':
        return M.handlers[o.shape[1]](o, name)
    if isinstance(o, VIter) and name == '__next__':
        return nat(lambda: M.b_next(o))
    return None


def list_index(M, l, x, *a):
    I = M.I
    ps = M.parts_of(l)
    c = M.concrete_or_none(l)
    if c is None:
        n = to_term(M.length(l))
        if a:
            I.unsup('index with bounds in a sequence of symbolic length')
        q = M.E.int('ix')
        rs = M.E.explore(lambda: I.truth_term(M.eq(M.item(l, q, inside=True), x)),
                         base=M.E.ctx.facts + [q >= 0, q < n])
        body = None
        for fs, v in rs:
            b = to_bool_term(v)
            body = b if body is None else z3.If(z3.And(*fs) if fs else z3.BoolVal(True), b, body)
        if body is None:
            I.raise_('ValueError', 'not in list')
        # the position is a function of the comparison and the length
        d = z3.Function('FIRSTINDEX', z3.ArraySort(I_SORT, B), I_SORT, I_SORT)(lam(q, body), n)
        if not I.truth(M.contains(l, x)):
            I.raise_('ValueError', 'not in list')
        M.E.ctx.assume(z3.And(d >= 0, d < n, z3.substitute(body, (q, d)),
                              z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < d), z3.Not(body)))))
        return d
    for i, v in enumerate(c):
        if I.truth(M.eq(v, x)):
            return i
    I.raise_('ValueError', 'not in list')


def list_count(M, l, x):
    c = M.concrete_or_none(l)
    if c is None:
        M.I.unsup('count in a sequence of symbolic length')
    n = 0
    for v in c:
        if M.I.truth(M.eq(v, x)):
            n += 1
    return n


def list_insert(M, l, i, v):
    n = M.length(l)
    if isinstance(i, int) and i < 0:
        i = M.add(n, i)
        if M.I.truth(M.compare('Lt', i, 0)):
            i = 0
    if M.I.truth(M.compare('GtE', i, n)):
        M.append(l, v)
        return
    ps = M.norm(l.parts)
    a = M.cut(ps, 0, i) if M.I.truth(M.compare('Gt', i, 0)) else []
    M.I.setparts(l, list(a) + [Items([v])] + list(M.cut(ps, i, n)))


def list_remove(M, l, x):
    i = list_index(M, l, x)
    M.pop(l, i)


LIST = {
    'append': lambda M, l, v: M.append(l, v),
    'extend': lambda M, l, v: M.extend(l, v),
    'pop': lambda M, l, *a: M.pop(l, *a),
    'index': list_index,
    'count': list_count,
    'insert': list_insert,
    'remove': list_remove,
    'sort': lambda M, l, **k: M.sort(l, **k),
    'reverse': lambda M, l: M.I.setparts(l, M.reverse_parts(M.norm(l.parts))),
    'copy': lambda M, l: VList(parts=M.copy_parts(l.parts)),
    'clear': lambda M, l: M.I.setparts(l, []),
}


def dict_get(M, d, k, default=None):
    for kk, v in M.dict_items(d):
        if M.I.truth(M.key_eq(kk, k)):
            return v
    return default


def dict_setdefault(M, d, k, default=None):
    for kk, v in M.dict_items(d):
        if M.I.truth(M.key_eq(kk, k)):
            return v
    M.dict_set(d, k, default)
    return default


def dict_pop(M, d, k, *default):
    for kk, v in M.dict_items(d):
        if M.I.truth(M.key_eq(kk, k)):
            M.delitem(d, k)
            return v
    if default:
        return default[0]
    M.I.raise_('KeyError', k)


def dict_update(M, d, *src, **kw):
    for s in src:
        if isinstance(s, (VDict, VObj)) or hasattr(s, 'vparts') or hasattr(d, 'vupdate'):
            M.dict_update(d, s)
        else:
            for x in M.I.concrete_list(s):
                k, v = M.I.unpack(x, 2)
                M.dict_set(d, k, v)
    for k, v in kw.items():
        M.dict_set(d, k, v)


DICT = {
    'keys': lambda M, d: tuple(k for k, v in M.dict_items(d)),
    'values': lambda M, d: tuple(v for k, v in M.dict_items(d)),
    'items': lambda M, d: tuple((k, v) for k, v in M.dict_items(d)),
    'get': dict_get,
    'setdefault': dict_setdefault,
    'pop': dict_pop,
    'update': dict_update,
    'copy': lambda M, d: VDict([list(x) for x in M.dict_items(d)]),
    'clear': lambda M, d: M.I.setitems(d, []),
}


def set_add(M, s, v):
    M.I.setparts(s, M.make_set(list(s.parts) + [Items([v])]).parts)


SET = {
    'add': set_add,
    'update': lambda M, s, *its: M.I.setparts(s, M.make_set(list(s.parts) + [p for it in its for p in M.parts_of(it)]).parts),
    'union': lambda M, s, *its: M.make_set(list(s.parts) + [p for it in its for p in M.parts_of(it)]),
    'intersection': lambda M, s, o: M.set_op('BitAnd', s, M.make_set(M.parts_of(o))),
    'difference': lambda M, s, o: M.set_op('Sub', s, M.make_set(M.parts_of(o))),
    'copy': lambda M, s: VSet(parts=list(s.parts)),
}

PURE_STR = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'split', 'rsplit',
            'splitlines', 'find', 'rfind', 'isdigit', 'isalpha', 'zfill', 'title', 'count', 'index', 'partition',
            'rpartition', 'ljust', 'rjust', 'capitalize', 'isspace')


def str_attr(M, o, name, nat):
    I = M.I
    if name == 'format':
        return Native('format', lambda I_, a, k: M.format(o, a, k))
    if name == 'join':
        return nat(lambda it: str_join(M, o, it))
    if name in PURE_STR:
        def f(*a, **k):
            if isinstance(o, str) and all(x is None or isinstance(x, (str, int)) or
                                          isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a):
                try:
                    r = getattr(o, name)(*a, **k)
                except ValueError:
                    I.raise_('ValueError', name)
                except TypeError:
                    I.raise_('TypeError', name)
                if isinstance(r, list):
                    return VList(r)
                return r
            g = getattr(M, 'str_' + name, None)
            if g is not None:
                return g(o, *a)
            t = to_term(o)
            if name == 'startswith' and len(a) == 1:
                return M.simp(z3.PrefixOf(to_term(a[0]), t))
            if name == 'endswith' and len(a) == 1:
                return M.simp(z3.SuffixOf(to_term(a[0]), t))
            if name in ('lower', 'strip', 'upper') and not a:
                return z3.Function('STR_' + name, S, S)(t)
            I.unsup('str.%s of symbolic text' % name)
        return nat(f)
    return None


def str_join(M, sep, it):
    c = M.concrete_or_none(it)
    if c is None:
        if hasattr(M, 'join_sym'):
            return M.join_sym(sep, it)
        try:
            u = M.embed(VList(parts=M.parts_of(it)))
        except Unsupported:
            M.I.unsup('join of a symbolic number of texts')
        return z3.Function('JOIN', S, U, S)(to_term(sep), u)
    out = []
    for i, x in enumerate(c):
        if not isinstance(x, (str, z3.SeqRef)):
            M.I.raise_('TypeError', 'sequence item: expected str')
        if i:
            out.append(sep)
        out.append(x)
    return M.strcat(out)
