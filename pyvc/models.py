"""Assumed contracts of Python's builtins and of the libraries used, and the operations on symbolic values."""
import string as _string
from fractions import Fraction
import z3
from .core import *
from .values import *
from .values import Poison, PoisonRead

SQRT = z3.Function('SQRT', R, R)
FN = {}


def occurs(x, t):
    """Does a term contain another?"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.eq(x):
            return True
        if u.get_id() not in seen:
            seen.add(u.get_id())
            todo += u.children()
    return False


def rfun(name, *sorts):
    """An uninterpreted mathematical function."""
    if name not in FN:
        FN[name] = z3.Function(name, *sorts)
    return FN[name]


STRI = z3.Function('STRI', I, S)
STRR = z3.Function('STRR', R, S)
STRU = z3.Function('STRU', U, S)
KINDU = z3.Function('KINDU', U, I)      # 0 a real number, 1 nan, 2 +inf, 3 -inf
APP = {}


def APPF(n):
    if n not in APP:
        APP[n] = z3.Function('APPLY%d' % n, *([U] * (n + 2)))
    return APP[n]


EXC = '''BaseException
Exception BaseException
KeyboardInterrupt BaseException
SystemExit BaseException
GeneratorExit BaseException
ArithmeticError Exception
ZeroDivisionError ArithmeticError
OverflowError ArithmeticError
LookupError Exception
KeyError LookupError
IndexError LookupError
ValueError Exception
UnicodeError ValueError
TypeError Exception
AttributeError Exception
NameError Exception
UnboundLocalError NameError
RuntimeError Exception
NotImplementedError RuntimeError
RecursionError RuntimeError
AssertionError Exception
StopIteration Exception
ImportError Exception
MemoryError Exception
OSError Exception
FileExistsError OSError
FileNotFoundError OSError
NotADirectoryError OSError
PermissionError OSError
Warning Exception'''


class Slice:
    pass


class Models:
    def __init__(self, I):
        self.opaque_mul = False
        self.I, self.E = I, I.E
        self.builtins = {}
        self.modules = {}
        self.int_strings = False
        self.handlers = {}         # methods of opaque objects ('obj', name)
        self._builtins()
        from . import libs
        libs.install(self)

    def nat(self, name, fn):
        n = Native(name, fn)
        self.builtins[name] = n
        return n

    def cls(self, name, bases=None, new=None, ns=None):
        b = [self.builtins['object']] if bases is None else bases
        c = VClass(name, b, ns if ns is not None else {})
        if new is not None:
            c.ns['__native_new__'] = Native(name, new)
        return c

    # ------------------------------------------------------------------ builtins
    def _builtins(self):
        B = self.builtins
        B['object'] = VClass('object', [], {})
        B['object'].ns['__init__'] = Native('object.__init__', lambda I, a, k: None)
        for line in EXC.splitlines():
            w = line.split()
            B[w[0]] = VClass(w[0], [B[w[1]]] if len(w) > 1 else [B['object']], {})
        B['BaseException'].ns['__init__'] = Native('BaseException.__init__',
                                                   lambda I, a, k: I.setattr_raw(a[0], 'args', tuple(a[1:])))
        B['EnvironmentError'] = B['IOError'] = B['OSError']
        B['True'], B['False'], B['None'] = True, False, None
        B['__name__'] = '__main__'

        def c(name, fn, bases=None):
            B[name] = self.cls(name, bases, new=lambda I, a, k: fn(a[1:], k))
        c('int', self.b_int)
        c('float', self.b_float)
        c('bool', lambda a, k: self.I.truth_term(a[0]) if a else False, [B['int']])
        c('str', self.b_str)
        c('list', lambda a, k: VList(parts=self.copy_parts(self.parts_of(a[0])) if a else None))
        c('tuple', lambda a, k: self.seq_from_parts(self.parts_of(a[0]), 'tuple') if a else ())
        c('set', lambda a, k: self.make_set(self.parts_of(a[0]) if a else []))
        c('frozenset', lambda a, k: self.make_set(self.parts_of(a[0]) if a else []))
        B['dict'] = VClass('dict', [B['object']], {})
        B['dict'].ns['__native_new__'] = Native('dict', self.b_dict)
        B['type'] = VClass('type', [B['object']], {})
        B['type'].ns['__str__'] = Native('type.__str__', lambda I, a, k: "<class '%s.%s'>" % (
            a[0].module.name if a[0].module else 'builtins', a[0].name))
        B['bytes'] = self.cls('bytes')
        B['complex'] = self.cls('complex')
        B['slice'] = self.cls('slice')
        B['NoneType'] = self.cls('NoneType')
        B['function'] = self.cls('function')
        B['enumerate'] = self.cls('enumerate', new=lambda I, a, k: self.b_enumerate(a[1:], k))
        B['property'] = Native('property', lambda I, a, k: Property(a[0] if a else None, a[1] if len(a) > 1 else None))
        B['staticmethod'] = Native('staticmethod', lambda I, a, k: StaticMethod(a[0]))
        B['classmethod'] = Native('classmethod', lambda I, a, k: ClassMethod(a[0]))
        B['super'] = Native('super', lambda I, a, k: SuperProxy(a[0], a[1]))
        B['range'] = Native('range', lambda I, a, k: self.b_range(a))
        n = lambda name: (lambda f: B.__setitem__(name, Native(name, lambda I, a, k: f(*a, **k))))
        n('len')(lambda x: self.b_len(x))
        n('sum')(self.b_sum)
        n('any')(lambda x: self.quant(x, False))
        n('all')(lambda x: self.quant(x, True))
        n('zip')(self.b_zip)
        n('reversed')(lambda x: self.b_reversed(x))
        n('map')(self.b_map)
        n('filter')(self.b_filter)
        n('isinstance')(lambda x, c: self.isinstance(x, c))
        n('issubclass')(lambda x, c: any(x.issub(y) for y in (c if isinstance(c, tuple) else (c,))))
        n('callable')(lambda x: isinstance(x, (VFunc, BoundMethod, Native, VClass)) or (
            isinstance(x, VObj) and x.cls.lookup('__call__') is not None))
        B['print'] = Native('print', lambda I, a, k: None)
        n('abs')(self.b_abs)
        n('min')(lambda *a, **k: self.minmax(a, k, True))
        n('max')(lambda *a, **k: self.minmax(a, k, False))
        n('sorted')(self.b_sorted)
        n('hasattr')(self.b_hasattr)
        n('getattr')(self.b_getattr)
        n('setattr')(lambda o, nm, v: self.I.setattr(o, nm, v))
        n('repr')(lambda x: self.format_value(x, '', True))
        n('iter')(self.b_iter)
        n('next')(self.b_next)
        n('divmod')(lambda a, b: (self.binop('FloorDiv', a, b), self.binop('Mod', a, b)))
        n('round')(self.b_round)
        n('pow')(lambda a, b: self.binop('Pow', a, b))
        n('id')(lambda x: id(x))
        n('ord')(lambda x: ord(x))
        n('chr')(lambda x: chr(x))
        n('eval')(self.b_eval)
        n('exit')(lambda *a: self.I.raise_('SystemExit'))
        n('vars')(lambda *a: self.I.unsup('vars'))
        n('open')(lambda *a, **k: self.I.unsup('open without a contract'))

    def b_int(self, a, k):
        if not a:
            return 0
        x = a[0]
        if is_bool(x):
            return (1 if x else 0) if isinstance(x, bool) else z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if isinstance(x, int) or (isinstance(x, z3.ArithRef) and x.is_int()):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, z3.ArithRef):
            return self.simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if isinstance(x, Special):
            self.I.raise_('ValueError' if x is NAN else 'OverflowError', 'int of %r' % x)
        if isinstance(x, str):
            try:
                return int(x, *a[1:])
            except ValueError:
                self.I.raise_('ValueError', 'invalid literal for int')
        if isinstance(x, z3.SeqRef):
            return self.str_to_int(x)
        if isinstance(x, VObj):
            f = x.cls.lookup('__int__')
            if f:
                return self.I.call(self.I.bind(f, x), [])
        if isinstance(x, (SV, tuple, VList, VDict)) or x is None:
            self.I.raise_('TypeError', 'int()')
        self.I.unsup('int of %r' % (x,))

    def str_to_int(self, x):
        """int() of a text: its value if it is a decimal numeral (assumed: other spellings do not occur)."""
        ok = z3.Function('IS_INT_TEXT', S, B)
        val = z3.Function('INT_TEXT', S, I)
        if self.I.truth(ok(x)):
            return val(x)
        self.I.raise_('ValueError', 'invalid literal for int')

    def b_float(self, a, k):
        x = a[0] if a else 0
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return PINF
            if s in ('-inf', '-infinity'):
                return NINF
            if s == 'nan':
                return NAN
            try:
                float(x)
                return Fraction(x.strip())
            except ValueError:
                self.I.raise_('ValueError', 'could not convert string to float')
        if isinstance(x, (Special,)):
            return x
        if isinstance(x, z3.SeqRef):
            v = self.scientific(x)
            if v is not None:
                return v
            ok = z3.Function('IS_FLOAT_TEXT', S, B)
            val = z3.Function('FLOAT_TEXT', S, R)
            if self.I.truth(ok(x)):
                return val(x)
            self.I.raise_('ValueError', 'could not convert string to float')
        return self.real(x)

    def scientific(self, x):
        """The number spelled by <mantissa>E[-]<integer>."""
        import re
        if x.decl().kind() != z3.Z3_OP_SEQ_CONCAT or x.num_args() != 2 or not z3.is_string_value(x.arg(0)):
            return None
        m = re.match(r'^([+-]?\d+(?:\.\d+)?)[eE](-?)$', x.arg(0).as_string())
        n = x.arg(1)
        if not m or n.decl().name() != STRI.name():
            return None
        n = n.arg(0)
        if m.group(2):
            if not self.I.truth(self.simp(n >= 0)):
                self.I.raise_('ValueError', 'could not convert string to float')
            n = self.negate(n)
        return self.binop('Mult', Fraction(m.group(1)), self.power(Fraction(10), n))

    def real(self, x):
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
            return Fraction(x)
        if is_term(x) and (isinstance(x, z3.ArithRef) or isinstance(x, z3.BoolRef)):
            return self.simp(to_real(x))
        if isinstance(x, Special):
            return x
        self.I.unsup('number from %r' % (x,))

    def b_str(self, a, k):
        if not a:
            return ''
        return self.format_value(a[0], '')

    def b_dict(self, I, a, k):
        c = a[0]
        if c is not self.builtins['dict']:
            # a subclass of dict: an object with a dictionary inside
            o = VObj(c, {})
            I.setattr_raw(o, '__data__', VDict())
            init = c.lookup('__init__')
            if init is not None and not isinstance(init, Native):
                I.call(I.bind(init, o), a[1:], k)
            elif a[1:] or k:
                self.dict_update(self.data_of(o), I.call(self.builtins['dict'], a[1:], k))
            return o
        if len(a) == 1 and not k and I.stack and I.stack[-1] in I.fresh_dict:
            return I.fresh_dict[I.stack[-1]](I)
        d = VDict()
        if len(a) > 1:
            src = a[1]
            if isinstance(src, VObj) and '__data__' in src.attrs:
                src = self.data_of(src)
            if isinstance(src, VDict):
                self.dict_update(d, src)
            elif hasattr(src, 'vcopy'):
                return src.vcopy(I)
            else:
                cc = self.concrete_or_none(src)
                if cc is None:
                    I.unsup('dictionary of symbolic size')
                for x in cc:
                    kk, vv = I.unpack(x, 2)
                    self.dict_set(d, kk, vv)
        for kk, vv in k.items():
            self.dict_set(d, kk, vv)
        return d

    def data_of(self, o):
        return o.attrs['__data__']

    def b_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        parts = self.parts_of(a[0])
        out, off = [], start
        for p in parts:
            if isinstance(p, Items):
                out.append(Items([(self.add(off, i), v) for i, v in enumerate(p.vals)]))
                off = self.add(off, len(p.vals))
            elif isinstance(p, SSeq):
                out.append(SSeq(p.n, p.var, [(g, (self.add(off, p.var), v)) for g, v in p.alts], 'list'))
                off = self.add(off, p.n)
            else:
                self.I.unsup('enumerate of %r' % (p,))
        return self.gen_of(out)

    def gen_of(self, parts):
        g = VGen(None)
        g.cached = parts
        return g

    def b_range(self, a):
        a = [self.b_int([x], {}) if is_bool(x) else x for x in a]
        for x in a:
            if not is_intlike(x):
                self.I.raise_('TypeError', 'range of %r' % (x,))
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        elif len(a) == 3:
            lo, hi, st = a
        else:
            self.I.raise_('TypeError', 'range arguments')
        if self.I.truth(self.eq(st, 0)):
            self.I.raise_('ValueError', 'range step')
        if all(isinstance(x, int) for x in (lo, hi, st)):
            r = range(lo, hi, st)
            if len(r) <= 400:
                return tuple(r)
        if isinstance(st, int):
            d = self.simp(to_term(hi) - to_term(lo)) if st > 0 else self.simp(to_term(lo) - to_term(hi))
            s = abs(st)
            n = d if s == 1 else self.binop('FloorDiv', self.add(d, s - 1), s)
        else:
            if self.I.truth(st > 0):
                n = self.binop('FloorDiv', self.add(self.binop('Sub', hi, lo), self.binop('Sub', st, 1)), st)
            else:
                n = self.binop('FloorDiv', self.add(self.binop('Sub', lo, hi), self.binop('Sub', self.negate(st), 1)),
                               self.negate(st))
        nt = to_term(n)
        if self.E.ctx is not None and self.E.valid(nt >= 0, timeout=1000)[0]:
            pass
        else:
            nt = z3.If(nt > 0, nt, z3.IntVal(0))
        i = self.E.int('i')
        return SSeq(self.simp(nt), i, [(True, self.simp(to_term(lo) + (i if isinstance(st, int) and st == 1 else i * to_term(st))))], 'tuple')

    def b_len(self, x):
        if isinstance(x, VObj):
            f = x.cls.lookup('__len__')
            if f is not None:
                return self.I.call(self.I.bind(f, x), [])
            if '__data__' in x.attrs:
                return self.length(x.attrs['__data__'])
            self.I.raise_('TypeError', 'len')
        if isinstance(x, (VGen, VIter)) or is_num(x) or x is None:
            self.I.raise_('TypeError', 'object has no len()')
        return self.length(x)

    def b_sum(self, x, start=0):
        return self.sum_parts(self.parts_of(x), start)

    def sum_parts(self, parts, acc):
        for p in parts:
            if isinstance(p, Items):
                for v in p.vals:
                    acc = self.add(acc, v)
            elif isinstance(p, Cond):
                acc = self.sum_parts(self.I.pick(p.alts), acc)
            elif isinstance(p, SSeq):
                acc = self.add(acc, self.sigma(p.n, p.var, [(g, v) for g, v in p.alts]))
            elif isinstance(p, Flat):
                r = self.E.explore(lambda: self.sum_parts(p.parts, 0),
                                   base=self.E.ctx.facts + [p.var >= 0, p.var < to_term(p.n)])
                if len(r) != 1:
                    alts = []
                    for fs, v in r:
                        alts.append((z3.And(*fs) if fs else True, v))
                else:
                    alts = [(True, r[0][1])]
                acc = self.add(acc, self.sigma(p.n, p.var, alts))
            else:
                self.I.unsup('sum over %r' % (p,))
        return acc

    def sigma(self, n, var, alts):
        for g, v in alts:
            if not is_num(v) and not is_bool(v):
                self.I.unsup('sum of %r' % (v,))
        ts = [(g, to_term(v)) for g, v in alts]
        ts = [(g, z3.If(t, z3.IntVal(1), z3.IntVal(0)) if isinstance(t, z3.BoolRef) else t) for g, t in ts]
        rl = any(t.is_real() for g, t in ts)
        if rl:
            ts = [(g, to_real(t)) for g, t in ts]
        t = ts[-1][1]
        for g, x in reversed(ts[:-1]):
            t = z3.If(g if is_term(g) else z3.BoolVal(g), x, t)
        return (SUMR if rl else SUMI)(lam(var, t), to_term(n))

    def quant(self, x, is_all):
        return self.quant_parts(self.parts_of(x), is_all)

    def quant_parts(self, parts, is_all):
        from .interp import conj, disj, neg, simp, tb
        fs = []
        for p in parts:
            if isinstance(p, Items):
                for v in p.vals:
                    t = self.I.truth_term(v)
                    if isinstance(t, bool):
                        if t != is_all:
                            return not is_all
                        continue
                    fs.append(t)
            elif isinstance(p, Cond):
                alts = [(g, self.quant_parts(q, is_all)) for g, q in p.alts]
                fs.append(z3.And(*[z3.Implies(tb(g), tb(q)) for g, q in alts]))
            elif isinstance(p, (SSeq, Flat)):
                if isinstance(p, SSeq):
                    alts = [(g, self.I.truth_term(v)) for g, v in p.alts]
                else:
                    alts = [(True, self.quant_parts(p.parts, is_all))]
                body = z3.And(*[z3.Implies(tb(g), tb(t)) for g, t in alts]) if len(alts) > 1 else tb(alts[0][1])
                if z3.is_true(body) and is_all:
                    continue
                j = z3.Int(self.E.fresh_name('q'))
                rng = z3.And(j >= 0, j < to_term(p.n))
                bj = z3.substitute(body, (p.var, j))
                fs.append(z3.ForAll([j], z3.Implies(rng, bj)) if is_all else z3.Exists([j], z3.And(rng, bj)))
            else:
                self.I.unsup('any/all over %r' % (p,))
        return simp(tb(conj(fs) if is_all else disj(fs)))

    def b_zip(self, *its):
        ps = [self.parts_of(x) for x in its]
        return self.gen_of(self.zip_parts(ps))

    def norm(self, parts):
        return [p for p in parts if not (isinstance(p, Items) and not p.vals)]

    def zip_parts(self, ps):
        out = []
        ps = [self.norm(list(p)) for p in ps]
        while all(ps):
            hs = [p[0] for p in ps]
            if all(isinstance(h, Items) for h in hs):
                m = min(len(h.vals) for h in hs)
                out.append(Items([tuple(h.vals[i] for h in hs) for i in range(m)]))
                for p, h in zip(ps, hs):
                    p[0:1] = [Items(h.vals[m:])] if len(h.vals) > m else []
                continue
            # expand blocks of known small length
            changed = False
            for p in ps:
                if isinstance(p[0], SSeq):
                    n = self.known_len(p[0].n)
                    if n is not None and n <= 40:
                        p[0:1] = [Items([self.item(p[0], i, inside=True) for i in range(n)])] if n else []
                        changed = True
                elif isinstance(p[0], Cond):
                    p[0:1] = self.I.pick(p[0].alts)
                    changed = True
            if changed:
                ps = [self.norm(p) for p in ps]
                continue
            if all(isinstance(h, SSeq) for h in hs):
                n0 = to_term(hs[0].n)
                if all(self.E.valid(to_term(h.n) == n0)[0] for h in hs[1:]):
                    out.append(self.zip_blocks(hs, hs[0].n))
                    for p in ps:
                        p.pop(0)
                    continue
                if all(len(p) == 1 for p in ps):
                    n = hs[0].n
                    for h in hs[1:]:
                        n = z3.If(to_term(n) <= to_term(h.n), to_term(n), to_term(h.n))
                    out.append(self.zip_blocks(hs, self.simp(n)))
                    return out
            # split the first element off
            done = False
            for p, h in zip(ps, hs):
                if isinstance(h, SSeq):
                    if self.I.truth(to_term(h.n) <= 0):
                        p.pop(0)
                    else:
                        from .compare import shift_block
                        p[0:1] = [Items([self.item(h, 0, inside=True)]), shift_block(self.I, h, 1)]
                    done = True
                    break
            self.zsplits = getattr(self, 'zsplits', 0)
            if not done or len(out) > 6:
                self.I.unsup('zip of %r' % (hs,))
        return out

    def zip_blocks(self, hs, n):
        i = self.E.int('z')
        alts = [(True, ())]
        for h in hs:
            new = []
            for g, t in alts:
                for g2, v in h.alts:
                    gg = subst(g2, [(h.var, i)])
                    new.append((self.And(g, gg), t + (subst(v, [(h.var, i)]),)))
            alts = new
        return SSeq(n, i, alts, 'list')

    def And(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return z3.And(a, b)

    def b_reversed(self, x):
        return self.gen_of(self.reverse_parts(self.parts_of(x)))

    def reverse_parts(self, parts):
        out = []
        for p in reversed(parts):
            if isinstance(p, Items):
                out.append(Items(p.vals[::-1]))
            elif isinstance(p, SSeq):
                i = self.E.int('r')
                pr = [(p.var, self.simp_t(to_term(p.n) - 1 - i))]
                out.append(SSeq(p.n, i, [(subst(g, pr), subst(v, pr)) for g, v in p.alts], p.kind))
            elif isinstance(p, Cond):
                out.append(Cond([(g, self.reverse_parts(q)) for g, q in p.alts]))
            elif isinstance(p, Flat):
                i = self.E.int('r')
                pr = [(p.var, self.simp_t(to_term(p.n) - 1 - i))]
                out.append(Flat(p.n, i, subst(self.reverse_parts(p.parts), pr)))
            else:
                self.I.unsup('reversal of %r' % (p,))
        return out

    def simp_t(self, t):
        return z3.simplify(t)

    def b_map(self, f, *its):
        out = VList()
        if len(its) == 1:
            self.I.iterate(its[0] if not isinstance(its[0], VGen) else its[0],
                           lambda v: self.append(out, self.I.call(f, [v])))
        else:
            self.I.iterate(self.b_zip(*its), lambda v: self.append(out, self.I.call(f, list(v))))
        return self.gen_of(out.parts)

    def b_filter(self, f, it):
        out = VList()

        def body(v):
            if self.I.truth(v if f is None else self.I.call(f, [v])):
                self.append(out, v)
        self.I.iterate(it, body)
        return self.gen_of(out.parts)

    def type_of(self, v):
        B = self.builtins
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, VClass):
            return v.meta or B['type']
        if is_bool(v):
            return B['bool']
        if is_intlike(v):
            return B['int']
        if is_num(v) or isinstance(v, Special):
            return self.mpf
        if isinstance(v, (str, StrCat, z3.SeqRef)):
            return B['str']
        if isinstance(v, VList):
            return B['list']
        if isinstance(v, tuple):
            return B['tuple']
        if isinstance(v, SSeq):
            return B['list' if v.kind == 'list' else 'tuple']
        if isinstance(v, VDict):
            return B['dict']
        if isinstance(v, VSet):
            return B['set']
        if v is None:
            return B['NoneType']
        if isinstance(v, (VFunc, BoundMethod, Native)):
            return B['function']
        if isinstance(v, SV):
            s = v.shape
            if isinstance(s, tuple) and s[0] == 'seq':
                return B['list' if s[2] == 'list' else 'tuple']
            if isinstance(s, tuple) and s[0] == 'tup':
                return B['tuple']
        if hasattr(v, 'vclass'):
            return v.vclass(self.I)
        self.I.unsup('type of %r' % (v,))

    def type_name(self, v):
        try:
            return self.type_of(v).name
        except Unsupported:
            return type(v).__name__

    def isinstance(self, x, c):
        cs = c if isinstance(c, tuple) else (c,)
        for y in cs:
            if not isinstance(y, VClass):
                self.I.unsup('isinstance with %r' % (y,))
        if isinstance(x, SV) and x.shape == 'any':
            self.I.unsup('type test on an opaque value')
        return any(self.type_of(x).issub(y) for y in cs)

    def b_abs(self, x):
        if isinstance(x, (int, Fraction)):
            return abs(x)
        if isinstance(x, Special):
            return PINF if x is NINF else x
        if isinstance(x, z3.ArithRef):
            return self.simp(z3.If(x >= 0, x, -x))
        if isinstance(x, VObj):
            f = x.cls.lookup('__abs__')
            if f is not None:
                return self.I.call(self.I.bind(f, x), [])
        self.I.raise_('TypeError', 'abs of %s' % self.type_name(x))

    extreme_sym = None

    def minmax(self, a, k, is_min):
        if len(a) == 1:
            src = a[0]
            a = self.concrete_or_none(src)
            if a is None:
                if self.extreme_sym is not None:
                    return self.extreme_sym(src, is_min, k)
                self.I.unsup('min/max of a sequence of symbolic length')
            if not a:
                if 'default' in k:
                    return k['default']
                self.I.raise_('ValueError', 'min/max of an empty sequence')
        r = a[0]
        key = k.get('key')
        f = (lambda v: self.I.call(key, [v])) if key is not None else (lambda v: v)
        for x in a[1:]:
            c = self.compare('Lt' if is_min else 'Gt', f(x), f(r))
            if isinstance(c, bool):
                r = x if c else r
            elif is_num(x) and is_num(r):
                p, q = to_term(x), to_term(r)
                if p.is_int() != q.is_int():
                    p, q = to_real(p), to_real(q)
                r = self.simp(z3.If(c, p, q))
            else:
                r = x if self.I.truth(c) else r
        return r

    def b_sorted(self, x, key=None, reverse=False):
        l = VList(parts=self.copy_parts(self.parts_of(x)))
        self.sort(l, key, reverse)
        return l

    def sort(self, l, key=None, reverse=False):
        c = l.concrete()
        if c is not None:
            ks = [self.I.call(key, [v]) if key is not None else v for v in c]
            if all(isinstance(q, (int, str, Fraction)) for q in ks):
                idx = sorted(range(len(c)), key=lambda i: ks[i], reverse=reverse)
                self.I.setparts(l, [Items([c[i] for i in idx])])
                return
        self.sort_sym(l, key, reverse)

    def sort_sym(self, l, key, reverse):
        self.I.unsup('sorting symbolic values')

    def b_hasattr(self, o, name):
        from .interp import VRaise
        if isinstance(o, VObj) and name in o.attrs:
            return True
        try:
            self.I.getattr(o, name)
            return True
        except VRaise as r:
            if r.exc.cls.name == 'AttributeError':
                return False
            raise

    def b_getattr(self, o, name, *d):
        from .interp import VRaise
        try:
            return self.I.getattr(o, name)
        except VRaise as r:
            if d and r.exc.cls.name == 'AttributeError':
                return d[0]
            raise

    def b_iter(self, x):
        c = self.concrete_or_none(x)
        if c is None:
            if isinstance(x, VGen):
                return x
            self.I.unsup('iterator over a sequence of symbolic length')
        return VIter(c)

    def b_next(self, it, *d):
        if isinstance(it, VIter):
            if it.pos < len(it.vals):
                v = it.vals[it.pos]
                self.I.setpos(it, it.pos + 1)
                return v
            if d:
                return d[0]
            self.I.raise_('StopIteration')
        if isinstance(it, VGen):
            it = self.I.use_gen(it)
            c = self.concrete_or_none(it)
            if c is not None:
                if c:
                    return c[0]
                if d:
                    return d[0]
                self.I.raise_('StopIteration')
            parts = self.norm(self.parts_of(it))
            if parts and isinstance(parts[0], SSeq):
                if self.I.truth(to_term(parts[0].n) > 0):
                    return self.item(parts[0], 0, inside=True)
                if len(parts) == 1:
                    if d:
                        return d[0]
                    self.I.raise_('StopIteration')
        self.I.unsup('next of %r' % (it,))

    def b_round(self, x, nd=None):
        if nd is None and isinstance(x, int):
            return x
        if nd is None and is_num(x):
            return self.nint(x)
        self.I.unsup('round')

    def nint(self, x):
        """Nearest integer, ties to even."""
        if is_intlike(x):
            return x
        t = to_real(x)
        f = z3.ToInt(t + z3.RealVal('1/2'))
        tie = z3.And(z3.ToReal(f) - t == z3.RealVal('1/2'), f % 2 == 1)
        return self.simp(z3.If(tie, f - 1, f))

    def floor(self, x):
        if is_intlike(x):
            return x
        if isinstance(x, Fraction):
            return x.numerator // x.denominator
        return self.simp(z3.ToInt(to_real(x)))

    def b_eval(self, s, *a):
        import ast
        if not isinstance(s, str):
            self.I.unsup('eval of a symbolic text')
        env = self.cur_env
        return self.I.expr(ast.parse(s, mode='eval').body, env())

    def cur_env(self):
        name = None
        for q in reversed(self.I.stack):
            name = q
            break
        mod = name.split('<module ')[-1].rstrip('>') if name.startswith('<module') else name.split(':')[0]
        m = self.I.modules.get(mod)
        if m is None or not hasattr(m, 'env'):
            self.I.unsup('eval outside a module of the repository')
        return m.env

    # ------------------------------------------------------------------ small helpers
    def simp(self, t):
        from .interp import simp
        return simp(t)

    def add(self, a, b):
        if isinstance(a, int) and a == 0 and not isinstance(a, bool) and is_num(b):
            return b
        return self.binop('Add', a, b)

    def known_len(self, n):
        n = self.simp(n) if is_term(n) else n
        if isinstance(n, int):
            return n
        return None

    # ------------------------------------------------------------------ sequences
    def view(self, t, shape):
        """Python value of the abstract term t, given its shape."""
        if callable(shape):
            return shape(t)
        if shape == 'int':
            return UI(t)
        if shape == 'real':
            return UR(t)
        if shape == 'bool':
            return UB(t)
        if shape == 'str':
            return US(t)
        if shape == 'ext':
            c = self.E.ctx
            if c.branch(KINDU(t) == 0):
                return UR(t)
            if c.branch(KINDU(t) == 1):
                return NAN
            if c.branch(KINDU(t) == 2):
                return PINF
            return NINF
        if isinstance(shape, tuple) and shape[0] == 'tup':
            return tuple(self.view(ITEM(t, i), s) for i, s in enumerate(shape[1]))
        return SV(t, shape)

    def sv_seq(self, v):
        s = v.shape
        if isinstance(s, tuple) and s[0] == 'seq':
            i = self.E.int('n')
            return SSeq(LEN(v.term), i, [(True, self.view(ITEM(v.term, i), s[1]))], s[2], origin=v.term, eshape=s[1])
        return None

    def as_seq(self, v):
        if isinstance(v, SV):
            s = self.sv_seq(v)
            if s is None:
                self.I.raise_('TypeError', 'not iterable') if isinstance(v.shape, str) and v.shape != 'any' else \
                    self.I.unsup('sequence view of %r' % (v,))
            return s
        if isinstance(v, (VGen, VIter, VSet, VDict)):
            return VList(parts=self.parts_of(v))
        if isinstance(v, VObj):
            return VList(parts=self.parts_of(v))
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, (tuple, VList, SSeq)):
            return v
        if is_num(v) or v is None or is_bool(v):
            self.I.raise_('TypeError', 'not iterable')
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        return VList(parts=self.parts_of(v))

    def parts_of(self, v):
        if isinstance(v, tuple):
            return [Items(v)] if v else []
        if isinstance(v, VList):
            self.I.check_readable(v)
            return list(v.parts)
        if isinstance(v, SSeq):
            return [v]
        if isinstance(v, VGen):
            if v.cached is None:
                v.cached = v.run()
            return list(v.cached)
        if isinstance(v, VSet):
            return list(v.parts)
        if isinstance(v, VDict):
            return [Items([k for k, _ in v.items])]
        if isinstance(v, VIter):
            r = v.vals[v.pos:]
            self.I.setpos(v, len(v.vals))
            return [Items(r)]
        if isinstance(v, str):
            return [Items(list(v))]
        if isinstance(v, SV):
            h = self.hook(v, '__iter__')
            if h is not None:
                return self.parts_of(h.fn(self.I, [], {}))
            s = self.sv_seq(v)
            if s is not None:
                return [s]
            if isinstance(v.shape, tuple) and v.shape[0] == 'tup':
                return [Items(self.view(v.term, v.shape))]
        if isinstance(v, z3.SeqRef):
            i = self.E.int('c')
            return [SSeq(z3.Length(v), i, [(True, z3.SubString(v, i, 1))], 'tuple')]
        if isinstance(v, VObj):
            f = v.cls.lookup('__iter__')
            if f is not None:
                return self.parts_of(self.I.call(self.I.bind(f, v), []))
            if '__data__' in v.attrs:
                return self.parts_of(v.attrs['__data__'])
        if hasattr(v, 'vparts'):
            return v.vparts(self.I)
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        from .interp import Unmodelled
        if isinstance(v, Unmodelled):
            self.I.unsup('iteration over %r' % (v,))
        self.I.raise_('TypeError', 'not iterable', why='%r is not iterable' % (v,))

    def copy_parts(self, parts):
        return list(parts)

    def seq_from_parts(self, parts, kind):
        parts = self.norm(parts)
        if all(isinstance(p, Items) for p in parts):
            vals = [v for p in parts for v in p.vals]
            return tuple(vals) if kind == 'tuple' else VList(vals)
        if kind != 'tuple':
            return VList(parts=parts)
        if len(parts) == 1 and isinstance(parts[0], SSeq):
            p = parts[0]
            n = self.known_len(p.n)
            if n is not None and n <= 40:
                return tuple(self.item(p, i, inside=True) for i in range(n))
            return p if p.kind == 'tuple' else p.with_kind('tuple')
        r = VList(parts=parts)
        r.frozen_kind = 'tuple'
        return r

    def kind(self, v):
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, SSeq):
            return v.kind
        if isinstance(v, VList):
            return getattr(v, 'frozen_kind', 'list')
        if isinstance(v, VGen):
            return 'gen'
        return type(v).__name__

    def concrete_or_none(self, v):
        if isinstance(v, VList):
            self.I.check_readable(v)
            ps = v.parts
        else:
            ps = self.parts_of(v)
        out = []
        for p in ps:
            if isinstance(p, Items):
                out += p.vals
            elif isinstance(p, SSeq):
                n = self.known_len(p.n)
                if n is None or n > 64:
                    return None
                out += [self.item(p, i, inside=True) for i in range(n)]
            elif isinstance(p, Cond):
                c = self.concrete_or_none(VList(parts=list(self.I.pick(p.alts))))
                if c is None:
                    return None
                out += c
            else:
                return None
        return out

    def len_parts(self, parts):
        n = 0
        for p in parts:
            if isinstance(p, Items):
                n = self.add(n, len(p.vals))
            elif isinstance(p, SSeq):
                n = self.add(n, p.n)
            elif isinstance(p, Cond):
                ls = [(g, to_term(self.len_parts(q))) for g, q in p.alts]
                t = ls[-1][1]
                for g, x in reversed(ls[:-1]):
                    t = z3.If(g if is_term(g) else z3.BoolVal(g), x, t)
                n = self.add(n, self.simp(t))
            elif isinstance(p, Flat):
                n = self.add(n, SUMI(lam(p.var, to_term(self.len_parts(p.parts))), to_term(p.n)))
            elif isinstance(p, Mark):
                raise PoisonRead(('list', p.lst, None))
            else:
                self.I.unsup('length of %r' % (p,))
        return n

    def nonempty(self, parts):
        """Whether there is any element."""
        from .interp import tb
        alts = []
        for p in parts:
            if isinstance(p, Items):
                if p.vals:
                    return True
            elif isinstance(p, SSeq):
                alts.append(to_term(p.n) > 0)
            elif isinstance(p, Cond):
                alts += [z3.And(tb(g), tb(self.nonempty(q))) for g, q in p.alts]
            elif isinstance(p, Flat):
                alts.append(z3.Exists([p.var], z3.And(p.var >= 0, p.var < to_term(p.n), tb(self.nonempty(p.parts)))))
            else:
                self.I.unsup('size of %r' % (p,))
        return z3.Or(*alts) if alts else False

    def hook(self, v, name):
        """A special method of an opaque object, if its contract has one."""
        if isinstance(v, SV) and isinstance(v.shape, tuple) and v.shape[0] == 'obj' and v.shape[1] in self.handlers:
            return self.handlers[v.shape[1]](v, name)

    def length(self, v):
        h = self.hook(v, '__len__')
        if h is not None:
            return h.fn(self.I, [], {})
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, SSeq):
            return self.simp(to_term(v.n))
        if isinstance(v, VList):
            self.I.check_readable(v)
            return self.len_parts(v.parts)
        if isinstance(v, VDict):
            if isinstance(v.items, Poison):
                raise PoisonRead(v.items.loc)
            return len(v.items)
        if isinstance(v, z3.SeqRef):
            return self.simp(z3.Length(v))
        if isinstance(v, SV):
            if isinstance(v.shape, tuple) and v.shape[0] == 'tup':
                return len(v.shape[1])
            return LEN(v.term)
        if isinstance(v, VSet):
            if all(isinstance(p, Items) for p in v.parts):
                vals = [x for p in v.parts for x in p.vals]
                if all(not is_term(x) for x in vals):
                    return len(vals)
            self.I.unsup('size of a set')
        if hasattr(v, 'vlen'):
            return v.vlen(self.I)
        if isinstance(v, VGen):
            return self.len_parts(self.parts_of(v))
        self.I.unsup('length of %r' % (v,))

    def item(self, v, i, inside=False):
        """Element i (0 <= i < length holds when inside)."""
        if isinstance(v, SV):
            v = self.as_seq(v)
        if isinstance(v, SSeq):
            pr = [(v.var, to_term(i))]
            if len(v.alts) == 1:
                return subst(v.alts[0][1], pr)
            return self.I.pick([(subst(g, pr), subst(x, pr)) for g, x in v.alts])
        if isinstance(v, tuple):
            if isinstance(i, int):
                return v[i]
            for j, x in enumerate(v):
                if j == len(v) - 1 or self.I.truth(i == j):
                    return x
        if isinstance(v, VList):
            off = 0
            ps = self.norm(v.parts)
            for q, p in enumerate(ps):
                last = q == len(ps) - 1
                ln = self.len_parts([p])
                rel = self.binop('Sub', i, off)
                c = True if last and not isinstance(rel, int) else self.compare('Lt', rel, ln)
                if last or self.I.truth(c):
                    if isinstance(p, Items):
                        return self.item(tuple(p.vals), rel, inside)
                    if isinstance(p, SSeq):
                        return self.item(p, rel, inside)
                    if isinstance(p, Cond):
                        return self.item(VList(parts=list(self.I.pick(p.alts))), rel, inside)
                    self.I.unsup('element of a flattened sequence')
                off = self.add(off, ln)
        self.I.unsup('element of %r' % (v,))

    def getitem(self, o, i):
        I = self.I
        if isinstance(o, VDict):
            for k, v in self.dict_items(o):
                if I.truth(self.key_eq(k, i)):
                    if isinstance(v, Poison):
                        raise PoisonRead(v.loc)
                    return v
            I.raise_('KeyError', i, why='key %r' % (i,))
        if hasattr(o, 'vgetitem'):
            return o.vgetitem(I, i)
        h = self.hook(o, '__getitem__')
        if h is not None:
            return h.fn(I, [i], {})
        if isinstance(i, slice):
            return self.slice(o, i)
        if isinstance(o, str) and isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
            I.raise_('IndexError')
        if isinstance(o, (str, z3.SeqRef)):
            t = to_term(o)
            n = z3.Length(t)
            if I.truth(self.compare('Lt', i, 0)):
                i = self.simp(n + i)
                if I.truth(i < 0):
                    I.raise_('IndexError')
            elif not I.truth(to_term(i) < n):
                I.raise_('IndexError')
            return self.simp(z3.SubString(t, i, 1))
        if isinstance(o, SV) and isinstance(o.shape, tuple) and o.shape[0] == 'tup':
            o = self.view(o.term, o.shape)
        if isinstance(o, (VSet, VGen)) or o is None or is_num(o):
            I.raise_('TypeError', 'not subscriptable', why='%r is not subscriptable' % (o,))
        from .interp import Unmodelled
        if isinstance(o, (Unmodelled, VModule, VClass, VFunc, Native)):
            I.unsup('item of %r' % (o,))
        s = self.as_seq(o)
        if not is_intlike(i):
            if is_bool(i):
                i = self.b_int([i], {})
            else:
                I.raise_('TypeError', 'indices must be integers')
        if type(i) is int:
            # (one of the known elements at that end)
            ps = [p for p in self.norm(self.parts_of(s)) if not (isinstance(p, Items) and not p.vals)]
            if ps and isinstance(ps[0 if i >= 0 else -1], Items):
                vs = ps[0 if i >= 0 else -1].vals
                if -len(vs) <= i < len(vs):
                    return vs[i]
        n = self.length(s)
        if isinstance(i, int) and i < 0:
            i = self.add(n, i)
            if I.truth(self.compare('Lt', i, 0)):
                I.raise_('IndexError')
        elif isinstance(i, int):
            if not I.truth(self.compare('Lt', i, n)):
                I.raise_('IndexError')
        else:
            if not self.E.valid(i >= 0)[0] and I.truth(i < 0):
                i = self.simp(to_term(n) + i)
                if I.truth(i < 0):
                    I.raise_('IndexError')
            else:
                nt = to_term(n)
                if not self.E.valid(i < nt)[0] and not I.truth(i < nt):
                    I.raise_('IndexError')
        return self.item(s, i, inside=True)

    def slice(self, o, sl):
        I = self.I
        lo, hi, st = sl.start, sl.stop, sl.step
        if isinstance(o, (str, z3.SeqRef)):
            if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return o[lo:hi:st]
            if st is not None and st != 1:
                I.unsup('step slice of a symbolic text')
            t = to_term(o)
            n = z3.Length(t)
            if lo in (None, 0) and isinstance(hi, int) and hi < 0 and z3.is_app(t) and \
                    t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(t.children()[-1]):
                # (without some of the known characters at the end)
                last = t.children()[-1].as_string()
                if len(last) >= -hi:
                    return self.strcat(list(t.children()[:-1]) + [last[:hi]])
            lo, hi = self.clamp(lo, n, 0), self.clamp(hi, n, n)
            return self.simp(z3.SubString(t, lo, z3.If(hi - lo > 0, hi - lo, z3.IntVal(0))))
        kind = None
        if isinstance(o, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        s = self.as_seq(o)
        kind = self.kind(s)
        c = s.concrete() if isinstance(s, VList) else (list(s) if isinstance(s, tuple) else None)
        if c is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return VList(c[lo:hi:st]) if kind == 'list' else tuple(c[lo:hi:st])
        parts = self.norm(self.parts_of(s))
        if st == -1 and lo is None and hi is None:
            return self.seq_from_parts(self.reverse_parts(parts), kind)
        if st is not None and st != 1:
            I.unsup('slice with a step')
        if type(lo) is int and lo > 0 and hi is None:
            ps = [p for p in parts if not (isinstance(p, Items) and not p.vals)]
            if ps and isinstance(ps[0], Items) and len(ps[0].vals) >= lo:
                return self.seq_from_parts([Items(ps[0].vals[lo:])] + list(ps[1:]), kind)
        n = self.length(s)
        if lo is None and hi is None:
            return self.seq_from_parts(list(parts), kind)
        # drop from the left
        if lo is not None and not (isinstance(lo, int) and lo == 0):
            if isinstance(lo, int) and lo < 0:
                lo = self.add(n, lo)
                if I.truth(self.compare('Lt', lo, 0)):
                    lo = 0
            elif not isinstance(lo, int) and I.truth(lo < 0):
                lo = self.add(n, lo)
                if I.truth(self.compare('Lt', lo, 0)):
                    lo = 0
        else:
            lo = 0
        if hi is not None:
            if I.truth(self.compare('Lt', hi, 0)):
                hi = self.add(n, hi)
            if I.truth(self.compare('Gt', hi, n)):
                hi = n
        else:
            hi = n
        if I.truth(self.compare('GtE', lo, hi)):
            return VList() if kind == 'list' else ()
        res = self.cut(parts, lo, hi)
        return self.seq_from_parts(res, kind)

    def cut(self, parts, lo, hi):
        from .compare import shift_block
        out, off = [], 0
        for p in parts:
            if isinstance(p, Cond):
                return self.cut(self.norm(out_of(self.I, parts, p)), lo, hi) if not out and off == 0 else \
                    self.I.unsup('slice of %r' % (p,))
            ln = self.len_parts([p])
            a = self.binop('Sub', lo, off)       # first wanted index relative to p
            b = self.binop('Sub', hi, off)
            end = self.add(off, ln)
            if self.I.truth(self.compare('LtE', b, 0)):
                break
            if self.I.truth(self.compare('GtE', a, ln)):
                off = end
                continue
            if self.I.truth(self.compare('LtE', a, 0)):
                a = 0
            if self.I.truth(self.compare('GtE', b, ln)):
                b = ln
            if isinstance(p, Items):
                if not isinstance(a, int) or not isinstance(b, int):
                    # decide the bounds by cases
                    for j in range(len(p.vals) + 1):
                        if isinstance(a, int) or j == len(p.vals) or self.I.truth(self.eq(a, j)):
                            if not isinstance(a, int):
                                a = j
                            break
                    for j in range(len(p.vals) + 1):
                        if isinstance(b, int) or j == len(p.vals) or self.I.truth(self.eq(b, j)):
                            if not isinstance(b, int):
                                b = j
                            break
                out.append(Items(p.vals[a:b]))
            elif isinstance(p, SSeq):
                if isinstance(a, int) and a == 0:
                    q = SSeq(self.simp(to_term(b)), p.var, p.alts, p.kind)
                else:
                    pr = [(p.var, p.var + to_term(a))]
                    q = SSeq(self.simp(to_term(b) - to_term(a)), p.var,
                             [(subst(g, pr), subst(v, pr)) for g, v in p.alts], p.kind)
                if self.E.valid(to_term(q.n) == to_term(p.n))[0] and isinstance(a, int) and a == 0:
                    q = p
                out.append(q)
            else:
                if isinstance(a, int) and a == 0 and self.E.valid(to_term(b) == to_term(ln))[0]:
                    out.append(p)
                else:
                    self.I.unsup('slice of a flattened sequence')
            off = end
        return out

    def clamp(self, x, n, default):
        if x is None:
            return to_term(default)
        t = to_term(x)
        if isinstance(x, int):
            if x >= 0:
                return z3.If(t <= n, t, n)
            return z3.If(n + t >= 0, n + t, z3.IntVal(0))
        return z3.If(t >= 0, z3.If(t <= n, t, n), z3.If(n + t >= 0, n + t, z3.IntVal(0)))

    def setitem(self, o, i, v):
        I = self.I
        if isinstance(o, VDict):
            self.dict_set(o, i, v)
            return
        if hasattr(o, 'vsetitem'):
            o.vsetitem(I, i, v)
            return
        if isinstance(o, VList) and getattr(o, 'frozen_kind', 'list') == 'list':
            I.check_readable(o)
            if isinstance(i, slice):
                I.unsup('slice assignment')
            if not is_intlike(i):
                I.raise_('TypeError', 'indices must be integers')
            n = self.length(o)
            if I.truth(self.compare('Lt', i, 0)):
                i = self.add(n, i)
                if I.truth(self.compare('Lt', i, 0)):
                    I.raise_('IndexError')
            elif not I.truth(self.compare('Lt', i, n)):
                I.raise_('IndexError')
            I.setparts(o, self.replaced(self.norm(o.parts), i, v))
            return
        if isinstance(o, (tuple, SSeq, SV, str)):
            if isinstance(o, SV) and isinstance(o.shape, tuple) and len(o.shape) > 2 and o.shape[2] == 'list':
                I.unsup('mutation of an abstract list')
            I.raise_('TypeError', 'no item assignment')
        I.unsup('item assignment on %r' % (o,))

    def replaced(self, parts, i, v):
        """parts with element i (which exists) replaced."""
        out, off = [], 0
        for q, p in enumerate(parts):
            if isinstance(p, Cond):
                return self.replaced(self.norm(list(parts[:q]) + list(self.I.pick(p.alts)) + list(parts[q + 1:])), i, v)
            ln = self.len_parts([p])
            rel = self.binop('Sub', i, off)
            last = q == len(parts) - 1
            if last or self.I.truth(self.compare('Lt', rel, ln)):
                if isinstance(p, Items):
                    if not isinstance(rel, int):
                        for j in range(len(p.vals)):
                            if j == len(p.vals) - 1 or self.I.truth(self.eq(rel, j)):
                                rel = j
                                break
                    vals = list(p.vals)
                    vals[rel] = v
                    new = [Items(vals)]
                elif isinstance(p, SSeq):
                    r = to_term(rel)
                    c = p.var == r
                    new = [SSeq(p.n, p.var, self.merge_alts([(c, v)] + [(self.And(z3.Not(c), g), x) for g, x in p.alts]),
                                p.kind)]
                else:
                    self.I.unsup('assignment into a flattened sequence')
                return list(parts[:q]) + new + list(parts[q + 1:])
            off = self.add(off, ln)
        self.I.unsup('assignment into an empty sequence')

    def merge_alts(self, alts):
        if all(is_num(x) for g, x in alts):
            t = None
            ints = all(is_intlike(x) for g, x in alts)
            f = to_term if ints else to_real
            t = f(alts[-1][1])
            for g, x in reversed(alts[:-1]):
                t = z3.If(g if is_term(g) else z3.BoolVal(g), f(x), t)
            return [(True, z3.simplify(t))]
        return alts

    def delitem(self, o, i):
        if isinstance(o, VDict):
            for q, (k, v) in enumerate(self.dict_items(o)):
                if self.I.truth(self.key_eq(k, i)):
                    self.I.setitems(o, o.items[:q] + o.items[q + 1:])
                    return
            self.I.raise_('KeyError', i)
        if hasattr(o, 'vdelitem'):
            o.vdelitem(self.I, i)
            return
        h = self.hook(o, '__delitem__')
        if h is not None:
            h.fn(self.I, [i], {})
            return
        if isinstance(o, VObj):
            f = o.cls.lookup('__delitem__')
            if f is not None:
                self.I.call(self.I.bind(f, o), [i])
                return
        if isinstance(o, VList):
            self.pop(o, i)
            return
        self.I.unsup('del of an item of %r' % (o,))

    def append(self, l, v):
        if isinstance(l, VList):
            ps = l.parts
            if ps and isinstance(ps[-1], Items):
                self.I.setparts(l, ps[:-1] + [Items(ps[-1].vals + [v])])
            else:
                self.I.setparts(l, list(ps) + [Items([v])])
            return
        self.I.unsup('append to %r' % (l,))

    def extend(self, l, x):
        self.I.setparts(l, list(l.parts) + list(self.parts_of(x)))

    def pop(self, l, i=-1):
        self.I.check_readable(l)
        ps = [p for p in self.norm(l.parts) if not (isinstance(p, Items) and not p.vals)]
        if type(i) is int and ps and isinstance(ps[0 if i >= 0 else -1], Items):
            # (one of the known elements at that end)
            vs = ps[0 if i >= 0 else -1].vals
            if -len(vs) <= i < len(vs):
                vs2 = list(vs)
                v = vs2.pop(i)
                new = [Items(vs2)] if vs2 else []
                self.I.setparts(l, new + list(ps[1:]) if i >= 0 else list(ps[:-1]) + new)
                return v
        n = self.length(l)
        if self.I.truth(self.eq(n, 0)):
            self.I.raise_('IndexError', 'pop from empty list')
        v = self.getitem(l, i)
        if isinstance(i, int) and i < 0:
            i = self.add(n, i)
        parts = self.norm(l.parts)
        a = self.cut(parts, 0, i) if self.I.truth(self.compare('Gt', i, 0)) else []
        i1 = self.add(i, 1)
        b = self.cut(parts, i1, n) if self.I.truth(self.compare('Lt', i1, n)) else []
        self.I.setparts(l, list(a) + list(b))
        return v

    # ------------------------------------------------------------------ sets and dictionaries
    def make_set(self, parts):
        vals = []
        for p in parts:
            if not isinstance(p, Items):
                return VSet(parts=list(parts))
            vals += p.vals
        out = []
        for v in vals:
            dup = False
            for w in out:
                e = self.eq(v, w)
                if not isinstance(e, bool):
                    e = self.I.truth(e)
                if e:
                    dup = True
                    break
            if not dup:
                out.append(v)
        return VSet(parts=[Items(out)])

    def key_eq(self, k, i):
        if isinstance(k, str) and isinstance(i, str) or isinstance(k, int) and isinstance(i, int):
            return k == i
        return self.eq(k, i)

    def dict_items(self, d):
        if isinstance(d.items, Poison):
            raise PoisonRead(d.items.loc)
        return d.items

    def dict_set(self, d, k, v):
        items = self.dict_items(d)
        for q, (kk, vv) in enumerate(items):
            if self.I.truth(self.key_eq(kk, k)):
                self.I.setitems(d, items[:q] + [[kk, v]] + items[q + 1:])
                return
        self.I.setitems(d, items + [[k, v]])

    def dict_update(self, d, src):
        if isinstance(src, VObj) and '__data__' in src.attrs:
            src = self.data_of(src)
        if isinstance(d, VDict) and isinstance(src, VDict):
            for k, v in list(self.dict_items(src)):
                self.dict_set(d, k, v)
            return
        if hasattr(d, 'vupdate'):
            d.vupdate(self.I, src)
            return
        self.I.unsup('dictionary update from %r' % (src,))

    # ------------------------------------------------------------------ arithmetic
    def negate(self, v):
        if isinstance(v, bool):
            return -int(v)
        if isinstance(v, (int, Fraction)):
            return -v
        if isinstance(v, Special):
            return {PINF: NINF, NINF: PINF}.get(v, v)
        if isinstance(v, z3.ArithRef):
            return self.simp(-v)
        if isinstance(v, VObj):
            f = v.cls.lookup('__neg__')
            if f is not None:
                return self.I.call(self.I.bind(f, v), [])
        if hasattr(v, 'vbinop'):
            return v.vbinop(self.I, 'Mult', -1)
        self.I.raise_('TypeError', 'bad operand for unary -', why='-%r' % (v,))

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
              'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift',
              'MatMult': 'matmul'}

    def binop(self, op, a, b, inplace=False):
        I = self.I
        if isinstance(a, VObj) or isinstance(b, VObj):
            d = self.DUNDER[op]
            if inplace and isinstance(a, VObj):
                f = a.cls.lookup('__i%s__' % d)
                if f is not None:
                    return I.call(I.bind(f, a), [b])
            if isinstance(a, VObj):
                f = a.cls.lookup('__%s__' % d)
                if f is not None:
                    return I.call(I.bind(f, a), [b])
            if isinstance(b, VObj):
                f = b.cls.lookup('__r%s__' % d)
                if f is not None:
                    return I.call(I.bind(f, b), [a])
            I.raise_('TypeError', 'unsupported operand', why='%s of %r and %r' % (op, a, b))
        if op == 'Mod' and isinstance(a, (str, z3.SeqRef)):
            return self.percent(a, b)
        if is_bool(a) and is_bool(b) and op in ('BitXor', 'BitAnd', 'BitOr'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitXor': a ^ b, 'BitAnd': a and b, 'BitOr': a or b}[op]
            x, y = to_bool_term(a), to_bool_term(b)
            return self.simp({'BitXor': z3.Xor, 'BitAnd': z3.And, 'BitOr': z3.Or}[op](x, y))
        if is_bool(a):
            a = self.b_int([a], {})
        if is_bool(b):
            b = self.b_int([b], {})
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_arith(op, a, b)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        strs = (str, z3.SeqRef)
        if isinstance(a, strs) and isinstance(b, strs) and op == 'Add':
            return self.strcat([a, b])
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == 'Mult' and isinstance(b, str) and isinstance(a, int):
            return a * b
        if op == 'Mult' and isinstance(b, strs) and is_intlike(a):
            a, b = b, a
        if op == 'Mult' and isinstance(a, strs) and is_intlike(b):
            f = z3.Function('REPEAT', S, z3.IntSort(), S)
            return f(to_term(a), to_term(b))
        seqs = (tuple, VList, SSeq)
        if isinstance(a, SV):
            a = self.as_seq(a)
        if isinstance(b, SV):
            b = self.as_seq(b)
        if op == 'Add' and isinstance(a, seqs) and isinstance(b, seqs):
            ka, kb = self.kind(a), self.kind(b)
            if inplace and isinstance(a, VList) and ka == 'list':
                self.extend(a, b)
                return a
            if ka != kb:
                I.raise_('TypeError', 'concatenation of %s and %s' % (ka, kb))
            return self.seq_from_parts(self.parts_of(a) + self.parts_of(b), ka)
        if inplace and op == 'Add' and isinstance(a, VList):
            self.extend(a, b)
            return a
        if op == 'Mult' and (isinstance(a, seqs) and is_intlike(b) or isinstance(b, seqs) and is_intlike(a)):
            if is_intlike(a):
                a, b = b, a
            c = self.concrete_or_none(a)
            k = self.kind(a)
            if c is not None and isinstance(b, int):
                return VList(c * b) if k == 'list' else tuple(c * b)
            if c is not None and len(c) == 1:
                if is_num(c[0]) or isinstance(c[0], (str, tuple)) or c[0] is None:
                    i = self.E.int('m')
                    n = to_term(b)
                    if not self.E.valid(n >= 0)[0]:
                        n = z3.If(n > 0, n, z3.IntVal(0))
                    return self.seq_from_parts([SSeq(self.simp(n), i, [(True, c[0])], k)], k)
            I.unsup('repetition of a sequence')
        if isinstance(a, VSet) and isinstance(b, VSet):
            return self.set_op(op, a, b)
        if a is None or b is None or isinstance(a, (tuple, VDict) + strs) or isinstance(b, (tuple, VDict) + strs):
            I.raise_('TypeError', 'unsupported operand', why='%s of %r and %r' % (op, a, b))
        if hasattr(a, 'vbinop'):
            return a.vbinop(I, op, b)
        if hasattr(b, 'vrbinop'):
            return b.vrbinop(I, op, a)
        I.unsup('%s of %r and %r' % (op, a, b))

    def set_op(self, op, a, b):
        A, Bv = self.concrete_or_none(VList(parts=a.parts)), self.concrete_or_none(VList(parts=b.parts))
        if A is None or Bv is None:
            self.I.unsup('set operation on symbolic sets')

        def inside(x, xs):
            return any(self.I.truth(self.eq(x, y)) for y in xs)
        if op == 'Sub':
            return VSet(parts=[Items([x for x in A if not inside(x, Bv)])])
        if op == 'BitOr':
            return VSet(parts=[Items(A + [x for x in Bv if not inside(x, A)])])
        if op == 'BitAnd':
            return VSet(parts=[Items([x for x in A if inside(x, Bv)])])
        self.I.unsup('set operation')

    def special_arith(self, op, a, b):
        if a is NAN or b is NAN:
            return NAN

        def sign(x):
            if x is PINF:
                return 1
            if x is NINF:
                return -1
            if self.I.truth(self.compare('Gt', x, 0)):
                return 1
            if self.I.truth(self.compare('Lt', x, 0)):
                return -1
            return 0
        inf = lambda s: PINF if s > 0 else NINF
        if op in ('Add', 'Sub'):
            sa = sign(a) if isinstance(a, Special) else 0
            sb = sign(b) if isinstance(b, Special) else 0
            if op == 'Sub':
                sb = -sb
            if sa and sb and sa != sb:
                return NAN
            return inf(sa or sb)
        if op == 'Mult':
            s = sign(a) * sign(b)
            return inf(s) if s else NAN
        if op == 'Div':
            if isinstance(a, Special) and isinstance(b, Special):
                return NAN
            if isinstance(b, Special):
                return Fraction(0)
            s = sign(b)
            if s == 0:
                self.I.raise_('ZeroDivisionError')
            return inf(sign(a) * s)
        if op == 'Pow' and isinstance(b, int) and b > 0 and isinstance(a, Special):
            return PINF if a is PINF or b % 2 == 0 else NINF
        self.I.unsup('%s with an infinite number' % op)

    def arith(self, op, a, b):
        I = self.I
        ints = is_intlike(a) and is_intlike(b)
        concrete = not is_term(a) and not is_term(b)
        if op in ('Add', 'Sub', 'Mult'):
            if concrete:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}[op]()
            x, y = (to_term(a), to_term(b)) if ints else (to_real(a), to_real(b))
            if op == 'Mult' and self.opaque_mul and not is_value(x) and not is_value(y):
                return (MULI if ints else MULR)(x, y)
            return self.simp({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]())
        if op in ('Div', 'FloorDiv', 'Mod'):
            z = self.compare('Eq', b, 0)
            if I.truth(z):
                I.raise_('ZeroDivisionError', 'division by zero')
            if op == 'Div':
                if concrete:
                    return Fraction(a) / Fraction(b)
                if self.opaque_mul and is_term(b):
                    return QUOT(to_real(a), to_real(b))
                return self.simp(to_real(a) / to_real(b))
            if concrete:
                return a // b if op == 'FloorDiv' else a % b
            if ints:
                x, y = to_term(a), to_term(b)
                if self.opaque_mul and op == 'Mod' and not is_value(y):
                    m = MODI(self.simp(x), y)
                    self.E.ctx.assume(z3.And(z3.Implies(y > 0, z3.And(m >= 0, m < y)), z3.Implies(y < 0, z3.And(m <= 0, m > y)),
                                             z3.Implies(z3.And(x >= 0, x < y), m == x)))
                    return m
                if isinstance(b, int):
                    pos = b > 0
                elif self.E.valid(y > 0, timeout=2000)[0]:
                    pos = True
                elif self.E.valid(y < 0, timeout=2000)[0]:
                    pos = False
                else:
                    pos = None
                if op == 'FloorDiv':
                    p, q = x / y, (-x) / (-y)
                else:
                    p, q = x % y, -((-x) % (-y))
                return self.simp(p if pos is True else q if pos is False else z3.If(y > 0, p, q))
            x, y = to_real(a), to_real(b)
            fl = z3.ToInt(x / y)
            return self.simp(z3.ToReal(fl)) if op == 'FloorDiv' else self.simp(x - y * z3.ToReal(fl))
        if op == 'Pow':
            return self.power(a, b)
        if op in ('RShift', 'LShift') and ints and isinstance(b, int) and b >= 0:
            return self.arith('FloorDiv' if op == 'RShift' else 'Mult', a, 2 ** b)
        if op in ('BitXor', 'BitAnd', 'BitOr') and concrete and ints:
            return {'BitXor': a ^ b, 'BitAnd': a & b, 'BitOr': a | b}[op]
        I.unsup('%s of %r and %r' % (op, a, b))

    def power(self, a, b):
        I = self.I
        if isinstance(b, int):
            if b >= 0:
                if not is_term(a):
                    if b < 4096:
                        return a ** b
                elif b <= 12:
                    r = 1 if is_intlike(a) else Fraction(1)
                    for _ in range(b):
                        r = self.arith('Mult', r, a)
                    return r
                elif is_intlike(a):
                    return POWI(a, z3.IntVal(b))
                return POWR(to_real(a), z3.IntVal(b))
            if I.truth(self.compare('Eq', a, 0)):
                I.raise_('ZeroDivisionError')
            return self.arith('Div', 1, self.power(a, -b))
        if is_intlike(b):
            if not self.E.valid(to_term(b) >= 0)[0]:
                if not I.truth(to_term(b) >= 0):
                    if I.truth(self.compare('Eq', a, 0)):
                        I.raise_('ZeroDivisionError')
                    return self.arith('Div', 1, self.power(a, self.negate(b)))
            if is_intlike(a):
                return POWI(to_term(a), to_term(b))
            if isinstance(a, Fraction) and a.denominator == 1:
                return z3.ToReal(POWI(z3.IntVal(a.numerator), to_term(b)))
            return POWR(to_real(a), to_term(b))
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            if not I.truth(self.compare('GtE', a, 0)):
                return self.complex_sqrt(a)
            return self.sqrt(a)
        f = rfun('POWREAL', R, R, R)
        if isinstance(b, Fraction) and b.denominator == 1:
            return self.real(self.power(a, int(b)))
        if I.truth(self.compare('LtE', a, 0)):
            I.unsup('real power of a non-positive number')
        return f(to_real(a), to_real(b))

    def complex_sqrt(self, a):
        self.I.unsup('square root of a negative number')

    def sqrt(self, a):
        if isinstance(a, Special):
            return a if a is not NINF else self.I.unsup('sqrt of -inf')
        if not is_term(a):
            from math import isqrt
            f = Fraction(a)
            p, q = isqrt(f.numerator), isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
        t = to_real(a)
        s = SQRT(t)
        self.E.ctx.assume(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
        return s

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        from .interp import neg
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            if isinstance(a, VObj):
                f = a.cls.lookup('__ne__')
                if f is not None:
                    return self.I.call(self.I.bind(f, a), [b])
            return neg(self.truthy(self.eq(a, b)))
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return neg(self.is_(a, b))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return neg(self.truthy(self.contains(b, a)))
        if is_bool(a):
            a = self.b_int([a], {})
        if is_bool(b):
            b = self.b_int([b], {})
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return False
            rank = lambda x: 1 if x is PINF else -1 if x is NINF else 0
            x, y = rank(a), rank(b)
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        if is_num(a) and is_num(b):
            if not is_term(a) and not is_term(b):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = (to_term(a), to_term(b)) if is_intlike(a) and is_intlike(b) else (to_real(a), to_real(b))
            return self.simp({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, VObj) or isinstance(b, VObj):
            nm = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'),
                  'GtE': ('__ge__', '__le__')}[op]
            if isinstance(a, VObj) and a.cls.lookup(nm[0]) is not None:
                return self.I.call(self.I.bind(a.cls.lookup(nm[0]), a), [b])
            if isinstance(b, VObj) and b.cls.lookup(nm[1]) is not None:
                return self.I.call(self.I.bind(b.cls.lookup(nm[1]), b), [a])
            self.I.raise_('TypeError', 'not comparable')
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            strict = op in ('Lt', 'Gt')
            base = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if not self.I.truth(e):
                    return self.compare(base, x, y)
            n, m = len(a), len(b)
            return {'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[op]
        if a is None or b is None or isinstance(a, (str, VList, VDict)) != isinstance(b, (str, VList, VDict)):
            self.I.raise_('TypeError', 'not comparable', why='%r %s %r' % (a, op, b))
        self.I.unsup('%s of %r and %r' % (op, a, b))

    def truthy(self, v):
        return v if is_bool(v) else self.I.truth_term(v)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, z3.BoolRef) or isinstance(b, bool) and isinstance(a, z3.BoolRef):
            return self.simp(to_bool_term(a) == to_bool_term(b))
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
            return self.simp(a == b)
        if isinstance(a, SV) and isinstance(b, SV):
            if a.shape == 'any' or b.shape == 'any':
                self.I.unsup('identity of opaque values')
            return a.term.eq(b.term)
        if a is None or b is None:
            for x in (a, b):
                if isinstance(x, SV) and x.shape == 'any':
                    return self.simp(x.term == NONE)
                if hasattr(x, 'vis_none'):
                    return x.vis_none(self.I)
            return False
        if isinstance(a, (VClass, VObj, VList, VDict, VFunc, VModule, Native)) or \
                isinstance(b, (VClass, VObj, VList, VDict, VFunc, VModule, Native)):
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if is_num(a) and is_num(b):
            self.I.unsup('identity of numbers')
        if type(a) is not type(b):
            return False
        self.I.unsup('identity of %r and %r' % (a, b))

    def eq(self, a, b):
        """Python's ==, as bool or formula."""
        I = self.I
        if isinstance(a, VObj) or isinstance(b, VObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj):
                    f = x.cls.lookup('__eq__')
                    if f is not None:
                        return I.call(I.bind(f, x), [y])
            if isinstance(a, VObj) and isinstance(b, VObj):
                if '__data__' in a.attrs and '__data__' in b.attrs:
                    return self.eq(a.attrs['__data__'], b.attrs['__data__'])
                if a is not b and (getattr(a, 'of', None) or getattr(b, 'of', None)):
                    I.unsup('comparison of snapshots')
            return a is b
        if isinstance(a, Special) or isinstance(b, Special):
            return a is b and a is not NAN
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return self.simp(to_bool_term(a) == to_bool_term(b))
        if is_bool(a) and is_num(b):
            a = self.b_int([a], {})
        if is_bool(b) and is_num(a):
            b = self.b_int([b], {})
        if is_num(a) and is_num(b):
            if not is_term(a) and not is_term(b):
                return a == b
            x, y = (to_term(a), to_term(b)) if is_intlike(a) and is_intlike(b) else (to_real(a), to_real(b))
            return self.simp(x == y)
        if a is b:
            return True
        strs = (str, z3.SeqRef, StrCat)
        if isinstance(a, strs) and isinstance(b, strs):
            return self.str_eq(a, b)
        if hasattr(a, 'veq'):
            return a.veq(I, b)
        if hasattr(b, 'veq'):
            return b.veq(I, a)
        seqs = (tuple, SSeq, VList)
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, SV) and isinstance(b, SV) and a.shape == b.shape:
                return self.simp(a.term == b.term)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SV) and (y is None or isinstance(y, strs) or is_num(y) or is_bool(y)) and \
                        isinstance(x.shape, tuple):
                    return False
            x = self.as_seq(a) if isinstance(a, SV) else a
            y = self.as_seq(b) if isinstance(b, SV) else b
            return self.eq(x, y)
        if isinstance(a, seqs) and isinstance(b, seqs):
            if self.kind(a) != self.kind(b):
                return False
            return self.seq_eq(a, b)
        if isinstance(a, VDict) and isinstance(b, VDict):
            return self.dict_eq(a, b)
        if isinstance(a, VSet) and isinstance(b, VSet):
            I.unsup('equality of sets')
        if isinstance(a, (VGen, VIter)) or isinstance(b, (VGen, VIter)):
            return False
        from .interp import Unmodelled
        if isinstance(a, Unmodelled) or isinstance(b, Unmodelled):
            I.unsup('comparison with %r' % (a,))
        return False

    def dict_eq(self, a, b):
        from .interp import conj
        if len(self.dict_items(a)) != len(self.dict_items(b)):
            return False
        fs = []
        for k, v in a.items:
            for k2, v2 in b.items:
                if self.I.truth(self.key_eq(k, k2)):
                    fs.append(self.truthy(self.eq(v, v2)))
                    break
            else:
                return False
        return self.simp_b(conj(fs))

    def simp_b(self, f):
        return f if isinstance(f, bool) else self.simp(f)

    def seq_eq(self, a, b):
        from .interp import conj, tb
        ca = list(a) if isinstance(a, tuple) else None
        cb = list(b) if isinstance(b, tuple) else None
        if ca is None and isinstance(a, VList):
            ca = a.concrete()
        if cb is None and isinstance(b, VList):
            cb = b.concrete()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return self.simp_b(conj([self.truthy(self.eq(x, y)) for x, y in zip(ca, cb)]))
        if ca is not None or cb is not None:
            c, s = (ca, b) if ca is not None else (cb, a)
            n = self.length(s)
            le = self.eq(n, len(c))
            if isinstance(le, bool) and not le:
                return False
            if not self.I.truth(le):
                return False
            return self.simp_b(conj([self.truthy(self.eq(x, self.item(s, i, inside=True))) for i, x in enumerate(c)]))
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            if a.origin is not None and b.origin is not None and a.eshape == b.eshape:
                return self.simp(a.origin == b.origin)
            if len(a.alts) == 1 and len(b.alts) == 1:
                j = z3.Int(self.E.fresh_name('q'))
                e = self.truthy(self.eq(subst(a.alts[0][1], [(a.var, j)]), subst(b.alts[0][1], [(b.var, j)])))
                n = to_term(a.n) == to_term(b.n)
                if isinstance(e, bool) and e:
                    return self.simp(n)
                return self.simp(z3.And(n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_term(a.n)), tb(e)))))
        try:
            return self.simp(self.embed(a) == self.embed(b))
        except Unsupported:
            raise

    def contains(self, c, x):
        from .interp import disj, tb
        I = self.I
        if isinstance(c, VObj):
            f = c.cls.lookup('__contains__')
            if f is not None:
                return I.truth_term(I.call(I.bind(f, c), [x]))
            if '__data__' in c.attrs:
                return self.contains(c.attrs['__data__'], x)
        if hasattr(c, 'vcontains'):
            return c.vcontains(I, x)
        h = self.hook(c, '__contains__')
        if h is not None:
            return h.fn(I, [x], {})
        if isinstance(c, (str, z3.SeqRef)) :
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, (str, z3.SeqRef)):
                return self.simp(z3.Contains(to_term(c), to_term(x)))
            I.raise_('TypeError', 'in <string>')
        if isinstance(c, VDict):
            return self.simp_b(disj([self.truthy(self.key_eq(k, x)) for k, _ in self.dict_items(c)]))
        parts = self.parts_of(c)
        return self.contains_parts(parts, x)

    def contains_parts(self, parts, x):
        from .interp import disj, tb
        fs = []
        for p in parts:
            if isinstance(p, Items):
                for v in p.vals:
                    fs.append(self.truthy(self.eq(v, x)) if v is not x else True)
                    if fs[-1] is True:
                        return True
            elif isinstance(p, Cond):
                fs.append(z3.And(*[z3.Implies(tb(g), tb(self.contains_parts(q, x))) for g, q in p.alts]))
            elif isinstance(p, SSeq):
                j = z3.Int(self.E.fresh_name('q'))
                es = [(g, self.truthy(self.eq(v, x))) for g, v in p.alts]
                body = z3.And(*[z3.Implies(tb(g), tb(e)) for g, e in es]) if len(es) > 1 else tb(es[0][1])
                fs.append(z3.Exists([j], z3.And(j >= 0, j < to_term(p.n), z3.substitute(body, (p.var, j)))))
            elif isinstance(p, Flat):
                j = z3.Int(self.E.fresh_name('q'))
                body = tb(self.contains_parts(p.parts, x))
                fs.append(z3.Exists([j], z3.And(j >= 0, j < to_term(p.n), z3.substitute(body, (p.var, j)))))
            else:
                self.I.unsup('membership in %r' % (p,))
        return self.simp_b(disj(fs))

    # ------------------------------------------------------------------ text
    def strcat(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p == '' and isinstance(p, str):
                continue
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        return self.simp(z3.Concat(*[to_term(p) for p in out]))

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return self.simp(to_term(a) == to_term(b))

    def plain_str(self, v):
        if isinstance(v, str):
            return v
        self.I.unsup('symbolic format')

    def format_value(self, x, spec='', repr_=False):
        I = self.I
        if isinstance(x, SV) and isinstance(x.shape, tuple) and x.shape[0] == 'obj':
            h = self.handlers[x.shape[1]](x, '__str__')
            if h is not None:
                return h
        if isinstance(x, str):
            if repr_:
                return repr(x)
            return format(x, spec) if spec else x
        if isinstance(x, z3.SeqRef):
            if repr_ or spec:
                return z3.Function('STRFMT_%s%s' % (spec, repr_), S, S)(x)
            return x
        if isinstance(x, bool) or x is None:
            return format(x, spec) if spec else str(x)
        if isinstance(x, int):
            return format(x, spec) if spec else str(x)
        if isinstance(x, z3.ArithRef) and x.is_int():
            f = STRI if spec in ('', 'd') else z3.Function('STRI_' + spec, I_, S)
            return f(x)
        if isinstance(x, (Fraction, z3.ArithRef)):
            f = STRR if spec == '' else z3.Function('STRR_' + spec, R, S)
            return f(to_real(x))
        if isinstance(x, Special):
            return str(x)
        if isinstance(x, z3.BoolRef):
            return z3.If(x, z3.StringVal('True'), z3.StringVal('False'))
        if isinstance(x, VObj):
            for nm in (('__repr__',) if repr_ else ('__str__', '__repr__')):
                f = x.cls.lookup(nm)
                if f is not None:
                    return I.call(I.bind(f, x), [])
            if x.cls.issub(self.builtins['BaseException']):
                return self.E.const(S, 'exc')
        if isinstance(x, VClass):
            m = x.meta or self.builtins['type']
            f = m.lookup('__str__') if not repr_ else m.lookup('__repr__')
            if f is not None:
                return I.call(I.bind(f, x), [])
            return "<class '%s.%s'>" % (x.module.name if x.module else 'builtins', x.name)
        if isinstance(x, (tuple, VList)):
            c = self.concrete_or_none(x)
            if c is not None:
                l, r = '()' if self.kind(x) == 'tuple' else '[]'
                out = [l]
                for i, v in enumerate(c):
                    if i:
                        out.append(', ')
                    out.append(self.format_value(v, '', True))
                if len(c) == 1 and l == '(':
                    out.append(',')
                return self.strcat(out + [r])
        try:
            return STRU(self.embed(x))
        except Unsupported:
            return self.E.const(S, 'text')

    def percent(self, fmt, args):
        if not isinstance(fmt, str):
            self.I.unsup('symbolic format text')
        if isinstance(args, VDict):
            self.I.unsup('% with a dictionary')
        args = list(args) if isinstance(args, tuple) else [args]
        out, i, n = [], 0, 0
        import re
        for m in re.finditer(r'%(?:%|([-+ 0#]*)(\d*|\*)(?:\.(\d+))?([a-zA-Z]))', fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            if n >= len(args):
                self.I.raise_('TypeError', 'not enough arguments for format string')
            x = args[n]
            n += 1
            conv = m.group(4)
            flags = m.group(1) + m.group(2) + ('.' + m.group(3) if m.group(3) is not None else '')
            if conv in 'di':
                if is_bool(x):
                    x = self.b_int([x], {})
                if isinstance(x, (int, Fraction)):
                    out.append(('%' + flags + 'd') % int(x))
                elif isinstance(x, z3.ArithRef):
                    if x.is_real():
                        x = self.b_int([x], {})
                    if isinstance(x, int):
                        out.append(('%' + flags + 'd') % x)
                    else:
                        out.append(STRI(x) if not flags else z3.Function('PCT_' + flags + 'd', I_, S)(x))
                elif isinstance(x, SV) and x.shape == 'any':
                    out.append(self.E.const(S, 'text'))
                else:
                    self.I.raise_('TypeError', '%d format: a number is required')
            elif conv in 'sr':
                out.append(self.format_value(x, '', conv == 'r'))
            elif conv in 'feg':
                if is_num(x) or is_bool(x):
                    out.append(self.E.const(S, 'text'))
                else:
                    self.I.raise_('TypeError', 'must be real number')
            else:
                self.I.unsup('format %s' % m.group(0))
        out.append(fmt[i:])
        if n < len(args):
            self.I.raise_('TypeError', 'not all arguments converted')
        return self.strcat(out)

    def format(self, fmt, args, kwargs):
        out, auto = [], 0
        if not isinstance(fmt, str):
            self.I.unsup('symbolic format text')
        for lit, field, spec, conv in _string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    self.I.raise_('IndexError', 'format')
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                self.I.unsup('format field %s' % field)
            out.append(self.format_value(v, spec or '', conv == 'r'))
        return self.strcat(out)

    # ------------------------------------------------------------------ embedding into abstract terms
    def embed(self, v):
        if isinstance(v, SV):
            return v.term
        if v is None:
            return NONE
        if is_bool(v):
            return MKB(to_bool_term(v))
        if is_intlike(v):
            t = to_term(v)
            if t.num_args() == 1 and t.decl().eq(UI):
                return MKI(t)
            return MKI(t)
        if is_num(v):
            return MKR(to_real(v))
        if isinstance(v, Special):
            return {'nan': NANU, 'inf': PINFU, '-inf': NINFU}[v.name]
        if isinstance(v, (str, z3.SeqRef)):
            return MKS(to_term(v))
        if isinstance(v, tuple):
            return TUP(len(v))(*[self.embed(x) for x in v]) if v else TUP(0)
        if isinstance(v, SSeq):
            if v.origin is not None:
                return v.origin
            ts = [(g, self.embed(x)) for g, x in v.alts]
            t = ts[-1][1]
            if len(ts) == 1:        # the elements of one sequence, one by one: that sequence
                e = t.arg(0).arg(0) if t.decl().name() in ('MKI', 'MKR', 'MKB', 'MKS') and t.arg(0).num_args() == 1 and \
                    t.arg(0).decl().name() in ('UI', 'UR', 'UB', 'US') else t
                if e.num_args() == 2 and e.decl().eq(ITEM) and e.arg(1).eq(v.var) and to_term(v.n).eq(LEN(e.arg(0))) \
                        and not occurs(v.var, e.arg(0)):
                    return e.arg(0)
            for g, x in reversed(ts[:-1]):
                t = z3.If(g if is_term(g) else z3.BoolVal(g), x, t)
            return SEQ(lam(v.var, t), to_term(v.n))
        if isinstance(v, VList):
            c = v.concrete()
            if c is not None:
                return z3.Function('LISTOF', U, U)(TUP(len(c))(*[self.embed(x) for x in c]) if c else TUP(0))
            ps = self.norm(v.parts)
            if len(ps) == 1 and isinstance(ps[0], SSeq):
                return self.embed(ps[0])
        if isinstance(v, (VClass, VFunc, Native)):
            return z3.Const('FN_%s' % getattr(v, 'qual', getattr(v, 'name', 'f')), U)
        if hasattr(v, 'vembed'):
            return v.vembed(self.I)
        raise Unsupported('abstract term of %r' % (v,))

    # ------------------------------------------------------------------ opaque values
    def truth_sv(self, v):
        s = v.shape
        if isinstance(s, tuple) and s[0] == 'seq':
            return self.simp(LEN(v.term) > 0)
        if isinstance(s, tuple) and s[0] == 'tup':
            return len(s[1]) > 0
        if isinstance(s, tuple) and s[0] == 'fun':
            return True
        h = self.hook(v, '__len__')
        if h is not None:
            return self.I.truth_term(h.fn(self.I, [], {}))
        self.I.unsup('truth of an opaque value')

    def call_sv(self, f, args, kwargs):
        """A function value: any function of its arguments ('fun', result shape)."""
        s = f.shape
        if isinstance(s, tuple) and s[0] == 'fun' and not kwargs:
            t = APPF(len(args))(f.term, *[self.embed(a) for a in args])
            return self.view(t, s[1])
        self.I.unsup('call of an opaque value')

    def native_init(self, o):
        """Objects of classes with native parts. True if constructor arguments are consumed natively."""
        return False

    def module_setattr(self, m, name, v):
        return False

    def obj_attr(self, o, name):
        """Attributes that objects inherit from native base classes."""
        if isinstance(o, VObj):
            if '__data__' in o.attrs:
                d = o.attrs['__data__']
                if name in ('__contains__',):
                    return Native('dict.__contains__', lambda I, a, k: self.contains(d, a[0]))
                if name == '__getitem__':
                    return Native('dict.__getitem__', lambda I, a, k: self.getitem(d, a[0]))
                if name == '__setitem__':
                    return Native('dict.__setitem__', lambda I, a, k: self.setitem(d, a[0], a[1]))
                if name == '__delitem__':
                    return Native('dict.__delitem__', lambda I, a, k: self.delitem(d, a[0]))
                if name == '__len__':
                    return Native('dict.__len__', lambda I, a, k: self.length(d))
                return self.attribute(d, name)
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k: None)
            if name in ('__str__', '__repr__'):
                return Native('str', lambda I, a, k: self.E.const(S, 'text'))
        if isinstance(o, VClass):
            if name == '__new__':
                return Native('object.__new__', lambda I, a, k: VObj(a[0], {}))
            if name == '__str__':
                return Native('type.__str__', lambda I, a, k: "<class '%s'>" % o.name)
        return None

    def attribute(self, o, name):
        """Methods of builtin values."""
        from . import libs
        return libs.attribute(self, o, name)


I_ = I


def out_of(Ip, parts, p):
    q = list(parts).index(p)
    return list(parts[:q]) + list(Ip.pick(p.alts)) + list(parts[q + 1:])
