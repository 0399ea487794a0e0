"""Symbolic interpreter of the Python source of the repository: generates the verification conditions."""
import ast, os, sys
from fractions import Fraction
import z3
from .core import *
from .values import *
from .values import Poison, PoisonRead, Either
sys.setrecursionlimit(20000)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class VRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc, why=''):
        self.exc, self.why = exc, why

    def __str__(self):
        return 'raised %s %s' % (self.exc.cls.name, self.why or self.exc.attrs.get('args', ''))


class Missing:
    pass


MISSING = Missing()


class Unmodelled:
    """A name outside the verified code without an assumed contract: any use is unsupported."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<unmodelled %s>' % self.name


class Return:
    """Exit descriptions of a symbolic loop."""
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


def simp(t):
    if is_term(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_string_value(t):
            return t.as_string() if '\\' not in t.as_string() else t
    return t


def conj(fs):
    fs = [f for f in fs if not (isinstance(f, bool) and f)]
    if any(isinstance(f, bool) for f in fs):
        return False
    if not fs:
        return True
    return fs[0] if len(fs) == 1 else z3.And(*fs)


def disj(fs):
    fs = [f for f in fs if not (isinstance(f, bool) and not f)]
    if any(isinstance(f, bool) for f in fs):
        return True
    if not fs:
        return False
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def neg(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)


def tb(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


KEEPS_GENERATORS = {'iter', 'next', 'isinstance', 'type', 'id', 'callable', 'hasattr', 'getattr', 'setattr', 'print', 'bool'}


class Interp:
    def __init__(self, E, repo):
        self.fresh_dict = {}         # function: what a new empty dictionary is there (a contract's own map)
        self.E, self.repo = E, repo
        self.modules = {}
        self.stubs = {}            # qualname -> fn(interp, args, kwargs): assumed callee contract
        self.hints = {}
        self.families = {}         # qualname -> [candidate loop families]
        self.families_first = False
        self.relations = {}        # qualname -> [relational invariants]
        self.log = []
        self.depth = 0
        self.stack = []
        self.loopvars = []
        self.loopmarks = {}
        self.used = set()          # functions interpreted
        self.loops_seen = {}
        self.loopvars = []
        self.unroll_limit = 400
        self.trees = {}
        from . import models
        self.M = models.Models(self)
        self.builtins = self.M.builtins

    # ------------------------------------------------------------------ heap
    def setvar(self, env, name, val):
        self.log.append(('var', env, name, env.vars.get(name, MISSING)))
        env.vars[name] = val

    def setattr_raw(self, obj, name, val):
        self.log.append(('attr', obj, name, obj.attrs.get(name, MISSING)))
        if val is MISSING:
            obj.attrs.pop(name, None)
        else:
            obj.attrs[name] = val

    def setparts(self, lst, parts):
        self.log.append(('list', lst, None, lst.parts))
        lst.parts = parts

    def setitems(self, d, items):
        self.log.append(('dict', d, None, d.items))
        d.items = items

    def setns(self, cls, name, val):
        self.log.append(('ns', cls, name, cls.ns.get(name, MISSING)))
        cls.ns[name] = val

    def setpos(self, it, pos):
        self.log.append(('iter', it, None, it.pos))
        it.pos = pos

    def put(self, loc, val):
        kind, obj, key = loc
        if kind == 'var':
            if val is MISSING:
                self.log.append(('var', obj, key, obj.vars.get(key, MISSING)))
                obj.vars.pop(key, None)
            else:
                self.setvar(obj, key, val)
        elif kind == 'attr':
            self.setattr_raw(obj, key, val)
        elif kind == 'list':
            self.setparts(obj, val)
        elif kind == 'dict':
            self.setitems(obj, val)
        elif kind == 'iter':
            self.setpos(obj, val)
        elif kind == 'ns':
            self.setns(obj, key, val)

    def peek(self, loc):
        kind, obj, key = loc
        if kind == 'var':
            return obj.vars.get(key, MISSING)
        if kind == 'attr':
            return obj.attrs.get(key, MISSING)
        if kind == 'list':
            return obj.parts
        if kind == 'dict':
            return obj.items
        if kind == 'iter':
            return obj.pos
        if kind == 'ns':
            return obj.ns.get(key, MISSING)

    def rollback(self, mark):
        while len(self.log) > mark:
            kind, obj, key, old = self.log.pop()
            if kind == 'var':
                if old is MISSING:
                    obj.vars.pop(key, None)
                else:
                    obj.vars[key] = old
            elif kind == 'attr':
                if old is MISSING:
                    obj.attrs.pop(key, None)
                else:
                    obj.attrs[key] = old
            elif kind == 'list':
                obj.parts = old
            elif kind == 'dict':
                obj.items = old
            elif kind == 'iter':
                obj.pos = old
            elif kind == 'ns':
                if old is MISSING:
                    obj.ns.pop(key, None)
                else:
                    obj.ns[key] = old

    # ------------------------------------------------------------------ modules
    def tree(self, name):
        if name not in self.trees:
            path = os.path.join(self.repo, name + '.py')
            with open(path, encoding='utf8') as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.trees[name] = ast.parse(src)
        return self.trees[name]

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.M.modules:
            m = self.M.modules[name]
            if callable(m):
                m = m()
            self.modules[name] = m
            return m
        top = name.split('.')[0]
        if os.path.exists(os.path.join(self.repo, name + '.py')):
            m = VModule(name)
            self.modules[name] = m
            env = Env()
            env.vars = m.ns
            env.module = m
            m.env = env
            m.ns['__name__'] = name
            self.stack.append('<module %s>' % name)
            saved, self.log = self.log, []
            try:
                self.block(self.tree(name).body, env)
            except BaseException:
                del self.modules[name]
                raise
            finally:
                self.stack.pop()
                self.log = saved
            return m
        m = VModule(name)
        m.unmodelled = True
        self.modules[name] = m
        return m

    # ------------------------------------------------------------------ raising
    def raise_(self, cls, *args, why=''):
        c = cls if isinstance(cls, VClass) else self.builtins[cls]
        o = VObj(c, {'args': tuple(args)})
        raise VRaise(o, '%s [in %s]' % (why or args, ' > '.join(self.stack[-3:])))

    def unsup(self, msg):
        raise Unsupported('%s [in %s]' % (msg, ' > '.join(self.stack[-3:])))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement %s' % type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocal_decl |= set(s.names)

    def s_Assert(self, s, env):
        if not self.truth(self.expr(s.test, env)):
            self.raise_('AssertionError')

    def s_Import(self, s, env):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                self.assign_name(env, a.name.split('.')[0], self.module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        m = self.module(s.module)
        for a in s.names:
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                v = Unmodelled('%s.%s' % (s.module, a.name))
            self.assign_name(env, a.asname or a.name, v)

    def s_Return(self, s, env):
        raise ReturnEx(self.expr(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise BreakEx()

    def s_Continue(self, s, env):
        raise ContinueEx()

    def s_If(self, s, env):
        if self.truth(self.expr(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.expr(ast.Name(t.id, ast.Load()), env)
            rhs = self.expr(s.value, env)
            self.assign_name(env, t.id, self.binop(s.op, cur, rhs, inplace=True))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            cur = self.getattr(o, t.attr)
            rhs = self.expr(s.value, env)
            self.setattr(o, t.attr, self.binop(s.op, cur, rhs, inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            i = self.index_value(t.slice, env)
            cur = self.getitem(o, i)
            rhs = self.expr(s.value, env)
            self.setitem(o, i, self.binop(s.op, cur, rhs, inplace=True))
        else:
            self.unsup('augmented assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.put(('var', env, t.id), MISSING)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, env)
                if not isinstance(o, VObj) or t.attr not in o.attrs:
                    self.raise_('AttributeError', t.attr)
                self.setattr_raw(o, t.attr, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env)
                self.M.delitem(o, self.index_value(t.slice, env))
            else:
                self.unsup('del target')

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise VRaise(self.handling[-1])
        v = self.expr(s.exc, env)
        if isinstance(v, VClass):
            v = self.call(v, [])
        if not isinstance(v, VObj):
            self.unsup('raise of %r' % (v,))
        raise VRaise(v)

    handling = []

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except VRaise as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.expr(h.type, env)
                        cs = t if isinstance(t, tuple) else (t,)
                        for c in cs:
                            if not isinstance(c, VClass):
                                self.unsup('except %r' % (c,))
                        ok = any(r.exc.cls.issub(c) for c in cs)
                    if ok:
                        if h.name:
                            self.assign_name(env, h.name, r.exc)
                        self.handling = self.handling + [r.exc]
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (VRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        def go(items):
            if not items:
                self.block(s.body, env)
                return
            it = items[0]
            cm = self.expr(it.context_expr, env)
            v = self.call(self.getattr(cm, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ex = self.getattr(cm, '__exit__')
            try:
                go(items[1:])
            except VRaise as r:
                if not self.truth(self.call(ex, [r.exc.cls, r.exc, None])):
                    raise
            except (ReturnEx, BreakEx, ContinueEx):
                self.call(ex, [None, None, None])
                raise
            else:
                self.call(ex, [None, None, None])
        go(s.items)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.expr(d, env), [f])
        self.assign_name(env, s.name, f)

    def make_func(self, s, env, name):
        a = s.args
        defaults = [self.expr(d, env) for d in a.defaults]
        kwd = {k.arg: self.expr(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        mod = self.env_module(env)
        pre = ''
        if getattr(env, 'is_class', False):
            pre = env.cls_name + '.'
        elif env.fn is not None:
            pre = env.fn.qual.split(':', 1)[1] + '.'
        gen = not isinstance(s, ast.Lambda) and self.has_yield(s)
        return VFunc(s, env, mod, name, '%s:%s%s' % (mod.name if mod else '?', pre, name), defaults, kwd, None, gen)

    def env_module(self, env):
        e = env
        while e.parent is not None:
            e = e.parent
        return getattr(e, 'module', None)

    def has_yield(self, node):
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def s_ClassDef(self, s, env):
        bases = [self.expr(b, env) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.expr(k.value, env)
        for b in bases:
            if not isinstance(b, VClass):
                self.unsup('base class %r' % (b,))
        if meta is None:
            for b in bases:
                if b.meta is not None:
                    meta = b.meta
        cenv = Env(env, env.fn)
        cenv.is_class = True
        cenv.cls_name = (env.cls_name + '.' if getattr(env, 'is_class', False) else '') + s.name
        cenv.ns_ready = False
        self.block(s.body, cenv)
        mod = self.env_module(env)
        c = VClass(s.name, bases or [self.builtins['object']], cenv.vars, meta, mod, cenv.cls_name)
        for k, v in list(c.ns.items()):
            f = v
            while isinstance(f, (StaticMethod, ClassMethod)):
                f = f.f
            fs = [f]
            if isinstance(f, Property):
                fs = [f.get, f.set_]
            for g in fs:
                if isinstance(g, VFunc) and g.cls is None:
                    g.cls = c
        if s.decorator_list:
            self.unsup('class decorator')
        self.assign_name(env, s.name, c)

    def s_For(self, s, env):
        it = self.expr(s.iter, env)
        broke = False

        def body(v):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except ContinueEx:
                pass
        try:
            self.iterate(it, body, s)
        except BreakEx:
            broke = True
        if not broke:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        def body(_):
            if not self.truth(self.expr(s.test, env)):
                raise WhileEnd()
            try:
                self.block(s.body, env)
            except ContinueEx:
                pass
        try:
            mark = len(self.log)
            for i in range(self.unroll_limit):
                # concrete as long as the conditions are
                t = self.truth_term(self.expr(s.test, env))
                if not isinstance(t, bool):
                    break
                if not t:
                    raise WhileEnd()
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    pass
            self.sym_loop(None, lambda k: body(None), s)
            raise PathEnd()
        except WhileEnd:
            self.block(s.orelse, env)
        except BreakEx:
            pass

    # ------------------------------------------------------------------ names
    def assign_name(self, env, name, v):
        if name in env.globals_decl:
            e = env
            while e.parent is not None:
                e = e.parent
            self.setvar(e, name, v)
        elif name in env.nonlocal_decl:
            e = env.parent
            while e is not None and (name not in e.vars or getattr(e, 'is_class', False)):
                e = e.parent
            if e is None:
                self.unsup('nonlocal ' + name)
            self.setvar(e, name, v)
        else:
            self.setvar(env, name, v)

    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if (first or not getattr(e, 'is_class', False)) and name in e.vars and \
                    not (e is env and name in env.globals_decl and e.parent is not None):
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                if isinstance(v, Either):
                    return v.resolve(self.E)
                return v
            first = False
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        self.raise_('NameError', name, why='name %s' % name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                if i == n - 1 and self.M.concrete_or_none(v) is None:
                    v = VList(parts=self.M.copy_parts(self.M.parts_of(v)))
                    for x in t.elts[:-1]:
                        if not any(isinstance(p, Items) and p.vals for p in v.parts) and \
                                not self.truth(self.M.compare('Gt', self.M.length(v), 0)):
                            self.raise_('ValueError', 'unpack')
                        self.assign(x, self.M.pop(v, 0), env)
                    self.assign(t.elts[-1].value, v, env)
                    return
                vals = self.concrete_list(v)
                after = n - i - 1
                self.assign_all(t.elts[:i], vals[:i], env)
                self.assign(t.elts[i].value, VList(vals[i:len(vals) - after]), env)
                self.assign_all(t.elts[i + 1:], vals[len(vals) - after:], env)
                return
            self.assign_all(t.elts, self.unpack(v, n), env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            self.setitem(o, self.index_value(t.slice, env), v)
        else:
            self.unsup('assignment target')

    def assign_all(self, ts, vs, env):
        for t, v in zip(ts, vs):
            self.assign(t, v, env)

    def unpack(self, v, n):
        """The n elements of v; ValueError if it has another length."""
        v = self.M.as_seq(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_('ValueError', 'unpack')
            return list(v)
        ln = self.M.length(v)
        if not self.truth(self.M.eq(ln, n)):
            self.raise_('ValueError', 'unpack')
        return [self.M.item(v, i) for i in range(n)]

    # ------------------------------------------------------------------ expressions
    def expr(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsup('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else self.unsup('float constant')
        if v is None or isinstance(v, (bool, int, str, bytes)) or v is Ellipsis:
            return v
        self.unsup('constant %r' % (v,))

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Tuple(self, e, env):
        return self.display(e.elts, env)

    def display(self, elts, env):
        if not any(isinstance(x, ast.Starred) for x in elts):
            return tuple(self.expr(x, env) for x in elts)
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts += self.M.parts_of(self.use_gen(self.expr(x.value, env)))
            else:
                parts.append(Items([self.expr(x, env)]))
        return self.M.seq_from_parts(parts, 'tuple')

    def e_List(self, e, env):
        v = self.display(e.elts, env)
        return VList(parts=self.M.parts_of(v))

    def e_Set(self, e, env):
        return self.M.make_set([Items([self.expr(x, env) for x in e.elts])])

    def e_Dict(self, e, env):
        if not e.keys and self.stack and self.stack[-1] in self.fresh_dict:
            return self.fresh_dict[self.stack[-1]](self)
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.M.dict_update(d, self.expr(v, env))
            else:
                kk = self.expr(k, env)
                self.M.dict_set(d, kk, self.expr(v, env))
        return d

    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        return self.getitem(o, self.index_value(e.slice, env))

    def index_value(self, s, env):
        if isinstance(s, ast.Index):
            s = s.value
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.expr(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.expr(s, env)

    def e_Call(self, e, env):
        f = self.expr(e.func, env)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and f is self.builtins['super']:
            en = env
            while en.fn is None or en.fn.cls is None:
                en = en.parent
                if en is None:
                    self.unsup('super() outside a method')
            first = en.fn.node.args.args[0].arg
            return SuperProxy(en.fn.cls, self.lookup(en, first))
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.use_gen(self.expr(a.value, env))
                c = self.M.concrete_or_none(v)
                if c is None:
                    args.append(StarArg(v))
                else:
                    args += c
            else:
                args.append(self.expr(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value, env)
                if not isinstance(d, VDict):
                    self.unsup('** of %r' % (d,))
                for kk, vv in d.items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.expr(k.value, env)
        return self.call(f, args, kwargs)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.expr(e.left, env), self.expr(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return neg(t)
        if isinstance(e.op, ast.USub):
            return self.M.negate(v)
        if isinstance(e.op, ast.UAdd):
            return v
        self.unsup('unary operator')

    def binop(self, op, a, b, inplace=False):
        return self.M.binop(type(op).__name__, a, b, inplace)

    def pure(self, nodes):
        """Whether evaluating the expressions has no effect and no branch that matters (attributes, names, compare)."""
        for x in nodes:
            for y in ast.walk(x):
                if isinstance(y, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.Subscript, ast.BinOp, ast.ListComp,
                                  ast.GeneratorExp, ast.NamedExpr)):
                    return False
        return True

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            v = self.expr(x, env)
            if i == len(e.values) - 1:
                break
            if isinstance(v, z3.BoolRef) and self.pure(e.values[i + 1:]):
                # no effects in the rest: a formula instead of a fork
                rest = [v]
                ok = True
                mark = len(self.log)
                for y in e.values[i + 1:]:
                    w = self.expr(y, env)
                    if not is_bool(w):
                        ok = False
                        break
                    rest.append(w)
                if ok and len(self.log) == mark:
                    return simp(tb(conj(rest) if is_and else disj(rest)))
            if self.truth(v) != is_and:
                return v
        return v

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_Compare(self, e, env):
        left = self.expr(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r, env)
            c = self.M.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return c
                return simp(tb(conj([res, self.truth_term(c)])))
            t = self.truth_term(c)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                if not self.pure(e.comparators[i + 1:]):
                    if not self.truth(t):
                        return False
                else:
                    res = conj([res, t])
            left = right
        return res

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.expr(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.M.plain_str(self.expr(v.format_spec, env))
                out.append(self.M.format_value(x, spec, repr_=v.conversion == 114))
        return self.M.strcat(out)

    def e_ListComp(self, e, env):
        out = VList()
        self.comp(e, env, lambda en: self.M.append(out, self.expr(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        # evaluated eagerly: the element expressions of the repository have no effects that could interleave
        out = VList()
        self.comp(e, env, lambda en: self.M.append(out, self.expr(e.elt, en)))
        g = VGen(None)
        g.cached = out.parts
        g.stamp_lst = out
        return g

    def e_SetComp(self, e, env):
        out = VList()
        self.comp(e, env, lambda en: self.M.append(out, self.expr(e.elt, en)))
        return self.M.make_set(out.parts)

    def e_DictComp(self, e, env):
        d = VDict()
        out = VList()
        self.comp(e, env, lambda en: self.M.append(out, (self.expr(e.key, en), self.expr(e.value, en))))
        c = self.M.concrete_or_none(out)
        if c is None:
            self.unsup('dictionary of symbolic size')
        for k, v in c:
            self.M.dict_set(d, k, v)
        return d

    def comp(self, e, env, emit):
        en = Env(env, env.fn)

        def gen(i):
            if i == len(e.generators):
                emit(en)
                return
            g = e.generators[i]
            it = self.expr(g.iter, env if i == 0 else en)

            def body(v):
                self.assign(g.target, v, en)
                for c in g.ifs:
                    if not self.truth(self.expr(c, en)):
                        return
                gen(i + 1)
            self.iterate(it, body, e)
        gen(0)

    def e_Yield(self, e, env):
        v = self.expr(e.value, env) if e.value else None
        en = env
        while not hasattr(en, 'emission'):
            en = en.parent
        self.M.append(en.emission, self.snapshot(v))
        return None

    def e_YieldFrom(self, e, env):
        en = env
        while not hasattr(en, 'emission'):
            en = en.parent
        self.iterate(self.expr(e.value, env), lambda v: self.M.append(en.emission, self.snapshot(v)), e)
        return None

    def snapshot(self, v):
        """State of yielded objects at the moment of the yield (the generator may change them later)."""
        if isinstance(v, VObj):
            c = VObj(v.cls, {k: x for k, x in v.attrs.items()})
            c.volatile = True
            c.of = v
            return c
        if isinstance(v, tuple):
            return tuple(self.snapshot(x) for x in v)
        return v

    def e_Starred(self, e, env):
        self.unsup('starred expression')

    # ------------------------------------------------------------------ truth
    def truth_term(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, z3.BoolRef):
            return simp(v)
        if is_num(v):
            if isinstance(v, z3.ArithRef):
                return simp(v != 0)
            return v != 0
        if isinstance(v, str) or isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (VFunc, BoundMethod, Native, VClass, VModule, SuperProxy)):
            return True
        if isinstance(v, Special):
            return True
        if isinstance(v, VObj):
            for nm in ('__bool__', '__len__'):
                f = v.cls.lookup(nm)
                if f is not None:
                    return self.truth_term(self.call(self.bind(f, v), []))
            return True
        if isinstance(v, StrCat):
            return True if any(isinstance(p, str) and p for p in v.pieces) else self.unsup('truth of text')
        if isinstance(v, z3.SeqRef):
            return simp(z3.Length(v) > 0)
        if isinstance(v, VSet) and not all(isinstance(p, Items) for p in v.parts):
            t = self.M.nonempty(v.parts)
            return t if isinstance(t, bool) else simp(t)
        if isinstance(v, (VList, SSeq, VDict, VSet)):
            n = self.M.length(v)
            return (n > 0) if isinstance(n, int) else simp(n > 0)
        if isinstance(v, SV):
            return self.M.truth_sv(v)
        if isinstance(v, VGen):
            return True
        self.unsup('truth of %r' % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.E.ctx.branch(t)

    # ------------------------------------------------------------------ attributes
    def bind(self, f, obj):
        if isinstance(f, (VFunc, Native)):
            return BoundMethod(f, obj)
        if isinstance(f, StaticMethod):
            return f.f
        if isinstance(f, ClassMethod):
            return BoundMethod(f.f, obj.cls if isinstance(obj, VObj) else obj)
        return f

    def getattr(self, o, name):
        if isinstance(o, VObj):
            if name in o.attrs:
                f = o.cls.lookup(name)
                if not isinstance(f, Property):
                    v = o.attrs[name]
                    if isinstance(v, Poison):
                        raise PoisonRead(v.loc)
                    if isinstance(v, Either):
                        return v.resolve(self.E)
                    return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                self.unsup('__dict__')
            f = o.cls.lookup(name)
            if f is not None:
                if isinstance(f, Property):
                    return self.call(f.get, [o])
                return self.bind(f, o)
            if '__data__' in o.attrs:
                h = self.M.obj_attr(o, name)
                if h is not None:
                    return h
            g = o.cls.lookup('__getattr__')
            if g is not None:
                return self.call(self.bind(g, o), [name])
            h = self.M.obj_attr(o, name)
            if h is not None:
                return h
            self.raise_('AttributeError', name, why='%s.%s' % (o.cls.name, name))
        if isinstance(o, VClass):
            f = o.lookup(name)
            if f is not None:
                if isinstance(f, StaticMethod):
                    return f.f
                if isinstance(f, ClassMethod):
                    return BoundMethod(f.f, o)
                return f
            if name == '__name__':
                return o.name
            if o.meta is not None and o.meta.lookup(name) is not None:
                return self.bind(o.meta.lookup(name), o)
            self.raise_('AttributeError', name, why='%s.%s' % (o.name, name))
        if isinstance(o, VModule):
            if name in o.ns:
                return o.ns[name]
            return Unmodelled('%s.%s' % (o.name, name))
        if isinstance(o, SuperProxy):
            cls = o.obj.cls if isinstance(o.obj, VObj) else o.obj
            f, _ = cls.lookup_after(o.cls, name)
            if f is None:
                h = self.M.obj_attr(o.obj, name)
                if h is not None:
                    return h
                self.raise_('AttributeError', name, why='super().%s' % name)
            if isinstance(f, Property):
                return self.call(f.get, [o.obj])
            return self.bind(f, o.obj)
        if isinstance(o, Unmodelled):
            return Unmodelled(o.name + '.' + name)
        if isinstance(o, VFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__wrapped__' or name == '__doc__':
                return None
        if isinstance(o, BoundMethod) and name == '__func__':
            return o.func
        if isinstance(o, Property) and name in ('setter', 'getter'):
            return Native('property.' + name, lambda I, a, k: Property(o.get, a[0]) if name == 'setter'
                          else Property(a[0], o.set_))
        r = self.M.attribute(o, name)
        if r is not None:
            return r
        self.raise_('AttributeError', name, why='%s has no attribute %s' % (self.M.type_name(o), name))

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            f = o.cls.lookup(name)
            if isinstance(f, Property):
                if f.set_ is None:
                    self.raise_('AttributeError', name)
                self.call(f.set_, [o, v])
                return
            s = o.cls.lookup('__setattr__')
            if s is not None:
                self.call(self.bind(s, o), [name, v])
                return
            self.setattr_raw(o, name, v)
        elif isinstance(o, VClass):
            self.setns(o, name, v)
        elif isinstance(o, VModule):
            if self.M.module_setattr(o, name, v):
                return
            if hasattr(o, 'env'):
                self.setvar(o.env, name, v)
            else:
                self.unsup('assignment to %s.%s' % (o.name, name))
        elif isinstance(o, VFunc):
            o.attrs[name] = v
        else:
            self.unsup('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------------ items
    def getitem(self, o, i):
        if isinstance(o, VObj):
            f = o.cls.lookup('__getitem__')
            if f is None and '__data__' in o.attrs:
                return self.M.getitem(o.attrs['__data__'], i)
            if f is None:
                self.raise_('TypeError', 'not subscriptable')
            return self.call(self.bind(f, o), [i])
        return self.M.getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(o, VObj):
            f = o.cls.lookup('__setitem__')
            if f is None and '__data__' in o.attrs:
                self.M.setitem(o.attrs['__data__'], i, v)
                return
            if f is None:
                self.raise_('TypeError', 'no item assignment')
            self.call(self.bind(f, o), [i, v])
            return
        self.M.setitem(o, i, v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            if f.name not in KEEPS_GENERATORS:
                args = [self.use_gen(x) for x in args]
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, StaticMethod):
            return self.call(f.f, args, kwargs)
        if isinstance(f, VObj):
            g = f.cls.lookup('__call__')
            if g is not None:
                return self.call(self.bind(g, f), args, kwargs)
        if isinstance(f, SV):
            return self.M.call_sv(f, args, kwargs)
        if isinstance(f, Unmodelled):
            self.unsup('call of %s, which has no contract' % f.name)
        if callable(getattr(f, 'vcall', None)):
            return f.vcall(self, args, kwargs)
        self.raise_('TypeError', 'not callable', why='%r is not callable' % (f,))

    def instantiate(self, c, args, kwargs):
        if c.qual and c.module is not None:
            key = '%s:%s' % (c.module.name, c.qual)
            if key in self.stubs:
                return self.stubs[key](self, args, kwargs)
        native_new = c.lookup('__native_new__')
        if native_new is not None:
            return native_new.fn(self, [c] + args, kwargs)
        if c is self.builtins['type'] or c.issub(self.builtins['type']):
            if len(args) == 1:
                return self.M.type_of(args[0])
            self.unsup('type()')
        o = VObj(c, {})
        base = self.M.native_init(o)
        init = c.lookup('__init__')
        if init is not None:
            r = self.call(self.bind(init, o), args, kwargs)
            if r is not None:
                self.raise_('TypeError', '__init__ should return None')
        elif args or kwargs:
            if c.issub(self.builtins['BaseException']):
                self.setattr_raw(o, 'args', tuple(args))
            elif not base:
                self.raise_('TypeError', 'no arguments')
        if c.issub(self.builtins['BaseException']) and 'args' not in o.attrs:
            self.setattr_raw(o, 'args', tuple(args))
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if any(isinstance(x, StarArg) for x in args):
            args = self.expand_star(f, args, names)
        pos = list(args)
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                vals[names[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            self.raise_('TypeError', 'too many arguments', why='too many arguments for %s' % f.qual)
        kwextra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                if k in vals:
                    self.raise_('TypeError', 'multiple values', why='multiple values for %s of %s' % (k, f.qual))
                vals[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            else:
                self.raise_('TypeError', 'unexpected keyword', why='unexpected keyword %s for %s' % (k, f.qual))
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[nme] = f.defaults[j]
                else:
                    self.raise_('TypeError', 'missing argument', why='missing argument %s of %s' % (nme, f.qual))
        for nme in kwnames:
            if nme not in vals:
                if nme in f.kwdefaults:
                    vals[nme] = f.kwdefaults[nme]
                else:
                    self.raise_('TypeError', 'missing argument', why='missing argument %s of %s' % (nme, f.qual))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict([[k, v] for k, v in kwextra.items()])
        return vals

    def expand_star(self, f, args, names):
        self.unsup('star argument of symbolic length for %s' % f.qual)

    def call_func(self, f, args, kwargs):
        if f.qual in self.stubs:
            return self.stubs[f.qual](self, args, kwargs)
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs=None):
        """Interprets the body (also of a function that has a contract)."""
        vals = self.bind_args(f, args, kwargs or {})
        env = Env(f.env, f)
        env.vars.update(vals)
        if f.module is not None and os.path.exists(os.path.join(self.repo, f.module.name + '.py')):
            self.used.add(f.qual)
        if self.depth > 120:
            self.unsup('recursion too deep')
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            self.stack.append(f.qual)
            try:
                return self.expr(f.node.body, env)
            finally:
                self.depth -= 1
                self.stack.pop()
        if f.is_gen:
            def run():
                env.emission = VList()
                self.depth += 1
                self.stack.append(f.qual)
                try:
                    self.block(f.node.body, env)
                except ReturnEx:
                    pass
                finally:
                    self.depth -= 1
                    self.stack.pop()
                return env.emission.parts
            return VGen(run, env)
        self.depth += 1
        self.stack.append(f.qual)
        try:
            self.block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()

    def concrete_list(self, v):
        c = self.M.concrete_or_none(v)
        if c is None:
            self.unsup('a sequence of symbolic length where a fixed one is needed')
        return c

    # ------------------------------------------------------------------ iteration
    def use_gen(self, g):
        """A generator yields its values only once."""
        if not isinstance(g, VGen):
            return g
        if g.pos:
            self.unsup('a generator is used again')
        self.setpos(g, 1)
        if g.cached is None:
            g.cached = g.run()
        r = VGen(None)
        r.cached = g.cached
        return r

    def iterate(self, it, body, node=None):
        """body(v) for every element, in order."""
        it = self.use_gen(it)
        if isinstance(it, VIter):
            while it.pos < len(it.vals):
                v = it.vals[it.pos]
                self.setpos(it, it.pos + 1)
                body(v)
            return
        if isinstance(it, VList):
            # a list that grows while it is iterated over is beyond this
            start = it.parts
            self.check_readable(it)
            c = it.concrete()
            if c is not None:
                i = 0
                while True:
                    self.check_readable(it)
                    cur = it.concrete()
                    if cur is None:
                        self.unsup('iteration over a growing list')
                    if i >= len(cur):
                        return
                    body(cur[i])
                    i += 1
                    if i > self.unroll_limit * 10:
                        self.unsup('long concrete loop')
            self.iter_parts(start, body, node)
            return
        self.iter_parts(self.M.parts_of(it), body, node)

    def check_readable(self, lst):
        for p in lst.parts:
            if isinstance(p, Mark):
                raise PoisonRead(('list', p.lst, None))

    def iter_parts(self, parts, body, node):
        for p in parts:
            if isinstance(p, Items):
                for v in p.vals:
                    body(v)
            elif isinstance(p, Cond):
                self.iter_parts(self.pick(p.alts), body, node)
            elif isinstance(p, SSeq):
                n = self.M.known_len(p.n)
                if n is not None and n <= 40:
                    for i in range(n):
                        body(self.M.item(p, i))
                else:
                    self.sym_loop(p.n, lambda k, p=p: body(self.M.item(p, k, inside=True)), node)
            elif isinstance(p, Flat):
                self.sym_loop(p.n, lambda k, p=p: self.iter_parts(subst(p.parts, [(p.var, to_term(k))]), body, node), node)
            elif isinstance(p, Mark):
                raise PoisonRead(('list', p.lst, None))
            else:
                self.unsup('iteration over %r' % (p,))

    def pick(self, alts):
        """Branches on exhaustive guarded alternatives."""
        for i, (g, v) in enumerate(alts):
            if i == len(alts) - 1:
                if not isinstance(g, bool):
                    self.E.ctx.guard(g)
                return v
            if self.E.ctx.branch(tb(g)):
                return v

    # ------------------------------------------------------------------ symbolic loops
    def sym_loop(self, n, body, node):
        from .loops import run_loop
        run_loop(self, n, body, node)


class WhileEnd(Exception):
    pass


class StarArg:
    def __init__(self, v):
        self.v = v
