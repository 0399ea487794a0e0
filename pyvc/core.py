"""Solver context, path exploration and obligations."""
import hashlib, subprocess, tempfile, os, time
import z3

z3.set_param('auto_config', True)


def lam(var, body):
    """Lambda term; equal ones are identical (the bound variable has a fixed name)."""
    x = z3.Const('i?', var.sort())
    return z3.Lambda([x], z3.substitute(body, (var, x)))


class Unsupported(Exception):
    """The code uses something the verifier cannot reason about."""


class PathEnd(Exception):
    """The current path is infeasible or deliberately ended."""


class Budget(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'ok', 'backend', 'secs', 'detail', 'path')

    def __init__(self, name, ok, backend, secs, detail='', path=''):
        self.name, self.ok, self.backend, self.secs, self.detail, self.path = name, ok, backend, secs, detail, path


class Ctx:
    """One execution path: facts known so far, decisions taken."""
    def __init__(self, E, base, trace, work):
        self.E = E
        self.facts = list(base)
        self.nbase = len(base)
        self.trace = trace
        self.pos = 0
        self.work = work
        self.guards = []
        self.seen, self.plain = 0, True
        self.solver = z3.Solver()
        self.solver.set('timeout', E.branch_timeout)
        self.solver.set('random_seed', 1)
        for f in E.axioms:
            self.solver.add(f)
        for f in base:
            self.solver.add(f)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_true(f):
            return
        if z3.is_false(z3.simplify(f)):
            raise PathEnd()
        self.facts.append(f)
        self.solver.add(f)

    def check(self, *extra):
        E = self.E
        E.stats['branch_checks'] += 1
        t = time.time()
        while self.seen < len(self.facts):
            f = self.facts[self.seen]
            self.seen += 1
            self.plain = self.plain and E.opaque(f) is f
        if self.plain and all(E.opaque(e) is e for e in extra):
            r = self.solver.check(*extra)
        else:
            # functions as values make the solver instantiate without end: soon without looking into them
            self.solver.set('timeout', E.lambda_timeout)
            r = self.solver.check(*extra)
            self.solver.set('timeout', E.branch_timeout)
            if r == z3.unknown:
                s = z3.Solver()
                s.set('timeout', 400)
                s.set('random_seed', 1)
                s.set('mbqi', False)
                for f in E.axioms + [E.opaque(f) for f in self.facts] + [E.opaque(e) for e in extra]:
                    s.add(f)
                if s.check() == z3.unsat:
                    r = z3.unsat
        E.stats['branch_time'] += time.time() - t
        return r

    def feasible(self):
        return self.check() != z3.unsat

    def branch(self, cond):
        """Decide cond, forking the exploration if both are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            self.assume_raw(cond if d else z3.Not(cond))
            return d
        t = self.check(cond) != z3.unsat
        f = self.check(z3.Not(cond)) != z3.unsat
        if not t and not f:
            raise PathEnd()
        d = t
        if t and f:
            self.work.append(self.trace[:self.pos] + [False])
        self.trace = self.trace[:self.pos] + [d]
        self.pos += 1
        self.assume_raw(cond if d else z3.Not(cond))
        return d

    def assume_raw(self, f):
        self.guards.append(f)
        self.facts.append(f)
        self.solver.add(f)

    def guard(self, f):
        """Adds a path condition known to be the only possibility left."""
        f = z3.simplify(f)
        if z3.is_false(f):
            raise PathEnd()
        if not z3.is_true(f):
            self.assume_raw(f)

    def choose(self, n):
        """Nondeterministic choice among range(n) - every alternative is explored."""
        if n == 1:
            return 0
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            return d
        for i in range(1, n):
            self.work.append(self.trace[:self.pos] + [i])
        self.trace = self.trace[:self.pos] + [0]
        self.pos += 1
        return 0


class Engine:
    def __init__(self, timeout_ms=8000, branch_timeout=1500):
        self.axioms = []
        self.counter = 0
        self.ctx = None
        self.obligations = []
        self.covers = {}
        self.stats = {'branch_checks': 0, 'branch_time': 0.0, 'paths': 0, 'solver_time': 0.0}
        self.timeout_ms = timeout_ms
        self.branch_timeout = branch_timeout
        self.cache = {}
        self.opaque_cache = {}
        self.names = {}
        self.lambda_timeout = 300
        self.scope = ''
        self.assumptions = {}
        self.max_paths = 4000
        self.deadline = None
        self.provers = []      # extra provers: fn(engine, facts, goal) -> name or None
        self.preprocess = []   # fn(engine, facts, goal) -> extra facts

    # ---- symbols
    def fresh_name(self, base='v'):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def int(self, base='i'):
        return z3.Int(self.fresh_name(base))

    def real(self, base='r'):
        return z3.Real(self.fresh_name(base))

    def bool(self, base='b'):
        return z3.Bool(self.fresh_name(base))

    def const(self, sort, base='u'):
        return z3.Const(self.fresh_name(base), sort)

    def opaque(self, f):
        """f with every function value (lambda term) replaced by a name; f itself if there is none."""
        k = f.get_id()
        if k in self.opaque_cache:
            return self.opaque_cache[k][1]
        if z3.is_quantifier(f):
            r = f
            if f.is_lambda():
                r = z3.Const('LAMBDA!%d' % k, f.sort())
        elif z3.is_var(f) or f.num_args() == 0:
            r = f
        else:
            cs = f.children()
            rs = [self.opaque(c) for c in cs]
            r = f if all(a is b or a.get_id() == b.get_id() for a, b in zip(cs, rs)) else f.decl()(*rs)
        if r is not f and r.get_id() == k:
            r = f
        self.opaque_cache[k] = (f, r)
        return r

    def named(self, t):
        """A short name for a large term: equal terms (up to the names of bound variables) get the same name, which
        is a function of the variables of the term."""
        free, memo = {}, {}

        def key(e):
            i = e.get_id()
            if i not in memo:
                if z3.is_quantifier(e):
                    memo[i] = ('q', e.is_lambda(), e.is_forall(), tuple(e.var_sort(j).name() for j in range(e.num_vars())),
                               key(e.body()))
                elif z3.is_var(e):
                    memo[i] = ('v', z3.get_var_index(e), e.sort().name())
                elif e.num_args() == 0:
                    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in e.decl().name():
                        free.setdefault(e.decl().name(), e)
                        memo[i] = ('f', list(free).index(e.decl().name()), e.sort().name())
                    else:
                        memo[i] = (str(e), e.sort().name())
                else:
                    d = e.decl()
                    memo[i] = (d.name(), tuple(d.params()) and str(d.params()), tuple(key(c) for c in e.children()))
            return memo[i]
        k = key(t)
        # (the same term over other variables is another instance of the same name)
        vs = list(free.values())
        if k not in self.names:
            n = 'NAMED!%d' % len(self.names)
            self.names[k] = (z3.Function(n, *([v.sort() for v in vs] + [t.sort()])) if vs else z3.Const(n, t.sort()), t)
        f = self.names[k][0]
        return f(*vs) if vs else f

    # ---- exploration
    def explore(self, thunk, base=None):
        """Runs thunk on every feasible path. Returns [(facts added on the path, result)]."""
        if base is None:
            base = self.ctx.facts if self.ctx else []
        base = list(base)
        results, work = [], [[]]
        c0 = cmax = self.counter
        n = 0
        while work:
            tr = work.pop()
            n += 1
            self.stats['paths'] += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget exhausted')
            self.counter = c0
            saved = self.ctx
            self.ctx = Ctx(self, base, tr, work)
            ctx = self.ctx
            try:
                r = thunk()
                results.append((ctx.facts[ctx.nbase:], r))
            except PathEnd:
                pass
            finally:
                self.ctx = saved
                cmax = max(cmax, self.counter)
        self.counter = cmax
        return results

    # ---- obligations
    def cover(self, name):
        """Reachability witness: counted only if the current path is satisfiable (not merely not refuted)."""
        if self.covers.get(name):
            return
        r = self.ctx.check()
        if r != z3.unsat:
            self.covers[name] = self.covers.get(name, False) or (r == z3.sat) or 'not refuted'

    def valid(self, goal, timeout=None, facts=None):
        """Tries to prove goal from the current facts. Returns (ok, backend, detail)."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        facts = self.ctx.facts if facts is None else facts
        key = (tuple(f.get_id() for f in facts), goal.get_id())
        if key in self.cache:
            return self.cache[key][0]
        t0 = time.time()
        res = self._valid(goal, timeout or self.timeout_ms, facts)
        self.stats['solver_time'] += time.time() - t0
        self.cache[key] = (res, list(facts), goal)
        return res

    def _valid(self, goal, timeout, facts):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, 'simplifier', ''
        for p in self.provers:
            b = p(self, facts, goal)
            if b:
                return True, b, ''
        extra = []
        for p in self.preprocess:
            extra += p(self, facts, goal)
        s = z3.Solver()
        s.set('timeout', min(timeout, 2500))
        s.set('random_seed', 1)
        for f in self.axioms:
            s.add(f)
        for f in facts:
            s.add(f)
        for f in extra:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return True, 'z3', ''

        def found():
            m = s.model()
            return False, 'z3', 'counterexample: ' + ', '.join(
                '%s=%s' % (d.name(), str(m[d])[:80]) for d in list(m.decls())[:40])
        if r == z3.sat:
            return found()
        by = self._linear(facts, goal, min(timeout, 4000))
        if by:
            return True, by, ''
        if timeout > 2500:
            s.set('timeout', timeout)
            r = s.check()
            if r == z3.unsat:
                return True, 'z3', ''
            if r == z3.sat:
                return found()
        ok = self._cvc5(s, min(timeout, 10000))
        if ok:
            return True, 'cvc5', ''
        return False, 'z3+cvc5', 'unknown: %s' % s.reason_unknown()

    def _linear(self, facts, goal, timeout):
        """A proof that does not look into nonlinear terms (each becomes an arbitrary number)."""
        cache, names, links = {}, {}, []

        def opaque(t):
            if t.get_id() not in names:
                names[t.get_id()] = (z3.Const('nl!%d' % len(names), t.sort()), t)
            return names[t.get_id()][0]

        def go(t):
            i = t.get_id()
            if i in cache:
                return cache[i][0]
            if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
                r = t
            else:
                kids = [go(c) for c in t.children()]
                k = t.decl().kind()
                num = lambda x: z3.is_int_value(x) or z3.is_rational_value(x)
                if k == z3.Z3_OP_MUL and sum(not num(c) for c in kids) > 1:
                    rest = [c for c in kids if not num(c)]
                    rest.sort(key=lambda c: c.get_id())
                    m = rest[0]
                    for c in rest[1:]:
                        m = m * c
                    r = opaque(m)
                    if m.is_int():
                        # (the same product in reals)
                        rs = sorted((z3.simplify(z3.ToReal(c)) for c in rest), key=lambda c: c.get_id())
                        p = rs[0]
                        for c in rs[1:]:
                            p = p * c
                        links.append(z3.ToReal(r) == opaque(p))
                    for c in kids:
                        r = c * r if num(c) else r
                elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num(kids[1]) or k == z3.Z3_OP_POWER:
                    r = opaque(t.decl()(*kids))
                else:
                    r = t.decl()(*kids) if any(a.get_id() != b.get_id() for a, b in zip(kids, t.children())) else t
            cache[i] = (r, t)
            return r
        try:
            fs = [go(z3.simplify(f, som=True)) for f in facts if not z3.is_quantifier(f)]
            g = go(z3.simplify(goal, som=True))
        except z3.Z3Exception:
            return None
        if not names:
            return None
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*(fs + links))
        s.add(z3.Not(g))
        return 'cvc5' if self._cvc5(s, timeout) else 'z3' if s.check() == z3.unsat else None

    def _cvc5(self, s, timeout):
        try:
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt)
            try:
                out = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True,
                                     timeout=timeout / 1000 + 5).stdout
            finally:
                os.unlink(f.name)
            return out.strip().startswith('unsat')
        except Exception:
            return False

    def instantiate(self, *terms):
        """Adds the instances at the given integer terms of the universally quantified facts (with one variable)."""
        out = []

        def go(f, pos):
            if z3.is_not(f):
                go(f.arg(0), not pos)
            elif z3.is_and(f) and pos or z3.is_or(f) and not pos:
                for c in f.children():
                    go(c, pos)
            elif z3.is_quantifier(f) and not f.is_lambda() and f.is_forall() == pos and f.num_vars() == 1 and \
                    f.var_sort(0) == z3.IntSort():
                for t in terms:
                    b = z3.substitute_vars(f.body(), t)
                    out.append(b if pos else z3.Not(b))
        for f in list(self.ctx.facts):
            go(f, True)
        for f in out:
            self.ctx.facts.append(f)
            self.ctx.solver.add(f)

    def prove(self, name, goal, timeout=None):
        t0 = time.time()
        ok, backend, detail = self.valid(goal, timeout)
        full = (self.scope + ': ' + name) if self.scope else name
        self.obligations.append(Obligation(full, ok, backend, time.time() - t0, detail))
        if not ok:
            # go on under the assumption that it holds, so that one failure does not cascade
            try:
                self.ctx.assume(goal if not isinstance(goal, bool) else z3.BoolVal(goal))
            except PathEnd:
                raise
        return ok

    def fail(self, name, detail):
        full = (self.scope + ': ' + name) if self.scope else name
        self.obligations.append(Obligation(full, False, 'engine', 0.0, detail))

    def ok(self, name, backend='structural'):
        full = (self.scope + ': ' + name) if self.scope else name
        self.obligations.append(Obligation(full, True, backend, 0.0))

    def use(self, text):
        """Records an assumption (an assumed contract of something outside the verified code)."""
        self.assumptions[text] = self.assumptions.get(text, 0) + 1
