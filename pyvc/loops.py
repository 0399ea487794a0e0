"""Loops of symbolic length: summarized by an arbitrary iteration and inductive descriptions of the modified state."""
import z3
from .core import *
from .values import *
from .values import Poison, PoisonRead, Either
from .interp import (ReturnEx, BreakEx, ContinueEx, VRaise, WhileEnd, MISSING, Missing, conj, disj, neg, tb, simp)
from .compare import same

PRODI = z3.Function('PRODI', AII, I, I)
PRODR = z3.Function('PRODR', AIR, I, R)


class NoInvariant(Unsupported):
    """A location modified by a loop is not described by any of the known invariants."""
    def __init__(self, what, loc, others=()):
        Unsupported.__init__(self, what)
        self.loc, self.others = loc, others


class Upgrade(Exception):
    def __init__(self, key):
        self.key = key


def loc_key(loc):
    return (loc[0], id(loc[1]), loc[2])


def loose(v, acc=None, bound=frozenset()):
    """Names of the constants of a value that are not bound by a sequence template."""
    acc = set() if acc is None else acc
    seen = set()

    def add(t, bound):
        for x in free_consts(t):
            if x not in bound:
                acc.add(x)

    def go(v, bound):
        if is_term(v):
            add(v, bound)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x, bound)
        elif isinstance(v, SV):
            add(v.term, bound)
        elif isinstance(v, StrCat):
            go(list(v.pieces), bound)
        elif isinstance(v, SSeq):
            go(v.n, bound)
            b = bound | {v.var.decl().name()}
            for g, x in v.alts:
                go(g, b), go(x, b)
        elif isinstance(v, Items):
            go(v.vals, bound)
        elif isinstance(v, Cond):
            for g, p in v.alts:
                go(g, bound), go(p, bound)
        elif isinstance(v, Flat):
            go(v.n, bound)
            go(v.parts, bound | {v.var.decl().name()})
        elif id(v) in seen:
            return
        elif isinstance(v, VList):
            seen.add(id(v))
            go(v.parts, bound)
        elif isinstance(v, VDict):
            seen.add(id(v))
            if not isinstance(v.items, Poison):
                for k, x in v.items:
                    go(k, bound), go(x, bound)
        elif isinstance(v, VSet):
            seen.add(id(v))
            go(v.parts, bound)
        elif isinstance(v, VObj):
            seen.add(id(v))
            go([x for x in v.attrs.values() if not isinstance(x, Poison)], bound)
        elif isinstance(v, BoundMethod):
            seen.add(id(v))
            go(v.self_, bound)
        elif isinstance(v, VGen) and v.cached is not None:
            seen.add(id(v))
            go(v.cached, bound)
        elif isinstance(v, Either):
            go([v.a, v.b, v.c, v.h], bound)
    go(v, bound)
    return acc


def number_of(name):
    try:
        return int(name.rsplit('!', 1)[1])
    except (IndexError, ValueError):
        return -1


class Strat:
    """How a modified location is described at the start of iteration k."""
    def __init__(self, I, loc, entry, qual):
        self.I, self.loc, self.entry = I, loc, entry
        self.opts = []
        self.peers = {}
        kind = loc[0]
        if kind == 'list':
            self.opts.append(('append', None))
        else:
            self.opts.append(('temp', None))
            if kind in ('var', 'attr') and entry is not MISSING:
                self.opts.append(('const', None))
                if is_num(entry):
                    self.opts += [('acc', None), ('mul', None)]
                if isinstance(entry, bool):
                    self.opts.append(('flag', None))
                if not (is_num(entry) and I.relations.get(qual)):
                    self.opts.append(('either', None))
        for f in I.families.get(qual, []) + I.families.get('*', []):
            w = getattr(f, 'where', None)
            if w is None or (w(self) if callable(w) else w == self.name()):
                self.opts.append(('fam', f))
        if any(k == 'fam' and getattr(f, 'only', False) for k, f in self.opts):
            # (ghost state: nothing but the description of the contract will do)
            self.opts = [o for o in self.opts if o[0] in ('temp', 'fam')]
        if I.families_first:
            # the descriptions given by the contract are tried before the general ones
            self.opts.sort(key=lambda o: (o[0] not in ('append', 'temp', 'fam'), o[0] == 'fam'))
        if I.relations.get(qual):
            self.opts.append(('havoc', None))
        self.i = 0
        self.sym = None
        self.hidden = None
        self.base, self.cand = entry, None      # first value, (other value, condition under which it is held)
        if isinstance(entry, Either):
            self.base, self.cand = entry.a, (entry.b, entry.c)
        self.H = None
        self.guess = False      # the other value is that of an earlier visit

    @property
    def kind(self):
        return self.opts[self.i][0]

    def name(self):
        kind, obj, key = self.loc
        if kind == 'attr':
            return '%s.%s' % (obj.cls.name, key)
        if kind == 'list':
            return 'a list'
        return str(key)

    def upgrade(self, real=False):
        if real and self.kind in ('acc', 'mul') and self.sym is not None and self.sym.is_int():
            self.sym = self.I.E.real('x')
            return
        while True:
            self.i += 1
            self.sym = None
            if self.i >= len(self.opts):
                self.i -= 1
                raise NoInvariant('no loop invariant describes %s [in %s]' % (self.name(), ' > '.join(self.I.stack)), self.loc,
                                  [st.loc for st in self.peers.values()])
            k = self.kind
            if k == 'fam':
                try:
                    v0 = self.value(0)
                    if v0 is not None and self.alike(self.entry, v0):
                        return
                except Unsupported:
                    pass
                continue
            return

    def value(self, k):
        """Contents at the start of iteration k."""
        kd = self.kind
        if kd == 'temp':
            return Poison(self.loc)
        if kd == 'append':
            return [Mark(self.loc[1])]
        if kd in ('const',):
            return self.entry
        if kd == 'either':
            if self.cand is None:
                return self.entry
            vs = list(self.I.loopvars)
            if vs and is_term(k) and k.eq(vs[-1]):
                vs.pop()
            args = vs + [to_term(k)]
            if self.H is None:
                self.H = self.I.E.fresh_name('EITHER')
            h = z3.Function('%s_%d' % (self.H, len(args)), *([z3.IntSort()] * len(args) + [z3.BoolSort()]))(*args)
            return Either(self.base, self.cand[0], self.cand[1], h)
        if kd in ('acc', 'mul'):
            if self.sym is None:
                e = to_term(self.entry)
                self.sym = self.I.E.int('x') if e.is_int() else self.I.E.real('x')
            return self.sym
        if kd == 'flag':
            if self.sym is None:
                self.sym = self.I.E.bool('x')
            return self.sym
        if kd == 'havoc':
            if self.sym is None:
                e = self.entry
                if isinstance(e, bool):
                    self.sym = self.I.E.bool('h')
                elif is_num(e):
                    self.sym = self.I.E.int('h') if is_intlike(e) else self.I.E.real('h')
                else:
                    self.I.unsup('no loop invariant describes %s' % self.name())
            return self.sym
        v = self.opts[self.i][1](self.I, k)
        if self.loc[0] == 'list' and isinstance(v, VList):
            return v.parts
        if self.loc[0] == 'dict':
            return [list(x) for x in v.items] if isinstance(v, VDict) else None
        return v

    def alike(self, a, b):
        if self.loc[0] == 'dict':
            if isinstance(a, Poison) or isinstance(b, Poison):
                return False
            a, b = VDict(a), VDict(b)
        return same(self.I, a, b)


def run_loop(I, n, body, node):
    E = I.E
    ctx = E.ctx
    qual = I.stack[-1]
    I.loops_seen[qual] = I.loops_seen.get(qual, 0) + 1
    if n is not None:
        n = to_term(n)
    c0 = E.counter
    k = E.int('k')
    rng = [k >= 0] + ([k < n] if n is not None else [])
    serial0 = Serial.count
    strat = {}
    mark0 = len(I.log)
    relfacts = []

    def outer(obj):
        return getattr(obj, 'serial', 0) <= serial0

    def rollback(mark):
        keep = []
        while len(I.log) > mark:
            e = I.log[-1]
            if outer(e[1]):
                I.rollback(len(I.log) - 1)
            else:
                keep.append(I.log.pop())

    def iteration(check):
        m = len(I.log)
        try:
            for st in strat.values():
                I.put(st.loc, st.value(k))
            for f in relfacts:
                E.ctx.assume(f)
            m1 = len(I.log)
            v = None
            I.loopvars.append(k)
            try:
                body(k)
                ex = 'next'
            except BreakEx:
                ex = 'break'
            except WhileEnd:
                ex = 'end'
            except ReturnEx as r:
                ex, v = 'return', r.v
            except VRaise as r:
                ex, v = 'raise', r.exc
            finally:
                I.loopvars.pop()
            mods = {}
            for e in I.log[m1:]:
                if outer(e[1]):
                    mods[loc_key(e)] = (e[0], e[1], e[2])
            final = {}
            for key, loc in list(mods.items()) + [(kk, st.loc) for kk, st in strat.items()]:
                final[key] = I.peek(loc)
            if any(key not in strat for key in mods):
                state['new'] = True
            if check and ex == 'next' and not state['new'] and not pending:
                # (what fails is only acted upon when every modified location is known)
                was, E.timeout_ms = E.timeout_ms, min(E.timeout_ms, 2500)
                try:
                    # (the simpler descriptions first: the others rely on them)
                    for key, st in sorted(strat.items(), key=lambda e: RANK.get(e[1].kind, 2)):
                        check_one(st, key, final[key])
                except (Upgrade, Change) as u:
                    pending.append(u)
                finally:
                    E.timeout_ms = was
            return ex, v, final, mods, list(E.ctx.guards), E.ctx.facts[E.ctx.nbase:]
        finally:
            rollback(m)

    def check_one(st, key, fin):
        kd = st.kind
        if kd == 'append':
            if not (fin and isinstance(fin[0], Mark) and fin[0].lst is st.loc[1]) or \
                    any(isinstance(p, Mark) for p in fin[1:]):
                raise Upgrade(key)
        elif kd == 'const':
            if not st.alike(fin, st.entry):
                raise Upgrade(key)
        elif kd in ('acc', 'mul'):
            if not is_num(fin):
                raise Upgrade(key)
            t = to_term(fin)
            x = st.sym
            if t.is_real() and x.is_int():
                raise Change(lambda: st.upgrade(real=True))
            if x.is_real():
                t = to_real(t)
            d = delta(st, t)
            nm = x.decl().name()
            if nm in free_consts(d) or any(nm in free_consts(g) for g in E.ctx.guards):
                raise Upgrade(key)
            if not E.valid(t == (x + d if kd == 'acc' else x * d))[0]:
                raise Upgrade(key)
        elif kd == 'flag':
            if not (isinstance(fin, bool) and fin != st.entry) and not (is_term(fin) and fin.eq(st.sym)):
                raise Upgrade(key)
            nm = st.sym.decl().name()
            if any(nm in free_consts(g) for g in E.ctx.guards):
                raise Upgrade(key)
        elif kd == 'either':
            check_either(st, key, fin)
        elif kd == 'fam':
            v1 = st.value(k + 1)
            if v1 is None or not st.alike(fin, v1):
                raise Upgrade(key)
        elif kd == 'havoc':
            pass

    def check_either(st, key, fin):
        """The first value or the one other value (a value that does not depend on the iteration)."""
        given = z3.BoolVal(True)
        if isinstance(fin, Either):
            if not st.alike(fin.a, st.base):
                raise Upgrade(key)
            fin, given = fin.b, fin.c
            c = [given]
        else:
            if st.alike(fin, st.base):
                return
            c = E.ctx.guards
        inner = lambda x: any(nm == k.decl().name() or number_of(nm) > c0 for nm in loose(x))
        c = tb(conj([g for g in c if not inner(g)]))
        if st.cand is None:
            if inner(fin):
                raise Upgrade(key)
            raise Change(lambda: setattr(st, 'cand', (fin, c)))
        if not st.alike(fin, st.cand[0]):
            if st.guess:
                st.guess = False
                raise Change(lambda: setattr(st, 'cand', None))
            raise Upgrade(key)
        if not E.valid(z3.Implies(given, st.cand[1]))[0]:
            # what holds in this iteration as well is kept of the condition
            gs = st.cand[1].children() if z3.is_and(st.cand[1]) else [st.cand[1]]
            gs = [g for g in gs if E.valid(z3.Implies(given, g))[0]]
            raise Change(lambda: setattr(st, 'cand', (st.cand[0], tb(conj(gs)))))

    def delta(st, t):
        x = st.sym
        one = z3.RealVal(1) if x.is_real() else z3.IntVal(1)
        zero = z3.RealVal(0) if x.is_real() else z3.IntVal(0)
        return z3.simplify(z3.substitute(t, (x, zero if st.kind == 'acc' else one)))

    nob = len(E.obligations)
    state = {'choice': 0, 'cands': 0, 'new': False}
    pending = []

    def hint_key(st):
        kind, obj, name = st.loc
        return (id(node), kind, name if kind == 'var' else (id(obj), name))

    def add(key, loc):
        """A modified location; what described it the last time this loop was met is tried first."""
        st = strat[key] = Strat(I, loc, I.peek(loc), qual)
        st.peers = strat
        kinds = [o[0] for o in st.opts]
        h = I.hints.get(hint_key(st))
        if h is not None and h[0] == kinds and h[1] > st.i and kinds[h[1]] != 'havoc' and \
                not unknown(st.entry, loc):
            st.i = h[1]
            if st.kind == 'either' and st.cand is None and h[2] is not None and len(h[3]) == len(I.loopvars):
                st.cand, st.guess = subst(h[2], list(zip(h[3], I.loopvars))), True
            if st.kind == 'fam':
                try:
                    v0 = st.value(0)
                    if v0 is None or not st.alike(st.entry, v0):
                        st.i = 0
                except Unsupported:
                    st.i = 0
    known = I.hints.get(id(node)) if node is not None else None
    for key, loc in (known or {}).items():
        if outer(loc[1]) and not (loc[0] == 'var' and loc[2] not in loc[1].vars):
            add(key, loc)
    for attempt in range(80):
        del E.obligations[nob:]
        E.counter = max(E.counter, c0 + 1)
        try:
            del pending[:]
            state['new'] = False
            relfacts = relational(I, strat, qual, E, ctx, n, state)
            paths = E.explore(lambda: iteration(True), base=ctx.facts + rng)
            new = False
            for _, (ex, v, fin, mods, g, fs) in paths:
                for key, loc in mods.items():
                    if key not in strat:
                        if loc[0] == 'iter':
                            I.unsup('iterator advanced in a symbolic loop')
                        add(key, loc)
                        new = True
            if new:
                continue
            idle = [key for key, st in strat.items() if not any(key in p[1][3] for p in paths)]
            for key in idle:
                if strat[key].kind not in ('temp', 'const', 'append', 'havoc'):
                    new = True
                    del strat[key]
            if new:
                continue
            if pending:
                u = pending[0]
                u.act() if isinstance(u, Change) else strat[u.key].upgrade()
                continue
            if relfacts is not None and any(st.kind == 'havoc' for st in strat.values()):
                check_relations(I, strat, qual, paths, E, ctx, rng, state)
            break
        except PoisonRead as p:
            key = loc_key(p.loc)
            if key not in strat or unknown(strat[key].entry, strat[key].loc):
                raise
            strat[key].upgrade()
        except NoInvariant as u:
            # (this loop may modify it as well: its value at the start of the iteration is another one)
            locs = [x for x in [u.loc] + list(u.others) if loc_key(x) not in strat and outer(x[1])]
            if not locs:
                raise
            for x in locs[:1] if locs[0] is u.loc else locs:
                add(loc_key(x), x)
        except Retry:
            pass
    else:
        I.unsup('no description of the loop state was found')

    if node is not None:
        I.hints[id(node)] = {key: st.loc for key, st in strat.items() if key not in idle}
        for st in strat.values():
            I.hints[hint_key(st)] = ([o[0] for o in st.opts], st.i, st.cand, list(I.loopvars))

    # obligations of the induction
    for st in strat.values():
        if st.kind in ('fam', 'either'):
            E.ok('%s: loop invariant of %s (established and preserved)' % (qual, st.name()), 'z3')

    nexts = [p for _, p in paths if p[0] == 'next']
    exits = [p for _, p in paths if p[0] != 'next']

    # a location that only an exit modifies still has its first value
    kept = {key for key, st in strat.items() if st.kind == 'temp' and not any(key in p[3] for p in nexts)}

    # values of the accumulators at iteration k
    sub = []
    at = {}
    for key, st in strat.items():
        if st.kind in ('acc', 'mul'):
            d = None
            for ex, v, fin, mods, g, fs in nexts:
                t = to_term(fin[key])
                if st.sym.is_real():
                    t = to_real(t)
                dd = delta(st, t)
                d = dd if d is None else z3.If(tb(conj(g)), dd, d)
            if d is None:
                d = (z3.RealVal if st.sym.is_real() else z3.IntVal)(0 if st.kind == 'acc' else 1)
            fn = {('acc', False): SUMI, ('acc', True): SUMR, ('mul', False): PRODI, ('mul', True): PRODR}[
                st.kind, st.sym.is_real()]
            e = to_real(st.entry) if st.sym.is_real() else to_term(st.entry)

            def val(i, fn=fn, d=d, e=e, st=st):
                if st.kind == 'acc' and (z3.is_int_value(d) or z3.is_rational_value(d)):
                    # (the same amount every time)
                    i = to_term(i)
                    if i is n and not E.valid(i >= 0)[0]:
                        i = z3.If(i >= 0, i, 0)
                    return z3.simplify(e + d * (z3.ToReal(i) if st.sym.is_real() else i))
                s = fn(lam(k, d), to_term(i))
                return e + s if st.kind == 'acc' else e * s
            at[key] = val
            sub.append((st.sym, val(k)))
        elif st.kind == 'flag':
            c = disj([conj(g) for ex, v, fin, mods, g, fs in nexts if isinstance(fin[key], bool)])

            def val(i, c=c, st=st):
                j = z3.Int('j?')
                ex = z3.Exists([j], z3.And(j >= 0, j < to_term(i), z3.substitute(tb(c), (k, j))))
                return ex if st.entry is False else z3.Not(ex)
            at[key] = val
            sub.append((st.sym, val(k)))
    for _ in range(len(sub)):
        sub = [(a, z3.simplify(z3.substitute(b, *sub))) if not z3.is_quantifier(b) else (a, b) for a, b in sub]

    def S(v):
        return subst(v, sub) if sub else v
    havoc_names = {st.sym.decl().name() for st in strat.values() if st.kind == 'havoc' and st.sym is not None}
    allowed = lambda nm: number_of(nm) <= c0 or nm == k.decl().name() or nm in havoc_names or '!' not in nm

    def close(g, used):
        """Existential closure of a guard over constants created in the iteration."""
        loc = sorted(x for x in free_consts(tb(g)) if not allowed(x))
        bad = [x for x in loc if x in used]
        if bad:
            I.unsup('an iteration yields a value that is only specified implicitly (%s)' % bad)
        if loc:
            vs = [c for c in consts_of(tb(g)) if c.decl().name() in loc]
            return z3.Exists(vs, tb(g))
        return g

    def alts_of(ps, key):
        res = []
        for ex, v, fin, mods, g, fs in ps:
            parts = S(fin[key][1:])
            used = loose(parts)
            bad = [x for x in used if not allowed(x)]
            extra = [f for f in fs if not any(f.eq(x) for x in g)]
            if bad:
                I.unsup('an iteration appends a value that is only specified implicitly (%s)' % bad)
            gg = S(conj(g + extra)) if g or extra else True
            res.append((close(gg, used), parts))
        return res

    def exit_guard():
        fs = []
        for ex, v, fin, mods, g, fs_ in exits:
            fs.append(close(S(conj(g)), ()))
        return disj(fs)

    def flat(key, upto):
        alts = alts_of(nexts, key)
        return mkflat(upto, k, alts)

    # havoc: the loop is left at an unspecified iteration
    if any(st.kind == 'havoc' for st in strat.values()):
        if n is not None and nexts:
            I.unsup('relational invariants are only used for while loops')
        finish_havoc(I, E, strat, relfacts, exits, k)
        return

    def complete():
        for key, st in strat.items():
            if key in kept:
                I.put(st.loc, st.entry)
            elif st.kind == 'temp':
                I.put(st.loc, Poison(('left', st.loc, None)))
            elif st.kind == 'append':
                I.put(st.loc, normal_parts(st.entry + flat(key, n)))
            elif st.kind == 'const':
                I.put(st.loc, st.entry)
            elif st.kind in ('acc', 'mul', 'flag'):
                I.put(st.loc, at[key](n))
            elif st.kind in ('fam', 'either'):
                I.put(st.loc, st.value(simp(n)))

    def leave(p, j):
        ex, v, fin, mods, g, fs = p
        pr = [(k, to_term(j))] if j is not None else []
        for key, st in strat.items():
            if st.kind == 'append':
                I.put(st.loc, normal_parts(st.entry + (flat(key, to_term(j)) if nexts else []) +
                                           subst(S(fin[key][1:]), pr)))
            elif isinstance(fin[key], Poison):
                I.put(st.loc, st.entry if key in kept and key not in p[3] else Poison(('left', st.loc, None)))
            else:
                I.put(st.loc, relocate(I, subst_outer(S, fin[key], pr, outer)))
        v = subst_outer(S, v, pr, outer)
        if ex == 'break':
            raise BreakEx()
        if ex == 'end':
            raise WhileEnd()
        if ex == 'return':
            raise ReturnEx(v)
        raise VRaise(v)

    if not exits:
        if n is None:
            raise PathEnd()            # never ends
        complete()
        return
    # early exits
    xg = exit_guard()
    simple = len(exits) == 1 and simple_exit(exits[0], strat, k, S, outer)
    jn = z3.Int('j?')
    if n is not None:
        some = z3.Exists([jn], z3.And(jn >= 0, jn < n, z3.substitute(tb(xg), (k, jn))))
        if simple:
            if E.ctx.branch(some):
                leave(exits[0], None)
            else:
                complete()
                return
        if not E.ctx.branch(some):
            complete()
            return
    j = E.int('j')
    E.ctx.assume(j >= 0)
    if n is not None:
        E.ctx.assume(j < n)
    i = E.ctx.choose(len(exits))
    p = exits[i]
    for f in p[4] + [f for f in p[5]]:
        E.ctx.assume(z3.substitute(S(f), (k, j)))
    if not E.ctx.feasible():
        raise PathEnd()
    i2 = z3.Int('i?')
    E.ctx.assume(z3.ForAll([i2], z3.Implies(z3.And(i2 >= 0, i2 < j), z3.Not(z3.substitute(tb(xg), (k, i2))))))
    leave(p, j)


def unknown(v, loc):
    """A value an outer loop has not described."""
    return isinstance(v, Poison) or isinstance(v, list) and any(isinstance(p, Mark) and p.lst is loc[1] for p in v)


RANK = {'temp': 0, 'append': 0, 'const': 1, 'either': 3, 'fam': 4}


class Change(Exception):
    """A description of the state has to be changed."""
    def __init__(self, act):
        self.act = act


class Retry(Exception):
    pass


def consts_of(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            stack.extend(x.children())
    return list(out.values())


def subst_outer(S, v, pr, outer):
    """Substitution that keeps references to objects that existed before the loop."""
    def pure(v):
        return v is None or isinstance(v, (bool, int, str, Special, VClass, VFunc, Native, VModule)) or is_term(v)
    if isinstance(v, (VObj, VList, VDict)) and outer(v):
        return v
    if isinstance(v, Missing):
        return v
    return subst(S(v), pr)


def relocate(I, v):
    return v


def simple_exit(p, strat, k, S, outer):
    """An exit whose effect does not depend on the iteration it happens in."""
    ex, v, fin, mods, g, fs = p
    nm = k.decl().name()
    if v is not None and not isinstance(v, (bool, int, str)):
        if isinstance(v, VObj) and not any(nm in loose(x) for x in v.attrs.values()) and \
                not any(number_of(c) > number_of(nm) for x in v.attrs.values() for c in loose(x)):
            pass
        elif is_term(v) or isinstance(v, (VObj, VList, VDict, tuple, SSeq, SV)):
            return False
        else:
            return False
    for key, st in strat.items():
        f = fin[key]
        if st.kind == 'append':
            return False
        if isinstance(f, Poison):
            continue
        if st.kind == 'temp':
            # keeps the value only if it does not depend on the iteration
            if f is None or isinstance(f, (bool, int, str)):
                continue
            if isinstance(f, (VObj, VList, VDict)) and outer(f):
                continue
            fin[key] = Poison(('left', st.loc, None))
            continue
        if f is None or isinstance(f, (bool, int, str)):
            continue
        if isinstance(f, (VObj, VList, VDict)) and outer(f):
            continue
        return False
    return True


def mkflat(n, var, alts):
    alts = [(g, normal_parts(p)) for g, p in alts]
    if not alts or all(not p for g, p in alts):
        return []
    if isinstance(n, z3.ArithRef) and z3.is_int_value(n) and n.as_long() <= 0:
        return []
    if all(len(p) == 1 and isinstance(p[0], Items) and len(p[0].vals) == 1 for g, p in alts):
        return [SSeq(n, var, [(g, p[0].vals[0]) for g, p in alts])]
    if len(alts) == 1:
        return [Flat(n, var, alts[0][1])]
    return [Flat(n, var, [Cond(alts)])]


def normal_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, Items):
            if not p.vals:
                continue
            if out and isinstance(out[-1], Items):
                out[-1] = Items(out[-1].vals + p.vals)
                continue
        elif isinstance(p, Cond) and all(not normal_parts(q) for g, q in p.alts):
            continue
        out.append(p)
    return out


# ---------------------------------------------------------------- relational invariants (while loops)

def relational(I, strat, qual, E, ctx, n, state):
    hv = [st for st in strat.values() if st.kind == 'havoc']
    if not hv:
        return []
    import itertools
    cands = []
    for rel in I.relations.get(qual, []):
        names, pred = rel[0], rel[1]
        if len(names) > len(hv):
            # the other modified numbers take part in the invariant as well
            for key, st in strat.items():
                if st.kind != 'havoc' and is_num(st.entry) and st.kind != 'append':
                    while st.kind != 'havoc':
                        st.upgrade()
                    raise Retry()
            continue
        if len(names) != len(hv):
            continue
        for perm in itertools.permutations(hv):
            try:
                ent = [to_term(st.entry) for st in perm]
                cur = [st.value(None) for st in perm]
                f0 = pred(I, ent, ent)
                if all(E.valid(tb(f))[0] for f in f0):
                    score = sum(1 for nm, st in zip(names, perm) if st.name() != nm)
                    cands.append((score, len(cands), pred, perm, ent, cur, rel[2] if len(rel) > 2 else None))
            except Unsupported:
                continue
    cands.sort(key=lambda c: c[:2])
    state['cands'] = len(cands)
    if not cands:
        I.unsup('no relational invariant fits the loop')
    I.current_rel = c = cands[min(state['choice'], len(cands) - 1)]
    return [tb(f) for f in c[2](I, c[4], c[5])]


def check_relations(I, strat, qual, paths, E, ctx, rng, state):
    _, _, pred, perm, ent, cur, variant = I.current_rel
    nob = len(E.obligations)
    for _, (ex, v, fin, mods, g, fs) in paths:
        if ex != 'next':
            continue
        keys = [loc_key(st.loc) for st in perm]
        nxt = [to_term(fin[kk]) for kk in keys]

        def thunk():
            for i, f in enumerate(pred(I, ent, nxt)):
                E.prove('%s: loop invariant %d preserved' % (qual, i + 1), tb(f))
            if variant is not None:
                a, b = variant(I, cur), variant(I, nxt)
                E.prove('%s: loop variant decreases (termination)' % qual, z3.And(b < a, a >= 0))
        E.explore(thunk, base=ctx.facts + rng + list(fs))
    if any(not o.ok for o in E.obligations[nob:]) and state['choice'] + 1 < state['cands']:
        del E.obligations[nob:]
        state['choice'] += 1
        raise Retry()


def finish_havoc(I, E, strat, relfacts, exits, k):
    if not exits:
        raise PathEnd()
    p = exits[E.ctx.choose(len(exits))]
    for f in relfacts:
        E.ctx.assume(f)
    for f in p[5]:
        E.ctx.assume(f)
    if not E.ctx.feasible():
        raise PathEnd()
    for key, st in strat.items():
        I.put(st.loc, p[2][key])
    ex, v = p[0], p[1]
    if ex == 'break':
        raise BreakEx()
    if ex == 'end':
        raise WhileEnd()
    if ex == 'return':
        raise ReturnEx(v)
    raise VRaise(v)
