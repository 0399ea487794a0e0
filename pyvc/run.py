"""Runs the contracts of one property: python3-vt pyvc/run.py Cxx out.json"""
import ast, hashlib, importlib.util, json, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.interp import Interp, VRaise
from pyvc.compare import same
from pyvc import interp as _i


SHARD = [int(x) for x in os.environ.get('PYVC_SHARD', '').split('/') if x]


class Session:
    """What a contract file works with."""
    def __init__(self, repo, deadline=None):
        self.repo = repo
        self.E = Engine()
        self.E.axioms += base_axioms()
        self.E.deadline = deadline
        self.I = Interp(self.E, repo)
        self.M = self.I.M
        self.bounded = []
        self.contracts = []        # functions under contract
        self.specs = {}
        self.gen_stub()

    def gen_stub(self):
        """The numeric constants are irrelevant to (almost) every property: an arbitrary real each."""
        I = self.I
        for n in self.names_in('gen_consts'):
            if n.startswith('gen_'):
                I.stubs['gen_consts:' + n] = lambda I_, a, k, n=n: z3.Real('const_' + n)

    def names_in(self, module):
        try:
            return [s.name for s in self.I.tree(module).body if isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        except (OSError, SyntaxError):
            return []

    # ---- program access
    def get(self, qual):
        """The value of module:Name.attr"""
        mod, _, path = qual.partition(':')
        v = self.I.module(mod)
        for p in [x for x in path.split('.') if x]:
            if isinstance(v, VModule):
                if p not in v.ns:
                    raise Unsupported('%s has no %s' % (v, p))
                v = v.ns[p]
            elif isinstance(v, VClass):
                f = v.lookup(p)
                if f is None:
                    raise Unsupported('%s has no %s' % (v, p))
                v = f
            else:
                v = self.I.getattr(v, p)
        return v

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
            if isinstance(f, ClassMethod):
                f = f.f
            if isinstance(f, StaticMethod):
                f = f.f
        return self.I.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def new(self, qual, **attrs):
        """An object in an arbitrary given state (no constructor run)."""
        return VObj(self.get(qual), dict(attrs))

    def spec(self, name, source, extra=None):
        """A specification written as a Python program, interpreted by the same engine."""
        env = Env()
        env.module = VModule('spec_' + name)
        env.vars.update(extra or {})
        self.I.stack.append('<spec %s>' % name)
        try:
            self.I.block(ast.parse(source).body, env)
        finally:
            self.I.stack.pop()
        return env.vars[name]

    # ---- symbolic inputs
    def int(self, n):
        return z3.Int(n)

    def real(self, n):
        return z3.Real(n)

    def bool(self, n):
        return z3.Bool(n)

    def str(self, n):
        return z3.String(n)

    def seq(self, name, shape, kind='list', minlen=0):
        """A sequence of arbitrary length."""
        u = z3.Const(name, U)
        return self.M.view(u, ('seq', shape, kind))

    def list(self, name, shape):
        s = self.seq(name, shape, 'list')
        return VList(parts=self.M.parts_of(s)) if not isinstance(s, VList) else s

    # ---- obligations
    def scope(self, name, thunk, funcs=()):
        """Explores every path of thunk; anything unsupported is a failed obligation."""
        E = self.E
        self.scopes = getattr(self, 'scopes', 0) + 1
        if SHARD and (self.scopes - 1) % SHARD[1] != SHARD[0]:
            return
        if os.environ.get('PYVC_ONLY') and os.environ['PYVC_ONLY'] not in name:
            return
        E.scope = name
        for f in funcs:
            if f not in self.contracts:
                self.contracts.append(f)
        n0 = len(E.obligations)
        t0 = time.time()
        try:
            E.ctx = None

            def go():
                self.I.log = []
                self.I.depth = 0
                self.I.stack = []
                self.I.handling = []
                mark = len(self.I.log)
                try:
                    return thunk()
                except VRaise as r:
                    E.fail('no exception', str(r) + ' path: %s' % [str(g)[:120] for g in E.ctx.guards][:12])
                finally:
                    self.I.rollback(mark)
            if self.depth_ == 0:
                E.explore(go, base=[])
        except (Unsupported, Budget, RecursionError) as e:
            E.fail('within reach of the verifier', '%s: %s' % (type(e).__name__, e))
        except PoisonRead as p:
            E.fail('within reach of the verifier', 'reads a value that has no loop invariant (%s)' % (p.loc,))
        except z3.Z3Exception as e:
            E.fail('within reach of the verifier', 'z3: %s %s' % (e, traceback.format_exc()[-1500:]))
        except Exception as e:
            E.fail('within reach of the verifier', 'internal error: %s' % traceback.format_exc()[-1900:])
        if len(E.obligations) == n0:
            E.fail('obligations generated', 'no obligation was generated')
        E.scope = ''
        if os.environ.get('PYVC_VERBOSE'):
            print('   scope %s: %d obligations %.1fs' % (name, len(E.obligations) - n0, time.time() - t0))
    depth_ = 0

    def assume(self, f):
        self.E.ctx.assume(f)

    def define(self, f):
        """A (quantified) definition used from here on."""
        self.E.ctx.facts.append(f)
        self.E.ctx.solver.add(f)

    def prove(self, name, f):
        if isinstance(f, (bool,)) or is_term(f):
            return self.E.prove(name, f)
        return self.E.prove(name, self.I.truth_term(f))

    def same(self, name, a, b):
        return same(self.I, a, b, rec=name)

    def cover(self, name):
        self.E.cover(self.E.scope + ': ' + name)

    def raises(self, thunk):
        """(True, exception name) or (False, value)"""
        try:
            return False, thunk()
        except VRaise as r:
            return True, r.exc

    def eq(self, a, b):
        return self.M.eq(a, b)


def load(path):
    spec = importlib.util.spec_from_file_location('contract', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VACUOUS = 'the contract is vacuous: %s is not reachable'


def run_sharded(pid, outp, jobs):
    """The scopes of a contract are independent: they are spread over processes, and the results put together."""
    t0 = time.time()
    ps = []
    for i in range(jobs):
        o = '%s.%d' % (outp, i)
        if os.path.exists(o):
            os.unlink(o)
        ps.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, o],
                                    env=dict(os.environ, PYVC_SHARD='%d/%d' % (i, jobs)),
                                    stdout=None if os.environ.get('PYVC_VERBOSE') else subprocess.DEVNULL), o))
    outs = []
    for p, o in ps:
        p.wait()
        try:
            outs.append(json.load(open(o)))
            os.unlink(o)
        except (OSError, ValueError):
            outs.append(None)
    out = None
    for r in outs:
        if r is None:
            continue
        if out is None:
            out = r
            continue
        out['obligations'] += r['obligations']
        for k in ('functions', 'assumptions', 'stubs', 'expected_covers'):
            out[k] = sorted(set(out[k]) | set(r[k]))
        out['bounded'] += [b for b in r['bounded'] if b not in out['bounded']]
        out['covers'].update(r['covers'])
        out['sources'].update(r['sources'])
        for k, v in r['stats'].items():
            out['stats'][k] = round(out['stats'].get(k, 0) + v, 2)
    fail = lambda name, d: out['obligations'].append(
        {'name': name, 'ok': False, 'backend': 'engine', 'secs': 0, 'detail': d})
    if out is None:
        return None
    if any(r is None for r in outs):
        fail('the verifier finished', 'a verifier process ended without an answer')
    for c in out['expected_covers']:
        if not out['covers'].get(c):
            fail('cover', VACUOUS % c)
    out['stats']['wall'] = round(time.time() - t0, 2)
    return out


def run(pid, repo, secs):
    path = os.path.join(os.path.dirname(HERE), 'contracts', pid.lower() + '.py')
    if not os.path.exists(path):         # (contracts under development)
        path = path.replace('contracts', 'wip')
    t0 = time.time()
    V = Session(repo, time.time() + secs)
    E = V.E
    try:
        m = load(path)
        m.run(V)
    except (Unsupported, Budget, VRaise, RecursionError) as e:
        E.fail('within reach of the verifier', '%s: %s' % (type(e).__name__, e))
    except (OSError, SyntaxError) as e:
        E.fail('source can be parsed', repr(e)[:300])
    except Exception:
        E.fail('within reach of the verifier', 'internal error: %s' % traceback.format_exc()[-1900:])
    missing = [c for c in getattr(V, 'expected_covers', []) if not E.covers.get(c)]
    if not SHARD and not os.environ.get('PYVC_ONLY'):
        for c in missing:
            E.fail('cover', VACUOUS % c)
    out = {
        'expected_covers': getattr(V, 'expected_covers', []),
        'property': pid,
        'obligations': [{'name': o.name, 'ok': bool(o.ok), 'backend': o.backend, 'secs': round(o.secs, 3),
                         'detail': o.detail[:2000]} for o in E.obligations],
        'functions': sorted(V.I.used | set(V.contracts)),
        'assumptions': sorted(E.assumptions) + sorted(getattr(m, 'ASSUMPTIONS', [])) if 'm' in dir() else [],
        'stubs': sorted(s for s in V.I.stubs if not s.startswith('gen_consts')),
        'covers': {k: str(v) for k, v in E.covers.items()},
        'stats': dict({k: round(v, 2) if isinstance(v, float) else v for k, v in E.stats.items()},
                      wall=round(time.time() - t0, 2)),
        'bounded': V.bounded,
        'sources': {n: hashlib.sha256(open(os.path.join(repo, n + '.py'), 'rb').read()).hexdigest()
                    for n in V.I.trees if os.path.exists(os.path.join(repo, n + '.py'))},
    }
    return out


def main():
    pid, outp = sys.argv[1], sys.argv[2]
    repo = os.environ.get('VERIF_REPO', '/repo')
    secs = float(os.environ.get('PROOF_SECONDS', '300'))
    jobs = int(os.environ.get('PYVC_JOBS', '1'))
    if jobs > 1 and not SHARD:
        out = run_sharded(pid, outp, jobs)
        if out is None:
            return 3
    else:
        out = run(pid, repo, secs)
    with open(outp, 'w') as f:
        json.dump(out, f, indent=1)
    bad = [o for o in out['obligations'] if not o['ok']]
    if os.environ.get('PYVC_VERBOSE'):
        for o in bad:
            print('FAILED', o['name'], '|', o['detail'][:1500])
        print('%s: %d obligations, %d failed, %.1fs' % (pid, len(out['obligations']), len(bad), out['stats']['wall']))
    return 1 if bad else 0


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
