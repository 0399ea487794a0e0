"""Concrete side of the contracts: evaluates the postconditions on the real code (PyPy, /repo) for generated inputs.

Used to turn a failed obligation into a failing input and as the bounded stand-in for functions beyond the verifier.
Every trial is determined by its seed, so replaying is re-running the trial."""
import os, sys, io, contextlib, signal, gc, resource, random, time, json, traceback, tempfile, shutil
from fractions import Fraction as F

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import mpmath
from mpmath import mpf, mp


class Bad(Exception):
    """The postcondition is false for the inputs of the trial."""


class Skip(Exception):
    """Inputs outside the precondition (or numerically undecidable)."""


class H:
    """Handle of one trial: records inputs for the report."""
    def __init__(self, rng):
        self.r = rng
        self.inputs = {}
        self.trivial = False

    def note(self, **kw):
        self.inputs.update(kw)

    def check(self, cond, msg, *args):
        if not cond:
            raise Bad(msg % args if args else msg)


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def scratch():
    """A scratch directory as the working directory, removed afterwards."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif_')
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def dps(n):
    old = mp.dps
    mp.dps = n
    try:
        yield
    finally:
        mp.dps = old


def poly(c, x):
    """Value of a coefficient list by Horner's rule."""
    v = 0
    for k in reversed(list(c)):
        v = v * x + k
    return v


def at(ps, i):
    """i-th value of an interlace of polynomials."""
    return poly(ps[i % len(ps)], i)


def nested(a, b):
    """a0 + b0/(a1 + b1/(... )) in fractions; ZeroDivisionError as the real evaluation."""
    v = F(a[-1])
    for x, y in zip(a[-2::-1], b[len(a) - 2::-1] if len(a) > 1 else []):
        v = F(x) + F(y) / v
    return v


def convergents(a, b, n):
    """(p_i, q_i) for i = 0..n by the matrix product, exact."""
    p, p1, q, q1 = at(a, 0), 1, 1, 0
    out = [(p, q)]
    for i in range(1, n + 1):
        x, y = at(a, i), at(b, i)
        p, p1 = x * p + y * p1, p
        q, q1 = x * q + y * q1, q
        out.append((p, q))
    return out


def exact(x):
    """Exact rational value of an mpf."""
    if isinstance(x, (int, F)):
        return F(x)
    s, m, e, _ = mpf(x)._mpf_
    if not m and e:
        raise Skip('not finite')
    v = F(int(m)) * (F(2) ** e)
    return -v if s else v


def to_mpf(fr):
    fr = F(fr)
    return mpf(fr.numerator) / mpf(fr.denominator)


def close(x, y, digits):
    """Relative (and absolute for small values) agreement to a number of digits."""
    x, y = exact(x), exact(y)
    return abs(x - y) <= F(1, 10 ** digits) * max(1, abs(y))


def digits(x, n):
    """Plain decimal expansion of x with n significant digits (round half even on the exact value), or Skip if the
    rounding is too close to call."""
    x = exact(x)
    if x == 0:
        return '0.' + '0' * n
    sign, x = ('-', -x) if x < 0 else ('', x)
    e = 0
    while x >= F(10) ** (e + 1):
        e += 1
    while x < F(10) ** e:
        e -= 1
    scaled = x * F(10) ** (n - 1 - e)
    m = scaled.numerator // scaled.denominator
    rest = scaled - m
    if rest != 0 and abs(rest - F(1, 2)) < F(1, 10 ** 4):
        raise Skip('rounding tie')
    if rest > F(1, 2):
        m += 1
        if m == 10 ** n:
            m, e = m // 10, e + 1
    s = str(m)
    if e >= n - 1:
        return sign + s + '0' * (e - n + 1) + '.0'
    if e >= 0:
        return sign + s[:e + 1] + '.' + s[e + 1:]
    return sign + '0.' + '0' * (-e - 1) + s


def rcoefs(r, deg, lim, nonzero=False):
    while True:
        c = [r.randint(-lim, lim) for _ in range(deg + 1)]
        if not nonzero or any(c):
            return c


def rpolys(r, maxlen=3, maxdeg=3, lim=5):
    return [rcoefs(r, r.randint(0, maxdeg), lim) for _ in range(r.randint(1, maxlen))]


def tup(ps):
    return tuple(tuple(p) for p in ps)


@contextlib.contextmanager
def patched(*pairs):
    """Replaces objects by stand-ins in every module of the repository that refers to them by a global name."""
    done = []
    for mod in list(sys.modules.values()):
        f = getattr(mod, '__file__', None)
        if not f or os.path.dirname(os.path.abspath(f)) != os.path.abspath(REPO):
            continue
        for name, val in list(vars(mod).items()):
            for real, fake in pairs:
                if val is real:
                    setattr(mod, name, fake)
                    done.append((mod, name, real))
    try:
        yield
    finally:
        for mod, name, real in done:
            setattr(mod, name, real)


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


def safe(fn, *a, **k):
    """Result of the call or the raised exception, as a comparable pair."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'exc', e


TRIAL_SECONDS = 90


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong('no result within %d s' % TRIAL_SECONDS)


resource.setrlimit(resource.RLIMIT_NOFILE, (resource.getrlimit(resource.RLIMIT_NOFILE)[1],) * 2)
signal.signal(signal.SIGALRM, _alarm)


def run_trial(mod, seed):
    """(status, message, inputs): status is ok / skip / bad."""
    h = H(random.Random(seed))
    mp.dps = 50
    try:
        signal.alarm(TRIAL_SECONDS)
        try:
            with quiet():
                mod.trial(h)
        finally:
            signal.alarm(0)
        return 'ok', '', h
    except Skip as e:
        return 'skip', str(e), h
    except Bad as e:
        return 'bad', str(e), h
    except TooLong as e:
        return 'bad', str(e), h
    except Exception:
        return 'bad', 'unexpected exception\n' + traceback.format_exc(limit=-6), h


def main(mod, argv):
    seed, budget, maxn, out = int(argv[0]), float(argv[1]), int(argv[2]), argv[3]
    t0 = time.time()
    n = ok = skip = 0
    distinct, samples, bad = set(), [], None
    while n < maxn and time.time() - t0 < budget:
        s = seed * 1000003 + n
        st, msg, h = run_trial(mod, s)
        n += 1
        if n % 200 == 0:
            gc.collect()             # PyPy closes forgotten files only here
        if st == 'skip':
            skip += 1
            continue
        if st == 'bad':
            bad = {'seed': s, 'message': msg, 'inputs': {k: repr(v)[:2000] for k, v in h.inputs.items()}}
            break
        ok += 1
        if not h.trivial:
            key = repr(sorted(h.inputs.items(), key=lambda kv: kv[0]))
            distinct.add(hash(key))
            if len(samples) < 3:
                samples.append({k: repr(v)[:300] for k, v in h.inputs.items()})
    res = {'evaluations': n, 'passed': ok, 'skipped': skip, 'distinct_nontrivial': len(distinct), 'samples': samples,
           'bad': bad, 'secs': round(time.time() - t0, 2), 'rule': mod.RULE}
    with open(out, 'w') as f:
        json.dump(res, f)
