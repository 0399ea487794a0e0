from common import *
import itertools, copy
import distribute_run as D
import configfile as C
from h21 import genconf, write, compare
RULE = 'random ranges (1..3 interlaced) split into 1..16 parts, and whole configurations distributed and re-read; non-trivial: more than one part'


def product(ab):
    """Set of coefficient choices as one tuple of ranges multiplied out."""
    flat = [tuple(c) for side in ab for p in side for c in p]
    return flat


def vol(flat):
    n = 1
    for lo, hi in flat:
        n *= max(hi - lo, 0)
    return n


def partition(h, parts, ab, n):
    h.check(len(parts) == n, '%d parts instead of %d', len(parts), n)
    full = product(ab)
    total = 0
    flats = []
    for p in parts:
        h.check([[len(q) for q in side] for side in p] == [[len(q) for q in side] for side in ab], 'shape of %r', p)
        f = product(p)
        h.check(all(lo < hi and l0 <= lo and hi <= h0 for (lo, hi), (l0, h0) in zip(f, full)), 'part %r is empty or not inside', p)
        total += vol(f)
        flats.append(f)
    for f, g in itertools.combinations(flats, 2):
        h.check(any(a[1] <= b[0] or b[1] <= a[0] for a, b in zip(f, g)), 'parts %r and %r overlap', f, g)
    h.check(total == vol(full), 'parts have %d choices of %d', total, vol(full))


def trial(h):
    r = h.r
    if r.random() < 0.75:
        def side():
            res = []
            for _ in range(r.choice([1, 1, 2, 3])):
                res.append([])
                for _ in range(r.randint(1, 3)):
                    lo = r.choice([r.randint(-9, 9), r.randint(-9, 9), r.randint(-10 ** 9, 10 ** 9)])
                    res[-1].append([lo, lo + r.choice([1, 1, 2, 3, 5, 8])])
            return res
        ab = [side(), side()]
        k = r.randint(0, 4)
        keep = copy.deepcopy(ab)
        h.note(ranges=keep, k=k)
        st, parts = safe(D.split_params, ab, k)
        h.check(ab == keep, 'the input was changed to %r', ab)
        if st == 'exc':
            h.check(isinstance(parts, ValueError), 'raises %r', parts)
            # the ranges of the first polynomials are bisected; all parts stay divisible when the sizes are powers of two
            n = 0
            for s in ab:
                for lo, hi in s[0]:
                    n += (hi - lo).bit_length() - 1
            h.check(n < k, 'refused although every part can be halved %d times', n)
            return
        partition(h, parts, ab, 2 ** k)
        h.trivial = k == 0
        return
    opts, want = genconf(r, full=True)
    n = r.choice([1, 2, 4, 8, 3, 6, 5, 12])
    sub = r.choice(['', 'conf'])
    with scratch():
        os.mkdir('conf')
        os.mkdir('tables')
        opts['hashtable_file'] = r.choice(['table.pkl', 'table_v3.pkl', 'table', 'tables/my.t_v2.pkl', '50%.pkl'])
        path = os.path.join(sub, 'my.config.ini')
        write(path, opts, r)
        h.note(options=opts, parts=n)
        before = open(path).read()
        st, e = safe(D.main, n, path)
        dirs = [os.path.join(d, s) for d, ss, _ in os.walk('.') for s in ss]
        new = [d for d in dirs if os.path.normpath(d) not in ('conf', 'tables')]
        if n & (n - 1):
            h.check(st == 'exc' and isinstance(e, ValueError), 'accepted %d parts', n)
            h.check(not new, 'created %r', new)
            return
        if st == 'exc':
            h.check(isinstance(e, ValueError), 'raises %r', e)
            st2, _ = safe(D.split_params, [want['a_coeffs_range'], want['b_coeffs_range']], n.bit_length() - 1)
            h.check(st2 == 'exc', 'refused: %r', e)
            return
        h.check(open(path).read() == before, 'the configuration was changed')
        h.check(len(new) == 1, 'directories %r', new)
        got = []
        h.check(os.path.dirname(os.path.normpath(new[0])) == sub, 'directory %r', new[0])
        tables = []
        for f in sorted(os.listdir(new[0])):
            cfg = C.ConfigParser(configfile=os.path.join(new[0], f)).get_config()
            w = dict(want)
            w['a_coeffs_range'], w['b_coeffs_range'] = cfg['a_coeffs_range'], cfg['b_coeffs_range']
            compare(h, cfg, w, f)
            got.append([cfg['a_coeffs_range'], cfg['b_coeffs_range']])
            tables.append(os.path.normpath(cfg['hashtable_file']))
        partition(h, got, [want['a_coeffs_range'], want['b_coeffs_range']], n)
        h.check(len(set(tables)) == n, 'hashtable files %r', tables)
        h.check(all(os.path.dirname(t) == os.path.dirname(opts['hashtable_file']) for t in tables), 'hashtable files %r', tables)
        h.check(n == 1 or os.path.normpath(C.ConfigParser(configfile=path).get_config()['hashtable_file']) not in tables,
                'hashtable files %r', tables)
        h.trivial = n == 1
