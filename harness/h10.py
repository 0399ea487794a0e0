from common import *
import copy, pickle, dill
from decimal_hashtable import DecimalHashTable
import enum_params
import join_hashtables
RULE = 'random tables (several precisions, list and scalar values): reload, append, join folders; non-trivial: at least one entry'


def table(r, acc, hist, pool):
    t = DecimalHashTable(r.choice(hist) if hist else acc)
    first = True
    for a in hist + [acc]:
        if not first:
            t.update_accuracy(a)
        else:
            t = DecimalHashTable(a)
        first = False
        for _ in range(r.randint(0, 5)):
            t[mpf(r.choice(pool))] = [r.randint(0, 99) for _ in range(r.randint(1, 3))]
    return t


def snap(t):
    return {k: copy.deepcopy(v) for k, v in dict.items(t)}, t.accuracy, list(t.accuracy_history)


def aslist(v):
    return v if isinstance(v, list) else [v]


def merged(x, y):
    d = {k: v for k, v in x[0].items()}
    for k, v in y[0].items():
        d[k] = aslist(d[k]) + aslist(v) if k in d else v
    return d, x[1], x[2] + [a for i, a in enumerate(y[2]) if a not in x[2]]


def same(x, y):
    return x[0] == y[0] and x[1] == y[1] and sorted(set(x[2])) == sorted(set(y[2])) and x[2][:1] == y[2][:1]


def trial(h):
    r = h.r
    acc = r.randint(3, 9)
    pool = ['0.%d' % r.randint(1, 10 ** 6) for _ in range(5)]
    hists = [r.sample([4, 5, 6, 7], r.randint(0, 2)) for _ in range(4)]
    kind = r.choice(['reload', 'append', 'append', 'reject', 'join'])
    t = table(r, acc, hists[0], pool)
    if r.random() < 0.3:
        dict.__setitem__(t, 'x' * (acc + 2), 7)
    s = snap(t)
    h.note(kind=kind, table=s)
    h.trivial = not s[0]
    if kind == 'reload':
        lib = r.choice([pickle, dill])
        u = lib.loads(lib.dumps(t, r.choice([2, lib.HIGHEST_PROTOCOL])))
        h.check(isinstance(u, DecimalHashTable) and snap(u) == s, 'reloaded as %r', snap(u))
        h.check(snap(t) == s, 'saving changed the table')
        for v in pool:
            h.check((mpf(v) in t) == (mpf(v) in u), 'membership after reload')
        return
    if kind in ('append', 'reject'):
        acc2 = acc if kind == 'append' else acc + r.choice([-1, 1, 2])
        u = table(r, acc2, hists[1], pool)
        if r.random() < 0.3:
            dict.__setitem__(u, 'x' * (acc + 2), r.choice([8, [8]]))
        su = snap(u)
        h.note(appended=su)
        st, e = safe(t.append_dict, u)
        if kind == 'reject':
            h.check(st == 'exc', 'different precisions accepted')
            h.check(snap(t) == s and snap(u) == su, 'rejected append changed a table')
            return
        h.check(st == 'ok', 'append raises %r', e)
        w = merged(s, su)
        h.check(snap(t)[0] == w[0], 'entries %r instead of %r', snap(t)[0], w[0])
        h.check(same(snap(t), w), 'precisions %r instead of %r', snap(t)[1:], w[1:])
        h.check(snap(u) == su, 'the appended table changed: %r instead of %r', snap(u), su)
        return
    with scratch() as d:
        os.mkdir('tables')
        tabs = {}
        for i in range(r.randint(1, 4)):
            m = enum_params.MITM(hashtable_prec=acc)
            # functions cannot be reloaded by the dill version here (under PyPy)
            m.postproc_funcs = m.postproc_funcs_latex = m.target_generator = None
            m.dec_hashtable = table(r, acc, hists[i % 4], pool)
            name = 'tables/t%d.pkl' % i
            with open(name, 'wb') as f:
                dill.dump(m, f)
            tabs['t%d.pkl' % i] = snap(m.dec_hashtable)
        with open('tables/notes.txt', 'w') as f:
            f.write('no table')
        order = [f for f in os.listdir('tables') if f in tabs]
        before = {f: open('tables/' + f, 'rb').read() for f in os.listdir('tables')}
        existing = r.random() < 0.3
        if existing:
            with open('out.pkl', 'w') as f:
                f.write('precious')
        args = ['tables', 'out.pkl']
        h.note(tables=tabs, existing=existing)
        h.trivial = False
        join_hashtables.main(*args)
        after = {f: open('tables/' + f, 'rb').read() for f in os.listdir('tables')}
        h.check(before == after, 'the joined files changed')
        if existing:
            h.check(open('out.pkl').read() == 'precious', 'existing output overwritten')
            return
        w = tabs[order[0]]
        for f in order[1:]:
            w = merged(w, tabs[f])
        with open('out.pkl', 'rb') as f:
            got = snap(dill.load(f).dec_hashtable)
        h.check(set(got[0]) == set(w[0]), 'joined keys %r instead of %r', set(got[0]), set(w[0]))
        for k in w[0]:
            h.check(sorted(map(str, aslist(got[0][k]))) == sorted(map(str, aslist(w[0][k]))), 'items of %s: %r', k, got[0][k])
        h.check(same(got, w), 'joined precisions %r instead of %r', got[1:], w[1:])
