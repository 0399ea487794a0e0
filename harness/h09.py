from common import *
from decimal_hashtable import DecimalHashTable
RULE = 'random operation histories over a pool of values sharing prefixes (also tiny, huge, negative, zero, text), with precision changes; compared with a model; non-trivial: at least 4 operations'


def prefix(k, acc):
    """First characters of the key at a precision."""
    s = k if isinstance(k, str) else digits(k, mp.dps)
    return s[:acc + 2]


class Model:
    """Association of stored prefixes to values; a lookup prefers the oldest precision."""
    def __init__(self, acc):
        self.accs, self.d = [acc], {}

    def find(self, k):
        for a in self.accs:
            if prefix(k, a) in self.d:
                return prefix(k, a)
        return None

    def set(self, k, v):
        cur = prefix(k, self.accs[-1])
        for a in self.accs[:-1]:
            self.d.pop(prefix(k, a), None)
        self.d[cur] = v


def value(r):
    kind = r.random()
    base = ''.join(r.choice('0123456789') for _ in range(30))
    if kind < 0.5:
        return '0.' + base
    if kind < 0.65:
        return '%d.%s' % (r.randint(1, 10 ** r.randint(1, 12)), base)
    if kind < 0.8:
        return '0.' + '0' * r.randint(1, 25) + base
    if kind < 0.85:
        return '0'
    if kind < 0.9:
        return '%d%s' % (r.randint(1, 9), '0' * r.randint(0, 40))
    return '-0.' + base


def variant(r, s):
    """A text sharing a random number of leading characters."""
    i = r.randint(1, len(s))
    t = list(s)
    for j in range(i, len(t)):
        if t[j].isdigit():
            t[j] = r.choice('0123456789')
    return ''.join(t)


def trial(h):
    r = h.r
    mp.dps = r.choice([20, 30, 50])
    acc = r.randint(1, 15)
    ht, model = DecimalHashTable(acc), Model(acc)
    pool = []
    for _ in range(r.randint(2, 4)):
        s = value(r)
        pool += [s] + [variant(r, s) for _ in range(r.randint(0, 3))]
    hist = []
    h.note(dps=mp.dps, accuracy=acc, operations=hist)
    cnt = 0
    for _ in range(r.randint(3, 14)):
        op = r.choice(['set', 'set', 'set', 'get', 'getd', 'in', 'del', 'setdefault', 'acc', 'type'])
        s = r.choice(pool)
        k = s if r.random() < 0.25 else mpf(s)
        for a in range(1, 16):
            prefix(k, a)
        cnt += 1
        hist.append((op, k if isinstance(k, str) else s))
        if op == 'acc':
            if r.random() < 0.5:
                a = r.randint(1, 15)
                hist[-1] = ('update_accuracy', a)
                ht.update_accuracy(a)
                model.accs.append(a)
            continue
        if op == 'type':
            st, e = safe(lambda: ht[r.choice([1, 0.5, None])])
            h.check(st == 'exc' and isinstance(e, TypeError), 'a key of another type gives %r', e)
            continue
        f = model.find(k)
        if op == 'set':
            ht[k] = cnt
            model.set(k, cnt)
        elif op == 'get':
            st, v = safe(lambda: ht[k])
            if f is None:
                h.check(st == 'exc' and isinstance(v, KeyError), 'missing key %s gives %r', s, v)
            else:
                h.check(st == 'ok' and v == model.d[f], 'lookup of %s gives %r instead of %r', s, v, model.d[f])
        elif op == 'getd':
            v = ht.get(k, -1) if r.random() < 0.7 else ht.get(k)
            want = model.d.get(f) if f else v if v in (-1, None) else 'a default'
            h.check(v == want, 'get of %s gives %r instead of %r', s, v, want)
        elif op == 'in':
            h.check((k in ht) == (f is not None), 'membership of %s is %r', s, k in ht)
        elif op == 'del':
            st, e = safe(lambda: ht.__delitem__(k))
            if f is None:
                h.check(st == 'exc' and isinstance(e, KeyError), 'deletion of missing %s gives %r', s, e)
            else:
                h.check(st == 'ok', 'deletion of %s raises %r', s, e)
                del model.d[f]
        else:
            v = ht.setdefault(k, cnt)
            if f is None:
                model.set(k, cnt)
                h.check(v == cnt, 'setdefault returns %r', v)
            else:
                h.check(v == model.d[f], 'setdefault returns %r instead of %r', v, model.d[f])
        h.check(dict(ht.items()) == model.d, 'contents %r instead of %r', dict(ht.items()), model.d)
        h.check(len(ht) == len(model.d), 'size')
    h.trivial = cnt < 4
