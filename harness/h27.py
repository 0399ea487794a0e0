from common import *
import ast, copy, dill, pickle
import enum_params, fix_hashtable_filter_init_b_root as FX
from h06 import int_root
RULE = 'random tables (several precisions, with and without run parameters) cleaned from a file in a scratch directory; non-trivial: something is removed'


def trial(h):
    r = h.r
    m = enum_params.MITM()
    m.postproc_funcs = m.postproc_funcs_latex = m.target_generator = None
    t = m.dec_hashtable
    acc = r.randint(3, 15)
    t.accuracy = acc + 1
    t.accuracy_history = [r.randint(3, 16) for _ in range(r.choice([0, 0, 1, 2]))]
    data, n = {}, 0
    for _ in range(r.randint(0, 6)):
        k = r.choice(['0.', '0.', '12.', '0.0']) + ''.join(r.choice('0123456789') for _ in range(17))
        for a in r.sample([acc + 1] + t.accuracy_history, r.choice([1, 1, min(2, 1 + len(t.accuracy_history))])):
            items = []
            for _ in range(r.randint(1, 5)):
                n += 1
                b = []
                for _ in range(r.randint(1, 3)):
                    w = r.random()
                    if w < 0.3:
                        x = r.choice([1, 2, 3])
                        c = r.choice([1, -2])
                        b.append(tuple([0] * r.choice([0, 0, 1]) + [-c * x, c] + [0] * r.choice([0, 1])))
                    elif w < 0.5:
                        b.append((r.choice([-6, 2, 6]), r.choice([1, 5, -5]), 1))
                    else:
                        b.append(tuple(rcoefs(r, r.randint(0, 3), 4)))
                items.append(((((n,),), tuple(b)), r.randint(0, 9)))
            data[k[:a + 1]] = items
    par = r.choice([None, 'parameters'[:acc + 2], 'parameters'])
    if par:
        data[par] = r.choice([{'target_name': 'pi'}, [{'target_name': 'pi'}, {'target_name': 'e'}]])
    keys = list(data)
    r.shuffle(keys)
    for k in keys:
        dict.__setitem__(t, k, copy.deepcopy(data[k]))
    h.note(precisions=(acc, list(t.accuracy_history)), table=data)
    name = r.choice(['t.pkl', 'sub/t_v2.pkl', 'a.b.pkl', 't'])
    with scratch():
        os.mkdir('sub')
        with open(name, 'wb') as f:
            dill.dump(m, f)
        with open(name, 'rb') as f:
            before = f.read()
        FX.main(name)
        with open(name, 'rb') as f:
            h.check(f.read() == before, 'the original was changed')
        files = sorted(os.path.normpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs)
        new = [f for f in files if f != name]
        h.check(len(new) == 1 and os.path.dirname(new[0]) == os.path.dirname(name), 'files %r', files)
        with open(new[0], 'rb') as f:
            got = dill.load(f)
    g = got.dec_hashtable
    h.check(g.accuracy == t.accuracy and g.accuracy_history == t.accuracy_history, 'precision changed')
    gd = {k: v for k, v in dict.items(g)}
    removed = 0
    for k, items in data.items():
        if k == par:
            h.check(gd.pop(k, None) == items, 'run parameters')
            continue
        have = gd.pop(k, [])
        want = []
        for it in items:
            v = [int_root(p) for p in it[0][1]]
            if True in v:
                removed += 1
            elif None in v:
                # (negative roots only: left open by the detection)
                if it in have:
                    want.append(it)
            else:
                want.append(it)
        h.check(have == want, 'key %s has %r instead of %r', k, have, want)
        h.check(k not in dict.keys(g) or want, 'empty key %s', k)
    h.check(not gd, 'additional keys %r', gd)
    h.trivial = not removed
