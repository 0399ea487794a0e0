from common import *
import re
import configfile as C
RULE = 'random folder contents (versions, unversioned, other names, other folders, other files) and names; non-trivial: some version exists'


def trial(h):
    r = h.r
    stems = ['table', 'tab', 'table_x', 'my.table', 'a+b', 't(1)', 'v', 'a.pkl_b', 'a_v1.pkl_b', 'table_v2x', 'table.pklx'.replace('.pklx', '_pkl')]
    stem = r.choice(stems)
    ver = r.choice([None, None, 1, 2, 9, 10, 100])
    ext = True if ver is not None and r.random() < 0.7 else r.random() < 0.6
    folder = r.choice(['', '', 'd1', 'd1/d2', './d1'])
    op = r.choice(['generate', 'use', 'expand'])
    files, others = set(), set()
    for _ in range(r.randint(0, 5)):
        v = r.choice([None, 1, 2, 3, 9, 10, 11, 99, 100])
        files.add(stem + ('' if v is None else '_v%d' % v) + '.pkl')
    for _ in range(r.randint(0, 6)):
        s = r.choice(stems + ['x' + stem, stem + 'x', stem + '_v', 'q' + stem + '_v7', stem + '_v3_part00', stem + '_V4',
                              stem.replace('.', 'Q').replace('+', 'ab')])
        n = s + r.choice(['', '_v%d' % r.choice([1, 5, 50, 500])]) + r.choice(['.pkl', '.pkl', '.txt', '', '.pkl.bak', '.pklx'])
        m = re.match(r'^(.*?)(_v[0-9]+)?\.pkl$', n)
        if not (m and m.group(1) == stem):
            others.add(n)
    name = stem + ('' if ver is None else '_v%d' % ver) + ('.pkl' if ext else '')
    with scratch():
        os.makedirs('d1/d2')
        here = folder or '.'
        elsewhere = [d for d in ('.', 'd1', 'd1/d2') if os.path.normpath(d) != os.path.normpath(here)]
        for n in files | others:
            open(os.path.join(here, n), 'w').close()
        for d in elsewhere:
            if r.random() < 0.5:
                open(os.path.join(d, stem + '_v%d.pkl' % r.choice([7, 70])), 'w').close()
        h.note(given=os.path.join(folder, name), operation=op, matching=sorted(files), others=sorted(others))
        with open('c.ini', 'w') as f:
            f.write('[Setup]\nhashtable_file = %s\nhashtable_file_operation = %s\npostproc_funcs_filter = []\n' %
                    (os.path.join(folder, name), op))
        before = sorted((d, sorted(fs)) for d, _, fs in os.walk('.'))
        got = C.ConfigParser(configfile='c.ini').get_config()['hashtable_file']
        h.check(before == sorted((d, sorted(fs)) for d, _, fs in os.walk('.')), 'files changed')
    num = {}
    for n in files:
        m = re.match(r'^.*?_v([0-9]+)\.pkl$', n)
        num[int(m.group(1)) if m else 0] = n
    h.check(os.path.normpath(os.path.dirname(got) or '.') == os.path.normpath(here), 'folder of %r', got)
    if not files:
        want = stem + '_v%d.pkl' % (1 if ver is None else ver)
    elif op == 'generate':
        want = stem + '_v%d.pkl' % (max(num) + 1)
        h.check(os.path.basename(got) not in files, '%r exists', got)
    else:
        want = num[max(num)]
    h.check(os.path.basename(got) == want, 'selected %r instead of %r', os.path.basename(got), want)
    h.trivial = not files
