"""C22: versions of the hashtable file."""
import z3
from pyvc.values import *
from pyvc.contractlib import *
from pyvc import regexes as rx

ASSUMPTIONS = [
    're: a pattern matches the regular language it denotes (no newlines in file names); re.escape yields a pattern of its '
    'argument only; os.path.split and os.path.join are those of POSIX; os.listdir lists the names in a folder',
    'names are <stem>[_v<digits>][.pkl] with an arbitrary stem without a slash; str and int of a version number are inverse',
    'list.sort(key) and max(key) put an element with the greatest key last (with the least key first)']
C = 'configfile:ConfigParser'
FAM = z3.Function('IS_VERSION_OF_STEM', S, B)
HASNUM = z3.Function('HAS_VERSION', S, B)
NUM = z3.Function('VERSION', S, I)
LISTED = z3.Function('LISTED', S, B)
TAIL = rx.cat(rx.alt(rx.EPS, rx.cat(rx.lit('_v'), rx.DIGITS, rx.star(rx.DIGITS))), rx.lit('.pkl'))
NUMBERED = rx.cat(rx.lit('_v'), rx.DIGITS, rx.star(rx.DIGITS), rx.lit('.pkl'))


def run(V):
    E, M, In = V.E, V.M, V.I
    V.expected_covers = []
    stem, dig, folder = V.str('stem'), V.str('digits'), V.str('folder')
    texts = Texts([stem, dig, folder])
    ESCAPED = z3.Function('ESCAPED', S, S)
    ends_version = rx.cat(rx.ALL, rx.lit('_v'), rx.DIGITS, rx.star(rx.DIGITS))
    Match = V.spec('Match', '''
class Match:
    def __init__(self, groups):
        self.groups = groups
    def group(self, n):
        if n not in self.groups:
            raise LookupError('group of this match')
        return self.groups[n]
    def __getitem__(self, n):
        return self.group(n)
''')
    Digits = V.spec('Digits', '''
class Digits:
    def __init__(self, n):
        self.n = n
    def __int__(self):
        return self.n
''')
    lang = {}

    def language(ps):
        return rx.cat(*[rx.lit(p) if isinstance(p, str) else lang[p.get_id()] for p in ps])

    def pattern(I_, p):
        if isinstance(p, rx.Pattern):
            return p
        return rx.Pattern(I_, texts.pieces(p), [stem, dig])

    def matching(kind):
        def f(I_, a, k):
            d = bind(I_, kind, ['pattern', 'string'], {}, a, k)
            p, s = pattern(I_, d['pattern']), d['string']
            ps = texts.pieces(s)
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].get_id() not in lang:
                # a file of the folder
                need(I_, kind == 'fullmatch' or kind == 'match' and p.anchored, 'matching the whole file name')
                pre = texts.text(p.prefix)
                need(I_, is_term(pre) and pre.eq(stem), 'the pattern of the files starts with the stem')
                fn = ps[0]
                if rx.equal(p.lang, TAIL):
                    cond = FAM(fn)
                elif rx.equal(p.lang, NUMBERED):
                    cond = z3.And(FAM(fn), HASNUM(fn))
                else:
                    I_.unsup('another language of file names')
                if not I_.truth(cond):
                    return None
                if not p.groups:
                    return In.call(Match, [VDict([[0, fn]])])
                if len(p.groups) == 1 and rx.equal(p.groups[0][1], rx.cat(rx.DIGITS, rx.star(rx.DIGITS))):
                    g = In.call(Digits, [NUM(fn)]) if I_.truth(HASNUM(fn)) else None
                    return In.call(Match, [VDict([[0, fn], [p.groups[0][0], g]])])
                I_.unsup('groups of the file pattern')
            l = language(ps)
            x = rx.cat(language(p.prefix), p.lang)
            x = rx.cat(rx.EPS if kind != 'search' else rx.ALL, x, rx.EPS if kind == 'fullmatch' or p.anchored else rx.ALL)
            if rx.included(l, x):
                return In.call(Match, [VDict([[0, s]])])
            if rx.disjoint(l, x):
                return None
            I_.unsup('match of %r' % (s,))
        return Native('re.' + kind, f)

    def before_end(I_, p, s):
        """The text before the leftmost match of a pattern anchored at the end, or None."""
        need(I_, p.anchored and not p.prefix, 'a pattern anchored at the end')
        ps = texts.pieces(s)
        cuts = []
        for i, q in enumerate(ps):
            if isinstance(q, str):
                cuts += [(ps[:i] + ([q[:j]] if j else []), [q[j:]] + ps[i + 1:]) for j in range(len(q))]
            else:
                cuts.append((ps[:i], ps[i:]))
        for head, rest in cuts:
            if rest and not isinstance(rest[0], str):
                # no match starts inside or at the beginning of an unknown text
                inside = rx.cat(rx.ALL, rx.both(p.lang, rx.cat(rx.ANY, rx.ALL, language(rest[1:]))))
                if not rx.disjoint(language(rest), inside):
                    I_.unsup('a match starting in unknown text')
            elif rx.included(language(rest), p.lang):
                return texts.text(head)
            elif not rx.disjoint(language(rest), p.lang):
                I_.unsup('a match of %r' % (s,))
        return None

    def split(I_, a, k):
        d = bind(I_, 're.split', ['pattern', 'string'], {}, a, k)
        h = before_end(I_, pattern(I_, d['pattern']), d['string'])
        return VList([d['string']]) if h is None else VList([h, ''])

    def sub(I_, a, k):
        d = bind(I_, 're.sub', ['pattern', 'repl', 'string'], {}, a, k)
        need(I_, d['repl'] == '', 'replacement by nothing')
        h = before_end(I_, pattern(I_, d['pattern']), d['string'])
        return d['string'] if h is None else h

    def escape(I_, a, k):
        ps = texts.pieces(a[0])
        import re
        return texts.text([re.escape(p) if isinstance(p, str) else ESCAPED(p) for p in ps])

    class Compiled:
        def __init__(self, p):
            self.p = p

        def vattr(self, I_, name):
            f = ns.get(name)
            return None if f is None else Native(name, lambda I2, a, k: f.fn(I2, [self.p] + list(a), k))
    In.module('configfile')
    ns = In.module('re').ns
    for kind in ('match', 'fullmatch', 'search'):
        ns[kind] = matching(kind)
    ns.update(split=Native('re.split', split), sub=Native('re.sub', sub), escape=Native('re.escape', escape),
              compile=Native('re.compile', lambda I_, a, k: Compiled(pattern(I_, a[0]))))
    osp = M.modules['os.path'].ns
    state = {}

    def join(I_, a, k):
        need(I_, len(a) == 2, 'os.path.join of two')
        return texts.text(texts.pieces(a[0]) + ['/'] + texts.pieces(a[1]))

    def listdir(I_, a, k):
        d = a[0] if a else '.'
        need(I_, texts.text(texts.pieces(d)) == state['dir'] if isinstance(d, str) else d.eq(state['dir']), 'the folder of the name')
        return V.list('files', 'str')
    osp.update(join=Native('os.path.join', join), split=Native('os.path.split', texts.split),
               basename=Native('os.path.basename', lambda I_, a, k: texts.split(I_, a, k)[1]),
               dirname=Native('os.path.dirname', lambda I_, a, k: texts.split(I_, a, k)[0]))
    M.modules['os'].ns['listdir'] = Native('os.listdir', listdir)
    J = V.int('J')
    files = lambda: V.list('files', 'str')

    def file(i):
        return M.item(files(), i, inside=True)

    def numbers(f):
        V.assume(z3.Implies(FAM(f), z3.And(NUM(f) >= 0, z3.Or(HASNUM(f), NUM(f) == 0))))

    def chosen(parts, i):
        """Whether the file i is in a list filtered from the listing, and the element it gives."""
        ps = M.norm(parts)
        need(In, len(ps) == 1 and isinstance(ps[0], Flat), 'a list filtered from the listing')
        p = ps[0]
        need(In, E.valid(to_term(p.n) == to_term(M.length(files())))[0], 'a list filtered from the listing')
        q = M.norm(subst(p.parts, [(p.var, to_term(i))]))
        out = []
        for x in q:
            need(In, isinstance(x, Cond), 'a list filtered from the listing')
            for g, y in x.alts:
                y = M.norm(y)
                if y:
                    need(In, len(y) == 1 and isinstance(y[0], Items) and len(y[0].vals) == 1, 'a filtered list')
                    v = y[0].vals[0]
                    if out and same(to_term(out[0][1]), to_term(v)):
                        out[0] = (z3.Or(to_bool_term(out[0][0]), to_bool_term(g)), v)
                    else:
                        out.append((g, v))
        need(In, len(out) == 1, 'a filtered list')
        return out[0]

    def extremes(l, key, which):
        """The elements with the least and the greatest key."""
        ps = M.parts_of(l)
        f = (lambda v: v) if key is None else (lambda v: In.call(key, [v]))
        n = to_term(M.length(files()))
        res = []
        gj, vj = chosen(ps, J)
        for w in which:
            i = E.int('witness')
            g, v = chosen(ps, i)
            V.assume(z3.And(i >= 0, i < n, to_bool_term(g), LISTED(to_term(v))))
            numbers(to_term(v))
            if w and In.truth(z3.And(J >= 0, J < n, to_bool_term(gj))):
                a, b = to_term(f(v)), to_term(f(vj))
                need(In, a.is_int() and b.is_int(), 'versions are compared as numbers')
                V.assume(a <= b if w == 'least' else b <= a)
            res.append(v)
        E.use('sorting by a key')
        return res

    def no_match(ps):
        gj, vj = chosen(ps, J)
        n = to_term(M.length(files()))
        V.assume(z3.Not(z3.And(J >= 0, J < n, to_bool_term(gj))))

    def sort_sym(l, key, reverse):
        ps = list(l.parts)
        if not In.truth(l if isinstance(l, VList) else M.nonempty(ps)):
            no_match(ps)
            In.setparts(l, [Items([])])
            return
        lo, hi = extremes(l, key, (None, 'greatest'))       # (nothing is used about the least)
        if reverse is True:
            lo, hi = hi, lo
        # the elements in between are unknown; the first and the last may be the same
        mid = V.list('others%d' % len(E.ctx.facts), 'str')
        if In.truth(V.bool('one file')):
            V.assume(lo == hi)
            In.setparts(l, [Items([lo])])
        else:
            In.setparts(l, [Items([lo])] + list(mid.parts) + [Items([hi])])

    def extreme_sym(l, is_min, k):
        ps = M.parts_of(l)
        if not In.truth(l if isinstance(l, VList) else M.nonempty(ps)):
            no_match(ps)
            if 'default' in k:
                return k['default']
            In.raise_('ValueError', 'empty')
        return extremes(l, k.get('key'), ('least' if is_min else 'greatest',))[0]
    M.sort_sym, M.extreme_sym = sort_sym, extreme_sym

    FORMS = {'plain': [], 'with extension': ['.pkl'], 'with version': ['_v', dig], 'with version and extension': ['_v', dig, '.pkl']}

    def go(form, op, where):
        tail = FORMS[form]
        lang.clear()
        lang[dig.get_id()] = rx.cat(rx.DIGITS, rx.star(rx.DIGITS))
        lang[folder.get_id()] = rx.ALL
        l = rx.cat(rx.ANY, rx.star(rx.chars(False, '/')))
        if dig not in tail:
            l = rx.both(l, rx.neg(ends_version))
        if not tail:
            l = rx.both(l, rx.neg(rx.cat(rx.ALL, rx.lit('.pkl'))))
        lang[stem.get_id()] = l
        name = texts.text([stem] + tail)
        if '.pkl' not in tail:
            V.assume(z3.Not(z3.SuffixOf(z3.StringVal('.pkl'), name)))
        V.assume(z3.Length(stem) > 0)
        V.assume(z3.And(z3.Length(folder) > 0))
        state['dir'] = {'here': '.', 'folder': folder, 'subfolder': texts.text(['sub/', folder])}[where]
        given = name if where == 'here' else texts.text(texts.pieces(state['dir']) + ['/'] + texts.pieces(name))
        n = to_term(M.length(files()))
        fj = to_term(file(J))
        numbers(fj)
        other = SV(z3.Const('another value', U), 'any')
        cfg = VDict([['hashtable_file_operation', op], ['hashtable_file', given], ['const', other]])
        o = V.new(C, _config=cfg)
        V.method(o, '_gen_hashtable_filename')
        cfg = In.getattr(o, '_config')
        got = M.getitem(cfg, 'hashtable_file')
        V.same('the other options', M.getitem(cfg, 'const'), other)
        V.prove('the operation', M.eq(M.getitem(cfg, 'hashtable_file_operation'), op))
        V.prove('the same options', M.eq(M.length(cfg), 3))
        inside = z3.And(J >= 0, J < n)
        for t in terms('SUMI'):
            # an empty list: no element passed
            if E.valid(z3.And(t <= 0, t.arg(1) == n))[0]:
                V.assume(z3.Implies(inside, M.simp(z3.Select(t.arg(0), J)) <= 0))
        want_dir = texts.pieces(state['dir']) + ['/']
        first = texts.text([stem, '_v', dig if dig in tail else '1', '.pkl'])
        none = texts.text(want_dir + texts.pieces(first))
        if not is_term(got) or not E.valid(z3.Not(z3.And(inside, FAM(fj))))[0]:
            V.cover('there are versions')
            return choice(op, got, want_dir, inside, fj)
        if got.eq(none):
            V.cover('no version')
            V.assume(FAM(first))        # (of the form <stem>_v<digits>.pkl)
            V.prove('the file does not exist', z3.Not(z3.And(inside, fj == first)))
            return
        choice(op, got, want_dir, inside, fj)

    def choice(op, got, want_dir, inside, fj):
        prefix = texts.text(want_dir + [stem, '_v']) if op == 'generate' else texts.text(want_dir)
        fs = [f for f in chosen_files(got, want_dir, op)]
        V.prove('the selected name is in the folder', bool(fs))
        if not fs:
            return
        f, m = fs[0]
        if op == 'generate':
            x = texts.text([stem, '_v', f, '.pkl'])
            V.assume(z3.And(FAM(x), NUM(x) == m))        # (the text of the number m)
            V.prove('one above every existing version', z3.Implies(z3.And(inside, FAM(fj)), NUM(fj) < m))
            V.prove('the file does not exist', z3.Not(z3.And(inside, fj == x)))
            w = [g for g in witnesses() if E.valid(z3.And(LISTED(g), FAM(g), m == NUM(g) + 1))[0]]
            V.prove('one above an existing version', bool(w))
            V.cover('next version')
        else:
            V.prove('an existing version', z3.And(LISTED(f), FAM(f)))
            V.prove('no version is higher', z3.Implies(z3.And(inside, FAM(fj)), NUM(fj) <= NUM(f)))
            V.cover('newest version')

    def witnesses():
        return [t.arg(0) for t in terms(LISTED.name())]

    def terms(name):
        out, seen = [], set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == name:
                out.append(t)
            for c in t.children():
                walk(c)
        for f in E.ctx.facts:
            if not z3.is_quantifier(f):
                walk(f)
        return out

    def chosen_files(got, want_dir, op):
        """What follows the folder in the selected name."""
        d = texts.pieces(texts.text(want_dir))
        g = texts.pieces(got)
        if g and d and isinstance(g[0], str) and isinstance(d[-1], str) and len(d) == 1 and g[0].startswith(d[0]):
            rest = [g[0][len(d[0]):]] + g[1:]
        elif g[:1] and len(d) > 1 and all(same(a, b) for a, b in zip(g, d[:-1])) and isinstance(g[len(d) - 1], str) \
                and g[len(d) - 1].startswith(d[-1]):
            rest = [g[len(d) - 1][len(d[-1]):]] + g[len(d):]
        else:
            return []
        rest = [r for r in rest if not isinstance(r, str) or r]
        if op == 'generate' and len(rest) == 2 and same(rest[0], stem) and isinstance(rest[1], str):
            d = rest[1][2:-4]
            if rest[1] == '_v%s.pkl' % d and d.isdigit():
                return [(z3.StringVal(d), z3.IntVal(int(d)))]
            return []
        if op != 'generate':
            return [(rest[0], None)] if len(rest) == 1 and is_term(rest[0]) else []
        if len(rest) == 4 and same(rest[0], stem) and rest[1] == '_v' and rest[3] == '.pkl' and is_term(rest[2]) and \
                rest[2].decl().name() == 'STRI':
            return [(rest[2], rest[2].arg(0))]
        return []

    def same(a, b):
        return a == b if isinstance(a, str) or isinstance(b, str) else a.eq(b)
    for form in FORMS:
        for op in ('generate', 'use', 'expand'):
            for where in ('here', 'folder', 'subfolder'):
                n = '%s: name %s, %s' % (op, form, where)
                V.scope(n, lambda form=form, op=op, where=where: go(form, op, where), [C + '._gen_hashtable_filename'])
                V.expected_covers += [n + ': no version', n + (': next version' if op == 'generate' else ': newest version')]
