"""Regular languages (Brzozowski derivatives) and the module re for texts made of known and unknown pieces."""
import re
import re._parser as parser
import re._constants as K
import z3
from .values import *

OTHER = '\U0010ffff'          # a character that no pattern mentions
EMPTY, EPS = ('0',), ('e',)


def chars(pos, cs):
    return ('c', pos, frozenset(cs))
ANY = chars(False, ())


def cat(*xs):
    r = EPS
    for x in reversed(xs):
        if x == EMPTY or r == EMPTY:
            return EMPTY
        if x == EPS:
            continue
        if x[0] == '.':
            r = cat(x[1], cat(x[2], r))
            continue
        r = x if r == EPS else ('.', x, r)
    return r


def alt(*xs):
    s = set()
    for x in xs:
        s |= set(x[1]) if x[0] == '|' else {x}
    s.discard(EMPTY)
    if ('!', EMPTY) in s:
        return ('!', EMPTY)
    return EMPTY if not s else next(iter(s)) if len(s) == 1 else ('|', frozenset(s))


def star(x):
    return EPS if x in (EMPTY, EPS) else x if x[0] == '*' else ('*', x)


def neg(x):
    return x[1] if x[0] == '!' else ('!', x)


def both(x, y):
    return neg(alt(neg(x), neg(y)))


def lit(s):
    return cat(*[chars(True, c) for c in s])
ALL = star(ANY)


def nullable(x):
    k = x[0]
    if k in '0c':
        return False
    if k in 'e*':
        return True
    if k == '.':
        return nullable(x[1]) and nullable(x[2])
    if k == '|':
        return any(nullable(y) for y in x[1])
    return not nullable(x[1])


def deriv(x, a):
    k = x[0]
    if k in '0e':
        return EMPTY
    if k == 'c':
        return EPS if (a in x[2]) == x[1] else EMPTY
    if k == '*':
        return cat(deriv(x[1], a), x)
    if k == '.':
        r = cat(deriv(x[1], a), x[2])
        return alt(r, deriv(x[2], a)) if nullable(x[1]) else r
    if k == '|':
        return alt(*[deriv(y, a) for y in x[1]])
    return neg(deriv(x[1], a))


def letters(x, acc=None):
    acc = {OTHER} if acc is None else acc
    if x[0] == 'c':
        acc |= x[2]
    elif x[0] == '|':
        for y in x[1]:
            letters(y, acc)
    else:
        for y in x[1:]:
            if isinstance(y, tuple):
                letters(y, acc)
    return acc


def is_empty(x, limit=20000):
    sigma = letters(x)
    seen, todo = {x}, [x]
    while todo:
        y = todo.pop()
        if nullable(y):
            return False
        for a in sigma:
            z = deriv(y, a)
            if z not in seen:
                seen.add(z)
                todo.append(z)
                if len(seen) > limit:
                    raise Unsupported('regular expression too large')
    return True


def included(x, y):
    return is_empty(both(x, neg(y)))


def disjoint(x, y):
    return is_empty(both(x, y))


def equal(x, y):
    return included(x, y) and included(y, x)


DIGITS = chars(True, '0123456789')


class Pattern:
    """A pattern: an unknown but literal prefix and a regular language; anchored at the end or not."""
    def __init__(self, I, pieces, known):
        text, self.holes = '', {}
        for p in pieces:
            if isinstance(p, str):
                text += p
            else:
                c = chr(0xe000 + len(self.holes))
                need_escaped = [u for u in known if z3.Function('ESCAPED', S, S)(u).eq(p)]
                if not need_escaped:
                    I.unsup('a pattern with unknown text that is not escaped')
                self.holes[c] = need_escaped[0]
                text += c
        self.I, self.anchored, self.groups = I, False, []
        try:
            tree = list(parser.parse(text))
        except re.error:
            I.raise_('ValueError', 're.error')
        self.prefix = []
        while tree and tree[0] == (K.AT, K.AT_BEGINNING):
            I.unsup('anchor at the beginning')
        if self.holes:
            while tree and tree[0][0] is K.LITERAL and self.holes:
                c = chr(tree.pop(0)[1])
                self.prefix.append(self.holes.pop(c, c))
            if self.holes:
                I.unsup('unknown text inside a pattern')
        if tree and tree[-1] in ((K.AT, K.AT_END), (K.AT, K.AT_END_STRING)):
            self.anchored = True
            tree.pop()
        self.lang = self.seq(tree)

    def seq(self, tree):
        return cat(*[self.node(*x) for x in tree])

    def node(self, op, a):
        if op is K.LITERAL:
            return chars(True, chr(a))
        if op is K.NOT_LITERAL:
            return chars(False, chr(a))
        if op is K.ANY:
            return ANY          # (no newlines in names)
        if op is K.IN:
            pos, cs = True, set()
            for o, v in a:
                if o is K.NEGATE:
                    pos = False
                elif o is K.LITERAL:
                    cs.add(chr(v))
                elif o is K.RANGE and v[1] - v[0] < 300:
                    cs |= {chr(c) for c in range(v[0], v[1] + 1)}
                elif o is K.CATEGORY and v is K.CATEGORY_DIGIT:
                    cs |= set('0123456789')
                else:
                    self.I.unsup('character class in a pattern')
            return chars(pos, cs)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = a
            x = self.seq(sub)
            if hi is K.MAXREPEAT:
                return cat(*([x] * lo + [star(x)]))
            return cat(*([x] * lo + [alt(EPS, x)] * (hi - lo)))
        if op is K.SUBPATTERN:
            x = self.seq(a[3])
            if a[0] is not None:
                self.groups.append((a[0], x))
            return x
        if op is K.BRANCH:
            return alt(*[self.seq(t) for t in a[1]])
        self.I.unsup('%s in a pattern' % op)
