from common import *
import math
from utils import MathOperations as M
RULE = 'integers of all signs and sizes (also 0) and coefficient lists of length 0..12 with integer / fraction arguments; non-trivial: not both zero / not empty'


def trial(h):
    r = h.r
    big = r.choice([3, 20, 1000, 10 ** 9, 10 ** 25])
    if r.random() < 0.5:
        g = r.choice([1, r.randint(1, big)])
        a, b = g * r.randint(-big, big), g * r.randint(-big, big)
        if r.random() < 0.15:
            a = 0
        if r.random() < 0.15:
            b = 0
        if r.random() < 0.1:
            b = a * r.choice([-2, -1, 1, 3])
        if r.random() < 0.2:
            # close to a multiple
            a = b * r.randint(-big, big) + g * r.randint(-3, 3)
        h.note(a=a, b=b)
        h.trivial = not a and not b
        d = M.gcd(a, b)
        h.check(abs(d) == math.gcd(a, b), 'gcd is %r', d)
        if b:
            h.check((d > 0) == (b > 0), 'sign of gcd %r', d)
        else:
            h.check(d == a, 'gcd(a, 0) = %r', d)
        return
    c = [r.randint(-big, big) for _ in range(r.randint(0, 12))]
    x = r.choice([0, 1, -1, r.randint(-big, big), F(r.randint(-9, 9), r.randint(1, 9))])
    if r.random() < 0.3:
        c = tuple(c)
    h.note(coeffs=c, x=x)
    h.trivial = not c
    v = M.subs_in_polynom(c, x)
    h.check(v == poly(c, x), 'value %r instead of %r', v, poly(c, x))
    h.check(not (isinstance(x, int)) or isinstance(v, int), 'value of type %s', type(v))
