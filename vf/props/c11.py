"""C11: cyclic code generator polynomials are all and only the right ones."""
import numpy as np

import commpy.channelcoding as CC
from .. import mon
from ..ref.gf2 import divisors_xn1, pmod

RULE = ('All dimensions of all odd lengths up to 31 with a splitting field up to GF(2^8), samples of the dimensions of '
        'lengths 51, 63, 73, 85 (and 11, 33, 93 in the thorough tier), even lengths.')
ASSUMPTIONS = ['Lengths whose splitting field is larger than GF(2^10) are out of reach of the library in time.']
REQUIRE = {'judged cyclic_code_genpoly': 80, 'polynomials': 200}


def post(c, a, r, t):
    n, k = int(a['n']), int(a['k'])
    if not 0 <= k < n or n % 2 == 0:
        return
    got = [int(x) for x in r]
    want = divisors_xn1(n, n - k)
    c.tag('polynomials', len(want))
    c.check(len(set(got)) == len(got), 'a polynomial is listed twice', n=n, k=k, got=got)
    for p in got:
        c.check(p > 0 and p.bit_length() == n - k + 1, 'wrong degree', n=n, k=k, poly=p)
        c.check(pmod((1 << n) | 1, p) == 0, 'not a divisor of x^n + 1', n=n, k=k, poly=p)
    c.check(sorted(got) == want, 'wrong list of generator polynomials', n=n, k=k, got=got, expected=want)


def exc(c, a, e, t):
    if int(a['n']) % 2 == 0:
        c.check(isinstance(e, ValueError), 'even length: %s instead of ValueError' % type(e).__name__)


def setup():
    mon.attach('commpy.channelcoding.algcode.cyclic_code_genpoly', post, exc=exc)


SMALL = [(n, k) for n in (3, 5, 7, 9, 15, 17, 21, 31) for k in range(n)]


def small(c):
    n, k = SMALL[c.idx % len(SMALL)]
    c.note(n=n, k=k)
    CC.cyclic_code_genpoly(n, k)


def large(c):
    n = [63, 51, 73, 63, 85][c.idx % 5]
    k = int(c.rng.randint(0, n))
    if c.idx % 5 == 3:
        k = int(c.rng.choice([0, 1, 2, 3, 5, 57, 60, 62]))
    c.note(n=n, k=k)
    CC.cyclic_code_genpoly(n, k)


def slow(c):
    n = [11, 33, 93][c.idx % 3]
    k = int(c.rng.randint(1, n)) if n != 11 else [1, 10][c.rng.randint(2)]
    c.note(n=n, k=k)
    CC.cyclic_code_genpoly(n, k)


def even(c):
    n = int(c.rng.choice([0, 2, 4, 6, 8, 10, 12, 14, 16, 30, 62, 126, 128]))
    k = int(c.rng.randint(1, 60))
    c.note(n=n, k=k)
    c.raises(ValueError, lambda: CC.cyclic_code_genpoly(n, k), 'even length accepted')


WORKLOADS = {'small': (small, len(SMALL), len(SMALL)), 'large': (large, 15, 150), 'slow': (slow, 0, 12),
             'even': (even, 12, 40)}
