"""C12: interleavers are permutations inverted by their de-interleavers."""
import weakref

import numpy as np

import commpy.channelcoding as CC
from .. import mon

RULE = ('Interleavers of lengths 1 to 5000 with many seeds, arrays of every numeric type, histories mixing several '
        'interleavers, draws from the global generator, vandalised results and inputs, and turbo codes.')
ASSUMPTIONS = ['Arrays are one-dimensional with the length of the interleaver.']
REQUIRE = {'judged interlv': 300, 'judged deinterlv': 300, 'judged RandInterlv': 150}

PERM = weakref.WeakKeyDictionary()


def state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def pre(c, a):
    return state()


def post_init(c, a, r, t):
    c.check(state() == t, 'creating an interleaver changes the global random state')
    n = int(a['length'])
    il = a['self']
    p = np.asarray(il.interlv(np.arange(n)))
    c.equal(np.sort(p), np.arange(n), 'interleaving is not a permutation', p=p)
    PERM[il] = p
    with mon.quiet():
        key = (n, int(a['seed']))
    if key in SEEN:
        c.equal(p, SEEN[key], 'the permutation does not depend on the length and the seed only', key=key)
    SEEN[key] = p


SEEN = {}


def post_i(c, a, r, t):
    c.check(state() == t, 'interleaving changes the global random state')
    p = PERM.get(a['self'])
    x = np.asarray(a['in_array'])
    if p is None or len(x) != len(p):
        return
    r = np.asarray(r)
    c.check(r.dtype == x.dtype, 'interleaving changes the type', got_type=r.dtype, given=x.dtype)
    c.equal(r, x[p], 'interleaving is not the permutation of this interleaver', x=x, p=p)


def post_d(c, a, r, t):
    c.check(state() == t, 'de-interleaving changes the global random state')
    p = PERM.get(a['self'])
    x = np.asarray(a['in_array'])
    if p is None or len(x) != len(p):
        return
    want = [None] * len(p)
    for i, j in enumerate(p):
        want[j] = x[i]
    r = np.asarray(r)
    c.check(r.dtype == x.dtype, 'de-interleaving changes the type', got=r.dtype, given=x.dtype)
    c.equal(r, np.array(want, x.dtype), 'de-interleaving does not invert the interleaving', x=x, p=p)


def setup():
    p = 'commpy.channelcoding.interleavers.'
    mon.attach(p + 'RandInterlv.__init__', post_init, pre, name='RandInterlv')
    mon.attach(p + 'RandInterlv.interlv', post_i, pre)
    mon.attach(p + 'RandInterlv.deinterlv', post_d, pre)


TYPES = [np.int8, np.int64, np.uint8, bool, float, np.float32, complex, np.uint64]


def data(rng, n):
    t = TYPES[rng.randint(len(TYPES))]
    if t is complex:
        return rng.randn(n) + 1j * rng.randn(n)
    if t in (float, np.float32):
        x = rng.randn(n).astype(t)
        return x
    if t is np.uint64:
        return rng.randint(0, 1 << 62, n).astype(t) + np.uint64(1 << 63)
    if t is np.int64:
        return rng.randint(-(1 << 62), 1 << 62, n)
    return rng.randint(0, 2, n).astype(t)


def basic(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 4, 7, 16, 50, 333, 5000]))
    seed = int(rng.choice([0, 1, 2, 42, 123456, 2 ** 32 - 1, rng.randint(2 ** 31)]))
    c.note(n=n, seed=seed, s=c.idx)
    il = CC.RandInterlv(n, seed)
    x = data(rng, n)
    y = il.interlv(x)
    z = il.deinterlv(y)
    c.equal(np.asarray(z), x, 'round trip fails')
    w = il.interlv(il.deinterlv(x))
    c.equal(np.asarray(w), x, 'round trip (de-interleaving first) fails')
    y[:] = 0
    z[:] = 0
    c.equal(np.asarray(il.deinterlv(il.interlv(x))), x, 'round trip fails after the results were modified')


def history(c):
    rng = c.rng
    c.note(s=c.seed)
    ils = []
    for _ in range(14):
        op = rng.randint(6)
        if op == 0 or not ils:
            ils.append(CC.RandInterlv(int(rng.choice([1, 5, 20, 64])), int(rng.randint(4))))
        elif op == 1:
            np.random.seed(int(rng.randint(1000)))
        elif op == 2:
            np.random.rand(3)
        else:
            il = ils[rng.randint(len(ils))]
            x = data(rng, len(PERM[il]) if il in PERM else 1)
            y = il.interlv(x) if op < 5 else il.deinterlv(x)
            if rng.randint(2):
                x[:] = 0
                y[:] = 1


def seeds(c):
    rng = c.rng
    n = int(rng.choice([25, 60, 200]))
    a, b = (int(v) for v in rng.randint(0, 2 ** 31, 2))
    if c.idx % 3 == 0:  # seeds which differ in one bit only
        b = a ^ (1 << int(rng.choice([31, 30, 24, 16, 8, 7, rng.randint(32)])))
    elif c.idx % 3 == 1 and a < 2 ** 31:
        b = 2 ** 32 - 1 - a
    c.note(n=n, a=a, b=b)
    x = np.arange(n)
    pa, pb = CC.RandInterlv(n, int(a)).interlv(x), CC.RandInterlv(n, int(b)).interlv(x)
    if a != b:
        c.check(not np.array_equal(pa, pb), 'two seeds give the same permutation', a=a, b=b, n=n)
    c.check(not np.array_equal(pa, x), 'a long array is not reordered')


def turbo(c):
    rng = c.rng
    tr = CC.Trellis(np.array([2]), np.array([[1, 5]]), 7, 'rsc')
    n = int(rng.choice([4, 10]))
    il = CC.RandInterlv(n, int(rng.randint(1000)))
    c.note(n=n, s=c.idx)
    s = CC.turbo_encode(rng.randint(0, 2, n), tr, tr, il)
    s = [2. * x - 1 + .5 * rng.randn(n) for x in s]
    CC.turbo_decode(s[0], s[1], s[2], tr, .5, 2, il)


def long_arrays(c):
    rng = c.rng
    n = int(rng.choice([128, 255, 256, 257, 258, 32767, 32769, 32768, 65535, 65536, 65537, 65538, 100000, 300000]))
    il = CC.RandInterlv(n, int(rng.randint(2 ** 31)))
    c.note(n=n, s=c.idx)
    x = rng.randint(0, 2, n).astype(np.int8) if rng.randint(2) else rng.randn(n)
    y = il.interlv(x)
    c.equal(il.deinterlv(y), x, 'a long array is not restored')
    c.equal(il.interlv(il.deinterlv(x)), x, 'a long array is not restored')


WORKLOADS = {'basic': (basic, 300, 5000), 'history': (history, 120, 2500), 'seeds': (seeds, 60, 1000),
             'turbo': (turbo, 20, 200),
             'long arrays': (long_arrays, 40, 400)}
