"""C01: bit conversions and signal utilities."""
import math

import numpy as np

import commpy.utilities as U
from .. import mon

RULE = ('Integers and widths drawn around powers of two up to 2^200, arrays of every integer type, sequences mixing '
        'cached and new numbers, vandalised results, real and complex signals.')
ASSUMPTIONS = ['Integers are non-negative and fit in the requested width.']
REQUIRE = {'call dec2bitarray': 2000, 'call decimal2bitarray': 500, 'call bitarray2dec': 1000,
           'call hamming_dist': 100, 'call euclid_dist': 100, 'call upsample': 100, 'call signal_power': 100}


def bits_of(n, w):
    return [(int(n) >> (w - 1 - i)) & 1 for i in range(w)]


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def post_dec2bitarray(c, a, r, t):
    x, w = a['in_number'], int(a['bit_width'])
    want = bits_of(x, w) if is_int(x) else [b for n in x for b in bits_of(n, w)]
    nums = [x] if is_int(x) else list(x)
    if any(int(n) < 0 or int(n) >> w for n in nums):
        c.tag('out of domain')
        return
    c.check(isinstance(r, np.ndarray) and r.dtype == np.int8 and r.ndim == 1, 'bit array is not a 1D int8 array',
            result=r)
    c.equal(r, np.array(want, np.int8), 'wrong bit array', number=x, width=w)


def post_decimal2bitarray(c, a, r, t):
    x, w = a['number'], int(a['bit_width'])
    if int(x) < 0 or int(x) >> w:
        return
    c.equal(r, np.array(bits_of(x, w), np.int8), 'wrong bit array', number=x, width=w)


def post_bitarray2dec(c, a, r, t):
    v = 0
    for b in a['in_bitarray']:
        v = 2 * v + int(b)
    c.check(int(r) == v and r == v, 'wrong integer', bits=a['in_bitarray'], result=r, expected=v)


def post_hamming(c, a, r, t):
    x, y = np.asarray(a['in_bitarray_1']).ravel(), np.asarray(a['in_bitarray_2']).ravel()
    want = sum(1 for p, q in zip(x, y) if int(p) != int(q))
    c.check(int(r) == want, 'wrong Hamming distance', a=x, b=y, result=r, expected=want)


def post_euclid(c, a, r, t):
    x, y = np.asarray(a['in_array1']), np.asarray(a['in_array2'])
    if np.iscomplexobj(x) or np.iscomplexobj(y):
        return
    want = math.fsum(((float(p) - float(q)) ** 2 for p, q in zip(x.ravel(), y.ravel())))
    c.close(float(r), want, 'wrong squared distance', rtol=1e-9, atol=1e-12 * (1 + want), a=x, b=y)


def post_upsample(c, a, r, t):
    x, n = np.asarray(a['x']), int(a['n'])
    want = np.zeros(len(x) * n, complex)
    for i, v in enumerate(x):
        want[i * n] = v
    c.equal(r, want, 'wrong upsampled signal', x=x, n=n)


def post_power(c, a, r, t):
    s = np.asarray(a['signal']).ravel()
    want = math.fsum(complex(v).real ** 2 + complex(v).imag ** 2 for v in s) / len(s)
    c.close(float(np.real(r)), want, 'wrong signal power', rtol=1e-9, atol=0, signal=s)


def setup():
    p = 'commpy.utilities.'
    mon.attach(p + 'dec2bitarray', post_dec2bitarray)
    mon.attach(p + 'decimal2bitarray', post_decimal2bitarray)
    mon.attach(p + 'bitarray2dec', post_bitarray2dec)
    mon.attach(p + 'hamming_dist', post_hamming)
    mon.attach(p + 'euclid_dist', post_euclid)
    mon.attach(p + 'upsample', post_upsample)
    mon.attach(p + 'signal_power', post_power)


def some_int(rng, maxbits=200):
    k = int(rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, rng.randint(1, maxbits)]))
    k = min(k, maxbits)
    base = 1 << k
    kind = rng.randint(4)
    if kind == 0:
        return base
    if kind == 1:
        return base - 1
    v = 0
    for _ in range(k):
        v = 2 * v + int(rng.randint(2))
    if kind == 2:
        return v
    return base - 1 - (1 << int(rng.randint(0, k + 1)) if base > 1 << k // 2 else 0) if k else 0


def scalar(c):
    rng = c.rng
    v = max(0, some_int(rng))
    w = max(1, v.bit_length()) + int(rng.choice([0, 0, 1, 2, 7, 30]))
    c.note(v=v, w=w)
    b = U.dec2bitarray(v, w)
    c.check(U.bitarray2dec(b) == v, 'round trip fails', v=v, w=w)
    b2 = U.decimal2bitarray(v, w)
    c.equal(b, b2, 'the two conversions differ', v=v, w=w)
    # float, bool, list forms of the same word
    for form in (list(map(int, b)), b.astype(bool), b.astype(np.int64), b.astype(np.uint8), tuple(b)):
        U.bitarray2dec(form)
    if v < 1 << 62:
        for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
            if v <= np.iinfo(t).max:
                U.dec2bitarray(t(v), w)
                U.decimal2bitarray(t(v), w)
    b[:] = 1 - b  # the caller owns the result
    b2[:] = 7
    U.dec2bitarray(v, w)
    U.decimal2bitarray(v, w)


def sequence(c):
    rng = c.rng
    n = int(rng.choice([0, 1, 2, 3, 10, 50, 200]))
    w = int(rng.choice([1, 2, 3, 4, 8, 16, 31, 32, 33, 62, 63, 64, 65, 100, 200]))
    t = [np.int64, np.uint64, object, list, tuple][rng.randint(5)]
    if w > 62:
        t = [np.uint64 if w < 65 else object, object, list, tuple][rng.randint(4)]
    vals = [max(0, some_int(rng, w)) if w > 62 and rng.randint(3) else
            int(rng.randint(0, 1 << min(w, 30))) << int(rng.randint(0, max(1, w - 29))) for _ in range(n)]
    vals = [v & ((1 << w) - 1) for v in vals]
    c.note(n=n, w=w, t=t.__name__, vals=vals[:5])
    x = t(vals) if t in (list, tuple) else np.array(vals, t)
    b = U.dec2bitarray(x, w)
    for i in range(n):
        c.check(U.bitarray2dec(b[i * w:(i + 1) * w]) == vals[i], 'round trip of a sequence fails', i=i, vals=vals)


def exhaustive(c):
    """ every number of every width up to 12 """
    w = c.idx % 12 + 1
    lo, hi = (0, 1 << w)
    c.note(w=w)
    x = np.arange(lo, hi)
    b = U.dec2bitarray(x, w).reshape(-1, w)
    for i in range(0, hi, max(1, hi // 256)):
        c.check(U.bitarray2dec(b[i]) == i, 'round trip', i=i)
        c.check(U.bitarray2dec(U.dec2bitarray(i, w)) == i, 'round trip', i=i)


def distances(c):
    rng = c.rng
    n = int(rng.choice([0, 1, 2, 5, 17, 100]))
    c.note(n=n, s=c.seed)
    t = [np.int8, np.int64, np.uint8, bool][rng.randint(4)]
    x, y = rng.randint(0, 2, n).astype(t), rng.randint(0, 2, n).astype(t)
    d = U.hamming_dist(x, y)
    c.check(d == U.hamming_dist(y, x), 'Hamming distance not symmetric')
    if rng.randint(2):
        a, b = rng.randn(n) * 10. ** rng.randint(-6, 7), rng.randn(n)
    else:
        a, b = rng.randint(-1000, 1000, n), rng.randint(-1000, 1000, n)
    U.euclid_dist(a, b)
    U.euclid_dist(b, a)
    # close vectors far from the origin: their difference is what matters
    far = rng.randn(n) * 10. ** rng.randint(3, 9)
    U.euclid_dist(far, far + rng.choice([-1, -.5, 0, .5, 1], n))
    far = rng.randint(-2 ** 30, 2 ** 30, n)
    U.euclid_dist(far, far + rng.randint(-3, 4, n))


def signals(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 8, 33, 100]))
    up = int(rng.choice([1, 2, 3, 4, 7, 16]))
    kind = rng.randint(4)
    c.note(n=n, up=up, kind=kind, s=c.seed)
    scale = 10. ** rng.randint(-8, 9)
    if kind == 0:
        x = rng.randn(n) * scale
    elif kind == 1:
        x = (rng.randn(n) + 1j * rng.randn(n)) * scale
    elif kind == 2:
        x = rng.randint(-100, 100, n)
    else:
        x = np.exp(1j * rng.rand(n) * 7)
    U.upsample(x, up)
    U.upsample(list(x), up)
    U.signal_power(x)
    # integer signals of any width, with full-scale values
    t = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16][rng.randint(6)]
    top = min(np.iinfo(t).max, 2 ** 31 - 1)
    z = rng.randint(-top if np.iinfo(t).min else 0, top, n).astype(t)
    z[rng.randint(n)] = top
    U.signal_power(z)
    U.upsample(z, up)
    U.signal_power(list(x))
    # the first element decides nothing: mixed integer-looking and fractional values
    y = np.concatenate((np.array([x[0] * 0 + 1]), x * 1.25))
    U.signal_power(y)


def long_inputs(c):
    """ Sizes beyond any block, cache or small integer type """
    rng = c.rng
    n = int(rng.choice([255, 256, 257, 1000, 4096, 32768, 65537, 200000]))
    c.note(n=n, s=c.seed)
    t = [np.int8, np.int64, np.uint8, bool][rng.randint(4)]
    p = rng.choice([.001, .5, .999, 1])
    x = rng.randint(0, 2, n)
    U.hamming_dist(x.astype(t), (x ^ (rng.rand(n) < p)).astype(t))
    U.euclid_dist(rng.randn(n), rng.randn(n))
    z = rng.randn(n) + 1j * rng.randn(n)
    U.signal_power(z)
    U.upsample(z[:20000], int(rng.choice([1, 2, 5])))
    w = int(rng.choice([8, 16, 40, 70]))
    m = min(n, 5000)
    U.dec2bitarray([int(v) for v in rng.randint(0, 2 ** min(w, 31), m)], w)
    b = rng.randint(0, 2, min(n, 2000))
    v = U.bitarray2dec(b)
    with mon.quiet():
        back = U.dec2bitarray(v, len(b))
    c.equal(back, b, 'a long word does not make the round trip')


WORKLOADS = {
    'scalar': (scalar, 1200, 20000),
    'sequence': (sequence, 300, 4000),
    'exhaustive': (exhaustive, 12, 12),
    'distances': (distances, 400, 4000),
    'signals': (signals, 400, 4000),
             'long inputs': (long_inputs, 40, 600)}
