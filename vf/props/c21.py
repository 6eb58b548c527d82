"""C21: PN and Zadoff-Chu sequences."""
import math
from fractions import Fraction

import numpy as np

import commpy.sequences as S
from .. import mon

RULE = ('PN sequences of orders 1 to 300 with primitive and arbitrary masks, all kinds of iterables as seeds and masks, '
        'every kind of length; Zadoff-Chu sequences of odd, even, prime and composite lengths with every root and shift; '
        'invalid arguments. Monitors compare each result with a register simulated on integers and with the formula '
        'computed in exact rational arithmetic, and check periods and correlations.')
ASSUMPTIONS = ['Seeds and masks contain 0s and 1s; orders are at least 1; roots, lengths and shifts are Python integers when '
               'they are valid.']
REQUIRE = {'judged pnsequence': 300, 'judged zcsequence': 200, 'maximal': 40, 'cazac': 150, 'rejected': 200, 'long zc': 6}

PRIMITIVE = {2: [2, 1], 3: [3, 2], 4: [4, 3], 5: [5, 3], 6: [6, 5], 7: [7, 6], 8: [8, 6, 5, 4], 9: [9, 5], 10: [10, 7],
             11: [11, 9], 12: [12, 11, 10, 4]}


def lfsr(seed, mask, n):
    """ seed[-1] is the first output; the register is an integer whose bit i is element i """
    order = len(seed)
    reg = sum(b << i for i, b in enumerate(seed))
    msk = sum(b << i for i, b in enumerate(mask))
    out = []
    for _ in range(n):
        out.append(reg >> (order - 1))
        new = bin(reg & msk).count('1') & 1
        reg = ((reg << 1) & ((1 << order) - 1)) | new
    return out


def ints(x):
    return [int(v) for v in x]


def post_pn(c, a, r, t):
    seed, mask, n = ints(a['pn_seed']), ints(a['pn_mask']), int(a['seq_length'])
    c.check(len(seed) == a['pn_order'] and len(mask) == a['pn_order'], 'seed or mask of the wrong length accepted',
            order=a['pn_order'], seed=seed, mask=mask)
    r = np.asarray(r)
    c.check(r.shape == (n,), 'wrong length', shape=r.shape, want=n)
    want = lfsr(seed, mask, n)
    if list(r) != want:
        i = [bool(x != y) for x, y in zip(r, want)].index(True)
        c.fail('not the output of the shift register', position=i, seed=seed, mask=mask, got=r[:i + 3], want=want[:i + 3])


def exc_pn(c, a, e, t):
    bad = len(a['pn_seed']) != a['pn_order'] or len(a['pn_mask']) != a['pn_order']
    c.check(bad and isinstance(e, ValueError), 'pnsequence raised', error=e, args={k: a[k] for k in a if k != '__live__'})


def zc_ok(u, n, q):
    try:
        for v in (u, n, q):
            if float(v) != int(v):
                return False
    except (TypeError, ValueError, OverflowError):
        return False
    return 0 < u < n and math.gcd(int(u), int(n)) == 1


def post_zc(c, a, r, t):
    u, n, q = a['u'], a['seq_length'], a['q']
    c.check(zc_ok(u, n, q), 'invalid arguments accepted', u=u, n=n, q=q)
    u, n, q = int(u), int(n), int(q)
    r = np.asarray(r)
    c.check(r.shape == (n,), 'wrong length', shape=r.shape, want=n)
    cf = n % 2
    # exp(-i pi u k (k + cf + 2 q) / n): the phase is reduced exactly
    ph = np.array([(u * k * (k + cf + 2 * q)) % (2 * n) for k in range(n)]) / float(n)
    tol = 1e-12 + 2e-15 * math.pi * u * (n + 2 * abs(q) + 1)
    c.close(r, np.exp(-1j * math.pi * ph), 'not the Zadoff-Chu sequence', rtol=0, atol=tol, u=u, n=n, q=q)


def exc_zc(c, a, e, t):
    c.check(not zc_ok(a['u'], a['seq_length'], a['q']) and isinstance(e, ValueError), 'zcsequence raised', error=e,
            args={k: a[k] for k in a if k != '__live__'})


def setup():
    p = 'commpy.sequences.'
    mon.attach(p + 'pnsequence', post_pn, exc=exc_pn)
    mon.attach(p + 'zcsequence', post_zc, exc=exc_zc)


def form(rng, bits):
    k = rng.randint(5)
    if k == 0:
        return ''.join(map(str, bits))
    if k == 1:
        return tuple(bits)
    if k == 2:
        return np.array(bits)
    if k == 3:
        return np.array(bits, np.int8)
    return list(bits)


def pn(c):
    rng = c.rng
    order = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 20, 31, 64, 100, 300]))
    seed = [int(b) for b in rng.randint(0, 2, order)]
    mask = [int(b) for b in rng.randint(0, 2, order)]
    k = rng.randint(6)
    if k == 0:
        mask = [1] * order
    elif k == 1:
        seed = [1] * order
        mask = [1] * order
    elif k == 2:
        mask = [0] * order
    n = int(rng.choice([0, 1, 2, order, 3 * order + 1, 257, [257, 4096, 70000][rng.randint(3)]]))
    c.note(order=order, n=n, s=c.seed)
    a, b = form(rng, seed), form(rng, mask)
    S.pnsequence(order, a, b, n)
    c.check(ints(a) == seed and ints(b) == mask, 'the arguments were modified')


def maximal(c):
    rng = c.rng
    order = 2 + c.idx % 11
    taps = PRIMITIVE[order]
    mask = [int(i + 1 in taps) for i in range(order)]
    if rng.randint(2):  # reciprocal polynomial
        mask = [int((order - (i + 1)) in taps or i == order - 1) for i in range(order)]
    seed = [int(b) for b in rng.randint(0, 2, order)]
    if not any(seed):
        seed[rng.randint(order)] = 1
    p = 2 ** order - 1
    c.note(order=order, seed=seed, mask=mask)
    x = np.asarray(S.pnsequence(order, form(rng, seed), form(rng, mask), 2 * p)).astype(int)
    c.equal(x[:p], x[p:], 'the period is not 2^order - 1')
    s = 1 - 2 * x[:p]
    f = np.fft.fft(s)
    corr = np.round(np.fft.ifft(f * f.conj()).real, 6)
    c.close(corr[1:], np.full(p - 1, -1.), 'the autocorrelation of a maximal sequence is not ideal', rtol=0, atol=1e-5)
    c.tag('maximal')


def bad_pn(c):
    rng = c.rng
    order = int(rng.randint(1, 12))
    off = [int(v) for v in rng.choice([-1, 1, 2, 0], 2)]
    if off == [0, 0]:
        off[rng.randint(2)] = 1
    seed, mask = ([int(b) for b in rng.randint(0, 2, max(0, order + o))] for o in off)
    c.note(order=order, seed=seed, mask=mask)
    c.raises(ValueError, S.pnsequence, 'wrong lengths', order, form(rng, seed), form(rng, mask), 10)
    c.tag('rejected')


def zc(c):
    rng = c.rng
    n = int(rng.choice([2, 3, 4, 5, 8, 9, 12, 25, 64, 139, 353, 839, rng.randint(2, 400)]))
    if c.idx % 25 == 0:
        n = int(rng.choice([4099, 40961, 65536, 70001, 100003]))
    roots = [u for u in range(1, n) if math.gcd(u, n) == 1]
    if n > 4000:
        c.tag('long zc')
    u = roots[rng.randint(len(roots))] if rng.randint(4) else [roots[0], roots[-1]][rng.randint(2)]
    q = int(rng.choice([0, 0, 1, 2, 7, n - 1, n, -1, -5, rng.randint(1000)]))
    c.note(u=u, n=n, q=q)
    style = rng.randint(4)
    if q == 0 and style == 0:
        z = S.zcsequence(u, n)
    elif style == 1:
        z = S.zcsequence(u=u, seq_length=n, q=q)
    elif style == 2:
        z = S.zcsequence(np.int64(u), np.int64(n), np.int64(q))
    else:
        z = S.zcsequence(u, n, q)
    z = np.asarray(z)
    c.close(np.abs(z), np.ones(n), 'the amplitude is not constant')
    f = np.fft.fft(z)
    corr = np.fft.ifft(f * f.conj())
    e = np.zeros(n)
    e[0] = n
    c.close(corr, e, 'the cyclic autocorrelation is not zero', rtol=0, atol=(1e-8 if n < 2000 else 1e-5) * n)
    c.tag('cazac')


def bad_zc(c):
    rng = c.rng
    n = int(rng.randint(4, 60))
    k = rng.randint(9)
    u, q = 1, 0
    if k == 0:
        u = -int(rng.randint(0, 5))
    elif k == 1:
        u = n + int(rng.randint(0, 5))
    elif k == 2:
        n *= 2
        u = 2 * int(rng.randint(1, n // 2))
    elif k == 3:
        u = 1 + float(rng.choice([.5, 1e-3, .999]))
    elif k == 4:
        q = float(rng.choice([.5, -.25, 1e-6, 2.5]))
    elif k == 5:
        n = n + .5
    elif k == 6:
        p = int(rng.choice([3, 5, 7]))
        n, u = p * n, p * int(rng.randint(1, n))
    elif k == 7:  # almost integers
        e = float(rng.choice([-1, 1])) * 2. ** -int(rng.randint(20, 46))
        u, n, q = [(u + e, n, q), (u, n + e, q), (u, n, 2 + e)][rng.randint(3)]
    else:
        n = int(rng.randint(-3, 2))
        u = max(1, n)
    c.note(u=u, n=n, q=q)
    c.raises(ValueError, S.zcsequence, 'invalid arguments', u, n, q)
    c.tag('rejected')


WORKLOADS = {'pn': (pn, 350, 10000), 'maximal': (maximal, 66, 1100), 'bad pn': (bad_pn, 150, 2000), 'zc': (zc, 350, 8000),
             'bad zc': (bad_zc, 300, 4000)}
