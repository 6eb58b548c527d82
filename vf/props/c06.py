"""C06: MAP decoding computes the exact a posteriori log-likelihood ratios."""
import numpy as np

import commpy.channelcoding as CC
from commpy.channelcoding import turbo
from .. import mon
from ..boot import Poison
from ..ref.bcjr import bcjr, brute
from .c04 import random_code

RULE = ('Rate 1/2 trellises (recursive systematic through both interfaces, feed-forward), blocks from 1 to 40 bits, '
        'noisy codewords, garbage and extreme values, noise variances from 1e-12 to 1e6, random, strong and null a '
        'priori values, and the decodings made by turbo decoders.')
ASSUMPTIONS = ['Squared distances divided by the noise variance stay below 1e290; a priori values are finite.']
REQUIRE = {'judged map_decode': 300, 'brute force': 100}


def rate_half(tr):
    return int(tr.k) == 1 and int(tr.n) == 2


def judge(c, tr, y0, y1, nv, lint, mode, r):
    lext, bits = r
    lext, bits = np.asarray(lext), np.asarray(bits)
    c.check(lext.shape == (len(y0),) and bits.shape == (len(y0),), 'wrong shapes', got=(lext.shape, bits.shape))
    c.check(np.all(np.isfinite(lext)), 'LLR is not finite', result=lext, noise_variance=nv, sys=y0, par=y1, prior=lint)
    want, big = bcjr(tr, y0, y1, nv, lint)
    if len(y0) <= 8:
        b = np.asarray(brute(tr, y0, y1, nv, lint))
        c.tag('brute force')
        # the two oracles watch each other
        assert np.all(np.abs(b - want) <= 1e-8 * (1 + np.abs(b)) + 1e-10 * big * (len(y0) + 1)), 'oracles disagree'
    tol = 1e-9 * (1 + np.abs(want)) + 1e-12 * big * (len(y0) + 1)
    bad = np.abs(lext - want) > tol
    if bad.any():
        i = int(np.argmax(bad))
        c.fail('wrong a posteriori LLR', position=i, got=lext[i], expected=want[i], noise_variance=nv, sys=y0, par=y1,
               prior=lint)
    if mode == 'decode':
        c.equal(bits, (lext > 0).astype(int), 'bits are not the signs of the LLRs', llr=lext)
        c.tag('decode mode')


def post(c, a, r, t):
    tr = a['trellis']
    nv = float(a['noise_variance'])
    if not rate_half(tr) or not nv > 0:
        return
    judge(c, tr, [float(x) for x in a['sys_symbols']], [float(x) for x in a['non_sys_symbols']], nv,
          [float(x) for x in a['L_int']], a['mode'], r)


def setup():
    mon.attach('commpy.channelcoding.turbo.map_decode', post)


def pick_code(rng, tmax=3):
    kind = rng.randint(4)
    if kind == 0:
        m = int(rng.randint(1, tmax + 1))
        g = rng.randint(0, 2 ** (m + 1), (1, 2)) | (1 << m)
        g[0, 0] = 1
        fb = int(rng.randint(0, 2 ** m)) | (1 << m) | 1
        return CC.Trellis(np.array([m]), g, fb, 'rsc'), 'int fb m %d g %s fb %d' % (m, g.tolist(), fb)
    if kind == 1:
        m, g = [(2, (5, 7)), (3, (0o15, 0o17)), (1, (3, 2))][rng.randint(3)]
        return CC.Trellis(np.array([m]), np.array([g])), 'ff %s' % (g,)
    while True:
        tr, d = random_code(rng, 1, tmax, True, True)
        if rate_half(tr):
            return tr, d


def received(rng, tr, n):
    bits = rng.randint(0, 2, n)
    coded = np.asarray(CC.conv_encode(bits, tr, 'cont'))
    s = 2. * coded - 1
    how = rng.randint(5)
    if how == 0:
        y = s
    elif how == 1:
        y = rng.randn(2 * n) * rng.choice([.1, 1, 10])
    elif how == 2:
        y = rng.choice([-30., -1, 0, 1, 5], 2 * n)
    else:
        y = s + rng.randn(2 * n) * rng.choice([.3, .7, 1.5])
    nv = float(rng.choice([1e-12, 1e-6, 1e-3, .01, .1, .5, 1, 2, 10, 1e3, 1e6]))
    if rng.randint(2):
        nv = float(rng.uniform(.2, 3))
    lint = [np.zeros(n), rng.randn(n), rng.randn(n) * 10, rng.choice([-200., -30, 0, 30, 200], n),
            rng.choice([-1., 1], n) * 10. ** rng.uniform(2, 7, n)][rng.choice(5, p=[.23, .23, .23, .23, .08])]
    return y[::2], y[1::2], nv, lint


def decode(c):
    rng = c.rng
    tr, d = pick_code(rng)
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 12]))
    y0, y1, nv, lint = received(rng, tr, n)
    mode = ['decode', 'compute'][rng.randint(2)]
    c.note(code=d, n=n, nv='%.4g' % nv, mode=mode)
    r = turbo.map_decode(y0, y1, tr, nv, lint, mode)
    if rng.randint(4) == 0:
        for Poison.mode in (1, 2):
            try:
                r2 = turbo.map_decode(y0, y1, tr, nv, lint, mode)
            finally:
                Poison.mode = 0
            c.equal(r2[0], r[0], 'the LLRs depend on the content of uninitialised memory')


def longer(c):
    rng = c.rng
    tr, d = pick_code(rng, 4)
    n = int(rng.choice([20, 30, 40, 40, 150, 600]))
    if tr.number_states > 4:
        n = min(n, 150) if c.idx % 4 == 0 else 20
    y0, y1, nv, lint = received(rng, tr, n)
    c.note(code=d, n=n, nv='%.4g' % nv)
    if rng.randint(2):
        turbo.map_decode(y0, y1, tr, nv, lint)
    else:
        turbo.map_decode(y0, y1, tr, nv, lint, 'decode')


def within_turbo(c):
    rng = c.rng
    tr, d = pick_code(rng, 2)
    n = int(rng.choice([3, 8, 12]))
    il = CC.RandInterlv(n, int(rng.randint(1000)))
    bits = rng.randint(0, 2, n)
    p1 = np.asarray(CC.conv_encode(bits, tr, 'cont'))[1::2]
    p2 = np.asarray(CC.conv_encode(il.interlv(bits), tr, 'cont'))[1::2]
    nv = float(rng.uniform(.3, 2))
    y = [2. * v - 1 + np.sqrt(nv) * rng.randn(n) for v in (bits, p1, p2)]
    c.note(code=d, n=n, nv='%.4g' % nv)
    turbo.turbo_decode(y[0], y[1], y[2], tr, nv, int(rng.randint(1, 4)), il)


WORKLOADS = {'decode': (decode, 450, 8000), 'longer': (longer, 60, 1200), 'within_turbo': (within_turbo, 40, 600)}
