"""C07: turbo encoding is the parallel concatenation and turbo decoding inverts it."""
import numpy as np

import commpy.channelcoding as CC
from commpy.channelcoding import turbo
from .. import mon
from ..ref.bcjr import bcjr
from .c04 import SPECS, controllable, post_trellis, random_code

RULE = ('Random pairs of recursive systematic rate 1/2 codes (both feedback interfaces), random interleavers and '
        'lengths, 1 to 6 iterations, noise variances from 1e-9 to 1e6, noiseless and noisy streams, with or without '
        'initial intrinsic information.')
ASSUMPTIONS = ['Component codes have at least one memory element; the interleaver has the length of the message.']
REQUIRE = {'judged turbo_encode': 150, 'judged turbo_decode': 150, 'round trip': 80, 'noisy': 60}


def permutation(il, n):
    return [int(x) for x in il.interlv(np.arange(n))]


def post_encode(c, a, r, t):
    c1, c2 = SPECS.get(a['trellis1']), SPECS.get(a['trellis2'])
    if c1 is None or c2 is None:
        return
    msg = [int(b) for b in a['msg_bits']]
    p = permutation(a['interleaver'], len(msg))
    c.check(len(r) == 3, 'turbo encoder does not return three streams', n=len(r))
    want = (msg, c1.run(msg)[0][1::2], c2.run([msg[i] for i in p])[0][1::2])
    for got, w, name in zip(r, want, ('systematic stream', 'first parity stream', 'second parity stream')):
        c.equal(np.asarray(got).astype(int), np.array(w, int), 'wrong ' + name, message=msg, permutation=p)


def post_decode(c, a, r, t):
    tr, il = a['trellis'], a['interleaver']
    ys = [[float(v) for v in a[k]] for k in ('sys_symbols', 'non_sys_symbols_1', 'non_sys_symbols_2')]
    n = len(ys[0])
    nv, it = float(a['noise_variance']), int(a['number_iterations'])
    if n == 0 or it < 1 or not nv > 0:
        return
    p = permutation(il, n)
    r = np.asarray(r)
    c.check(r.shape == (n,), 'wrong number of decoded bits', got=r.shape, n=n)
    c.check(np.all((r == 0) | (r == 1)), 'decoded values are not bits', result=r)
    l1 = [0.] * n if a['L_int'] is None else [float(v) for v in a['L_int']]
    ysi = [ys[0][i] for i in p]
    err = 0.
    for _ in range(it):
        e1, big1 = bcjr(tr, ys[0], ys[1], nv, l1)
        e1 = [x - y for x, y in zip(e1, l1)]
        l2 = [e1[i] for i in p]
        full, big2 = bcjr(tr, ysi, ys[2], nv, l2)
        err = max(err, 1e-11 * (n + 1) * max(big1, big2))
        l1 = [0.] * n
        for pos, i in enumerate(p):
            l1[i] = full[pos] - l2[pos]
    want = np.zeros(n)
    for pos, i in enumerate(p):
        want[i] = full[pos]
    sure = np.abs(want) > 1e-7 + 100 * err
    c.tag('sure bits', int(sure.sum()))
    c.equal(r[sure], (want[sure] > 0).astype(int), 'decoded bits differ from the iterative exchange of extrinsic '
            'information', llr=want, decoded=r, noise_variance=nv, iterations=it)


def setup():
    mon.attach('commpy.channelcoding.convcode.Trellis.__init__', post_trellis, name='Trellis')
    mon.attach('commpy.channelcoding.turbo.turbo_encode', post_encode)
    mon.attach('commpy.channelcoding.turbo.turbo_decode', post_decode)


def rsc(rng, tmax=3):
    """ recursive systematic code of rate 1/2 """
    if rng.randint(2):
        m = int(rng.randint(1, tmax + 1))
        g = rng.randint(0, 2 ** (m + 1), (1, 2)) | (1 << m)
        g[0, 0] = 1
        fb = int(rng.randint(0, 2 ** m)) | (1 << m) | 1
        return CC.Trellis(np.array([m]), g, fb, 'rsc'), 'int fb m %d g %s fb %d' % (m, g.tolist(), fb)
    while True:
        tr, d = random_code(rng, 1, tmax, True, True)
        if int(tr.n) == 2 and controllable(tr):
            return tr, d


def encode(c):
    rng = c.rng
    t1, d1 = rsc(rng, 4)
    t2, d2 = rsc(rng, 4)
    n = int(rng.choice([1, 2, 3, 5, 8, 20, 100]))
    il = CC.RandInterlv(n, int(rng.randint(10000)))
    c.note(t1=d1, t2=d2, n=n)
    msg = rng.randint(0, 2, n).astype([int, np.int8][rng.randint(2)])
    CC.turbo_encode(msg, t1, t2, il)
    CC.turbo_encode(msg, t1, t1, il)


def noise_var(rng):
    return float(rng.choice([1e-9, 1e-4, .01, .1, .5, 1, 3, 100, 1e6]))


def roundtrip(c):
    rng = c.rng
    tr, d = rsc(rng)
    n = int(rng.choice([1, 2, 4, 8, 12, 12, [100, 200, 500][rng.randint(3)]]))
    il = CC.RandInterlv(n, int(rng.randint(10000)))
    msg = rng.randint(0, 2, n)
    s = [2. * np.asarray(v) - 1 for v in CC.turbo_encode(msg, tr, tr, il)]
    nv, it = noise_var(rng), int(rng.choice([1, 2, 3, 6]))
    lint = None
    if rng.randint(3) == 0:
        lint = (2. * msg - 1) * rng.choice([.5, 4])
    c.note(code=d, n=n, nv=nv, it=it, lint=lint is not None)
    got = CC.turbo_decode(s[0], s[1], s[2], tr, nv, it, il) if lint is None else \
        CC.turbo_decode(s[0], s[1], s[2], tr, nv, it, il, lint)
    c.tag('round trip')
    c.equal(np.asarray(got), msg, 'turbo decoding without noise does not return the message', noise_variance=nv)


def noisy(c):
    rng = c.rng
    tr, d = rsc(rng, 2)
    n = int(rng.choice([2, 5, 10, 16]))
    nv = float(rng.uniform(.2, 4))
    it = int(rng.randint(1, 5))
    if c.idx % 3 == 0:  # decisions go on changing for many iterations
        n, nv, it = int(rng.choice([24, 32, 40])), float(rng.uniform(1., 2.)), int(rng.randint(5, 11))
    il = CC.RandInterlv(n, int(rng.randint(10000)))
    msg = rng.randint(0, 2, n)
    s = [2. * np.asarray(v) - 1 + np.sqrt(nv) * rng.randn(n) for v in CC.turbo_encode(msg, tr, tr, il)]
    lint = [None, np.zeros(n), rng.randn(n)][rng.randint(3)]
    c.note(code=d, n=n, nv='%.3g' % nv, it=it)
    c.tag('noisy')
    CC.turbo_decode(s[0], s[1], s[2], tr, nv, it, il, lint)


WORKLOADS = {'encode': (encode, 150, 2500), 'roundtrip': (roundtrip, 160, 3000), 'noisy': (noisy, 120, 2500)}
