"""C24: iterative detection and decoding exchanges the extrinsic information."""
import itertools

import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
from ..core import STATE

RULE = ('Iterative receivers built from recording detectors, decoders and decisions (random non-linear maps, max-log '
        'detectors, repetition decoders), with 1 to 257 vectors, 1 to 4 antennas, 1 to 8 bits per vector and 1 to 40 '
        'iterations, values from 1e-6 to 1e9, called directly several times and by link simulations; the trace of all calls is judged.')
ASSUMPTIONS = ['At least one iteration; a priori values are floating point; detectors and decoders leave their arguments '
               'unmodified.']
REQUIRE = {'trace judged': 300, 'detector call': 3000, 'decoder call': 900, 'several iterations': 150, 'link': 10, 'many vectors': 12}


class Recorder:
    def __init__(self, detector, decoder, decision):
        self.f = detector, decoder, decision
        self.log = []

    def detector(self, y, h, constellation, noise_var, a_priori):
        a = [np.array(v) for v in (y, h, constellation, noise_var, a_priori)]
        r = self.f[0](y, h, constellation, noise_var, a_priori)
        STATE.event('detector call')
        self.log.append(('detector', a, np.array(r)))
        return r

    def decoder(self, x):
        a = np.array(x)
        r = self.f[1](x)
        STATE.event('decoder call')
        self.log.append(('decoder', a, np.array(r)))
        return r

    def decision(self, x):
        a = np.array(x)
        r = self.f[2](x)
        STATE.event('decision call')
        self.log.append(('decision', a, np.array(r)))
        return r


def judge(c, log, y, h, const, nv, ap, bits, n_it, result):
    """ the trace of one call """
    n = len(y)
    pos = 0
    cur = ap
    total = n * bits

    def near(got, want, what, **d):
        w = np.asarray(want, float)
        sc = max(1., float(np.abs(w).max())) if w.size else 1.
        c.close(np.asarray(got, float), w, what, rtol=1e-9, atol=1e-9 * sc, **d)

    for it in range(n_it):
        c.check(pos < len(log) and log[pos][0] == 'decoder', 'the decoder is not called at an iteration', iteration=it,
                calls=[x[0] for x in log])
        _, din, dout = log[pos]
        pos += 1
        near(din, cur, 'the decoder is not fed the detector output minus the detector input' if it else
             'the decoder is not fed the a priori values first', iteration=it)
        ext = dout.astype(float) - din
        calls = log[pos:pos + n]
        pos += n
        c.check(len(calls) == n and all(x[0] == 'detector' for x in calls), 'not one detection per vector', iteration=it,
                calls=[x[0] for x in log])
        out = np.zeros(total)
        for i, (_, a, r) in enumerate(calls):
            c.equal(a[0], y[i], 'a vector was not detected with its received vector', vector=i)
            c.equal(a[1], h[i], 'a vector was not detected with its channel matrix', vector=i)
            c.equal(a[2], const, 'the detector did not get the constellation')
            c.equal(a[3], nv, 'the detector did not get the noise variance')
            near(a[4], ext[i * bits:(i + 1) * bits], 'the detector is not fed the decoder output minus the decoder input',
                 iteration=it, vector=i)
            out[i * bits:(i + 1) * bits] = r
        cur = out - ext
    c.check(pos + 1 == len(log) and log[pos][0] == 'decision', 'the decision is not the last call',
            calls=[x[0] for x in log])
    near(log[pos][1], out, 'the decision is not made on the last detector output')
    c.equal(result, log[pos][2], 'the result is not the decision')
    STATE.event('trace judged')
    if n_it > 1:
        c.tag('several iterations')


def functions(rng, bits, total, amp=1.):
    """ arbitrary deterministic detector, decoder and decision """
    a, b = rng.randn(bits), rng.randn(bits, bits)
    p = rng.permutation(total)
    s = rng.randn(total)
    kind = rng.randint(4)

    def detector(y, h, k, nv, ap):
        v = float(np.abs(y).sum() + np.abs(h).sum())
        return (np.tanh(b.dot(ap) / amp) * 3 + a * v) * amp + ap * .5

    def decoder(x):
        if kind == 0:
            return x
        if kind == 1:
            return 2 * x
        return np.clip(x[p] * s, -5 * amp, 5 * amp) + x

    def decision(x):
        return (x < 0).astype(int)[:max(1, total // 2)]
    if rng.randint(4) == 0:
        return detector, decoder, lambda x: (x > 0)
    return detector, decoder, decision


def direct(c):
    rng = c.rng
    n, nt, bits = int(rng.randint(1, 13)), int(rng.randint(1, 5)), int(rng.randint(1, 9))
    nr = nt + int(rng.randint(3))
    n_it = int(rng.randint(1, 7) if rng.randint(6) else rng.choice([9, 12, 21, 40]))
    if n_it > 8:
        n = min(n, 4)
    elif c.idx % 12 == 0:
        n, n_it, bits = int(rng.choice([33, 64, 70, 130, 257])), min(n_it, 3), min(bits, 4)
        c.tag('many vectors')
    amp = float(rng.choice([1, 1, 1, 1e-6, 1e4, 1e9]))
    c.note(n=n, nt=nt, nr=nr, bits=bits, n_it=n_it, s=c.seed)
    rec = Recorder(*functions(rng, bits, n * bits, amp))
    f = LK.idd_decoder(rec.detector, rec.decoder, rec.decision, n_it)
    for _ in range(2):
        y = rng.randn(n, nr) + 1j * rng.randn(n, nr)
        h = rng.randn(n, nr, nt) + 1j * rng.randn(n, nr, nt)
        ap = rng.randn(n * bits) * 3 * amp
        const, nv = rng.randn(4), float(rng.rand())
        keep = [v.copy() for v in (y, h, const, ap)]
        rec.log = []
        r = f(y, h, const, nv, ap, bits)
        judge(c, rec.log, keep[0], keep[1], keep[2], nv, keep[3], bits, n_it, r)
        for v, k, name in zip((y, h, const, ap), keep, ('received vectors', 'channels', 'constellation', 'a priori values')):
            c.equal(v, k, 'the %s given by the caller were modified' % name)


def real_detector(m, nt, mode=0):
    """ max-log detector with a priori LLRs (positive for bit 0) """
    k = np.asarray(m.constellation)
    pts = np.array(list(itertools.product(range(len(k)), repeat=nt)))
    b = m.num_bits_symbol
    words = ((pts[:, :, None] >> np.arange(b - 1, -1, -1)) & 1).reshape(len(pts), -1)

    def detector(y, h, const, nv, ap):
        d = (np.abs(y[None, :] - k[pts].dot(h.T)) ** 2).sum(1) / nv + words.dot(ap)
        return np.array([d[words[:, i] == 1].min() - d[words[:, i] == 0].min() for i in range(words.shape[1])])
    return detector


def link(c):
    rng = c.rng
    m = MO.PSKModem(4) if rng.randint(2) else MO.PSKModem(2)
    nt = int(rng.randint(1, 4))
    ch = CH.MIMOFlatChannel(nt, nt)
    ch.uncorr_rayleigh_fading(complex)
    n_it = int(rng.randint(1, 4))
    rep = 2
    det = real_detector(m, nt)

    def decoder(x):  # repetition code: the values of a group are added
        g = x.reshape(-1, rep)
        return np.repeat(g.sum(1), rep)
    rec = Recorder(det, decoder, lambda x: (x.reshape(-1, rep).sum(1) < 0).astype(int))
    inner = LK.idd_decoder(rec.detector, rec.decoder, rec.decision, n_it)
    bits = nt * m.num_bits_symbol

    def outer(y, h, constellation, noise_var, a_priori, bits_per_send):
        rec.log = []
        keep = [np.array(v) for v in (y, h, constellation, a_priori)]
        r = inner(y, h, constellation, noise_var, a_priori, bits_per_send)
        judge(c, rec.log, keep[0], keep[1], keep[2], noise_var, keep[3], bits_per_send, n_it, r)
        c.check(bits_per_send == bits, 'wrong number of bits per vector')
        return r
    c.note(m=m.m, nt=nt, n_it=n_it, s=c.seed)
    lk = LK.LinkModel(lambda x: m.modulate(np.repeat(x, rep)), ch,
                      lambda y, h, k, nv: det(y, h, k, nv, np.zeros(bits)), m.num_bits_symbol, m.constellation, m.Es,
                      outer if rng.randint(2) else (lambda y, h, constellation, noise_var, a_priori, bits_per_send:
                                                    outer(y, h, constellation, noise_var, a_priori, bits_per_send)), .5)
    from fractions import Fraction
    chunk = nt * m.num_bits_symbol * 4
    r = lk.link_performance([-3., 60.], 4 * chunk, 10 ** 6, chunk, Fraction(1, 2))
    lk.link_performance_full_metrics([40.], 2, 1, chunk, .5)
    c.tag('link')


WORKLOADS = {'direct': (direct, 300, 12000), 'link': (link, 30, 800)}
