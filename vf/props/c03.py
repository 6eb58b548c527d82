"""C03: soft demodulation returns the exact log-likelihood ratios."""
import numpy as np

import commpy.modulation as M
from commpy.channels import SISOFlatChannel
from commpy.links import LinkModel
from .. import mon
from .c02 import custom, samples

RULE = ('All PSK and QAM sizes up to 2048 and custom constellations, samples on, near, between and far from the points, '
        'noise variances from 1e-12 to 1e12 times the symbol energy, the same few '
        'samples given again with other variances and constellations, and demodulations made by coded links.')
ASSUMPTIONS = ['The noise variance is positive and the ratio of squared distances to it stays below 1e300.']
REQUIRE = {'judged demodulate': 300, 'dominant sign': 500}


def lse(a, axis):
    m = a.max(axis=axis)
    return m + np.log(np.exp(a - np.expand_dims(m, axis)).sum(axis=axis))


def post(c, a, r, t):
    if a['demod_type'] != 'soft':
        return
    m, nv = a['self'], float(a['noise_var'])
    if not nv > 0:
        return
    k = np.asarray(m.constellation).astype(complex)
    y = np.asarray(a['input_symbols']).astype(complex)
    b = m.num_bits_symbol
    r = np.asarray(r)
    c.check(r.shape == (len(y) * b,), 'wrong number of LLRs', shape=r.shape, n=len(y))
    c.check(np.all(np.isfinite(r)), 'LLR is not finite', result=r, samples=y, noise_var=nv)
    r = r.reshape(len(y), b)
    df = y[:, None] - k[None, :]
    e = -(df.real ** 2 + df.imag ** 2) / nv
    lab = np.arange(len(k))
    for i in range(b):
        one = (lab >> (b - 1 - i)) & 1 == 1
        w1, w0 = lse(e[:, one], 1), lse(e[:, ~one], 1)
        want = w1 - w0
        tol = 1e-14 + 1e-12 * (np.abs(w1) + np.abs(w0)) + 1e-9 * np.abs(want)
        bad = np.abs(r[:, i] - want) > tol
        if bad.any():
            j = int(np.argmax(bad))
            c.fail('wrong LLR', bit=i, sample=y[j], noise_var=nv, got=r[j, i], expected=want[j], constellation=k)
        big = np.abs(want) > 1 + tol
        STRONG[0] += int(big.sum())
        if b and big.any():
            near = lab[np.argmax(e, axis=1)]
            bit = (near >> (b - 1 - i)) & 1
            # when one point dominates, soft and hard decisions agree
            srt = np.sort(e, axis=1)
            dom = (srt[:, -1] - srt[:, -2] > np.log(len(k)) + 1e-6 + 1e-9 * np.abs(srt[:, -1])) if len(k) > 1 else big
            c.tag('dominant sign', int(dom.sum()))
            c.check(np.all((r[:, i] > 0)[dom] == (bit == 1)[dom]), 'sign of a dominant point', samples=y[dom])


STRONG = [0]


def setup():
    mon.attach('commpy.modulation.Modem.demodulate', post)


def run(c, m, n):
    rng = c.rng
    es = float(np.real(m.Es)) or 1.
    y = samples(rng, m.constellation, n)
    nv = es * 10. ** rng.choice([-12, -6, -3, -2, -1, -.5, 0, .5, 1, 3, 8, 12])
    y = np.where(np.abs(y) ** 2 / nv < 1e290, y, 0)
    if rng.randint(8) == 0:
        y = y.real
    c.note(nv='%.3g' % nv)
    soft = m.demodulate(y, 'soft', nv)
    with mon.quiet():
        hard = m.demodulate(y, 'hard')
    c.check(len(soft) == len(hard), 'soft and hard lengths differ')


def std(c):
    i = c.idx % 11
    m = M.PSKModem(2 ** (i + 1)) if i < 7 else M.QAMModem(4 ** (i - 6))
    c.note(m=('psk' if i < 7 else 'qam') + str(m.m), s=c.idx)
    run(c, m, max(3, 300 // m.m))


def cust(c):
    b = int(c.rng.randint(1, 6))
    k, kind = custom(c.rng, b)
    m = M.Modem(k, reorder_as_gray=bool(c.rng.randint(2)))
    if c.rng.randint(3) == 0:
        m.constellation = custom(c.rng, int(c.rng.randint(1, 5)))[0]
    c.note(kind=kind, b=b, s=c.idx)
    run(c, m, 12)


def large(c):
    """ constellations with words of more than 8 bits """
    rng = c.rng
    i = c.idx % 4
    if i == 0:
        m = M.PSKModem(512 << int(rng.randint(3)))
    elif i == 1:
        m = M.QAMModem(1024)
    else:
        b = int(rng.randint(9, 12))
        m = M.Modem(custom(rng, b)[0], reorder_as_gray=bool(i % 2))
    c.note(m=m.m, i=i, s=c.idx)
    run(c, m, 3)
    # noiseless symbols of known words
    bits = rng.randint(0, 2, 2 * m.num_bits_symbol)
    y = m.modulate(bits)
    k = np.sort(np.asarray(m.constellation))
    nv = float(np.abs(np.diff(k)).min()) ** 2 / 100
    if nv > 0:
        c.equal(np.asarray(m.demodulate(y, 'soft', nv)) > 0, bits == 1, 'signs of the noiseless symbols')


def repeat(c):
    """ few samples demodulated again and again by the same modem: only the arguments count """
    rng = c.rng
    m = [M.PSKModem(4), M.QAMModem(4), M.QAMModem(16), M.Modem(custom(rng, 2)[0])][c.idx % 4]
    es = float(np.real(m.Es)) or 1.
    y = samples(rng, m.constellation, 4)
    y = np.where(np.abs(y) < 1e3 * np.sqrt(es), y, 0)
    nvs = es * 10. ** rng.uniform(-2, 1, 3)
    c.note(m=m.m, s=c.idx)
    for _ in range(25):
        if rng.randint(8) == 0:
            m.constellation = np.asarray(m.constellation)[rng.permutation(m.m)]
        n = int(rng.choice([0, 1, 1, 1, 2, 3]))
        m.demodulate(y[rng.randint(0, 4, n)], 'soft', float(nvs[rng.randint(3)]))
        if rng.randint(3) == 0:
            with mon.quiet():
                m.demodulate(y[:1], 'hard')


def awgn_like(c):
    """ the usual case: noisy modulated bits """
    rng = c.rng
    m = [M.PSKModem(2), M.PSKModem(4), M.PSKModem(8), M.QAMModem(4), M.QAMModem(16), M.QAMModem(64)][c.idx % 6]
    s = m.modulate(rng.randint(0, 2, 20 * m.num_bits_symbol))
    nv = float(m.Es) / 10 ** rng.uniform(-1, 3)
    c.note(m=m.m, nv=nv)
    y = s + np.sqrt(nv / 2) * (rng.randn(len(s)) + 1j * rng.randn(len(s)))
    m.demodulate(y, 'soft', nv)


def link(c):
    from commpy.channelcoding import Trellis, conv_encode, viterbi_decode
    tr = Trellis(np.array([2]), np.array([[0o5, 0o7]]))
    m = [M.QAMModem(16), M.PSKModem(4)][c.idx % 2]
    ch = SISOFlatChannel(fading_param=(1 + 0j, 0))
    lk = LinkModel(lambda b: m.modulate(conv_encode(b, tr, 'cont')), ch,
                   lambda y, h, k, nv: m.demodulate(y, 'soft', nv), m.num_bits_symbol, m.constellation, float(m.Es),
                   lambda z: viterbi_decode(z, tr, 15, 'soft'), .5)
    c.note(link=c.idx, s=c.seed)
    lk.link_performance([2, 6, 40], 48, 100, 24, .5)


WORKLOADS = {'standard': (std, 220, 3000), 'custom': (cust, 250, 4000), 'noisy': (awgn_like, 60, 1000),
             'large': (large, 12, 200), 'repeat': (repeat, 24, 300),
             'link': (link, 4, 40)}
