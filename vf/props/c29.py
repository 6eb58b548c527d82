"""C29: simulated links reproduce the theoretical error rates."""
import math
import os

import numpy as np
from scipy.stats import binom

import commpy.channelcoding as CC
import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
from commpy.channelcoding import ldpc as LD
from .. import mon
from ..boot import REPO
from ..core import STATE
from ..ref import theory as T

RULE = ('Link simulations of all PSK (2 to 32) and QAM (4 to 1024) modems and of real antipodal signals over AWGN, Rayleigh, '
        'diversity (1xN maximal ratio) and NxM zero-forced channels, at random SNRs, by both simulation functions; the BER '
        'returned is compared with exact integrals over decision regions. Convolutional codes (hard and soft) with their '
        'union bound, soft decisions with hard ones; turbo and LDPC codes with their reference rates.')
ASSUMPTIONS = ['SNR is the ratio of the received symbol power per antenna to the noise power, divided by the code rate.',
               'Statistical comparisons at 7 standard deviations.']
REQUIRE = {'uncoded BER compared': 70, 'bits': 5000000, 'coded BER compared': 15, 'soft against hard': 3,
           'several SNRs': 6}


class Counter:
    """ Counts what a simulation sends. """

    def __init__(self, modulate):
        self.f, self.bits, self.calls = modulate, 0, 0

    def __call__(self, b):
        self.bits += len(b)
        self.calls += 1
        return self.f(b)


def ber_function(m):
    k = np.asarray(m.constellation)
    return (lambda g: T.psk_ber(k, g)) if np.allclose(np.abs(k), abs(k[0])) and len(k) != 4 else (
        (lambda g: T.qam_ber(k, g)) if len(k) != 4 or isinstance(m, MO.QAMModem) else (lambda g: T.psk_ber(k, g)))


_modems = {}


def modem(kind, size):
    if (kind, size) not in _modems:
        _modems[kind, size] = MO.PSKModem(size) if kind == 'psk' else MO.QAMModem(size)
    return _modems[kind, size]


KINDS = [('psk', 2), ('psk', 4), ('psk', 8), ('psk', 16), ('psk', 32), ('qam', 4), ('qam', 16), ('qam', 64), ('qam', 256),
         ('qam', 1024)]


def useful_snr(rng, m, fading):
    """ An SNR in dB where the error rate is measurable. """
    base = 10 * math.log10({2: 1, 4: 2, 8: 5, 16: 12, 32: 40, 64: 25, 256: 90, 1024: 300}[m])
    return base + (rng.uniform(-4, 5) if not fading else rng.uniform(-4, 14))


def compare(c, ber, bits, theory, b, what, **d):
    """ b: bound of the number of dependent bit errors. """
    sd = math.sqrt(theory * b / bits)
    c.check(abs(ber - theory) <= 7 * sd + 25. * b / bits, what, ber=ber, theory=theory, bits=bits, sd=sd, **d)
    STATE.event('uncoded BER compared')
    STATE.event('bits', int(bits))


def simulate(c, model, snrs, bits, chunk):
    """ -> [(BER, bits)] with a fixed number of bits, by one of the simulation functions """
    out = []
    k = c.rng.randint(3)
    for s in snrs:
        n = Counter(model.modulate)
        model.modulate = n
        if k == 0:
            r = LK.link_performance(model, [s], bits, 10 ** 9, chunk)
        elif k == 1:
            r = model.link_performance(np.array([s]), bits, 10 ** 9, chunk)
        else:
            r = model.link_performance_full_metrics([s], -(-bits // chunk), 10 ** 9, chunk, code_rate=1.)[0]
        model.modulate = n.f
        out.append((float(r[0]), n.bits))
    return out


def siso(c):
    rng = c.rng
    kind, size = KINDS[c.idx % len(KINDS)]
    m = modem(kind, size)
    fading = bool(c.idx // len(KINDS) % 2)
    soft = size <= 4 and bool(rng.randint(2))
    snr = useful_snr(rng, size, fading)
    total = 30000 if size == 1024 else 80000 + 20000 * m.num_bits_symbol
    chunk = int(rng.choice([1, 5, 20])) * 1000
    ch = CH.SISOFlatChannel(None, (0j, 1) if fading else (1 + 0j, 0))

    def receive(y, h, k, nv):
        if soft:
            return (m.demodulate(y / h, 'soft', nv) > 0).astype(int)
        return m.demodulate(y / h, 'hard')
    model = LK.LinkModel(m.modulate, ch, receive, m.num_bits_symbol, m.constellation, m.Es)
    c.note(kind=kind, size=size, fading=fading, snr=snr, soft=soft)
    (ber, bits), = simulate(c, model, [snr], total, chunk)
    f = ber_function(m)
    g = 10 ** (snr / 10)
    theory = T.faded(f, g, 1, 250) if fading else float(f([g])[0])
    compare(c, ber, bits, theory, m.num_bits_symbol, 'the BER of an uncoded SISO link is not the theoretical one',
            modem=(kind, size), fading=fading, snr=snr)


def antipodal(c):
    """ Real signals over real channels, without and with a rate. """
    rng = c.rng
    fading = bool(c.idx % 2)
    snr = rng.uniform(-6, 9) if not fading else rng.uniform(-6, 16)
    a = float(10 ** rng.uniform(-2, 2))
    ch = CH.SISOFlatChannel(None, (0, 1) if fading else (1, 0))
    model = LK.LinkModel(lambda b: a * (1. - 2 * b), ch, lambda y, h, k, nv: np.asarray(y / h < 0, int), 1,
                         np.array([a, -a]), a * a)
    c.note(fading=fading, snr=snr, a=a)
    (ber, bits), = simulate(c, model, [snr], 300000, 5000)
    g = 10 ** (snr / 10)
    if fading:
        v = np.linspace(-8, 8, 4001)
        w = np.exp(-v * v / 2)
        theory = float((w * T.Q(np.abs(v) * math.sqrt(g))).sum() / w.sum())
    else:
        theory = float(T.Q(math.sqrt(g)))
    compare(c, ber, bits, theory, 1, 'the BER of a real link is not the theoretical one', fading=fading, snr=snr, a=a)


def mimo(c):
    """ Zero forcing and maximal ratio combining: Gamma distributed SNR per stream of order nr - nt + 1. """
    rng = c.rng
    kind, size = [('psk', 2), ('qam', 4), ('qam', 16), ('psk', 8)][c.idx % 4]
    m = modem(kind, size)
    nt = int(rng.choice([1, 1, 2, 3]))
    nr = nt + int(rng.randint(0, 3))
    ch = CH.MIMOFlatChannel(nt, nr)
    ch.uncorr_rayleigh_fading(complex)
    snr = useful_snr(rng, size, True) - 3 + 3 * (nt - 1)
    ml = nt == 1 and bool(rng.randint(2))

    def receive(y, h, k, nv):
        if ml:
            return m.demodulate(np.atleast_1d(MO.mimo_ml(y, h, k)), 'hard')
        return m.demodulate(np.linalg.solve(h.conj().T @ h, h.conj().T @ y), 'hard')
    model = LK.LinkModel(m.modulate, ch, receive, m.num_bits_symbol, m.constellation, m.Es)
    c.note(kind=kind, size=size, nt=nt, nr=nr, snr=snr, ml=ml)
    per = m.num_bits_symbol * nt
    (ber, bits), = simulate(c, model, [snr], 2500 * per, 250 * per)
    theory = T.faded(ber_function(m), 10 ** (snr / 10) / nt, nr - nt + 1, 250)
    compare(c, ber, bits, theory, per, 'the BER of a MIMO link is not the theoretical one', modem=(kind, size), nt=nt, nr=nr,
            snr=snr, ml=ml)


def curve(c):
    """ Several SNRs with the usual stopping rule. """
    rng = c.rng
    kind, size = KINDS[c.idx % 8]
    m = modem(kind, size)
    start = useful_snr(rng, size, False) - 3
    snrs = start + np.arange(4) * 1.2
    ch = CH.SISOFlatChannel(None, (1 + 0j, 0))
    seen = []

    def modulate(b):
        s = float(ch.noise_std)
        if not seen or seen[-1][0] != s:
            seen.append([s, 0])
        seen[-1][1] += len(b)
        return m.modulate(b)
    model = LK.LinkModel(modulate, ch, lambda y, h, k, nv: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation, m.Es)
    c.note(kind=kind, size=size, start=start)
    err = 1500
    if rng.randint(2):
        r = LK.link_performance(model, snrs, 200000, err, 2400)
    else:
        r = model.link_performance_full_metrics(snrs, 84, err, 2400)[0]
    theory = ber_function(m)(10 ** (snrs / 10))
    c.check(len(seen) >= 1, 'nothing was sent')
    for i, (s, n) in enumerate(seen):
        compare(c, float(r[i]), n, float(theory[i]), m.num_bits_symbol, 'the BER of a curve is not the theoretical one',
                modem=(kind, size), snr=snrs[i], i=i)
    if len(seen) > 1:
        c.tag('several SNRs')


_codes = {}


def code(i):
    if i not in _codes:
        g = [(2, [5, 7]), (2, [5, 7, 7]), (3, [0o13, 0o17]), (1, [1, 3])][i]
        t = CC.Trellis(np.array([g[0]]), np.array([g[1]]))
        from ..ref.conv import Circuit
        circ = Circuit([g[0]], [g[1]])
        S = 2 ** g[0]
        ns, ot = np.zeros((S, 2), int), np.zeros((S, 2), int)
        for s in range(S):
            for u in range(2):
                nxt, o = circ.step(circ.state(s), [u])
                ns[s, u] = circ.number(nxt)
                ot[s, u] = int(''.join(map(str, o)), 2)
        _codes[i] = t, T.spectrum(ns, ot, 40), g
    return _codes[i]


def convolutional(c):
    rng = c.rng
    i = c.idx % 4
    t, (a, b), g = code(i)
    n = len(g[1])
    soft = bool(c.idx // 4 % 2)
    rate = 1. / n
    # Es/N0 such that the bound is useful
    grid = np.arange(-6., 10, .25)

    def bound(x):
        gs = 10 ** (x / 10)
        p = float(T.Q(math.sqrt(2 * gs)))
        return sum(b[d] * (float(T.Q(math.sqrt(2 * d * gs))) if soft else T.hard_pair(d, p)) for d in range(len(b)) if b[d])
    target = rng.uniform(.006, .03)
    es = next(x for x in grid if bound(x) < target)
    snr = es - 10 * math.log10(rate)
    ch = CH.SISOFlatChannel(None, (1 + 0j, 0))
    bpsk = modem('psk', 2)

    def modulate(bits):
        return bpsk.modulate(CC.conv_encode(bits, t, 'term'))

    def receive(y, h, k, nv):
        return bpsk.demodulate(y, 'soft', nv) if soft else bpsk.demodulate(y, 'hard')
    model = LK.LinkModel(modulate, ch, receive, 1, bpsk.constellation, bpsk.Es,
                         lambda r: CC.viterbi_decode(r, t, 8 * (g[0] + 1), 'soft' if soft else 'hard'), rate)
    c.note(code=g, soft=soft, snr=snr)
    cnt = Counter(model.modulate)
    model.modulate = cnt
    r = model.link_performance([snr], 1200, 10 ** 9, 300, rate)
    lim = bound(es)
    burst = 12.
    c.check(r[0] <= lim + 7 * math.sqrt(lim * burst / cnt.bits) + 20 * burst / cnt.bits / 4,
            'the BER of a convolutional code is above its union bound', ber=r[0], bound=lim, bits=cnt.bits, code=g, soft=soft,
            snr=snr)
    STATE.event('coded BER compared')
    c.tag('errors', int(round(float(r[0]) * cnt.bits)))
    c.tag('expected at most', int(round(lim * cnt.bits)))


def soft_hard(c):
    """ The same noisy stream decoded softly and hardly. """
    rng = c.rng
    t, spec, g = code(c.idx % 3)
    bpsk = modem('psk', 2)
    ch = CH.SISOFlatChannel(None, (1 + 0j, 0))
    ch.set_SNR_dB(0. if len(g[1]) == 2 else -2., 1)
    c.note(code=g, s=c.seed)
    err = {'hard': 0, 'soft': 0, 'unquantized': 0}
    n = 900
    msg = rng.randint(0, 2, n)
    y = ch.propagate(bpsk.modulate(CC.conv_encode(msg, t, 'term')))
    nv = ch.noise_std ** 2
    for k, v in (('hard', bpsk.demodulate(y, 'hard')), ('soft', bpsk.demodulate(y, 'soft', nv)),
                 ('unquantized', -np.real(y))):
        err[k] = int((CC.viterbi_decode(v, t, 40, k)[:n] != msg).sum())
    c.check(err['hard'] > 0, 'no errors at low SNR', err=err)
    for k in ('soft', 'unquantized'):
        c.check(err[k] <= .8 * err['hard'] + 7 * math.sqrt(12. * err['hard']) * .5, 'soft decisions do worse than hard ones',
                err=err, code=g)
        c.tag('errors ' + k, err[k])
    c.tag('errors hard', err['hard'])
    STATE.event('soft against hard')


def turbo(c):
    rng = c.rng
    t = CC.Trellis(np.array([2]), np.array([[1, 5]]), 7, 'rsc')
    n = 120
    il = CC.RandInterlv(n, int(rng.randint(1000)))
    ebn0 = 3.
    es = 10 ** (ebn0 / 10) / 3
    c.note(s=c.seed)
    bad, wrong = {1: 0, 5: 0}, 0
    nv = 1 / (2 * es)
    blocks = 4
    for _ in range(blocks):
        msg = rng.randint(0, 2, n)
        s, p1, p2 = CC.turbo_encode(msg, t, t, il)
        r = [2. * v[:n] - 1 + math.sqrt(nv) * rng.randn(n) for v in (s, p1, p2)]
        for it in bad:
            e = int((CC.turbo_decode(r[0], r[1], r[2], t, nv, it, il)[:n] != msg).sum())
            bad[it] += e
        wrong += e > 0
    raw = float(T.Q(math.sqrt(2 * es)))
    for it in bad:
        c.tag('turbo errors after %d iterations' % it, bad[it])
    total = blocks * n
    STATE.event('coded BER compared')
    # reference: after 5 iterations fewer than one block out of 100 is wrong at this ratio
    c.check(wrong < blocks and bad[5] < raw * total, 'a turbo code does not correct', bad=bad, raw=raw * total)


def ldpc(c):
    rng = c.rng
    p = _codes.get('ldpc')
    if p is None:
        p = _codes['ldpc'] = LD.get_ldpc_code_params(os.path.join(
            REPO, 'commpy/channelcoding/designs/ldpc/gallager/96.33.964.txt'), True)
    n = int(p['n_vnodes'])
    ebn0 = 4.
    es = 10 ** (ebn0 / 10) / 2
    blocks = 40
    nv = 1 / (2 * es)
    for alg in ('SPA', 'MSA'):
        y = 1 + math.sqrt(nv) * rng.randn(n * blocks)
        w, _ = CC.ldpc_bp_decode(2 * y / nv, p, alg, 15)
        w = np.asarray(w)
        wrong = int(w.reshape(n, -1).any(0).sum())
        bad = int(w.sum())
        raw = float(T.Q(math.sqrt(2 * es))) * n * blocks
        c.tag('ldpc errors ' + alg, bad)
        c.tag('ldpc raw errors', int(raw))
        c.tag('ldpc wrong blocks', wrong)
        # reference: fewer than 3 % of the blocks are wrong
        c.check(w.size == n * blocks and binom.sf(wrong - 1, blocks, .03) > 1e-10, 'an LDPC code does not correct', bad=bad,
                raw=raw, alg=alg, wrong=wrong, blocks=blocks)
        STATE.event('coded BER compared')
    c.note(s=c.seed)


WORKLOADS = {'siso': (siso, 40, 3000), 'antipodal': (antipodal, 16, 1000), 'mimo': (mimo, 32, 1600),
             'curve': (curve, 16, 800), 'convolutional': (convolutional, 16, 800), 'soft hard': (soft_hard, 6, 300),
             'turbo': (turbo, 6, 200), 'ldpc': (ldpc, 6, 200)}
