"""C23: link simulations count every bit and every error once."""
from fractions import Fraction

import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
from .. import mon, trace
from ..core import STATE
from .c13 import configure

RULE = ('Link models with every modulation, SISO and MIMO channels, exact code rates (given as fractions, floats or integers), '
        'chunk sizes, targets and limits; decoders and receivers which introduce chosen error patterns (first, last, '
        'boundary, none, all, exactly the target); natural noise errors; models reused several times. Every message, '
        'transmission, reception and decoding is traced and the reported figures are recomputed from the trace.')
ASSUMPTIONS = ['Requested errors, bits and transmissions are at least one; rates are rational with a denominator of at most '
               '100 and the encoder has exactly this rate.']
REQUIRE = {'judged link_performance': 200, 'judged link_performance_full_metrics': 200, 'snr judged': 800,
           'decoding': 1000, 'mimo': 60, 'siso': 60, 'large counts': 16}


def to_fraction(r):
    return Fraction(r).limit_denominator(100) if isinstance(r, float) else Fraction(r)


def pre(c, a):
    return trace.Trace(a['self'])


def post_simple(c, a, r, t):
    t.stop()
    rate = to_fraction(a['code_rate'])
    m = a['self']
    asked = a['send_chunk'] if a['send_chunk'] is not None else a['err_min']
    n = trace.chunk_size(m, rate, int(asked))
    trace.judge_bers(c, m, t.sends, list(a['SNRs']), a['send_max'], a['err_min'], n, rate, r)
    balance(c, t)


def post_full(c, a, r, t):
    t.stop()
    rate = to_fraction(a['code_rate'])
    m = a['self']
    asked = a['send_chunk'] if a['send_chunk'] is not None else a['err_min']
    n = trace.chunk_size(m, rate, int(asked))
    trace.judge_full(c, m, t.sends, list(a['SNRs']), a['tx_max'], a['err_min'], n, a['number_chunks_per_send'], rate,
                     a['stop_on_surpass_error'], r)
    for x, y in zip(m.full_simulation_results, r):
        c.equal(x, y, 'full_simulation_results differs from the result')
    balance(c, t)


def balance(c, t):
    msgs = [s['msg'] for s in t.sends]
    if msgs:
        x = np.concatenate(msgs)
        c.binom(int(x.sum()), len(x), .5, 'the messages are not random bits')
        if len(x) > 200:
            c.binom(int((x[1:] ^ x[:-1]).sum()), len(x) - 1, .5, 'the messages are not random bits')


def exc(c, a, e, t):
    t.stop()


def setup():
    p = 'commpy.links.LinkModel.'
    mon.attach(p + 'link_performance', post_simple, pre, exc)
    mon.attach(p + 'link_performance_full_metrics', post_full, pre, exc)


RATES = [Fraction(1, 1), Fraction(1, 2), Fraction(1, 3), Fraction(2, 3), Fraction(3, 4), Fraction(5, 6), Fraction(7, 10),
         Fraction(3, 11), Fraction(11, 15)]


class Coder:
    """ systematic code of rate p/q whose decoder introduces a pattern of errors """

    def __init__(self, rng, rate, patterns, extra, dtype):
        self.p, self.q = rate.numerator, rate.denominator
        self.rng, self.patterns, self.extra, self.dtype, self.count = rng, patterns, extra, dtype, 0
        self.soft = False

    def encode(self, bits):
        b = np.asarray(bits).reshape(-1, self.p)
        par = np.repeat(b.sum(1, keepdims=True) % 2, self.q - self.p, axis=1)
        return np.concatenate((b, par), 1).reshape(-1)

    def decode(self, x):
        x = np.asarray(x).reshape(-1, self.q)[:, :self.p].reshape(-1)
        x = (x > 0 if self.soft else x).astype(int)
        if self.patterns:
            kind = self.patterns[self.count % len(self.patterns)]
            self.count += 1
            n = len(x)
            flip = np.zeros(n, int)
            if kind == 'first':
                flip[0] = 1
            elif kind == 'last':
                flip[-1] = 1
            elif kind == 'all':
                flip[:] = 1
            elif kind == 'half':
                flip[::2] = 1
            elif kind == 'middle':
                flip[n // 2 - 1:n // 2 + 1] = 1
            elif isinstance(kind, int):
                flip[self.rng.permutation(n)[:kind]] = 1
            x = x ^ flip
        x = np.concatenate((x, self.rng.randint(0, 2, self.extra)))
        return x.astype(self.dtype)


def model(c, small=False):
    rng = c.rng
    m = MO.PSKModem(int(2 ** rng.randint(1, 4))) if rng.randint(2) else MO.QAMModem(int(rng.choice([4, 16])))
    mimo = bool(rng.randint(2))
    if mimo:
        nt = int(rng.randint(1, 4))
        ch = CH.MIMOFlatChannel(nt, nt + int(rng.randint(2)))
        if rng.randint(2):
            ch.uncorr_rayleigh_fading(complex)
        else:
            configure(rng, ch, True)
    else:
        ch = CH.SISOFlatChannel(fading_param=(1 + 0j, 0) if rng.randint(3) else (0j, 1))
    c.tag('mimo' if mimo else 'siso')
    rate = RATES[rng.randint(len(RATES))]
    natural = rng.randint(3) == 0
    pats = [] if natural else [['none', 'none', 'first', 'last', 'all', 'half', 'middle', 1, 2, 3, 5][i]
                               for i in rng.randint(0, 11, rng.randint(1, 8))]
    coder = Coder(rng, rate, pats, int(rng.choice([0, 0, 3])), [int, np.int8, float, bool][rng.randint(4)])
    genie = {}

    def modulate(bits):
        x = coder.encode(bits)
        s = m.modulate(x)
        genie['bits'], genie['pos'] = x, 0
        return s
    b = m.num_bits_symbol
    soft = coder.soft = bool(rng.randint(2)) and not (rate == 1 and natural)

    def receive(y, h, k, nv):
        r = receive_bits(y, h)
        # soft values: the sign is the bit, the amplitude is arbitrary
        return (2 * r - 1.) * 10. ** rng.uniform(-9, 9, len(r)) if soft else r

    def receive_bits(y, h):
        y = np.asarray(y)
        if mimo:
            if not natural:  # the receiver knows what was sent: errors are those of the pattern only
                w = ch.nb_tx * b
                r = genie['bits'][genie['pos']:genie['pos'] + w]
                genie['pos'] += w
                return r
            z = np.linalg.lstsq(h, y, rcond=None)[0]
            return m.demodulate(z, 'hard')
        if not natural:
            return np.array(genie['bits'])
        return m.demodulate(y / h if np.ndim(h) else y, 'hard')
    if rng.randint(3):
        decoder = coder.decode
        if rng.randint(2):
            decoder = lambda msg: coder.decode(msg)
    else:
        def decoder(y, h, constellation, noise_var, array, bits_per_send):
            return coder.decode(array)
    if rate == 1 and natural and rng.randint(3) == 0:
        decoder = None
    if type(getattr(decoder, '__self__', None)) is Coder:
        decoder = lambda msg, _f=coder: _f.decode(msg)  # one argument once bound
        decoder = (lambda f: lambda msg: f(msg))(decoder)
    lk = LK.LinkModel(modulate, ch, receive, b, m.constellation, m.Es, decoder, rate)
    given = [rate, float(rate), rate][rng.randint(3)]
    if rate == 1:
        given = [1, 1., Fraction(1)][rng.randint(3)]
    c.note(m=m.m, mimo=mimo, rate=rate, patterns=pats, s=c.seed)
    return lk, given


def targets(rng):
    return int(rng.choice([1, 2, 3, 5, 10, 40, 200]))


def snrs(rng):
    x = [float(v) for v in rng.choice([0, 3, 5, 10, 20, 60], rng.randint(1, 5))]
    return [x, np.array(x), [int(v) for v in x], tuple(x)][rng.randint(4)]


def simple(c):
    rng = c.rng
    lk, rate = model(c)
    for _ in range(rng.randint(1, 3)):
        err, chunk = targets(rng), int(rng.choice([1, 7, 20, 64, 100, 131, [131, 131, 800, 3000][rng.randint(4)]]))
        send = int(rng.choice([1, chunk, 3 * chunk, 3 * chunk + 1, 600]))
        x = snrs(rng)
        k = rng.randint(4)
        if k == 0:
            LK.link_performance(lk, x, send, err, chunk, rate)
        elif k == 1 and Fraction(rate) == 1:
            lk.link_performance(x, send, err)
        elif k == 2:
            LK.link_performance(lk, x, float(send), err, None, rate)
        else:
            lk.link_performance(SNRs=x, send_max=send, err_min=err, send_chunk=chunk, code_rate=rate)


def full(c):
    rng = c.rng
    lk, rate = model(c)
    for _ in range(rng.randint(1, 3)):
        err, chunk = targets(rng), int(rng.choice([1, 7, 20, 64, 100, [100, 100, 700, 1000][rng.randint(4)]]))
        tx = int(rng.randint(1, 7))
        k = rng.randint(4)
        x = snrs(rng)
        if k == 0 and Fraction(rate) == 1:
            lk.link_performance_full_metrics(x, tx, err)
        else:
            if k == 1:
                err = 0
            lk.link_performance_full_metrics(x, tx, err, chunk, rate, int(rng.randint(1, 5)), bool(rng.randint(2)))


def big(c):
    """ Large counts: many chunks per transmission, all of them wrong, many errors, many transmissions, many SNRs. """
    rng = c.rng
    m = MO.QAMModem(4)
    kind = c.idx % 4
    per, tx, n, x = 1, 2, 2, [30., 40.]
    if kind == 0:
        per = int(rng.choice([127, 128, 150, 256, 300]))
    elif kind == 1:
        tx = int(rng.choice([130, 260, 300]))
    elif kind == 2:
        n = int(rng.choice([256, 400, 35000]))
        per = int(rng.choice([1, 3]))
    else:
        x = list(rng.uniform(10, 60, int(rng.choice([40, 130]))))
    pats = [['all'], ['all', 'all', 'none'], ['half', 'first', 'all'], ['none', 'last']][rng.randint(4)]

    def decode(v):  # the errors of each of the chunks
        v = np.asarray(v).reshape(-1, n)
        p = np.zeros(v.shape, int)
        for i in range(len(v)):
            kind = pats[i % len(pats)]
            if kind == 'all':
                p[i] = 1
            elif kind == 'half':
                p[i, ::2] = 1
            elif kind != 'none':
                p[i, 0 if kind == 'first' else -1] = 1
        return (v ^ p).ravel()
    lk = LK.LinkModel(m.modulate, CH.SISOFlatChannel(fading_param=(1 + 0j, 0)),
                      lambda y, h, k, nv: m.demodulate(y, 'hard'), 2, m.constellation, m.Es, decode)
    c.note(kind=kind, per=per, tx=tx, n=n, snrs=len(x), patterns=pats, s=c.seed)
    if c.idx // 4 % 2 or kind == 0:
        lk.link_performance_full_metrics(x, tx, 10 ** 9 if rng.randint(3) else 1, n, 1, per, False)
    else:
        lk.link_performance(x, tx * n, 10 ** 9 if rng.randint(3) else 1, n)
    STATE.event('large counts')


def exact(c):
    """ Error totals around the target. """
    rng = c.rng
    m = MO.QAMModem(4)
    err = int(rng.randint(2, 12))
    parts = []
    left = err + int(rng.choice([-1, 0, 1]))
    while left > 0:
        v = int(rng.randint(1, left + 1))
        parts.append(v)
        left -= v
    pats = parts + ['none'] * int(rng.randint(0, 3))
    coder = Coder(rng, Fraction(1), pats, 0, int)
    lk = LK.LinkModel(m.modulate, CH.SISOFlatChannel(fading_param=(1 + 0j, 0)),
                      lambda y, h, k, nv: m.demodulate(y, 'hard'), 2, m.constellation, m.Es, lambda msg: coder.decode(msg))
    c.note(err=err, parts=parts, s=c.seed)
    if rng.randint(2):
        lk.link_performance([100., 110., 120.], 30 * len(pats), err, 30)
    else:
        lk.link_performance_full_metrics([100., 110., 120.], len(pats), err, 10, 1, 3)
    STATE.event('exact')


WORKLOADS = {'big': (big, 32, 600), 'simple': (simple, 180, 6000), 'full': (full, 180, 6000), 'exact': (exact, 120, 4000)}
