"""C16: erasure, symmetric and AWGN channels."""
import math

import numpy as np

import commpy.channels as CH
from .. import mon, stats

RULE = ('bec, bsc and awgn on bit arrays and signals of many types, lengths, probabilities (including 0, 1, tiny), SNRs and '
        'rates, every call judged by monitors (positions, values, types), error patterns and noises accumulated over '
        'calls for statistical tests.')
ASSUMPTIONS = ['Bit arrays have a signed integer type (an erasure is -1).', 'Signals are floating point and not null.',
               'The global NumPy generator is a good source of samples.']
REQUIRE = {'judged bec': 500, 'judged bsc': 500, 'judged awgn': 500, 'statistic': 2000, 'extreme': 25, 'blocks': 48}

LAST = {}


def post_bec(c, a, r, t):
    x, r = np.asarray(a['input_bits']), np.asarray(r)
    c.equal(np.asarray(a['__live__']['input_bits']), x, 'bec modified its input')
    c.check(r.shape == x.shape and r.dtype == x.dtype, 'bec changed the shape or type', got=r.dtype, given=x.dtype)
    bad = (r != x) & (r != -1)
    c.check(not bad.any(), 'bec returned something else than the bits and erasures', given=x, got_=r)
    if a['p_e'] == 0:
        c.check(np.array_equal(r, x), 'erasures although the probability is 0')
    if a['p_e'] == 1:
        c.check(np.all(r == -1), 'a bit is not erased although the probability is 1')
    LAST['hit'] = r == -1


def post_bsc(c, a, r, t):
    x, r = np.asarray(a['input_bits']), np.asarray(r)
    c.equal(np.asarray(a['__live__']['input_bits']), x, 'bsc modified its input')
    c.check(r.shape == x.shape and r.dtype == x.dtype, 'bsc changed the shape or type', got=r.dtype, given=x.dtype)
    c.check(np.all((r == 0) | (r == 1)), 'bsc returned something else than bits', got_=r)
    if a['p_t'] == 0:
        c.check(np.array_equal(r, x), 'flips although the probability is 0')
    if a['p_t'] == 1:
        c.check(np.array_equal(r, 1 - x.astype(int)), 'a bit is not flipped although the probability is 1')
    LAST['hit'] = np.asarray(r, int) != np.asarray(x, int)


def post_awgn(c, a, r, t):
    x, r = np.asarray(a['input_signal']), np.asarray(r)
    c.equal(np.asarray(a['__live__']['input_signal']), x, 'awgn modified its input')
    c.check(r.shape == x.shape, 'awgn changed the shape', got=r.shape)
    c.check(np.iscomplexobj(r) == np.iscomplexobj(x), 'awgn: noise is not of the type of the signal', dtype=r.dtype)
    c.check(np.all(np.isfinite(r)), 'awgn: output not finite')
    LAST['noise'] = r.astype(complex if np.iscomplexobj(r) else float) - x
    LAST['var'] = float(np.mean(np.abs(x.astype(complex)) ** 2)) / (float(a['rate']) * 10 ** (float(a['snr_dB']) / 10))


def setup():
    p = 'commpy.channels.'
    mon.attach(p + 'bec', post_bec)
    mon.attach(p + 'bsc', post_bsc)
    mon.attach(p + 'awgn', post_awgn)


def bits(rng, n):
    k = rng.randint(4)
    x = rng.randint(0, 2, n) if k else np.full(n, rng.randint(2))
    return x.astype([np.int64, np.int8, np.int32, np.int16][rng.randint(4)])


def flips(c, name):
    rng = c.rng
    f = getattr(CH, name)
    p = float(rng.choice([0, 1, .5, .1, .01, .001, .9, .999, rng.rand()]))
    n = int(rng.choice([1, 2, 7, 100, 4000, 20000, 70000]))
    reps = max(1, 20000 // n) if n > 50 else 60
    c.note(p=p, n=n, s=c.seed)
    if p in (0, 1):
        c.tag('extreme')
    hits, ins = [], []
    for _ in range(reps):
        x = bits(rng, n)
        y = f(x, p)
        hits.append(LAST.pop('hit'))
        ins.append(np.array(x))
        if rng.randint(2):
            y[:] = 0
    h, x = np.concatenate(hits), np.concatenate(ins).astype(int)
    tot = len(h)
    c.binom(int(h.sum()), tot, p, name + ': wrong probability')
    for b in (0, 1):
        c.binom(int(h[x == b].sum()), int((x == b).sum()), p, name + ': the probability depends on the bit', bit=b)
    if tot * p * p * (1 - p) ** 2 > 100 and p * p * (1 - p) ** 2 > .002:
        stats.no_period(c, h[:140000].astype(float) - p, math.sqrt(p * (1 - p)), name + ': errors are repeated')
        c.tag('all lags')
    if 0 < p < 1:
        for lag in (1, 2, n, n + 1):
            if lag < tot:
                c.binom(int((h[lag:] & h[:-lag]).sum()), tot - lag, p * p, name + ': errors are not independent',
                        limit=11., lag=lag)
        # by position in the array
        if n <= 4000 and reps > 4:
            m = np.array(hits)
            for seg in (0, n // 2, n - 1):
                c.binom(int(m[:, seg].sum()), reps, p, name + ': the probability depends on the position', pos=seg)
            for part in (m[:, :(n + 1) // 2], m[:, n // 2:], m[:reps // 2], m[reps // 2:]):
                if part.size:
                    c.binom(int(part.sum()), part.size, p, name + ': the probability depends on the position')


def bec(c):
    flips(c, 'bec')


def bsc(c):
    flips(c, 'bsc')


def signal(rng, n):
    k = rng.randint(9)
    if k > 6:  # real values of complex type, and the contrary of it
        return (2. * rng.randint(0, 2, n) - 1) * (1 + 0j if k == 7 else 1j)
    a = 10. ** rng.uniform(-3, 3)
    if k == 0:
        return a * (2. * rng.randint(0, 2, n) - 1)
    if k == 1:
        return a * rng.randn(n)
    if k == 2:
        return (a * rng.randn(n)).astype(np.float32)
    if k == 3:
        return (a * (rng.randn(n) + 1j * rng.randn(n))).astype(np.complex64)
    if k == 4:
        return np.exp(2j * np.pi * rng.randint(0, 8, n) / 8) * a
    if k == 5:
        x = np.zeros(n)
        x[rng.randint(n)] = a
        return x
    return a * (rng.randn(n) + 1j * rng.randn(n)) + a


def awgn(c):
    rng = c.rng
    snr = float(rng.choice([0, -10, 3, 10, 20, rng.uniform(-15, 25)]))
    rate = float(rng.choice([1, .5, 1 / 3., .75, rng.uniform(.1, 1)]))
    n = int(rng.choice([1, 2, 5, 50, 1000, 10000, 70000]))
    reps = max(1, 10000 // n) if n > 50 else 200
    x = signal(rng, n)
    cplx = np.iscomplexobj(x)
    c.note(snr=snr, rate=rate, n=n, dtype=x.dtype, s=c.seed)
    noises = []
    style = rng.randint(3)
    for _ in range(reps):
        if style == 0 and rate == 1:
            CH.awgn(x, snr)
        elif style == 1:
            CH.awgn(x, snr_dB=snr, rate=rate)
        else:
            CH.awgn(x, snr, rate)
        noises.append(LAST['noise'])
    var = LAST['var']
    z = np.concatenate(noises)
    stats.power(c, z, var, 'awgn: wrong noise power', not cplx)
    sd = math.sqrt(var / 2) if cplx else math.sqrt(var)
    parts = (z.real, z.imag) if cplx else (z,)
    sig = np.tile(x, reps)
    for p in parts:
        u = np.unique(p)
        c.check(len(u) > .98 * len(p) or sd < 1e-12 * np.abs(x).max(), 'awgn: samples of noise are repeated',
                samples=len(p), distinct=len(u))
    for p in parts:
        stats.power(c, p, sd * sd, 'awgn: the noise is not circular', True)
        stats.mean0(c, p, sd, 'awgn: the noise has a mean')
        stats.gaussian(c, p, sd, 'awgn: the noise is not Gaussian')
        for lag in (1, 2, n, 2 * n):
            if lag < len(p) // 2:
                for q in parts:
                    stats.uncorr(c, p[lag:], q[:-lag], sd, sd, 'awgn: the noise is not white', lag=lag)
        for q in (sig.real, sig.imag):
            if q.any():
                stats.uncorr(c, p, q.astype(float), sd, 1, 'awgn: the noise depends on the signal')
    if cplx:
        stats.uncorr(c, z.real, z.imag, sd, sd, 'awgn: the noise is not circular')


def blocks(c):
    """ The number of errors, the mean and the power of the noise vary from one call to the other as they should. """
    rng = c.rng
    kind = c.idx % 4
    k = 400
    if kind < 2:
        name = ['bec', 'bsc'][kind]
        p = float(rng.choice([.5, .1, .9, rng.uniform(.1, .9)]))
        n = int(rng.choice([150, 200, 333]))
        c.note(name=name, p=p, n=n, s=c.seed)
        f, x = getattr(CH, name), bits(rng, n)
        dev, half = [], []
        for _ in range(k):
            f(x, p)
            h = LAST.pop('hit')
            dev.append((h.sum() - n * p) / math.sqrt(n * p * (1 - p)))
            half.append((h[:n // 2].sum() - n // 2 * p) / math.sqrt(n // 2 * p * (1 - p)))
        kurt = (1 - 6 * p * (1 - p)) / (n * p * (1 - p))
        stats.blocks(c, dev, kurt, name + ': errors')
        stats.blocks(c, half, 2 * kurt, name + ': errors of the first half')
    else:
        n = int(rng.choice([40, 64, 100]))
        x = rng.randn(n) + (1j * rng.randn(n) if kind == 3 else 0)
        c.note(kind=kind, n=n, s=c.seed)
        noises = []
        for _ in range(k):
            CH.awgn(x, 3., .5)
            noises.append(LAST['noise'])
        z = np.array(noises) / math.sqrt(LAST['var'])
        for part in ((z.real * math.sqrt(2), z.imag * math.sqrt(2)) if kind == 3 else (z,)):
            stats.blocks(c, part.sum(1) / math.sqrt(n), 0, 'awgn: means')
            stats.blocks(c, ((part ** 2).mean(1) - 1) * math.sqrt(n / 2.), 12. / n, 'awgn: powers')
    c.tag('blocks')


def ratio(c):
    """ For the same draws the noise is proportional to the required deviation. """
    rng = c.rng
    cplx = rng.randint(2)
    n = int(rng.choice([1, 4, 30]))
    c.note(cplx=cplx, n=n, s=c.seed)
    ref = None
    for _ in range(6):
        x = rng.randn(n) * 10. ** rng.randint(-2, 3)
        if cplx:
            x = x + 1j * rng.randn(n)
        snr, rate = rng.uniform(-40, 60), rng.uniform(.05, 1)
        if rng.randint(4) == 0:
            snr = int(snr)
        np.random.seed(c.seed % 99991)
        CH.awgn(x, snr, rate)
        if LAST['var'] < 1e-16 * np.abs(x).max() ** 2:
            continue
        v = LAST['noise'] / math.sqrt(LAST['var'])
        if ref is not None:
            c.close(v, ref, 'awgn: the noise is not proportional to the deviation given by the SNR and rate', rtol=1e-6,
                    atol=1e-6)
        ref = v


WORKLOADS = {'bec': (bec, 100, 3000), 'bsc': (bsc, 100, 3000), 'awgn': (awgn, 120, 3000), 'blocks': (blocks, 48, 1200), 'ratio': (ratio, 60, 1500)}
