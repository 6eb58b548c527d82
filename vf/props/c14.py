"""C14: the noise of the channels has the requested SNR, is white, Gaussian and independent."""
import math

import numpy as np

import commpy.channels as CH
from .. import mon, stats
from .c13 import configure, message, new

RULE = ('SISO and MIMO channels (up to 20 antennas), real and complex, with every fading; SNRs from -100 to 150 dB, rates and symbol energies '
        'set in dB and linear scale, several times in a row; noise recorded by monitors of propagate over thousands of '
        'samples and tested for power, mean, distribution, circularity, whiteness and independence.')
ASSUMPTIONS = ['The global NumPy generator is a good source of Gaussian samples.',
               'The type (real or complex) of the channel is not changed between setting the SNR and propagating.']
REQUIRE = {'judged propagate': 700, 'statistic': 2000, 'ratio': 300, 'real': 10, 'complex': 10, 'long': 10, 'wide': 20, 'trials': 20}

REC = {}


def post(c, a, r, t):
    ch = a['self']
    rec = REC.get(id(ch))
    if rec is not None and rec[0] == c.seed:
        rec[1].append((np.asarray(r) - np.asarray(ch.unnoisy_output), np.array(ch.channel_gains),
                       np.array(ch.unnoisy_output)))


def setup():
    for k in ('SISOFlatChannel', 'MIMOFlatChannel'):
        mon.attach('commpy.channels.%s.propagate' % k, post)


def set_snr(rng, ch):
    """ Sets an SNR by one of the ways; returns the expected noise power per receive antenna. """
    snr = float(rng.choice([-30, -10, 0, 3, 10, 17.3, 30, 60, rng.uniform(-20, 40), [-100, -60, 100, 150][rng.randint(4)]]))
    rate = float(rng.choice([1, .5, 1 / 3, .75, .9, rng.uniform(.05, 1)]))
    es = float(rng.choice([1, 2, 10, 42, 1e-3, rng.uniform(.1, 200)]))
    style = rng.randint(5)
    lin = 10 ** (snr / 10)
    if style == 0:
        ch.set_SNR_dB(snr, rate, es)
    elif style == 1:
        ch.set_SNR_lin(lin, rate, es)
    elif style == 2:
        ch.set_SNR_dB(SNR_dB=snr, Es=es, code_rate=rate)
    elif style == 3:
        rate = es = 1
        ch.set_SNR_dB(snr) if rng.randint(2) else ch.set_SNR_lin(lin)
    else:
        ch.set_SNR_dB(int(snr), rate)
        lin, es = 10 ** (int(snr) / 10.), 1
    return ch.nb_tx * es / (rate * lin)


def record(c, ch, total, msgs):
    REC.clear()
    REC[id(ch)] = (c.seed, [])
    out = []
    while sum(len(x) for x in out) < total:
        x = msgs()
        ch.propagate(x)
        out.append(x)
    return REC.pop(id(ch))[1], out


def power(c):
    rng = c.rng
    ch = new(rng)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    for _ in range(rng.randint(1, 4)):
        var = set_snr(rng, ch)
    siso = isinstance(ch, CH.SISOFlatChannel)
    c.note(siso=siso, nt=ch.nb_tx, nr=ch.nb_rx, cplx=cplx, var=var)
    c.tag('complex' if cplx else 'real')
    nt, nr = ch.nb_tx, ch.nb_rx
    chunk = nt * int(rng.choice([5, 40, 200]))
    total = nt * 4000
    rec, msgs = record(c, ch, total, lambda: message(rng, chunk, cplx))
    c.check(len(rec) == len(msgs), 'propagations not observed')
    noise = np.concatenate([r[0].reshape(-1, nr) for r in rec])
    # the largest signal may leave rounding noise in the difference
    big = max(float(np.abs(r[2]).max()) for r in rec)
    if var < (big * 1e-12) ** 2:
        return
    n = len(noise)
    sd = math.sqrt(var)
    for j in range(nr):
        stats.power(c, noise[:, j], var, 'noise power of an antenna', not cplx, antenna=j)
    stats.power(c, noise.reshape(-1), var, 'noise power', not cplx)
    if cplx:
        parts = [noise.real, noise.imag]
        sd = math.sqrt(var / 2)
        for p in parts:
            stats.power(c, p.reshape(-1), var / 2, 'noise is not circular: power of a component', True)
        stats.uncorr(c, noise.real.reshape(-1), noise.imag.reshape(-1), sd, sd,
                     'noise is not circular: correlated components')
    else:
        c.check(not np.iscomplexobj(noise), 'complex noise in a real channel')
        parts = [noise]
    for p in parts:
        flat = p.reshape(-1)
        stats.mean0(c, flat, sd, 'the noise has a mean')
        for j in range(nr):
            stats.mean0(c, p[:, j], sd, 'the noise of an antenna has a mean', antenna=j)
        stats.gaussian(c, flat, sd, 'the noise is not Gaussian')
        for lag in (1, 2, 3, chunk // nt, 2 * (chunk // nt)):
            if lag < n // 2:
                for q in parts:
                    stats.uncorr(c, p[lag:].reshape(-1), q[:-lag].reshape(-1), sd, sd, 'the noise is not white', lag=lag)
        for j in range(1, nr):
            for q in parts:
                stats.uncorr(c, p[:, j], q[:, 0], sd, sd, 'noise correlated between antennas', antenna=j)
                stats.uncorr(c, p[:, j], q[:, j - 1], sd, sd, 'noise correlated between antennas', antenna=j)
        # independence from the fading and the message
        clean = np.concatenate([r[2].reshape(-1, nr) for r in rec])
        gains = np.concatenate([r[1].reshape(len(r[0]), nr, -1) for r in rec]).sum(2)
        for other, name in ((clean, 'unnoisy output'), (gains, 'gains')):
            for comp in (other.real, other.imag):
                scale = np.abs(comp).max()
                if scale > 0:
                    stats.uncorr(c, flat, (comp / scale).reshape(-1), sd, 1, 'noise correlated with the ' + name)
                    e = (p / sd) ** 2 - 1
                    w = np.abs(comp)
                    w = np.where(w > np.median(w), 1., -1.)
                    w = w - w.mean()
                    if w.any():
                        z = float((e * w).sum()) / math.sqrt(2 * float((w * w).sum()))
                        c.stat(z, 'noise power depends on the ' + name, limit=7.5)


def ratio(c):
    """ For the same random draws, the noise is proportional to the deviation required by the SNR. """
    rng = c.rng
    ch = new(rng)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    n = ch.nb_tx * 6
    c.note(nt=ch.nb_tx, nr=ch.nb_rx, cplx=cplx, s=c.seed)
    x = message(rng, n, cplx)
    ref = None
    for _ in range(6):
        var = set_snr(rng, ch)
        np.random.seed(c.seed % 100003)
        ch.propagate(x)
        v = np.array(ch.noises) / math.sqrt(var)
        if ref is not None:
            c.close(v, ref, 'the noise is not proportional to the deviation given by the SNR, rate and energy',
                    rtol=1e-9, atol=1e-12)
        ref = v
        c.tag('ratio')
    std = ch.noise_std
    ch.noise_std = 3 * std
    np.random.seed(c.seed % 100003)
    ch.propagate(x)
    c.close(np.array(ch.noises), 3 * math.sqrt(var) * ref, 'the noise is not proportional to noise_std', rtol=1e-9,
            atol=1e-12)


def direct(c):
    """ generate_noises with any shape """
    rng = c.rng
    ch = new(rng)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    var = set_snr(rng, ch)
    dims = [3000, (1000, 3), (10, 20, 15), np.int64(3000)][rng.randint(4)]
    c.note(dims=dims, cplx=cplx, var=var)
    ch.generate_noises(dims)
    x = np.asarray(ch.noises)
    c.check(x.shape == (dims if isinstance(dims, tuple) else (dims,)), 'wrong shape', shape=x.shape, dims=dims)
    c.check(np.iscomplexobj(x) == cplx, 'wrong type')
    stats.power(c, x.reshape(-1), var, 'noise power', not cplx)
    for p in ([x.real, x.imag] if cplx else [x]):
        sd = math.sqrt(var / 2) if cplx else math.sqrt(var)
        p = p.reshape(-1)
        stats.power(c, p, sd * sd, 'power of a component', True)
        stats.mean0(c, p, sd, 'mean')
        stats.gaussian(c, p, sd, 'the noise is not Gaussian')
        for lag in (1, 2, 3, 15, 300):
            stats.uncorr(c, p[lag:], p[:-lag], sd, sd, 'not white', lag=lag)
    ch.generate_noises(dims)
    y = np.asarray(ch.noises)
    c.check(not np.array_equal(x, y), 'the noise is not renewed')


def wide(c):
    """ Many receive antennas: circular on each of them, independent between every two of them. """
    rng = c.rng
    nt, nr = int(rng.randint(1, 5)), int(rng.randint(7, 21))
    ch = CH.MIMOFlatChannel(nt, nr)
    cplx = bool(rng.randint(4))
    if rng.randint(2):
        ch.uncorr_rayleigh_fading(complex if cplx else float)
    var = set_snr(rng, ch)
    cplx = ch.isComplex
    c.note(nt=nt, nr=nr, cplx=cplx, var=var, s=c.seed)
    ch.propagate(message(rng, nt * 1500, cplx))
    x = np.asarray(ch.noises)
    c.check(x.shape == (1500, nr), 'wrong shape of noise', shape=x.shape)
    parts = np.concatenate((x.real, x.imag), 1) if cplx else x
    sd = math.sqrt(var / 2 if cplx else var)
    for j in range(parts.shape[1]):
        stats.power(c, parts[:, j], sd * sd, 'noise power of a component of an antenna', True, column=j)
    r = parts.T.dot(parts) / (sd * sd * math.sqrt(1500.))
    z = np.abs(r[np.triu_indices(len(r), 1)])
    c.stat(float(z.max()) if z.size else 0., 'noise correlated between components or antennas', limit=8.5, antennas=nr)
    for lag in (1, 2, nr):
        z = np.abs(parts[lag:].T.dot(parts[:-lag])) / (sd * sd * math.sqrt(1500. - lag))
        c.stat(float(z.max()), 'noise of an antenna correlated with the past', limit=8.5, lag=lag, antennas=nr)
    c.tag('wide')


def trials(c):
    """ The means and powers of many propagations scatter as those of independent samples do. """
    rng = c.rng
    ch = new(rng)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    var = set_snr(rng, ch)
    n = int(rng.choice([4, 16, 64]))
    sd = math.sqrt(var / 2 if cplx else var)
    c.note(nt=ch.nb_tx, nr=ch.nb_rx, cplx=cplx, var=var, n=n, s=c.seed)
    means, powers = [], []
    for _ in range(300):
        ch.propagate(message(rng, n * ch.nb_tx, cplx))
        x = np.asarray(ch.noises).reshape(-1) / sd
        x = np.concatenate((x.real, x.imag)) if cplx else x
        means.append(x.sum() / math.sqrt(x.size))
        powers.append(((x * x).sum() - x.size) / math.sqrt(2. * x.size))
    stats.blocks(c, means, 0., 'mean of a propagation')
    stats.blocks(c, powers, 12. / (x.size), 'noise power of a propagation')
    c.tag('trials')


def switched(c):
    """ A channel which goes from real to complex and back: the noise follows the present type. """
    rng = c.rng
    ch = new(rng)
    siso = isinstance(ch, CH.SISOFlatChannel)
    c.note(siso=siso, nt=ch.nb_tx, nr=ch.nb_rx, s=c.seed)
    total = 600
    kept = rng.randint(2)
    if kept:
        ch.noise_std = 10. ** rng.uniform(-3, 3)
    for _ in range(8):
        cplx = bool(rng.randint(2))
        configure(rng, ch, cplx)
        c.check(ch.isComplex == cplx, 'the channel does not have the type of its parameters', cplx=cplx)
        var = None if kept else set_snr(rng, ch)
        for _ in range(2):
            ch.propagate(message(rng, ch.nb_tx * total, cplx))
            x = np.asarray(ch.noises).reshape(-1)
            if not cplx:
                c.check(not np.iscomplexobj(x), 'complex noise in a channel back to real')
                if var:
                    stats.power(c, x, var, 'noise power after a change of type', True)
                continue
            c.check(np.iscomplexobj(x), 'real noise in a channel which became complex')
            v = var or float(np.mean(np.abs(x) ** 2))
            if var:
                stats.power(c, x, var, 'noise power after a change of type', False)
            for p in (x.real, x.imag):
                c.check(.5 < float(np.mean(p ** 2)) / (v / 2) < 1.6, 'noise is not circular after a change of type',
                        power=np.mean(p ** 2), expected=v / 2)
            c.tag('switched')


def fresh(c):
    """ No sample of noise is ever used twice in a run. """
    rng = c.rng
    seen = {}
    c.note(s=c.seed)
    chs = [new(rng) for _ in range(3)]
    for ch in chs:
        configure(rng, ch, bool(rng.randint(2)))
        set_snr(rng, ch)
    for k in range(12):
        ch = chs[rng.randint(3)]
        ch.propagate(message(rng, int(rng.randint(1, 20)), ch.isComplex))
        x = np.asarray(ch.noises).reshape(-1) / ch.noise_std
        for v in np.concatenate((x.real, x.imag)) if np.iscomplexobj(x) else x:
            q = round(float(v), 13)
            c.check(q not in seen, 'the same noise sample appears twice', value=v, call=k, before=seen.get(q))
            seen[q] = k


def long_run(c):
    """ Messages of many symbols: every sample is a new one, up to the last. """
    rng = c.rng
    ch = new(rng)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    var = set_snr(rng, ch)
    n = int(rng.choice([9000, 25000, 40000, 70000, 140000])) // ch.nb_tx
    c.note(n=n, nt=ch.nb_tx, nr=ch.nb_rx, cplx=cplx, s=c.seed)
    ch.propagate(message(rng, n * ch.nb_tx, cplx))
    x = np.asarray(ch.noises)
    x = np.stack((x.real, x.imag)) if cplx else x
    v = np.abs(x).ravel()
    c.check(v.size == n * ch.nb_rx * (2 if cplx else 1), 'not one noise sample per received sample', size=v.size)
    u = np.unique(v[v > 0])
    c.check(v.size - u.size <= 1, 'samples of noise are repeated', samples=v.size, distinct=u.size)
    sd = math.sqrt(var / 2 if cplx else var)
    flat = x.ravel()
    for part in np.array_split(flat, 4):
        stats.power(c, part, sd * sd, 'noise power along a long message', True)
        stats.mean0(c, part, sd, 'mean along a long message')
        stats.gaussian(c, part, sd, 'the noise of a long message is not Gaussian')
    c.tag('long')


WORKLOADS = {'wide': (wide, 40, 900), 'trials': (trials, 40, 800),
             'switched': (switched, 40, 800), 'long': (long_run, 24, 500), 'power': (power, 120, 3000), 'ratio': (ratio, 90, 2500), 'direct': (direct, 100, 3000),
             'fresh': (fresh, 40, 1000)}
