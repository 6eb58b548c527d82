"""C20: pulse-shaping filters."""
import math

import numpy as np

import commpy.filters as F
from .. import mon

RULE = ('The four filters for even and odd lengths, roll-offs over [0, 1] with their limits, periods and rates over many '
        'decades, and the combinations of roll-off and oversampling whose samples fall on the singularities of the formulas; '
        'each result is compared by monitors with closed forms free of singularities.')
ASSUMPTIONS = ['Lengths are positive integers, symbol periods and rates are positive, the roll-off is in [0, 1] (positive for '
               'the Gaussian filter).']
REQUIRE = {'judged rcosfilter': 300, 'judged rrcosfilter': 300, 'judged gaussianfilter': 150, 'judged rectfilter': 150,
           'singular rc': 60, 'singular rrc': 60, 'nyquist': 40, 'pair': 10}


def rc(tau, a):
    """ cos(pi x) / (1 - 4 x^2) = pi/4 (sinc(x - 1/2) + sinc(x + 1/2)) """
    x = a * tau
    return np.sinc(tau) * (math.pi / 4) * (np.sinc(x - .5) + np.sinc(x + .5))


def rrc(tau, a):
    """ Fourier transform of the square root of the raised-cosine spectrum, piece by piece """
    return (1 - a) * np.sinc((1 - a) * tau) + a * (np.sinc(a * tau + .25) * np.cos(math.pi * (tau + .25))
                                                   + np.sinc(a * tau - .25) * np.cos(math.pi * (tau - .25)))


def axis(c, a, r):
    n, fs = int(a['N']), float(a['Fs'])
    c.check(isinstance(r, tuple) and len(r) == 2, 'not a pair of arrays', got=r)
    t, h = np.asarray(r[0]), np.asarray(r[1])
    c.check(t.shape == (n,) and h.shape == (n,), 'wrong lengths', t=t.shape, h=h.shape)
    want = (np.arange(n) - n / 2.) / fs
    c.close(t * fs, want * fs, 'wrong time axis', rtol=1e-9, atol=1e-12)
    c.check(np.all(np.isfinite(h)), 'the filter is not finite', h=h, **{k: v for k, v in a.items() if k != '__live__'})
    return want, h


def post_rc(c, a, r, tk):
    t, h = axis(c, a, r)
    tau, al = t / float(a['Ts']), float(a['alpha'])
    c.close(h, rc(tau, al), 'wrong raised cosine', rtol=0, atol=1e-7, N=a['N'], alpha=al, Ts=a['Ts'], Fs=a['Fs'])
    s = np.abs(np.abs(2 * al * tau) - 1) < 1e-9
    if s.any():
        c.tag('singular rc')


def post_rrc(c, a, r, tk):
    t, h = axis(c, a, r)
    tau, al = t / float(a['Ts']), float(a['alpha'])
    c.close(h, rrc(tau, al), 'wrong root raised cosine', rtol=0, atol=1e-7, N=a['N'], alpha=al, Ts=a['Ts'], Fs=a['Fs'])
    s = np.abs(np.abs(4 * al * tau) - 1) < 1e-9
    if s.any():
        c.tag('singular rrc')


def post_gauss(c, a, r, tk):
    t, h = axis(c, a, r)
    al = float(a['alpha'])
    want = np.array([math.sqrt(math.pi) / al * math.exp(-min((math.pi * x / al) ** 2, 1e4)) for x in t])
    c.close(h * al, want * al, 'wrong Gaussian filter', rtol=1e-6, atol=1e-200, alpha=al, Fs=a['Fs'])


def post_rect(c, a, r, tk):
    t, h = axis(c, a, r)
    c.close(h, np.ones(len(h)), 'wrong rectangular filter', rtol=1e-12, atol=0)


def setup():
    p = 'commpy.filters.'
    mon.attach(p + 'rcosfilter', post_rc)
    mon.attach(p + 'rrcosfilter', post_rrc)
    mon.attach(p + 'gaussianfilter', post_gauss)
    mon.attach(p + 'rectfilter', post_rect)


def params(c, singular=0):
    """ singular: multiple (2 or 4) of alpha tau which must be 1 on a sample """
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 8, 15, 64, 101, 256, [257, 1024, 1001, 5000][rng.randint(4)]]))
    ts = float(rng.choice([1, 2, .5, 1e-3, 1e-6, 3.7e-5, 1 / 3., 10. ** rng.uniform(-9, 4)]))
    over = rng.choice([1, 2, 3, 4, 5, 8, 10, 24, rng.uniform(.5, 20)])
    fs = over / ts
    if rng.randint(4) == 0 and ts >= 1:
        ts, fs = int(max(1, round(ts))), int(max(1, round(over)))
    if singular:
        n = max(n, 16) + int(rng.randint(2))
        n0 = n - n // 2
        j = int(rng.randint(1, n // 2))
        tau = (j + (.5 if n % 2 else 0)) / fs / ts
        al = 1 / (singular * tau)
        if al > 1:
            k = math.ceil(al)
            fs = float(fs) / k
            tau = (j + (.5 if n % 2 else 0)) / fs / ts
            al = 1 / (singular * tau)
        al = min(al, 1.)
    else:
        al = float(rng.choice([0, 1, .5, .25, .35, .22, .1, 1e-3, rng.rand()]))
        if rng.randint(5) == 0:
            al = int(rng.randint(2))
    c.note(N=n, alpha=al, Ts=ts, Fs=fs)
    return n, al, ts, fs


def plain(c):
    n, al, ts, fs = params(c)
    F.rcosfilter(n, al, ts, fs)
    F.rrcosfilter(n, al, ts, fs)
    F.rectfilter(n, ts, fs)
    F.gaussianfilter(n, al or .3, ts, fs)
    F.gaussianfilter(n, max(float(al), .01) / fs * 10. ** c.rng.uniform(0, 2), ts, fs)


def near(c):
    """ Samples which come close to the singularities, on one side or the other, without reaching them. """
    rng = c.rng
    for mult, f in ((2, F.rcosfilter), (4, F.rrcosfilter)):
        n = 2 * int(rng.randint(8, 60))
        over = int(rng.choice([2, 4, 5, 8]))
        ts = 10. ** rng.randint(-6, 1)
        al0 = over / float(mult * rng.randint(over, n // 2 + over))
        eps = 10. ** rng.uniform(-7, -2) * (1 if rng.randint(2) else -1)
        al = min(1., al0 * (1 + eps))
        c.note(f=mult, N=n, over=over, Ts=ts, al0=al0, eps=eps)
        f(n, al, ts, over / ts)
    c.tag('near')


def singular(c):
    n, al, ts, fs = params(c, 2)
    F.rcosfilter(n, al, ts, fs)
    n, al, ts, fs = params(c, 4)
    F.rrcosfilter(n, al, ts, fs)


NICE = [(a, o) for a in (.1, .2, .25, .3, .35, .4, .5, .6, .7, .75, .8, .9, 1., .125, .05) for o in (1, 2, 4, 5, 8, 10, 12, 16, 20)]


def usual(c):
    """ Usual roll-offs and oversampling factors, most of which hit the singularities. """
    al, over = NICE[c.idx % len(NICE)]
    ts = [1, 1e-3, 1e-6, 1. / 3, 2e-5][c.rng.randint(5)]
    n = over * 20 + int(c.rng.randint(2)) * (c.idx % 2)
    c.note(alpha=al, over=over, Ts=ts, n=n)
    fs = over / ts
    _, h = F.rcosfilter(n, al, ts, fs)
    F.rrcosfilter(n, al, ts, fs)
    if n % 2 == 0:
        isi = np.asarray(h)[n // 2 % over::over]
        mid = (n // 2) // over
        e = np.zeros(len(isi))
        e[mid] = 1
        c.close(isi, e, 'the raised cosine has intersymbol interference', rtol=0, atol=1e-9)
        c.tag('nyquist')


def pair(c):
    rng = c.rng
    al, over = float(rng.choice([.3, .5, .8, 1., rng.uniform(.25, 1)])), int(rng.choice([2, 4, 8]))
    n = 120 * over
    ts = 10. ** rng.randint(-6, 1)
    c.note(alpha=al, over=over)
    _, g = F.rrcosfilter(n, al, ts, over / ts)
    _, h = F.rcosfilter(n, al, ts, over / ts)
    x = np.convolve(g, g)[n // 2:n // 2 + n] / over
    mid = slice(n // 2 - 10 * over, n // 2 + 10 * over)
    c.close(x[mid], np.asarray(h)[mid], 'a root raised cosine pair is not a raised cosine', rtol=0, atol=2e-3)
    c.tag('pair')


WORKLOADS = {'plain': (plain, 250, 8000), 'singular': (singular, 250, 8000), 'near': (near, 150, 5000), 'usual': (usual, 135, 1350), 'pair': (pair, 24, 300)}
