"""C22: frequency offset."""
import math
from fractions import Fraction

import numpy as np

import commpy.impairments as I
from .. import mon

RULE = ('Real, integer and complex signals of many lengths, sampling rates and offsets of both signs over many decades, sums '
        'and inverses of offsets; each result is compared by a monitor with phases computed in rational arithmetic.')
ASSUMPTIONS = ['Signals are one-dimensional arrays, rates are positive.']
REQUIRE = {'judged add_frequency_offset': 900, 'inverse': 150, 'sum': 150}


def turns(df, fs, n):
    """ (n df / fs) modulo 1 in exact arithmetic of the given numbers """
    r = Fraction(float(df)) / Fraction(float(fs))
    p, q = r.numerator, r.denominator
    return np.array([float(Fraction((k * p) % q, q)) for k in range(n)])


def post(c, a, r, t):
    x = np.asarray(a['waveform'])
    fs, df = a['Fs'], a['delta_f']
    c.equal(np.asarray(a['__live__']['waveform']), x, 'the signal was modified')
    r = np.asarray(r)
    c.check(r.shape == x.shape, 'wrong length', shape=r.shape)
    n = len(x)
    if n == 0:
        return
    sc = float(np.abs(x).max()) or 1.
    cycles = abs(float(df)) / float(fs) * n
    tol = (1e-6 if x.dtype in (np.complex64, np.float32) else 1e-13) + 1e-14 * cycles
    want = x * np.exp(2j * math.pi * turns(df, fs, n))
    c.close(r / sc, want / sc, 'wrong rotation', rtol=0, atol=tol, Fs=fs, delta_f=df)
    c.close(r[0] / sc, x[0] / sc, 'the first sample changed', rtol=0, atol=1e-15)
    c.close(np.abs(r) / sc, np.abs(x) / sc, 'magnitudes are not preserved', rtol=0, atol=tol)


def setup():
    mon.attach('commpy.impairments.add_frequency_offset', post)


def signal(rng):
    n = int(rng.choice([1, 2, 3, 10, 77, 400, 1500, 1500, [4096, 33000, 70000][rng.randint(3)]]))
    k = rng.randint(6)
    if k == 0:
        return rng.randint(-5, 6, n)
    if k == 1:
        return rng.randn(n)
    if k == 2:
        return np.ones(n)
    if k == 3:
        return (rng.randn(n) + 1j * rng.randn(n)).astype(np.complex64)
    return (rng.randn(n) + 1j * rng.randn(n)) * 10. ** rng.randint(-5, 6)


def offset(rng, fs):
    k = rng.randint(9)
    if k == 0:
        return 0
    if k == 7:
        return [int, np.int64, np.int32][rng.randint(3)](rng.randint(-10 ** 9, 10 ** 9))
    if k == 8:
        return int(rng.randint(-int(fs) - 1, int(fs) + 2))
    if k == 1:
        return fs / float(rng.choice([2, 4, 3, 8, 100]))
    if k == 2:
        return int(rng.randint(-1000, 1001))
    if k == 3:
        return fs * rng.uniform(-3, 3)
    return fs * rng.uniform(-.5, .5) * 10. ** rng.uniform(-5, 0)


def case(c):
    rng = c.rng
    fs = [1, 8000, 44100., 20e6, 1e-2, 10. ** rng.uniform(-3, 10), int(rng.randint(1, 10 ** 6))][rng.randint(7)]
    x = signal(rng)
    d, e = offset(rng, fs), offset(rng, fs)
    c.note(fs=fs, d=d, e=e, n=len(x), dtype=x.dtype)
    y = I.add_frequency_offset(x, fs, d)
    n = len(x)
    cyc = (abs(d) + abs(e)) / fs * n
    tol = (1e-6 if x.dtype == np.complex64 else 1e-12) + 1e-13 * cyc
    sc = float(np.abs(x).max()) or 1.
    z = I.add_frequency_offset(y, fs, -d)
    c.close(z / sc, x / sc, 'the opposite offset does not undo the offset', rtol=0, atol=tol)
    c.tag('inverse')
    u = I.add_frequency_offset(waveform=y, Fs=fs, delta_f=e)
    v = I.add_frequency_offset(x, fs, d + e)
    c.close(u / sc, v / sc, 'offsets do not add up', rtol=0, atol=tol)
    c.tag('sum')
    y[:] = 0
    I.add_frequency_offset(x, fs, d)


WORKLOADS = {'case': (case, 400, 15000)}
