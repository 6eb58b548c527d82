"""C19: OFDM transmission and reception."""
import math

import numpy as np

import commpy.modulation as M
from .. import mon

RULE = ('OFDM signals of 3 to 256 carriers (powers of two or not), with every even number of used subcarriers, prefixes from '
        'none to a whole symbol, 1 to 8 symbols of several types, through perfect and dispersive channels; each '
        'transmission and reception is compared by monitors with a direct discrete Fourier transform.')
ASSUMPTIONS = ['The number of used subcarriers is even, at least 2 and lower than the FFT size; the prefix is not longer than '
               'the FFT size; sizes are integers.']
REQUIRE = {'judged ofdm_tx': 300, 'judged ofdm_rx': 300, 'dispersive': 80, 'tail': 40, 'no prefix': 20, 'many symbols': 8}


def carriers(nsc, nfft):
    """ FFT bin of each row of the block of symbols """
    return [(r - nsc // 2) % nfft if r < nsc // 2 else r - nsc // 2 + 1 for r in range(nsc)]


_W = {}


def dft(nfft):
    if nfft not in _W:
        e = np.outer(np.arange(nfft), np.arange(nfft)) % nfft
        _W[nfft] = np.exp(-2j * np.pi * e / nfft)
    return _W[nfft]


def valid(nfft, nsc, cp):
    return nsc % 2 == 0 and 2 <= nsc < nfft and 0 <= cp <= nfft


def post_tx(c, a, r, t):
    x = np.asarray(a['x'])
    nfft, nsc, cp = int(a['nfft']), int(a['nsc']), int(a['cp_length'])
    if not valid(nfft, nsc, cp) or x.shape[0] != nsc:
        return
    n = x.shape[1]
    r = np.asarray(r)
    c.check(r.shape == (n * (nfft + cp),), 'wrong number of samples', shape=r.shape, want=n * (nfft + cp))
    r = r.reshape(n, nfft + cp)
    body = r[:, cp:]
    sc = max(float(np.abs(x).max()), 1e-300)
    c.close(r[:, :cp] / sc, body[:, nfft - cp:] / sc, 'the prefix is not cyclic', rtol=0, atol=1e-12)
    spec = np.zeros((n, nfft), complex)
    spec[:, carriers(nsc, nfft)] = x.T
    want = spec.dot(dft(nfft).conj()) / nfft
    c.close(body / sc, want / sc, 'not the inverse FFT of the symbols around DC', rtol=0, atol=1e-11)


def post_rx(c, a, r, t):
    y = np.asarray(a['y'])
    nfft, nsc, cp = int(a['nfft']), int(a['nsc']), int(a['cp_length'])
    if not valid(nfft, nsc, cp):
        return
    n = len(y) // (nfft + cp)
    r = np.asarray(r)
    c.check(r.shape == (nsc, n), 'wrong shape', shape=r.shape, want=(nsc, n))
    sc = max(float(np.abs(y).max()), 1e-300) if len(y) else 1
    want = y[:n * (nfft + cp)].reshape(n, nfft + cp)[:, cp:].dot(dft(nfft))[:, carriers(nsc, nfft)].T
    c.close(r / sc, want / sc, 'not the FFT of the received symbols without their prefixes', rtol=0, atol=1e-10)


def setup():
    mon.attach('commpy.modulation.ofdm_tx', post_tx)
    mon.attach('commpy.modulation.ofdm_rx', post_rx)


def params(c):
    rng = c.rng
    nfft = int(rng.choice([3, 4, 5, 7, 8, 12, 16, 33, 64, 128, 256, [256, 512, 600, 1024, 2048][rng.randint(5)] if rng.randint(2) else 6]))
    top = (nfft - 1) // 2
    nsc = 2 * int(rng.choice([1, top, rng.randint(1, top + 1)]))
    cp = int(rng.choice([0, 1, nfft // 4, nfft, rng.randint(nfft + 1)]))
    n = int(rng.randint(1, 9)) if nfft > 64 else int(rng.choice([1, 2, 5, 8, 50, 200]))
    if c.idx % 30 == 7:
        n = int(rng.choice([513, 1025, 1500, 2100]))
        nfft, nsc, cp = [(8, 4, 2), (16, 14, 4), (5, 4, 0), (64, 52, 16)][rng.randint(4)]
        c.tag('many symbols')
    if cp == 0:
        c.tag('no prefix')
    c.note(nfft=nfft, nsc=nsc, cp=cp, n=n, s=c.seed)
    return nfft, nsc, cp, n


def block(rng, nsc, n):
    k = rng.randint(6)
    if k == 0:
        return rng.randint(0, 2, (nsc, n)) * 2 - 1
    if k == 1:
        return rng.randn(nsc, n)
    if k == 2:
        return np.asfortranarray(rng.randn(nsc, n) + 1j * rng.randn(nsc, n)) * 10. ** rng.randint(-4, 5)
    if k == 3:
        x = np.zeros((nsc, n), complex)
        x[rng.randint(nsc), rng.randint(n)] = 1j
        return x
    if k == 4:
        return (rng.randn(nsc, n) + 1j * rng.randn(nsc, n)).astype(np.complex64)
    m = M.QAMModem(16)
    return np.asarray(m.modulate(rng.randint(0, 2, 4 * nsc * n))).reshape(n, nsc).T


def perfect(c):
    nfft, nsc, cp, n = params(c)
    x = block(c.rng, nsc, n)
    x0 = x.copy()
    s = M.ofdm_tx(x, nfft, nsc, cp)
    y = M.ofdm_rx(s, nfft, nsc, cp)
    sc = np.abs(x).max()
    c.close(y / sc, x0 / sc, 'reception does not invert transmission', rtol=0, atol=1e-6 if x.dtype == np.complex64 else 1e-11)
    c.equal(x, x0, 'the symbols were modified')
    # symbols are independent of each other
    if n > 1:
        i = c.rng.randint(n)
        one = M.ofdm_tx(x0[:, i:i + 1], nfft, nsc, cp)
        c.close(one / sc, np.asarray(s)[i * (nfft + cp):(i + 1) * (nfft + cp)] / sc, 'symbols are mixed', rtol=0, atol=1e-12)


def dispersive(c):
    rng = c.rng
    nfft, nsc, cp, n = params(c)
    taps = int(rng.randint(1, cp + 2))
    h = rng.randn(taps) + 1j * rng.randn(taps)
    x = block(rng, nsc, n)
    s = np.asarray(M.ofdm_tx(x, nfft, nsc, cp))
    y = np.convolve(s, h)
    if cp < nfft and rng.randint(2):  # received with its tail, or with what follows
        y = np.concatenate((y, rng.randn(rng.randint(nfft + cp - taps + 1))))
        c.tag('tail')
    else:
        y = y[:len(s)]
    r = np.asarray(M.ofdm_rx(y, nfft, nsc, cp))
    freq = np.array([sum(h[l] * np.exp(-2j * math.pi * ((k * l) % nfft) / nfft) for l in range(taps))
                     for k in carriers(nsc, nfft)])
    want = x * freq[:, None]
    sc = np.abs(x).max() * np.abs(h).sum()
    c.close(r / sc, want / sc, 'a subcarrier is not the symbol times the frequency response', rtol=0,
            atol=1e-6 if x.dtype == np.complex64 else 1e-10, taps=taps)
    if taps > 1:
        c.tag('dispersive')


WORKLOADS = {'perfect': (perfect, 300, 10000), 'dispersive': (dispersive, 250, 8000)}
