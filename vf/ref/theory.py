"""Theoretical error rates, from Gaussian integrals over the decision regions of the constellations."""
import math

import numpy as np
from scipy.special import erfc


def Q(x):
    return .5 * erfc(np.asarray(x, float) / math.sqrt(2))


def hamming(bits):
    n = 2 ** bits
    i = np.arange(n)
    return np.array([[bin(a ^ b).count('1') for b in i] for a in i])


def psk_ber(points, gammas):
    """ Mean bit error rate (per Es/N0 of gammas) of the nearest point rule for a PSK whose point i has label i. """
    m = len(points)
    bits = m.bit_length() - 1
    k = np.rint((np.angle(points) - np.angle(points[0])) * m / (2 * np.pi)).astype(int) % m
    label = np.argsort(k)  # label of the k-th position
    d = hamming(bits)
    # mean distance between labels separated by j positions
    mean = np.array([np.mean([d[label[i], label[(i + j) % m]] for i in range(m)]) for j in range(m)]) / bits
    th = np.linspace(-np.pi, np.pi, 2 * m * 2000 + 1)
    out = []
    for g in np.atleast_1d(gammas):
        with np.errstate(all='ignore'):
            c = np.cos(th)
            f = np.exp(-g) / (2 * np.pi) + math.sqrt(g / np.pi) * c * np.exp(-g * np.sin(th) ** 2) * (1 - Q(
                np.sqrt(2 * g) * c))
        cum = np.concatenate(([0], np.cumsum((f[1:] + f[:-1]) / 2 * (th[1] - th[0]))))
        n = 2000  # half sector
        tot = 0.
        for j in range(1, m):
            # sector centered on 2 pi j / m
            centre = (j * 2 * n + m * n) % (2 * m * n)
            lo, hi = centre - n, centre + n
            if lo >= 0:
                p = cum[hi] - cum[lo]
            else:
                p = cum[hi] + cum[-1] - cum[2 * m * n + lo]
            tot += mean[j] * p
        out.append(tot)
    return np.array(out)


_tables = {}


def _qam_table(points, re, im, bits):
    """ table[(r1, r2), (i1, i2)]: distance between the labels of the points (r1, i1) and (r2, i2) """
    key = points.tobytes()
    if key not in _tables:
        ri = np.searchsorted(re, np.round(points.real, 9))
        ii = np.searchsorted(im, np.round(points.imag, 9))
        d = hamming(bits)
        R, N = len(re), len(im)
        t = np.zeros((R * R, N * N))
        for x in range(len(points)):
            t[ri[x] * R + ri, ii[x] * N + ii] = d[x]
        _tables[key] = t
    return _tables[key]


def qam_ber(points, gammas):
    """ Same for a square QAM. """
    m = len(points)
    bits = m.bit_length() - 1
    es = np.mean(np.abs(points) ** 2)
    re, im = np.unique(np.round(points.real, 9)), np.unique(np.round(points.imag, 9))
    table = _qam_table(points, re, im, bits)
    out = []
    for g in np.atleast_1d(gammas):
        s = math.sqrt(es / g / 2)

        def axis(v):
            t = np.concatenate(([-np.inf], (v[1:] + v[:-1]) / 2, [np.inf]))
            c = 1 - Q((t[None, :] - v[:, None]) / s)
            up = Q((t[None, :] - v[:, None]) / s)
            low = np.diff(c, axis=1)
            high = -np.diff(up, axis=1)
            return np.where(t[:-1][None, :] > v[:, None], high, low)
        a, b = axis(re), axis(im)
        out.append(a.ravel() @ table @ b.ravel() / m / bits)
    return np.array(out)


def faded(ber, gamma, order=1, n=600):
    """ Mean of ber(gamma x) over x following a Gamma(order, 1) law. """
    t = (np.arange(n) + .5) / n * 7.  # x = t^2
    x = t * t
    w = 2 * t ** (2 * order - 1) * np.exp(-x) / math.gamma(order)
    w /= w.sum()
    return float((w * ber(gamma * x)).sum())


def spectrum(ns, ot, dmax):
    """ Information weight of the code words of weight d = 0..dmax that leave and join the zero path once; one input. """
    states = ns.shape[0]
    wt = np.vectorize(lambda v: bin(v).count('1'))(ot)
    A = np.zeros((states, dmax + 1))
    B = np.zeros((states, dmax + 1))
    a = np.zeros(dmax + 1)
    b = np.zeros(dmax + 1)
    A[ns[0, 1], wt[0, 1]] = 1
    B[ns[0, 1], wt[0, 1]] = 1
    for _ in range(4000):
        A2, B2 = np.zeros_like(A), np.zeros_like(B)
        for s in range(1, states):
            if not A[s].any():
                continue
            for u in range(2):
                w, t = wt[s, u], ns[s, u]
                sa = np.concatenate((np.zeros(w), A[s]))[:dmax + 1]
                sb = np.concatenate((np.zeros(w), B[s]))[:dmax + 1] + u * sa
                if t == 0:
                    a += sa
                    b += sb
                else:
                    A2[t] += sa
                    B2[t] += sb
        A, B = A2, B2
        if not A.any():
            break
    return a, b


def hard_pair(d, p):
    """ Probability of preferring a word at distance d over a BSC (ties count for one half). """
    tot = 0.
    for e in range((d + 1) // 2, d + 1):
        v = math.comb(d, e) * p ** e * (1 - p) ** (d - e)
        tot += v / 2 if 2 * e == d else v
    return tot
