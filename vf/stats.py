"""Statistical oracles; every statistic is compared with a threshold whose false-alarm probability is below 1e-10."""
import math

import numpy as np
from scipy.special import ndtr


def mean0(c, x, sd, what, **d):
    """ x (real, independent samples of known deviation) has mean 0 """
    n = x.size
    c.stat(float(np.sum(x)) / (sd * math.sqrt(n)), what, n=n, **d)


def power(c, x, var, what, real, **d):
    """ mean of |x|^2 is var, x Gaussian (circular unless real) """
    n = x.size
    p = float(np.mean(np.abs(x) ** 2)) / var
    sd = math.sqrt((2. if real else 1.) / n)
    z = (p - 1) / sd
    # chi-square upper tails are heavier: Wilson-Hilferty for the decision
    k = n * (1 if real else 2)
    z = (np.cbrt(p) - (1 - 2. / (9 * k))) / math.sqrt(2. / (9 * k))
    c.stat(z, what, measured=p * var, expected=var, n=n, **d)


def uncorr(c, x, y, sx, sy, what, **d):
    """ E[x y] = 0 for independent zero-mean x (of deviation sx) and arbitrary y of known mean square sy^2 """
    n = x.size
    z = float(np.sum(x * y)) / (sx * math.sqrt(float(np.sum(y * y))) + 1e-300)
    c.stat(z, what, limit=7.5, n=n, **d)


def gaussian(c, x, sd, what, **d):
    """ Kolmogorov-Smirnov against N(0, sd) """
    n = x.size
    u = np.sort(ndtr(np.asarray(x, float).reshape(-1) / sd))
    k = np.arange(n)
    ks = max(float(np.max(u - k / n)), float(np.max((k + 1.) / n - u)))
    from .core import STATE
    STATE.event('statistic')
    c.check(ks * math.sqrt(n) < 3.6, what, ks=ks, n=n, **d)
    for t in (2.5, 3.2):
        p = 2 * float(ndtr(-t))
        c.binom(int(np.sum(np.abs(x) > t * sd)), n, p, what + ' (tails)', **d)


def no_period(c, x, sd, what, **d):
    """ autocorrelation of independent zero-mean x (of deviation sd) at every lag which leaves 500 products """
    n = x.size
    if n < 1000:
        return
    f = np.fft.rfft(x, 2 * n)
    ac = np.fft.irfft(f * f.conj())[1:n - 500]
    z = np.abs(ac) / (sd * sd * np.sqrt(n - np.arange(1, n - 500)))
    i = int(z.argmax())
    c.stat(float(z[i]), what, limit=10., lag=i + 1, n=n, **d)


def uniform(c, counts, what, **d):
    """ chi-square of counts against equiprobable cells """
    counts = np.asarray(counts, float)
    n, k = counts.sum(), len(counts)
    chi = float(((counts - n / k) ** 2).sum() / (n / k))
    df = k - 1
    z = (np.cbrt(chi / df) - (1 - 2. / (9 * df))) / math.sqrt(2. / (9 * df))
    c.stat(max(0., z), what, chi2=chi, df=df, **d)


def blocks(c, dev, kurt, what, **d):
    """ standardised figures of independent blocks (unit variance, excess kurtosis kurt): neither constant nor scattered """
    dev = np.asarray(dev, float).reshape(-1)
    k = dev.size
    z = (float((dev * dev).sum()) - k) / math.sqrt(k * (2. + max(kurt, -1.)))
    c.stat(z, what + ': the figures of the blocks are too regular or too scattered', limit=9., blocks=k, **d)
    if k > 100:
        z = float((dev[1:] * dev[:-1]).sum()) / math.sqrt(k)
        c.stat(z, what + ': the figures of successive blocks are correlated', limit=9., blocks=k, **d)
