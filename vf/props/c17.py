"""C17: hard MIMO detection finds the closest symbol vector."""
import itertools

import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as M
from .. import mon

RULE = ('mimo_ml, kbest and best_first_detector on random, ill-conditioned, singular, structured, real and complex channel '
        'matrices of 1 to 5 antennas, noisy, noiseless and hostile received vectors, modems and custom constellations, and '
        'in link simulations; each detection is compared by monitors with an exhaustive search.')
ASSUMPTIONS = ['Best-first detection is claimed for at least two transmit antennas and for the signs of its LLRs only; the '
               'closest vector is compared through its distance, and through its bits when it is closest by a margin.',
               'Detections whose exhaustive search exceeds 40000 vectors are only judged on their form.']
REQUIRE = {'judged mimo_ml': 400, 'judged kbest': 600, 'judged best_first_detector': 250, 'optimal kbest': 200,
           'optimal best first': 100, 'noiseless': 60, 'rejected': 20, 'many hypotheses': 20}
LIMIT = 40000


def all_vectors(k, n):
    return np.array(list(itertools.product(range(len(k)), repeat=n))).reshape(-1, n)


def distances(y, h, k, idx):
    e = np.asarray(y)[None, :] - np.asarray(k)[idx].dot(np.asarray(h).T)
    return np.sqrt((e.real ** 2 + e.imag ** 2).sum(1))


def scale(y, h, k):
    return float(np.abs(y).sum() + np.abs(h).sum() * np.abs(k).max()) + 1e-300


def closest(c, y, h, k, x, what):
    """ x is a vector of constellation points at minimum distance """
    x = np.asarray(x)
    nt = h.shape[1]
    c.check(x.shape == (nt,), what + ': wrong shape', shape=x.shape)
    off = np.abs(x[:, None] - np.asarray(k)[None, :])
    c.check(np.all(off.min(1) <= 1e-6 * np.abs(k).max()), what + ': not a vector of constellation points', x=x, points=k)
    if len(k) ** nt > LIMIT:
        return False
    d = distances(y, h, k, all_vectors(k, nt))
    got = distances(y, h, k, off.argmin(1)[None, :])[0]
    c.check(got <= d.min() + 1e-10 * scale(y, h, k), what + ': there is a closer vector', got_distance=got,
            minimum=d.min(), x=x, y=y, h=h, points=k)
    return True


def post_ml(c, a, r, t):
    closest(c, np.asarray(a['y']), np.asarray(a['h']), np.asarray(a['constellation']), r, 'mimo_ml')


def well(h):
    s = np.linalg.svd(h, compute_uv=False)
    return s[-1] > 1e-3 * s[0]


def post_kbest(c, a, r, t):
    y, h, k = np.asarray(a['y']), np.asarray(a['h']), np.asarray(a['constellation'])
    c.check(h.shape[1] <= h.shape[0], 'kbest accepted more columns than rows')
    if a['output_type'] != 'hard':
        return
    nt = h.shape[1]
    if a['K'] >= len(k) ** max(nt - 1, 0):
        # every partial vector is kept
        if closest(c, y, h, k, r, 'kbest with enough candidates'):
            c.tag('optimal kbest')
    else:
        x = np.asarray(r)
        c.check(x.shape == (nt,), 'kbest: wrong shape', shape=x.shape)
        off = np.abs(x[:, None] - k[None, :]).min(1)
        c.check(np.all(off <= 1e-6 * np.abs(k).max()), 'kbest: not a vector of constellation points', x=x, points=k)


def exc_kbest(c, a, e, t):
    h = np.asarray(a['h'])
    bad = h.shape[1] > h.shape[0] or a['output_type'] not in ('hard', 'soft')
    c.check(bad and isinstance(e, ValueError), 'kbest raised', error=e, h=h, K=a['K'])


def post_bf(c, a, r, t):
    y, h, k = np.asarray(a['y']), np.asarray(a['h']), np.asarray(a['constellation'])
    nt = h.shape[1]
    b = int(round(np.log2(len(k))))
    r = np.asarray(r)
    c.check(r.shape == (nt * b,), 'best first: wrong number of LLRs', shape=r.shape)
    lim = float(a['llr_max'])
    c.check(np.all(np.isfinite(r)), 'best first: LLRs are not finite', llr=r)
    sc = scale(y, h, k)
    c.check(np.all(np.abs(r) <= lim * (1 + 1e-9) + 1e-9 * sc * sc), 'best first: LLRs exceed their limit', llr=r, limit=lim)
    if min(a['stack_size']) < len(k) ** nt or len(k) ** nt > LIMIT:
        return
    d = distances(y, h, k, all_vectors(k, nt)) ** 2
    order = np.argsort(d)
    with mon.quiet():
        bits = np.asarray(a['demode'](k[all_vectors(k, nt)[order[0]]])).reshape(-1)
    if d[order[1]] - d[order[0]] > 1e-9 * sc * sc and lim > 1e-6 * sc * sc:
        c.tag('optimal best first')
        c.check(np.array_equal(r < 0, bits == 1) and np.all(r != 0), 'best first: signs are not those of the closest '
                'vector', llr=r, bits=bits, y=y, h=h, points=k)


def setup():
    p = 'commpy.modulation.'
    mon.attach(p + 'mimo_ml', post_ml)
    mon.attach(p + 'kbest', post_kbest, exc=exc_kbest)
    mon.attach(p + 'best_first_detector', post_bf)


def channel_matrix(rng, nr, nt, cplx):
    k = rng.randint(8)
    h = rng.randn(nr, nt) + (1j * rng.randn(nr, nt) if cplx else 0)
    if k == 0:
        h = np.eye(nr, nt) * (1 + 0j if cplx else 1)
    elif k == 1:
        h = h * 10. ** rng.uniform(-3, 3)
    elif k == 2 and nt > 1:
        h[:, -1] = h[:, 0] * (1 + 1e-2 * rng.randn())
    elif k == 3 and nt > 1:
        h[:, rng.randint(nt)] *= 1e-2
    elif k == 4:
        h = np.round(h * 2)
    elif k == 5 and nt > 1 and rng.randint(3) == 0:
        h[:, 0] = h[:, 1]
    return h


def modem(rng, small):
    k = rng.randint(6)
    if k < 2:
        return M.PSKModem(int(2 ** rng.randint(1, 3 if small else 5)))
    if k < 4:
        return M.QAMModem(4 if small else int(rng.choice([4, 16])))
    n = int(2 ** rng.randint(1, 3 if small else 4))
    if k == 4:
        return M.Modem(np.arange(-n + 1., n, 2)[rng.permutation(n)])
    return M.Modem(rng.randn(n) + 1j * rng.randn(n))


def received(rng, h, k):
    nr, nt = h.shape
    x = np.asarray(k)[rng.randint(0, len(k), nt)]
    y = h.dot(x)
    kind = rng.randint(6)
    s = np.abs(h).mean() * np.abs(k).max()
    if np.iscomplexobj(y) or rng.randint(2):
        n = rng.randn(nr) + 1j * rng.randn(nr)
    else:
        n = rng.randn(nr)
    if kind == 0:
        return x, y, True
    if kind == 1:
        return x, y + 1e-3 * s * n, False
    if kind == 2:
        return x, y + .3 * s * n, False
    if kind == 3:
        return x, s * n, False
    if kind == 4:
        return x, 30 * s * n, False
    return x, y + s * n * 10. ** rng.uniform(-3, 1), False


def dims(rng, most):
    nt = int(rng.randint(1, most + 1))
    return nt + int(rng.choice([0, 0, 1, 2] if rng.randint(8) else [4, 8, 20])), nt


def problem(c, most, small):
    rng = c.rng
    m = modem(rng, small)
    k = np.asarray(m.constellation)
    nr, nt = dims(rng, most)
    while len(k) ** nt > 5000:
        nt -= 1
    cplx = bool(rng.randint(3))
    h = channel_matrix(rng, nr, nt, cplx)
    x, y, clean = received(rng, h, k)
    c.note(m=len(k), nr=nr, nt=nt, cplx=cplx, s=c.seed)
    return m, k, h, x, y, clean


def ml(c):
    m, k, h, x, y, clean = problem(c, 5, False)
    r = M.mimo_ml(y, h, k if c.rng.randint(3) else list(k))
    if clean and well(h) and len(set(np.round(k, 9))) == len(k):
        c.tag('noiseless')
        c.close(r, x, 'mimo_ml: noiseless transmission is not recovered', rtol=0, atol=1e-9)


def large(c):
    """ Many hypotheses, constellations of any size. """
    rng = c.rng
    k, nt = [(3, 7), (13, 3), (48, 2), (5, 5), (7, 4), (60, 2), (2, 12), (4, 6), (3000, 1), (16, 3)][c.idx % 10]
    k = (rng.randn(k) + 1j * rng.randn(k)) if rng.randint(2) else rng.permutation(k) * (1 + 0j) - (k - 1) / 2.
    h = channel_matrix(rng, nt + int(rng.randint(2)), nt, True)
    x = k[rng.randint(0, len(k), nt)]
    if rng.randint(2):
        x = k[-1 - rng.randint(0, 2, nt)]
    y = h.dot(x)
    noisy = rng.randint(3) == 0
    if noisy:
        y = y + .3 * np.abs(h).mean() * (rng.randn(len(y)) + 1j * rng.randn(len(y)))
    c.note(points=len(k), nt=nt, s=c.seed)
    r = M.mimo_ml(y, h, k)
    c.tag('many hypotheses')
    if not noisy and well(h) and np.abs(k[:, None] - k[None, :])[~np.eye(len(k), dtype=bool)].min() > 1e-6:
        c.tag('noiseless')
        c.close(r, x, 'mimo_ml: noiseless transmission is not recovered', rtol=0, atol=1e-9)


def kb(c):
    m, k, h, x, y, clean = problem(c, 4, False)
    nt = h.shape[1]
    full = len(k) ** (nt - 1)
    demode = lambda v: m.demodulate(v, 'hard')
    for K in sorted({1, int(c.rng.randint(1, 20)), full, full + int(c.rng.randint(5)), len(k)}):
        if K * len(k) > 20000:
            continue
        r = M.kbest(y, h, k if c.rng.randint(3) else list(k), K)
        if clean and well(h):
            c.tag('noiseless')
            c.close(r, x, 'kbest: noiseless transmission is not recovered', rtol=0, atol=1e-9, K=K)


def wide(c):
    rng = c.rng
    nr = int(rng.randint(1, 4))
    nt = nr + int(rng.randint(1, 3))
    h = channel_matrix(rng, nr, nt, True)
    m = modem(rng, True)
    c.note(nr=nr, nt=nt, m=m.m, s=c.seed)
    y = rng.randn(nr) + 1j * rng.randn(nr)
    for out in ('hard', 'soft'):
        c.raises(ValueError, M.kbest, 'kbest with more columns than rows', y, h, m.constellation, int(rng.randint(1, 20)),
                 1., out, lambda v: m.demodulate(v, 'hard'))
    c.tag('rejected')
    h = channel_matrix(rng, nt, nt, True)
    c.raises(ValueError, M.kbest, 'unknown output type', np.ones(nt, complex), h, m.constellation, 4, 1., 'medium')
    M.mimo_ml(y, channel_matrix(rng, nr, nt, True), m.constellation)


def bf(c):
    rng = c.rng
    m, k, h, x, y, clean = problem(c, 3, True)
    nt = h.shape[1]
    if nt < 2:
        nr, nt = 2 + int(rng.randint(2)), 2
        h = channel_matrix(rng, nr, nt, True)
        x, y, clean = received(rng, h, k)
    if np.linalg.matrix_rank(h) < nt:
        h = h + 1e-2 * rng.randn(*h.shape)
    demode = lambda v: m.demodulate(v, 'hard')
    sc = float(np.abs(h).mean() * np.abs(k).max()) ** 2
    big = len(k) ** nt
    for size in ((big,) * (nt - 1), tuple(int(v) for v in rng.randint(1, 6, nt - 1))):
        lim = float(rng.choice([100, 500, 5 * sc, .5 * sc]))
        M.best_first_detector(y, h, k if rng.randint(3) else list(k), size, 0, demode, lim)


def link(c):
    """ Detections made by link simulations. """
    rng = c.rng
    m = M.QAMModem(4) if rng.randint(2) else M.PSKModem(8)
    nt = int(rng.randint(2, 4))
    ch = CH.MIMOFlatChannel(nt, nt + int(rng.randint(2)))
    ch.uncorr_rayleigh_fading(complex)
    kind = c.idx % 3
    c.note(kind=kind, nt=nt, m=m.m, s=c.seed)
    hard = lambda v: m.demodulate(v, 'hard')
    dets = [lambda y, h, k, nv: hard(M.mimo_ml(y, h, k)), lambda y, h, k, nv: hard(M.kbest(y, h, k, len(k) ** (nt - 1))),
            lambda y, h, k, nv: np.array(M.best_first_detector(y, h, k, (m.m ** nt,) * (nt - 1), nv, hard, 500) < 0, int)]
    if kind == 2 and m.m ** nt > 64:
        kind = 1
    model = LK.LinkModel(m.modulate, ch, dets[kind], m.num_bits_symbol, m.constellation, m.Es)
    LK.link_performance(model, [5., 60.], 6 * nt * m.num_bits_symbol, 10 ** 6, nt * m.num_bits_symbol * 2)


WORKLOADS = {'large': (large, 40, 800), 'ml': (ml, 400, 12000), 'kbest': (kb, 300, 10000), 'wide': (wide, 40, 600), 'best first': (bf, 200, 4000),
             'link': (link, 36, 600)}
