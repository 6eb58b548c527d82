"""C18: max-log outputs and bit-level channels."""
import itertools

import numpy as np

import commpy.modulation as M
from .. import mon
from .c17 import all_vectors, channel_matrix, dims, modem, received

RULE = ('max_log_approx with complete, partial, one-point and repeated lists, soft kbest with few and all candidates '
        '(including inside link simulations), bit_lvl_repr with random weights and matrices; monitors compare each result '
        'with its definition.')
ASSUMPTIONS = ['Noise variances are positive.',
               'K-best with few candidates is compared with the definition of its candidates (the best partial vectors from '
               'the last antenna to the first) when no two of them are nearly tied.']
REQUIRE = {'judged max_log_approx': 600, 'judged kbest': 300, 'judged bit_lvl_repr': 200, 'infinite': 100,
           'soft complete': 100, 'soft partial': 60, 'odd': 30, 'long lists': 15}


def max_log(y, h, nv, pts, bits):
    """ pts: one point per row, bits: one word per row """
    e = y[None, :] - pts.dot(h.T)
    d = (e.real ** 2 + e.imag ** 2).sum(1)
    out = []
    for b in bits.T:
        m0 = d[b == 0].min() if (b == 0).any() else np.inf
        m1 = d[b == 1].min() if (b == 1).any() else np.inf
        out.append((m1 - m0) / (2 * nv))
    return np.array(out)


def agree(c, got, want, y, h, k, nv, what, **d):
    got = np.asarray(got)
    c.check(got.shape == want.shape, what + ': wrong number of LLRs', shape=got.shape, expected_shape=want.shape)
    c.check(not np.isnan(got).any(), what + ': NaN', got_=got)
    inf = np.isinf(want)
    if inf.any():
        c.tag('infinite')
        c.check(np.array_equal(got[inf], want[inf]), what + ': LLR should be infinite, of the sign of the only value',
                got_=got, expected=want, **d)
    sc = (float(np.abs(y).max()) + float(np.abs(h).sum() * np.abs(k).max())) ** 2 / (2 * nv)
    bad = ~inf & ~(np.abs(got - np.where(inf, 0, want)) <= 1e-9 * np.where(inf, 0, np.abs(want)) + 1e-11 * sc)
    c.check(not bad.any(), what + ': wrong LLR', got_=got, expected=want, noise_var=nv, **d)


def post_max_log(c, a, r, t):
    y, h, pts = np.asarray(a['y']), np.asarray(a['h']), np.asarray(a['pts_list'])
    nv = float(a['noise_var'])
    if not nv > 0:
        return
    n = pts.shape[1]
    with mon.quiet():
        bits = np.array([np.asarray(a['demode'](np.array(pts[:, i]))).reshape(-1) for i in range(n)])
    agree(c, r, max_log(y, h, nv, pts.T, bits), y, h, pts, nv, 'max_log_approx', n=n)


def candidates(y, h, k, K):
    """ K best partial vectors from the last antenna to the first; None if some choice is nearly tied. """
    nt = h.shape[1]
    cand = [()]
    for col in range(nt - 1, -1, -1):
        sub = h[:, col:]
        # distance of y - sub x to the space of the remaining columns
        if col:
            q = np.linalg.qr(h[:, :col])[0]
        ext = [(s,) + x for x in cand for s in range(len(k))]
        d = []
        for x in ext:
            e = y - sub.dot(k[list(x)])
            if col:
                e = e - q.dot(q.conj().T.dot(e))
            d.append(float((np.abs(e) ** 2).sum()))
        order = np.argsort(d, kind='stable')
        if len(order) > K:
            gap = d[order[K]] - d[order[K - 1]]
            if gap <= 1e-7 * (abs(y) ** 2).sum() + 1e-7 * d[order[K]]:
                return None
        cand = [ext[i] for i in order[:K]]
    return np.array(cand)


def post_kbest(c, a, r, t):
    if a['output_type'] != 'soft':
        return
    y, h, k, nv = np.asarray(a['y']), np.asarray(a['h']), np.asarray(a['constellation']), float(a['noise_var'])
    nt = h.shape[1]
    if not nv > 0 or len(k) ** nt > 40000:
        return
    K = a['K']
    if K >= len(k) ** nt:
        idx = all_vectors(k, nt)
        what = 'soft'
        c.tag('soft complete')
    else:
        if K * len(k) > 400 or not np.linalg.matrix_rank(h) == nt:
            return
        s = np.linalg.svd(h, compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            return
        idx = candidates(y, h, k, K)
        if idx is None:
            c.tag('nearly tied')
            return
        what = 'partial'
        c.tag('soft partial')
    with mon.quiet():
        bits = np.array([np.asarray(a['demode'](k[i])).reshape(-1) for i in idx])
    agree(c, r, max_log(y, h, nv, k[idx], bits), y, h, k, nv, 'kbest %s output' % what, K=K)


def post_repr(c, a, r, t):
    h, w = np.asarray(a['H']), np.asarray(a['w'])
    c.check(len(w) % 2 == 0, 'odd weights accepted', w=w)
    r = np.asarray(r)
    nr, nt = h.shape
    c.check(r.shape == (nr, nt * len(w)), 'wrong shape', shape=r.shape)
    for i in range(nt):
        for j in range(len(w)):
            c.close(r[:, i * len(w) + j], h[:, i] * w[j], 'wrong column of the bit-level channel', rtol=1e-12,
                    atol=1e-12 * float(np.abs(h).max() * np.abs(w).max()), antenna=i, weight=j)


def setup():
    p = 'commpy.modulation.'
    mon.attach(p + 'max_log_approx', post_max_log)
    mon.attach(p + 'kbest', post_kbest)
    mon.attach(p + 'bit_lvl_repr', post_repr)


def variance(rng):
    return float(rng.choice([1, .5, 2, 10. ** rng.uniform(-4, 4)]))


def problem(c, most=3):
    rng = c.rng
    m = modem(rng, bool(rng.randint(2)))
    k = np.asarray(m.constellation)
    nr, nt = dims(rng, most)
    while len(k) ** nt > 1100:
        nt -= 1
    h = channel_matrix(rng, nr, nt, bool(rng.randint(3)))
    x, y, clean = received(rng, h, k)
    c.note(m=len(k), nr=nr, nt=nt, s=c.seed)
    return m, k, h, y, lambda v: m.demodulate(v, 'hard')


def lists(c):
    rng = c.rng
    m, k, h, y, demode = problem(c)
    nt = h.shape[1]
    idx = all_vectors(k, nt)
    kind = rng.randint(5)
    if kind == 0:
        sel = np.arange(len(idx))
    elif kind == 1:
        sel = rng.randint(0, len(idx), 1)
    elif kind == 2:
        sel = rng.randint(0, len(idx), rng.randint(1, 20))
    elif kind == 3:
        sel = rng.permutation(len(idx))[:max(1, len(idx) // 2)]
    else:
        sel = np.arange(len(idx))[:len(idx) // 2]
    pts = k[idx[sel]].T
    if rng.randint(2):
        pts = np.asfortranarray(pts)
    M.max_log_approx(y, h, variance(rng), pts, demode)


def wordy(c):
    """ demode functions with any number of bits per vector (the labelling is the caller's) """
    rng = c.rng
    nr, nt = dims(rng, 3)
    h = channel_matrix(rng, nr, nt, True)
    n, b = int(rng.randint(1, 30)), int(rng.randint(1, 8 if rng.randint(2) else 40))
    pts = rng.randn(nt, n) + 1j * rng.randn(nt, n)
    book = {complex(np.round(pts[0, i], 12)): rng.randint(0, 2, b) for i in range(n)}
    c.note(n=n, b=b, nt=nt, s=c.seed)

    def demode(v):
        return np.concatenate([book[complex(np.round(z, 12))] for z in np.asarray(v).reshape(-1, nt)[:, 0]])
    y = rng.randn(nr) + 1j * rng.randn(nr)
    M.max_log_approx(y, h, variance(rng), pts, demode)


def long_words(c):
    """ Many bits per vector: large constellations or many antennas, with short lists of points """
    rng = c.rng
    nt = int(rng.randint(2, 9))
    m = M.QAMModem(4 ** int(rng.randint(1, 5)))
    nr = nt + int(rng.randint(2))
    h = channel_matrix(rng, nr, nt, True)
    pts = np.asarray(m.constellation)[rng.randint(0, m.m, (nt, int(rng.randint(2, 200))))]
    y = h.dot(pts[:, 0]) + rng.randn(nr) * rng.rand()
    c.note(bits=nt * m.num_bits_symbol, nt=nt, m=m.m, n=pts.shape[1], s=c.seed)
    M.max_log_approx(y, h, variance(rng), pts, lambda v: m.demodulate(v, 'hard'))
    if nt * 3 <= 12:
        M.kbest(y, h, m.constellation, int(rng.randint(1, 40)), variance(rng), 'soft', lambda v: m.demodulate(v, 'hard'))


def long_lists(c):
    """ Lists of thousands of points. """
    rng = c.rng
    nt = int(rng.randint(1, 4))
    m = M.QAMModem(4 ** int(rng.randint(1, 5)))
    n = int(rng.choice([1025, 1500, 2100, 4097, 9000]))
    h = channel_matrix(rng, nt + int(rng.randint(2)), nt, True)
    pts = np.asarray(m.constellation)[rng.randint(0, m.m, (nt, n))]
    j = rng.randint(n - 20, n) if rng.randint(2) else rng.randint(n)
    y = h.dot(pts[:, j]) + .3 * rng.randn(len(h)) * rng.rand()
    c.note(nt=nt, m=m.m, n=n, s=c.seed)
    M.max_log_approx(y, h, variance(rng), pts, lambda v: m.demodulate(v, 'hard'))
    # few points of one of the values, among the last ones
    far = rng.randn(nt, n) + 1j * rng.randn(nt, n)
    book = np.zeros((n, 2), int)
    book[n - 1 - rng.randint(0, 20), 0] = 1
    book[:n - 3, 1] = 1
    M.max_log_approx(y, h, variance(rng), far, lambda v, seen=far: book[nearest(seen, v, nt)].ravel())
    c.tag('long lists')


def nearest(pts, v, nt):
    v = np.asarray(v).reshape(-1, nt)
    return [int(np.argmin(np.abs(pts - z[:, None]).sum(0))) for z in v]


def soft(c):
    rng = c.rng
    m, k, h, y, demode = problem(c)
    nt = h.shape[1]
    full = len(k) ** nt
    for K in (full, full + int(rng.randint(3)), int(rng.randint(1, 12)), max(1, full // 2)):
        if K * len(k) <= 20000:
            M.kbest(y, h, k, K, variance(rng), 'soft', demode)


def levels(c):
    rng = c.rng
    nr, nt = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    beta = 2 * int(rng.randint(1, 5))
    h = channel_matrix(rng, nr, nt, bool(rng.randint(2)))
    kind = rng.randint(4)
    if kind == 0:
        w = np.array([2., 1., 2j, 1j])
    elif kind == 1:
        w = [1, 1j]
    elif kind == 2:
        w = rng.randn(beta)
    else:
        w = rng.randn(beta) + 1j * rng.randn(beta)
    c.note(nr=nr, nt=nt, beta=len(w), s=c.seed)
    a = np.asarray(M.bit_lvl_repr(h, w))
    b = 2 * rng.randint(0, 2, (nt, len(w))) - 1
    x = b.dot(np.asarray(w))
    c.close(a.dot(b.reshape(-1)), h.dot(x), 'the bit-level channel is not equivalent', rtol=1e-9,
            atol=1e-9 * float(np.abs(h).sum() * np.abs(w).sum()))
    odd = list(w)[:-1]
    c.raises(ValueError, M.bit_lvl_repr, 'odd weights', h, odd)
    c.tag('odd')


def qam(c):
    """ The bit-level representation of QAM detected through its bits gives the max-log LLRs of the symbols. """
    rng = c.rng
    nt = int(rng.randint(1, 3))
    h = channel_matrix(rng, nt + int(rng.randint(2)), nt, True)
    w = np.array([2., 1., 2j, 1j]) if nt == 1 or rng.randint(2) else np.array([1., 1j])
    b = np.array(list(itertools.product((-1., 1.), repeat=nt * len(w))))
    y = rng.randn(h.shape[0]) + 1j * rng.randn(h.shape[0])
    nv = variance(rng)
    c.note(nt=nt, beta=len(w), s=c.seed)
    bits = lambda v: (np.asarray(v).real < 0).astype(int)
    one = M.max_log_approx(y, M.bit_lvl_repr(h, w), nv, b.T, bits)
    x = b.reshape(-1, nt, len(w)).dot(w)
    table = {tuple(np.round(v, 9)): np.asarray(r < 0, int) for v, r in zip(x, b)}
    two = M.max_log_approx(y, h, nv, x.T, lambda v: np.concatenate([table[tuple(np.round(z, 9))] for z in
                                                                    np.asarray(v).reshape(-1, nt)]))
    c.close(one, two, 'bit-level and symbol-level LLRs differ', rtol=1e-7, atol=1e-9 / nv * float(np.abs(h).sum() + 5) ** 2)


WORKLOADS = {'long lists': (long_lists, 32, 500), 'lists': (lists, 400, 12000), 'wordy': (wordy, 250, 8000), 'long words': (long_words, 100, 3000), 'soft': (soft, 200, 6000),
             'levels': (levels, 250, 6000), 'qam': (qam, 40, 1000)}
