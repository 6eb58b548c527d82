"""C02: modems map bits one-to-one, Gray labelled, with nearest-point decisions."""
import numpy as np

import commpy.modulation as M
from commpy.channels import SISOFlatChannel
from commpy.links import LinkModel
from .. import mon

RULE = ('PSK and QAM modems of all sizes and random custom constellations (real, integer, complex, clustered, with '
        'duplicates of energy), random and exhaustive bit words, samples on, near and far from the points and on '
        'decision boundaries, histories of constellation replacements on shared modems.')
ASSUMPTIONS = ['Bit streams are multiples of the number of bits per symbol.']
REQUIRE = {'judged modulate': 300, 'judged demodulate': 300, 'psk labels': 5, 'qam labels': 4}


def consistent(c, m):
    k = np.asarray(m.constellation)
    c.check(m.m == len(k), 'm is not the size of the constellation', m=m.m, size=len(k))
    c.check(2 ** m.num_bits_symbol == len(k), 'wrong number of bits per symbol', bits=m.num_bits_symbol, size=len(k))
    es = float(np.sum(np.abs(k.astype(complex)) ** 2) / len(k))
    c.close(float(np.real(m.Es)), es, 'wrong average symbol energy', rtol=1e-9, atol=0)


def words(bits, b):
    bits = np.asarray(bits).astype(int).reshape(-1, b)
    return bits.dot(1 << np.arange(b - 1, -1, -1))


def post_modulate(c, a, r, t):
    m = a['self']
    b = m.num_bits_symbol
    bits = np.asarray(a['input_bits'])
    if len(bits) == 0 or len(bits) % b:
        return
    k = np.asarray(m.constellation)
    c.equal(r, k[words(bits, b)], 'bits are not mapped on the labelled points', bits=bits)


def post_demodulate(c, a, r, t):
    if a['demod_type'] != 'hard':
        return
    m = a['self']
    k = np.asarray(m.constellation)
    y = np.atleast_1d(np.asarray(a['input_symbols']))
    r = np.asarray(r)
    c.check(r.shape == (len(y) * m.num_bits_symbol,), 'wrong number of bits', shape=r.shape, n=len(y))
    c.check(np.all((r == 0) | (r == 1)), 'hard decisions are not bits', result=r)
    d = np.abs(y[:, None] - k[None, :])
    got = d[np.arange(len(y)), words(r, m.num_bits_symbol)]
    best = d.min(1)
    scale = np.abs(y) + np.abs(k).max()
    bad = got > best + 1e-12 * scale
    if bad.any():
        i = int(np.argmax(bad))
        c.fail('decision is not a nearest point', sample=y[i], bits=r[i * m.num_bits_symbol:(i + 1) * m.num_bits_symbol],
               distance=got[i], nearest=best[i])


def setup():
    mon.attach('commpy.modulation.Modem.modulate', post_modulate)
    mon.attach('commpy.modulation.Modem.demodulate', post_demodulate)


def int_word(w, b):
    return np.array([(w >> (b - 1 - i)) & 1 for i in range(b)])


def label_of(c, m):
    """ label (integer) of each point, learnt through modulate """
    b = m.num_bits_symbol
    allbits = ((np.arange(2 ** b)[:, None] >> np.arange(b - 1, -1, -1)) & 1).reshape(-1)
    s = np.asarray(m.modulate(allbits))
    c.check(s.shape == (2 ** b,), 'wrong number of symbols', shape=s.shape)
    return allbits, s


def samples(rng, k, n):
    """ samples on points, boundaries, near and far """
    k = np.asarray(k).astype(complex)
    i, j = rng.randint(len(k), size=(2, n))
    scale = np.abs(k).max() + 1e-300
    kind = rng.randint(7, size=n)
    noise = (rng.randn(n) + 1j * rng.randn(n)) * scale
    y = np.where(kind == 0, k[i], 0)
    y = np.where(kind == 1, (k[i] + k[j]) / 2, y)
    y = np.where(kind == 2, k[i] + 1e-3 * noise, y)
    y = np.where(kind == 3, k[i] + .3 * noise, y)
    y = np.where(kind == 4, noise * 10. ** rng.randint(-9, 9, n), y)
    y = np.where(kind == 5, (k[i] + k[j]) / 2 + 1e-6 * noise, y)
    y = np.where(kind == 6, k[i].real, y)
    return y


def roundtrip(c, m, n=64, distinct=True):
    b = m.num_bits_symbol
    bits = c.rng.randint(0, 2, n * b)
    t = [np.int64, np.int8, np.uint8, bool, list][c.rng.randint(5)]
    x = list(bits) if t is list else bits.astype(t)
    s = m.modulate(x)
    d = m.demodulate(s, 'hard')
    if distinct:
        c.equal(np.asarray(d).astype(int), bits, 'hard demodulation of modulated bits differs from the bits')


def psk(c):
    size = 2 ** (c.idx % 9 + 1)
    m = M.PSKModem(size)
    c.note(psk=size, s=c.idx // 9)
    consistent(c, m)
    k = np.asarray(m.constellation)
    c.check(len(k) == size, 'wrong size', got=len(k))
    c.close(np.abs(k), np.ones(size), 'PSK points are not on the unit circle')
    ang = np.sort(np.mod(np.angle(k), 2 * np.pi))
    d = np.diff(np.concatenate((ang, ang[:1] + 2 * np.pi)))
    c.close(d, np.full(size, 2 * np.pi / size), 'PSK points are not equally spaced')
    c.check(np.min(np.abs(k - 1)) < 1e-9, 'PSK does not start at phase 0')
    bits, s = label_of(c, m)
    order = np.argsort(np.mod(np.angle(s) + 1e-9, 2 * np.pi))
    for i in range(size):
        x = int(order[i]) ^ int(order[(i + 1) % size])
        c.check(bin(x).count('1') == 1, 'labels of adjacent PSK points differ in several bits', label=order[i],
                other=order[(i + 1) % size])
    c.tag('psk labels')
    c.equal(np.asarray(m.demodulate(s, 'hard')).astype(int), bits, 'not one-to-one')
    m.demodulate(samples(c.rng, k, 100), 'hard')
    roundtrip(c, m)


def qam(c):
    size = [4, 16, 64, 256, 1024][c.idx % 5]
    m = M.QAMModem(size)
    c.note(qam=size, s=c.idx // 5)
    consistent(c, m)
    k = np.asarray(m.constellation)
    side = int(round(size ** .5))
    bits, s = label_of(c, m)
    grid = {}
    for w, p in enumerate(s):
        x, y = p.real, p.imag
        c.check(abs(x - round(x)) < 1e-9 and abs(y - round(y)) < 1e-9, 'QAM point not on the odd integer grid', p=p)
        grid[(int(round(x)), int(round(y)))] = w
    odd = range(-side + 1, side, 2)
    c.check(sorted(grid) == sorted((x, y) for x in odd for y in odd), 'QAM points are not the odd integer grid')
    for (x, y), w in grid.items():
        for o in ((x + 2, y), (x, y + 2)):
            if o in grid:
                c.check(bin(w ^ grid[o]).count('1') == 1, 'labels of adjacent QAM points differ in several bits',
                        point=(x, y), other=o, labels=(w, grid[o]))
    c.tag('qam labels')
    c.equal(np.asarray(m.demodulate(s, 'hard')).astype(int), bits, 'not one-to-one')
    m.demodulate(samples(c.rng, k, 100), 'hard')
    roundtrip(c, m)


def custom(rng, b):
    size = 2 ** b
    kind = rng.randint(6)
    if kind == 0:
        k = rng.randn(size) + 1j * rng.randn(size)
    elif kind == 1:
        k = rng.permutation(np.arange(-size + 1, size, 2))
    elif kind == 2:
        k = rng.permutation(np.arange(size)) * (1 - 2j) + .25
    elif kind == 3:
        k = np.exp(2j * np.pi * rng.permutation(size) / size) * rng.choice([1e-4, 1, 1e4])
    elif kind == 4:
        k = rng.permutation(size).astype(float) + 100
    else:
        k = (rng.permutation(size) + 1) * 1j
    return k, kind


def gray(i):
    return i ^ (i >> 1)


def custom_modem(c):
    rng = c.rng
    b = int(rng.randint(1, 7))
    k, kind = custom(rng, b)
    reorder = [None, True, False][rng.randint(3)]
    form = [np.array, list, tuple][rng.randint(3)]
    c.note(b=b, kind=kind, reorder=reorder, form=form.__name__, s=c.seed % 1000)
    given = form(k)
    m = M.Modem(given) if reorder is None else M.Modem(given, reorder_as_gray=reorder)
    consistent(c, m)
    bits, s = label_of(c, m)
    if reorder is False:
        c.equal(s, k, 'the constellation has been reordered')
    else:
        # the i-th given point gets the i-th Gray label: successive points differ in one bit
        want = np.empty(len(k), k.dtype)
        for i in range(len(k)):
            want[gray(i)] = k[i]
        c.equal(s, want, 'wrong Gray reordering', given=k)
    c.equal(np.asarray(m.demodulate(s, 'hard')).astype(int), bits, 'not one-to-one')
    m.demodulate(samples(rng, k, 64), 'hard')
    roundtrip(c, m)


def reassign(c):
    """ histories of replacements on one or several modems """
    rng = c.rng
    mods = [M.PSKModem(2 ** rng.randint(1, 5)), M.QAMModem(4 ** rng.randint(1, 4)),
            M.Modem(custom(rng, 2)[0], reorder_as_gray=bool(rng.randint(2)))]
    c.note(h=c.seed)
    for step in range(12):
        m = mods[rng.randint(3)]
        op = rng.randint(6)
        if op == 0:
            k, _ = custom(rng, int(rng.randint(1, 6)))
            m.constellation = [list, tuple, np.array][rng.randint(3)](k)
            c.equal(np.asarray(m.constellation), k, 'the new constellation is not the given one')
        elif op == 1:
            before = np.array(m.constellation)
            n = int(rng.choice([3, 5, 6, 7, 9, 12, 15, 31, 33]))

            def bad():
                m.constellation = rng.randn(n)
            c.raises(ValueError, bad, 'constellation of %d points accepted' % n)
            c.equal(m.constellation, before, 'a rejected constellation has been kept')
        elif op == 2:
            m.demodulate(samples(rng, m.constellation, 20), 'hard')
        elif op == 3:
            m.constellation = np.array(m.constellation) * rng.choice([.5, 2., -1, 1j])
        else:
            roundtrip(c, m, 16)
        for mm in mods:
            consistent(c, mm)


def long_streams(c):
    """ tens of thousands of symbols """
    rng = c.rng
    m = [M.PSKModem(2), M.PSKModem(8), M.QAMModem(4), M.QAMModem(16), M.QAMModem(64), M.Modem(custom(rng, 3)[0])][c.idx % 6]
    n = int(rng.choice([4097, 8191, 10000, 16385, 30011, 65537]))
    c.note(m=c.idx % 6, n=n, s=c.seed)
    bits = rng.randint(0, 2, n * m.num_bits_symbol).astype([np.int64, np.int8][rng.randint(2)])
    s = m.modulate(bits)
    c.equal(np.asarray(m.demodulate(s, 'hard')).astype(int), bits, 'hard demodulation of a long stream differs')
    m.demodulate(samples(rng, m.constellation, n), 'hard')


def extremes(c):
    """ magnitudes whose squares do not fit in floats """
    rng = c.rng
    k, kind = custom(rng, int(rng.randint(1, 7)))
    p = 10. ** (rng.choice([-1, 1]) * rng.randint(100, 251))
    k = np.asarray(k) * p
    m = M.Modem(k, reorder_as_gray=bool(rng.randint(2)))
    c.note(kind=kind, p=p, n=len(k), s=c.seed)
    roundtrip(c, m, 16)
    m.demodulate(samples(rng, k, 30) if p < 1 else k[rng.randint(0, len(k), 30)] * (1 + .1 * rng.randn(30)), 'hard')
    # ordinary constellations and very far samples
    m = M.QAMModem(4 ** int(rng.randint(1, 5)))
    far = (rng.randn(20) + 1j * rng.randn(20)) * 10. ** rng.randint(100, 250)
    with mon.quiet():
        far = np.where(rng.randint(0, 2, 20), far, m.constellation[rng.randint(0, m.m, 20)])
    m.demodulate(far, 'hard')


def ownership(c):
    """ the caller goes on using the arrays it has given """
    rng = c.rng
    k, kind = custom(rng, int(rng.randint(1, 6)))
    way = c.idx % 4
    c.note(kind=kind, way=way, s=c.seed)
    given = np.array(k)
    if way == 0:
        m = M.Modem(given, reorder_as_gray=False)
    elif way == 1:
        m = M.Modem(given)
    elif way == 2:
        m = M.QAMModem(16)
        m.constellation = given
    else:
        m = M.PSKModem(4)
        m.constellation = given[::-1]
    want = np.array(m.constellation)
    x = samples(rng, want, 30)
    d = m.demodulate(x, 'hard')
    given[:] = given[::-1] * 3 + 1
    c.equal(m.constellation, want, 'the constellation follows an array of the caller')
    consistent(c, m)
    c.equal(m.demodulate(x, 'hard'), d, 'the decisions follow an array of the caller')
    roundtrip(c, m)


def errors(c):
    rng = c.rng
    bad = [3, 5, 6, 7, 10, 12, 24, 100]
    n = bad[c.idx % len(bad)]
    c.note(n=n)
    c.raises(ValueError, lambda: M.PSKModem(n), 'PSK of %d points accepted' % n)
    c.raises(ValueError, lambda: M.QAMModem(n), 'QAM of %d points accepted' % n)
    c.raises(ValueError, lambda: M.Modem(rng.randn(n), reorder_as_gray=False), 'constellation of %d points accepted' % n)
    c.raises(ValueError, lambda: M.Modem(rng.randn(n)), 'constellation of %d points accepted' % n)
    q = [2, 8, 32, 128, 512, 36, 9, 100, 144][c.idx % 9]
    c.raises(ValueError, lambda: M.QAMModem(q), 'QAM of %d points accepted' % q)
    m = M.QAMModem(16)
    for d in ('Hard', 'SOFT', '', 'hardd', None, 0):
        c.raises(ValueError, lambda: m.demodulate(np.array([1 + 1j]), d, 1.), 'demodulation type %r accepted' % (d,))


def link(c):
    """ the modems at work in a link """
    rng = c.rng
    m = [M.PSKModem(2), M.PSKModem(8), M.QAMModem(16), M.QAMModem(64), M.Modem(custom(rng, 3)[0])][c.idx % 5]
    ch = SISOFlatChannel(fading_param=(1 + 0j, 0))
    lk = LinkModel(m.modulate, ch, lambda y, h, k, nv: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation,
                   float(np.real(m.Es)))
    c.note(link=c.idx % 5, s=c.seed)
    lk.link_performance([0, 8, 60], 600, 50, 60)


WORKLOADS = {
    'psk': (psk, 36, 200),
    'qam': (qam, 20, 100),
    'custom': (custom_modem, 300, 4000),
    'extremes': (extremes, 40, 800),
    'reassign': (reassign, 120, 2000),
    'errors': (errors, 18, 40),
    'long': (long_streams, 24, 200),
    'ownership': (ownership, 60, 1000),
    'link': (link, 10, 100),
}
