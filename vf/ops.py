"""A catalogue of operations covering the public interface, used by the purity and reproducibility checks.

OPS[name] = (maker, kind); maker(rng, pool) returns (callable, args) where args may contain arrays, parameters and
objects of the pool. Kinds: 'det' (deterministic) and 'rand' (uses the global generator).
"""
import os

import numpy as np

import commpy.channelcoding as CC
import commpy.channelcoding.gfields as GFS
import commpy.channels as CH
import commpy.filters as FI
import commpy.impairments as IM
import commpy.links as LK
import commpy.modulation as MO
import commpy.sequences as SE
import commpy.utilities as UT
import commpy.wifi80211 as WI
from commpy.channelcoding import convcode as CV
from commpy.channelcoding import ldpc as LD

from .boot import REPO

OPS = {}


def op(kind='det', weight=2, n=1):
    def deco(f):
        OPS[f.__name__] = (f, kind, weight)
        return f
    return deco


class Pool:
    """ Objects shared by the operations of one run. """

    def __init__(self):
        self.objects = {}

    def get(self, kind, number, build):
        k = kind, number
        if k not in self.objects:
            self.objects[k] = build(np.random.RandomState(number * 7919 + 17))
        return self.objects[k]


def bits(rng, n):
    return rng.randint(0, 2, n)


def cplx(rng, *shape):
    return rng.randn(*shape) + 1j * rng.randn(*shape)


# -- pooled objects ---------------------------------------------------------------------------------------------------
def modem(rng, pool, small=False):
    i = int(rng.randint(3 if small else 6))

    def build(r):
        if i == 0:
            return MO.PSKModem(4)
        if i == 1:
            return MO.QAMModem(4)
        if i == 2:
            return MO.PSKModem(8)
        if i == 3:
            return MO.QAMModem(16)
        if i == 4:
            return MO.Modem(cplx(r, 8))
        return MO.Modem(cplx(r, 4), reorder_as_gray=False)
    return pool.get('modem', i, build)


def trellis(rng, pool):
    i = int(rng.randint(6))

    def build(r):
        if i == 0:
            return CC.Trellis(np.array([2]), np.array([[5, 7]]))
        if i == 1:
            return CC.Trellis(np.array([2]), np.array([[1, 7]]), 5, 'rsc')
        if i == 2:
            return CC.Trellis(np.array([1, 2]), np.array([[3, 1, 0], [2, 5, 7]]))
        if i == 3:
            return CC.Trellis(np.array([3]), np.array([[0o13, 0o15, 0o17]]))
        if i == 4:
            return CC.Trellis(np.array([1]), np.array([[1, 3]]))
        return CC.Trellis(np.array([3]), np.array([[8, 13]]), np.array([[11]]), 'rsc', 'LSB')
    return pool.get('trellis', i, build)


def rsc(rng, pool):
    i = int(rng.randint(2))
    return pool.get('rsc', i, lambda r: CC.Trellis(np.array([2 + i]), np.array([[1, [5, 15][i]]]), [7, 13][i], 'rsc'))


def ldpc(rng, pool):
    i = int(rng.randint(2))

    def build(r):
        if i == 0:
            return LD.get_ldpc_code_params(os.path.join(REPO, 'commpy/channelcoding/designs/ldpc/gallager/96.3.963.txt'),
                                           True)
        h = np.hstack((np.random.RandomState(1).rand(8, 8) < .4, np.tril(np.random.RandomState(2).rand(8, 8) < .3, -1)
                       | np.eye(8, dtype=bool))).astype(int)
        return write_read(h)
    return pool.get('ldpc', i, build)


def write_read(h):
    import tempfile
    d = tempfile.mkdtemp(dir=os.environ['VF_TMP'])
    f = os.path.join(d, 'design.txt')
    LD.write_ldpc_params(h, f)
    p = LD.get_ldpc_code_params(f)
    os.remove(f)
    os.rmdir(d)
    return p


def interleaver(rng, pool, n):
    i = int(rng.randint(2))
    return pool.get('interleaver%d' % n, i, lambda r: CC.RandInterlv(n, [3, 981][i]))


def field(rng, pool):
    i = int(rng.randint(3))
    return pool.get('field', i, lambda r: CC.GF(np.arange(2 ** (2 + i)), 2 + i))


def siso(rng, pool):
    return pool.get('siso', 0, lambda r: CH.SISOFlatChannel(1., (1 + 0j, 0)))


def mimo(rng, pool):
    i = int(rng.randint(2))
    return pool.get('mimo', i, lambda r: CH.MIMOFlatChannel(2 + i, 3))


# -- utilities --------------------------------------------------------------------------------------------------------
@op()
def dec2bitarray(rng, pool):
    w = int(rng.randint(4, 9))
    x = int(rng.randint(16)) if rng.randint(2) else rng.randint(0, 16, 4)
    return UT.dec2bitarray, (x, w)


@op()
def decimal2bitarray(rng, pool):
    return UT.decimal2bitarray, (int(rng.randint(8)), int(rng.randint(3, 6)))


@op()
def bitarray2dec(rng, pool):
    return UT.bitarray2dec, (bits(rng, rng.randint(1, 12)),)


@op()
def hamming_dist(rng, pool):
    return UT.hamming_dist, (bits(rng, 9), bits(rng, 9))


@op()
def euclid_dist(rng, pool):
    return UT.euclid_dist, (rng.randn(7), rng.randn(7))


@op()
def upsample(rng, pool):
    return UT.upsample, (cplx(rng, 6), int(rng.randint(1, 5)))


@op()
def signal_power(rng, pool):
    return UT.signal_power, (cplx(rng, 6),)


# -- modulation -------------------------------------------------------------------------------------------------------
@op(weight=4)
def modulate(rng, pool):
    m = modem(rng, pool)
    return m.modulate, (bits(rng, m.num_bits_symbol * rng.randint(1, 9)),)


@op(weight=3)
def demodulate_hard(rng, pool):
    m = modem(rng, pool)
    return m.demodulate, (cplx(rng, rng.randint(1, 9)), 'hard')


@op(weight=3)
def demodulate_soft(rng, pool):
    m = modem(rng, pool)
    return m.demodulate, (cplx(rng, rng.randint(1, 9)), 'soft', float(rng.choice([.3, 1., 2.])))


@op()
def new_modem(rng, pool):
    k = rng.randint(3)
    if k == 0:
        m = int(rng.choice([2, 4, 8]))
        return (lambda m: attributes(MO.PSKModem(m))), (m,)
    if k == 1:
        return (lambda m: attributes(MO.QAMModem(m))), (int(rng.choice([4, 16])),)
    return (lambda s, g: attributes(MO.Modem(s, g))), (cplx(rng, 8), bool(rng.randint(2)))


def attributes(m):
    return np.array(m.constellation), m.Es, m.m, m.num_bits_symbol, m.modulate([0, 1] * 6), m.demodulate(
        np.array([.3 + 1j, -2 + .1j]), 'hard'), m.demodulate(np.array([.3 + 1j, -2 + .1j]), 'soft', .7)


@op()
def reassign_constellation(rng, pool):
    """ The constellation of a modem is replaced by an array which the caller changes later. """
    def f(m, s1, s2):
        m.constellation = s1
        a = attributes(m)
        m.constellation = s2
        return a, attributes(m)
    return f, (pool.get('scratch modem', 0, lambda r: MO.Modem(cplx(r, 4))), cplx(rng, 8), cplx(rng, 4))


@op()
def ofdm(rng, pool):
    n, u, p = [(16, 8, 4), (32, 12, 3)][rng.randint(2)]

    def f(x, n, u, p):
        t = MO.ofdm_tx(x, n, u, p)
        return t, MO.ofdm_rx(t, n, u, p)
    return f, (cplx(rng, u, 2), n, u, p)


@op()
def ofdm_rx(rng, pool):
    return MO.ofdm_rx, (cplx(rng, 2 * (16 + 4)), 16, 8, 4)


@op()
def mimo_ml(rng, pool):
    m = modem(rng, pool, True)
    return MO.mimo_ml, (cplx(rng, 3), cplx(rng, 3, 2), m.constellation)


@op()
def kbest_hard(rng, pool):
    m = modem(rng, pool, True)
    return MO.kbest, (cplx(rng, 3), cplx(rng, 3, 2), m.constellation, int(rng.randint(1, 8)))


@op(weight=3)
def kbest_soft(rng, pool):
    m = modem(rng, pool, True)
    return MO.kbest, (cplx(rng, 3), cplx(rng, 3, 3), m.constellation, int(rng.randint(2, 8)), .8, 'soft',
                      lambda v: m.demodulate(v, 'hard'))


@op()
def best_first(rng, pool):
    m = modem(rng, pool, True)
    return MO.best_first_detector, (cplx(rng, 3), cplx(rng, 3, 2), m.constellation, [int(rng.randint(1, 4))], 0,
                                    lambda v: m.demodulate(v, 'hard'), 50.)


@op()
def bit_lvl_repr(rng, pool):
    return MO.bit_lvl_repr, (cplx(rng, 2, 2), rng.randn(2))


@op(weight=3)
def max_log_approx(rng, pool):
    m = modem(rng, pool, True)
    k = np.asarray(m.constellation)
    h = cplx(rng, 2, 2)
    pts = k[rng.randint(0, len(k), (2, 5))]
    return MO.max_log_approx, (cplx(rng, 2), h, .8, pts, lambda v: m.demodulate(v, 'hard'))


# -- channel coding ---------------------------------------------------------------------------------------------------
@op(weight=3)
def new_trellis(rng, pool):
    def f(*a):
        t = CC.Trellis(*a)
        return np.array(t.next_state_table), np.array(t.output_table), t.k, t.n, t.code_type
    i = rng.randint(4)
    if i == 0:
        return f, (np.array([2]), np.array([[int(rng.randint(1, 8)), 7]]))
    if i == 1:
        return f, (np.array([2]), np.array([[1, int(rng.randint(1, 8))]]), 5, 'rsc')
    if i == 2:
        return f, (np.array([1, 2]), rng.randint(0, 4, (2, 3)), None, 'default', ['MSB', 'LSB'][rng.randint(2)])
    return f, (np.array([3]), np.array([[8, int(rng.randint(1, 16))]]), np.array([[11]]), 'rsc', 'LSB')


@op(weight=4)
def conv_encode(rng, pool):
    t = trellis(rng, pool)
    n = int(t.k * rng.randint(1, 12))
    p = None
    if rng.randint(3) == 0:
        p = np.ones((t.n, 3), int)
        p[0, rng.randint(3)] = 0
    return CC.conv_encode, (bits(rng, n), t, ['cont', 'term'][rng.randint(2)], p)


@op(weight=5)
def viterbi_decode(rng, pool):
    t = trellis(rng, pool)
    n = int(t.n * rng.randint(3, 14))
    k = rng.randint(3)
    r = [bits(rng, n), rng.randn(n), rng.randn(n)][k]
    return CC.viterbi_decode, (r, t, int(rng.randint(2, 20)) if rng.randint(2) else None, ['hard', 'soft', 'unquantized'][k])


@op()
def puncturing(rng, pool):
    return CV.puncturing, (bits(rng, rng.randint(1, 20)), [1, 1, 1, 0, 0, 1])


@op()
def depuncturing(rng, pool):
    return CV.depuncturing, (rng.randn(12), np.array([1, 1, 1, 0, 0, 1]), int(rng.randint(1, 18)))


@op(weight=3)
def turbo_encode(rng, pool):
    n = int(rng.choice([6, 13]))
    t = rsc(rng, pool)
    return CC.turbo_encode, (bits(rng, n), t, t, interleaver(rng, pool, n))


@op(weight=3)
def map_decode(rng, pool):
    n = int(rng.choice([5, 9]))
    return CC.map_decode, (rng.randn(n), rng.randn(n), rsc(rng, pool), float(rng.choice([.5, 2.])), rng.randn(n),
                           ['decode', 'compute'][rng.randint(2)])


@op(weight=3)
def turbo_decode(rng, pool):
    n = int(rng.choice([6, 13]))
    return CC.turbo_decode, (rng.randn(n), rng.randn(n), rng.randn(n), rsc(rng, pool), .7, int(rng.randint(1, 4)),
                             interleaver(rng, pool, n), None if rng.randint(2) else rng.randn(n))


@op(weight=4)
def ldpc_decode(rng, pool):
    p = ldpc(rng, pool)
    n = int(p['n_vnodes'])
    return CC.ldpc_bp_decode, (Exempt(3 * rng.randn(n * rng.randint(1, 3))), p, ['SPA', 'MSA'][rng.randint(2)],
                               int(rng.randint(1, 6)))


@op()
def ldpc_read(rng, pool):
    return CC.get_ldpc_code_params, (os.path.join(REPO, 'commpy/channelcoding/designs/ldpc/gallager/96.3.963.txt'),
                                     bool(rng.randint(2)))


@op()
def ldpc_write(rng, pool):
    h = (rng.rand(4, 7) < .5).astype(int)
    h[:, 0] = 1
    h[0] = 1
    return write_read, (h,)


@op(weight=3)
def ldpc_encode(rng, pool):
    p = pool.get('ldpc', 1, None) if ('ldpc', 1) in pool.objects else ldpc(np.random.RandomState(0), pool)
    if int(p['n_vnodes']) != 16:
        p = ldpc(_Fixed(1), pool)
    return CC.triang_ldpc_systematic_encode, (bits(rng, 8 * rng.randint(1, 3)), p)


class _Fixed:
    def __init__(self, v):
        self.v = v

    def randint(self, *a):
        return self.v


@op()
def ldpc_matrix(rng, pool):
    p = ldpc(rng, pool)

    def f(p):
        q = {k: np.array(v) for k, v in p.items() if k not in ('parity_check_matrix', 'generator_matrix')}
        CC.build_matrix(q)
        return np.asarray(q['parity_check_matrix'].toarray())
    return f, (p,)


@op(weight=3)
def field_operation(rng, pool):
    g = field(rng, pool)
    k = int(rng.randint(7))

    def f(g, k):
        if k == 0:
            return (g + g).elements, g.elements.copy()
        if k == 1:
            return (g * g).elements
        if k == 2:
            return g.power_to_tuple().elements
        if k == 3:
            return CC.GF(np.arange(1, 2 ** g.m), g.m).tuple_to_power().elements
        if k == 4:
            return g.order()
        if k == 5:
            return [x.elements for x in g.cosets()]
        return g.minpolys()
    return f, (g, k)


@op()
def new_field(rng, pool):
    def f(x, m):
        g = CC.GF(x, m)
        return g.elements, g.m, g.prim_poly, (g * g).elements
    return f, (rng.randint(0, 8, 5), 3)


@op()
def polynomials(rng, pool):
    k = rng.randint(3)
    if k == 0:
        return GFS.polydivide, (int(rng.randint(1, 500)), int(rng.randint(2, 30)))
    if k == 1:
        return GFS.polymultiply, (int(rng.randint(8)), int(rng.randint(8)), 3, 11)
    return GFS.poly_to_string, (int(rng.randint(1, 500)),)


@op()
def cyclic(rng, pool):
    return CC.cyclic_code_genpoly, [(7, 4), (15, 11), (7, 3), (15, 7), (9, 3)][rng.randint(5)]


@op(weight=3)
def interleave(rng, pool):
    il = interleaver(rng, pool, 10)
    x = rng.randn(10)
    return (lambda il, x: (il.interlv(x), il.deinterlv(x))), (il, x)


@op()
def new_interleaver(rng, pool):
    return (lambda n, s: np.array(CC.RandInterlv(n, s).interlv(np.arange(n)))), (int(rng.randint(1, 30)),
                                                                                 int(rng.randint(1000)))


# -- filters, sequences, impairments ---------------------------------------------------------------------------------
@op(weight=3)
def filters(rng, pool):
    k = rng.randint(4)
    n = int(rng.randint(1, 12))
    if k == 3:
        return FI.rectfilter, (n, 1., 4.)
    return [FI.rcosfilter, FI.rrcosfilter, FI.gaussianfilter][k], (n, .35, 1., 4.)


@op()
def frequency_offset(rng, pool):
    return IM.add_frequency_offset, (cplx(rng, 9), 10., .3)


@op()
def pnsequence(rng, pool):
    n = int(rng.randint(2, 7))
    s = bits(rng, n)
    if rng.randint(2):
        s = ''.join(map(str, s))
    return SE.pnsequence, (n, s, bits(rng, n), int(rng.randint(1, 30)))


@op()
def zcsequence(rng, pool):
    return SE.zcsequence, (int(rng.choice([1, 2, 4])), 7, int(rng.randint(3)))


# -- random operations ------------------------------------------------------------------------------------------------
@op('rand')
def bec(rng, pool):
    return CH.bec, (bits(rng, 20), .4)


@op('rand')
def bsc(rng, pool):
    return CH.bsc, (bits(rng, 20), .4)


@op('rand')
def awgn(rng, pool):
    return CH.awgn, (cplx(rng, 6) if rng.randint(2) else rng.randn(6), 5., .5)


@op('rand', 4)
def siso_channel(rng, pool):
    p = [(1 + 0j, 0), (0j, 1), (.6 + 0j, .64), (1, 0), (0, 1)][rng.randint(5)]

    def f(ch, p, snr, x):
        ch.fading_param = p
        ch.set_SNR_dB(snr)
        y = ch.propagate(x)
        return y, np.array(ch.noises), np.array(ch.channel_gains), np.array(ch.unnoisy_output), ch.noise_std, ch.k_factor
    x = cplx(rng, 7) if isinstance(p[0], complex) else rng.randn(7)
    return f, (siso(rng, pool), p, float(rng.uniform(0, 20)), x)


@op('rand', 5)
def mimo_channel(rng, pool):
    ch = mimo(rng, pool)
    k = int(rng.randint(5))
    mean = cplx(rng, ch.nb_rx, ch.nb_tx)

    def f(ch, k, mean, snr, x, beta):
        if k == 0:
            ch.uncorr_rayleigh_fading(complex)
        elif k == 1:
            ch.uncorr_rician_fading(mean, 2.)
        elif k == 2:
            ch.expo_corr_rayleigh_fading(np.exp(.4j), np.exp(-.2j), beta, .2)
        elif k == 3:
            ch.expo_corr_rician_fading(mean, 3., np.exp(.4j), np.exp(-.2j), beta, .1)
        else:
            ch.fading_param = mean * 0, np.eye(ch.nb_tx), np.eye(ch.nb_rx)
        ch.set_SNR_lin(snr, .5, 2)
        y = ch.propagate(x)
        return y, np.array(ch.noises), np.array(ch.channel_gains), np.array(ch.unnoisy_output), ch.noise_std, ch.k_factor
    return f, (ch, k, mean, float(rng.uniform(1, 20)), cplx(rng, 7), float(rng.rand()))


@op()
def specular(rng, pool):
    ch = mimo(rng, pool)
    return (lambda ch, a: ch.specular_compo(a[0], a[1], a[2], a[3])), (ch, rng.rand(4))


@op('rand', 3)
def link(rng, pool):
    m = modem(rng, pool, True)
    ch = siso(rng, pool)
    full = bool(rng.randint(2))
    coded = bool(rng.randint(2))
    t = pool.get('trellis', 0, lambda r: CC.Trellis(np.array([2]), np.array([[5, 7]])))

    def f(m, ch, snrs, full, coded):
        ch.fading_param = (1 + 0j, 0)
        mod = (lambda b: m.modulate(CC.conv_encode(b, t, 'cont'))) if coded else m.modulate
        dec = (lambda b: CC.viterbi_decode(b, t)) if coded else None
        model = LK.LinkModel(mod, ch, lambda y, h, k, n: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation,
                             m.Es, dec, *([.5] if coded else []))
        if full:
            return model.link_performance_full_metrics(snrs, 3, 4, 24, *([.5] if coded else [1.]))
        return LK.link_performance(model, snrs, 100, 5, 24, *([.5] if coded else [1]))
    return f, (m, ch, np.array([0., 4.]), full, coded)


@op('rand', 1)
def idd_link(rng, pool):
    m = pool.get('modem', 1, lambda r: MO.QAMModem(4))
    ch = mimo(np.random.RandomState(0), pool)

    def f(m, ch, snrs):
        ch.uncorr_rayleigh_fading(complex)
        hard = lambda v: m.demodulate(v, 'hard')
        det = lambda y, h, k, nv, ap: MO.kbest(y, h, k, 4, nv, 'soft', hard) + .1 * ap
        dec = LK.idd_decoder(det, lambda l: 1.5 * l, lambda l: np.array(l < 0, int), 2)
        model = LK.LinkModel(m.modulate, ch, lambda y, h, k, n: MO.kbest(y, h, k, 4, n, 'soft', hard),
                             m.num_bits_symbol, m.constellation, m.Es, lambda l: np.array(l < 0, int))
        del dec
        return LK.link_performance(model, snrs, 40, 5, 4 * ch.nb_tx)
    return f, (m, ch, np.array([0., 6.]))


@op('det', 1)
def idd(rng, pool):
    m = pool.get('modem', 1, lambda r: MO.QAMModem(4))

    def f(m, y, h, ap, n):
        hard = lambda v: m.demodulate(v, 'hard')
        det = lambda y, h, k, nv, ap: MO.kbest(y, h, k, 4, nv, 'soft', hard) + .1 * ap
        return LK.idd_decoder(det, lambda l: 1.5 * l, lambda l: l.copy(), n)(y, h, m.constellation, .5, ap, 4)
    return f, (m, cplx(rng, 2, 3), cplx(rng, 2, 3, 2), rng.randn(8), int(rng.randint(1, 4)))


@op('rand', 1)
def wifi(rng, pool):
    i = int(rng.choice([0, 2, 5]))
    w = pool.get('wifi', i, lambda r: WI.Wifi80211(i))
    ch = siso(rng, pool)

    def f(w, ch, snrs):
        ch.fading_param = (1 + 0j, 0)
        return w.link_performance(ch, snrs, 1, 4, 6)
    return f, (w, ch, np.array([2.]))


# -- the same operations on long data ---------------------------------------------------------------------------------
@op('bigdet')
def big_pnsequence(rng, pool):
    n = int(rng.randint(4, 20))
    return SE.pnsequence, (n, ''.join(map(str, bits(rng, n))), bits(rng, n), int(rng.randint(1000, 3000)))


@op('bigdet')
def big_zcsequence(rng, pool):
    return SE.zcsequence, (int(rng.choice([1, 2, 4])), int(rng.choice([353, 839, 2003])), int(rng.randint(3)))


@op('bigdet')
def big_modulate(rng, pool):
    m = MO.QAMModem(256) if rng.randint(2) else MO.PSKModem(64)
    return m.modulate, (bits(rng, m.num_bits_symbol * rng.randint(500, 3000)),)


@op('bigdet')
def big_demodulate(rng, pool):
    m = MO.QAMModem(64) if rng.randint(2) else MO.PSKModem(32)
    return m.demodulate, (5 * cplx(rng, rng.randint(200, 700)),) + (('hard',) if rng.randint(2) else ('soft', 3.))


@op('bigdet')
def big_viterbi(rng, pool):
    t = trellis(rng, pool)
    k = rng.randint(3)
    n = int(t.n * rng.randint(300, 700))
    return CC.viterbi_decode, ([bits(rng, n), rng.randn(n), rng.randn(n)][k], t, None,
                               ['hard', 'soft', 'unquantized'][k])


@op('bigdet')
def big_conv_encode(rng, pool):
    t = trellis(rng, pool)
    return CC.conv_encode, (bits(rng, int(t.k * rng.randint(1000, 3000))), t, ['cont', 'term'][rng.randint(2)])


@op('bigdet')
def big_puncturing(rng, pool):
    def f(x, p, n):
        y = CV.puncturing(x, p)
        return y, CV.depuncturing(y, p, n)
    n = int(rng.randint(2000, 6000))
    return f, (rng.randn(n), np.array([1, 1, 1, 0, 0, 1]), n)


@op('bigdet')
def big_turbo(rng, pool):
    n = int(rng.choice([150, 260]))
    t = rsc(rng, pool)
    il = interleaver(rng, pool, n)

    def f(x, s):
        e = CC.turbo_encode(x, t, t, il)
        return e, CC.turbo_decode(*(list(s) + [t, .7, 1, il]))
    return f, (bits(rng, n), rng.randn(3, n))


@op('bigdet')
def big_ldpc_decode(rng, pool):
    p = ldpc(_Fixed(0), pool)
    return CC.ldpc_bp_decode, (Exempt(2 * rng.randn(96 * rng.randint(12, 30))), p, ['SPA', 'MSA'][rng.randint(2)], 4)


@op('bigdet')
def big_ldpc_encode(rng, pool):
    p = ldpc(_Fixed(1), pool)
    return CC.triang_ldpc_systematic_encode, (bits(rng, rng.randint(800, 1600)), p)


@op('bigdet')
def big_field(rng, pool):
    m = int(rng.randint(7, 11))
    g = CC.GF(rng.randint(1, 2 ** m, 400), m)

    def f(g):
        return (g + g).elements, (g * g).elements, g.power_to_tuple().elements, g.tuple_to_power().elements, g.order()
    return f, (g,)


@op('bigdet')
def big_cyclic(rng, pool):
    return CC.cyclic_code_genpoly, [(17, 9), (21, 5), (21, 12), (23, 12)][rng.randint(4)]


@op('bigdet')
def big_interleave(rng, pool):
    n = int(rng.choice([3000, 7000]))
    s = int(rng.randint(2 ** 31))
    return (lambda x: CC.RandInterlv(n, s).deinterlv(CC.RandInterlv(n, s + 1).interlv(x))), (rng.randn(n),)


@op('bigdet')
def big_filters(rng, pool):
    return [FI.rcosfilter, FI.rrcosfilter, FI.gaussianfilter][rng.randint(3)], (int(rng.randint(1000, 4000)), .35, 1., 8.)


@op('bigdet')
def big_frequency_offset(rng, pool):
    return IM.add_frequency_offset, (cplx(rng, rng.randint(2000, 9000)), 1e6, float(rng.uniform(-1e4, 1e4)))


@op('bigdet')
def big_ofdm(rng, pool):
    def f(x):
        t = MO.ofdm_tx(x, 256, 200, 32)
        return t, MO.ofdm_rx(t, 256, 200, 32)
    return f, (cplx(rng, 200, 20),)


@op('bigdet')
def big_utilities(rng, pool):
    def f(x, y, b, c):
        return (UT.dec2bitarray(x, 40), UT.upsample(y, 5), UT.signal_power(y), UT.euclid_dist(y.real, y.imag),
                UT.hamming_dist(b, c), UT.bitarray2dec(b[:60]))
    n = int(rng.randint(1000, 3000))
    return f, (rng.randint(0, 2 ** 40, 300), cplx(rng, n), bits(rng, n), bits(rng, n))


@op('bigdet')
def big_detectors(rng, pool):
    m = MO.QAMModem(16)
    hard = lambda v: m.demodulate(v, 'hard')

    def f(y, h):
        return (MO.mimo_ml(y, h[:, :3], m.constellation), MO.kbest(y, h, m.constellation, 48),
                MO.kbest(y, h, m.constellation, 40, .5, 'soft', hard),
                MO.best_first_detector(y, h, m.constellation, (1, 30, 60, 90), .7, hard, 40.))
    return f, (cplx(rng, 6), cplx(rng, 6, 5))


@op('bigdet')
def big_idd(rng, pool):
    m = pool.get('modem', 1, lambda r: MO.QAMModem(4))

    def f(y, h, ap):
        hard = lambda v: m.demodulate(v, 'hard')
        det = lambda y, h, k, nv, ap: MO.kbest(y, h, k, 4, nv, 'soft', hard) + .1 * ap
        return LK.idd_decoder(det, lambda l: .5 * l, lambda l: l.copy(), 7)(y, h, m.constellation, .5, ap, 4)
    return f, (cplx(rng, 60, 3), cplx(rng, 60, 3, 2), rng.randn(240))


@op('bigrand')
def big_binary(rng, pool):
    return [CH.bec, CH.bsc][rng.randint(2)], (bits(rng, rng.randint(3000, 9000)), .4)


@op('bigrand')
def big_awgn(rng, pool):
    n = int(rng.randint(3000, 9000))
    return CH.awgn, (cplx(rng, n) if rng.randint(2) else rng.randn(n), 5., .5)


@op('bigrand')
def big_siso_channel(rng, pool):
    real = rng.randint(2)
    ch = CH.SISOFlatChannel(.5, (.6, .64) if real else (.6 + 0j, .64))
    n = int(rng.randint(3000, 9000))

    def f(x):
        return ch.propagate(x), np.array(ch.noises), np.array(ch.channel_gains)
    return f, (rng.randn(n) if real else cplx(rng, n),)


@op('bigrand')
def big_mimo_channel(rng, pool):
    ch = CH.MIMOFlatChannel(4, 5, .5)
    ch.expo_corr_rayleigh_fading(np.exp(.4j), np.exp(-.2j), .3, .2)

    def f(x):
        return ch.propagate(x), np.array(ch.noises), np.array(ch.channel_gains)
    return f, (cplx(rng, rng.randint(3000, 6000)),)


@op('bigrand')
def big_link(rng, pool):
    """ Long simulations: many transmissions, or long ones. """
    m = MO.PSKModem(4)
    many = bool(rng.randint(2))
    n = int(rng.choice([12, 30]) if many else rng.choice([3000, 10000]))
    count = int(rng.randint(40, 200) if many else rng.randint(2, 4))
    real = CH.SISOFlatChannel(None, (0j, 1))

    def f(snrs):
        seen = []
        lk = LK.LinkModel(lambda b: (seen.append(np.array(b)), m.modulate(b))[1], real,
                          lambda y, h, k, nv: m.demodulate(y * h.conj(), 'hard'), 2, m.constellation, m.Es)
        r = (lk.link_performance_full_metrics(snrs, count, 10 ** 9, n), lk.link_performance(snrs, count * n, 10 ** 9, n))
        return r, np.concatenate(seen)
    return f, (np.array([0., 4.]),)


class Exempt:
    """ An argument which is documented to be modified. """

    def __init__(self, x):
        self.x = x


def names(kinds=('det', 'rand')):
    out = []
    for k, v in sorted(OPS.items()):
        if v[1] in kinds:
            out += [k] * v[2]
    return out


def make(name, seed, pool):
    return OPS[name][0](np.random.RandomState(seed), pool)
