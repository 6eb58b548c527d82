"""C15: the fading has the configured mean, covariance and K-factor."""
import math

import numpy as np

import commpy.channels as CH
from .. import mon, stats
from .c13 import configure, corr, new, siso_param

RULE = ('SISO and MIMO channels under sequences of reconfigurations (helpers and direct parameters, complex and singular '
        'correlations, refused parameters), with exact monitors on the configuration and statistical monitors of the '
        'gains recorded at propagate.')
ASSUMPTIONS = ['Correlation matrices are Hermitian and positive semi-definite, and those of a real channel are real.',
               'The means given to the Rician helpers are not null.',
               'Energies are accepted within 1e-9 and refused beyond 1e-2 (MIMO) or 1e-4 (SISO) of their nominal value.',
               'The global NumPy generator is a good source of Gaussian samples.']
REQUIRE = {'judged uncorr_rayleigh_fading': 50, 'judged uncorr_rician_fading': 50, 'judged expo_corr_rayleigh_fading': 50,
           'judged expo_corr_rician_fading': 50, 'judged specular_compo': 50, 'configured': 500, 'refused': 300,
           'statistic': 2500, 'gains siso': 10, 'gains mimo': 20, 'long': 15}


def expo(a, n, beta):
    out = np.empty((n, n), complex)
    for i in range(n):
        for j in range(n):
            out[i, j] = complex(a) ** (j - i) * math.exp(-beta * abs(i - j))
    return out


def snap(ch):
    try:
        p = ch.fading_param
    except AttributeError:
        return None
    return tuple(np.array(x) for x in p), ch.isComplex


def same(c, a, b, what):
    c.check(a is not None and b is not None and a[1] == b[1] and all(np.array_equal(x, y) for x, y in zip(a[0], b[0])), what,
            before=a, after=b)


def pre(c, a):
    return snap(a['self'])


def exc(c, a, e, t):
    c.check(isinstance(e, ValueError), 'a configuration helper raised something else than ValueError', error=e)
    same(c, t, snap(a['self']), 'a refused configuration changed the channel')


def energy(ch):
    m, rt, rr = ch.fading_param
    return float(np.sum(np.abs(m) ** 2)), float(np.real(np.trace(rt) * np.trace(rr)))


def is_mean(c, ch, given, kf):
    """ the mean has the direction given and the power required by the K-factor """
    m = np.asarray(ch.fading_param[0])
    nb = ch.nb_tx * ch.nb_rx
    want = given * math.sqrt(nb * kf / (kf + 1.) / float((np.abs(given) ** 2).sum()))
    c.close(m, want, 'wrong mean of the gains', rtol=1e-9, atol=1e-12)


def k_ok(c, ch, kf):
    c.close(float(ch.k_factor), kf, 'wrong K-factor', rtol=1e-9, atol=1e-12)


def product(c, ch, rt, rr):
    """ covariance = rt (x) rr, however the scale is shared """
    got = np.kron(ch.fading_param[1], ch.fading_param[2])
    c.close(got, np.kron(rt, rr), 'wrong correlation matrices', rtol=1e-8, atol=1e-9)


def post_rayleigh(c, a, r, t):
    ch = a['self']
    c.check(not np.any(ch.fading_param[0]), 'a Rayleigh channel has a mean')
    product(c, ch, np.eye(ch.nb_tx), np.eye(ch.nb_rx))
    k_ok(c, ch, 0)
    c.check(ch.isComplex == np.issubdtype(np.dtype(a['dtype']), np.complexfloating), 'wrong type of channel')


def post_rician(c, a, r, t):
    ch = a['self']
    kf = float(a['k_factor'])
    is_mean(c, ch, np.asarray(a['mean']), kf)
    product(c, ch, np.eye(ch.nb_tx) / (kf + 1), np.eye(ch.nb_rx))
    k_ok(c, ch, kf)
    c.check(ch.isComplex == np.iscomplexobj(a['mean']), 'wrong type of channel')


def checked_coefs(c, a):
    c.check(abs(abs(a['t']) - 1) < 1e-3 and abs(abs(a['r']) - 1) < 1e-3, 'correlation coefficients of non-unit modulus '
            'accepted', t=a['t'], r=a['r'])
    c.check(a['betat'] >= 0 and a['betar'] >= 0, 'negative constants accepted', betat=a['betat'], betar=a['betar'])


def post_expo(c, a, r, t):
    ch = a['self']
    checked_coefs(c, a)
    c.check(not np.any(ch.fading_param[0]), 'a Rayleigh channel has a mean')
    product(c, ch, expo(a['t'], ch.nb_tx, a['betat']), expo(a['r'], ch.nb_rx, a['betar']))
    k_ok(c, ch, 0)
    c.check(ch.isComplex, 'the channel should be complex')


def post_expo_rician(c, a, r, t):
    ch = a['self']
    checked_coefs(c, a)
    kf = float(a['k_factor'])
    is_mean(c, ch, np.asarray(a['mean']), kf)
    product(c, ch, expo(a['t'], ch.nb_tx, a['betat']) / (kf + 1), expo(a['r'], ch.nb_rx, a['betar']))
    k_ok(c, ch, kf)
    c.check(ch.isComplex, 'the channel should be complex')


def post_specular(c, a, r, t):
    ch = a['self']
    c.check(a['dt'] >= 0 and a['dr'] >= 0, 'negative distance accepted')
    n, m = np.arange(ch.nb_rx)[:, None], np.arange(ch.nb_tx)[None, :]
    turns = n * a['dr'] * math.cos(a['thetar']) - m * a['dt'] * math.cos(a['thetat'])
    c.close(r, np.exp(2j * np.pi * (turns - np.round(turns))), 'wrong specular component', rtol=0, atol=1e-9, **{
        k: a[k] for k in ('thetat', 'dt', 'thetar', 'dr')})
    same(c, t, snap(ch), 'specular_compo changed the channel')


def watch_setter(cls, name):
    prop = getattr(cls, 'fading_param')

    def setter(self, value):
        from ..core import STATE
        if STATE.case is None or mon._inside[0]:
            return prop.fset(self, value)
        c = STATE.case
        before = snap(self)
        given = tuple(np.array(x) for x in value)
        try:
            prop.fset(self, value)
        except Exception as e:
            c.check(isinstance(e, ValueError), 'the setter raised something else than ValueError', error=e)
            c.check(bad(self, given, 1e-9), 'normalised fading parameters refused', given=given)
            if before is not None:
                same(c, before, snap(self), 'refused fading parameters changed the channel')
            STATE.event('setter refused')
            raise
        c.check(not bad(self, given, 1e-4 if name == 'siso' else 1e-2), 'fading parameters which change the energy accepted',
                given=given)
        c.check(all(np.array_equal(x, y) for x, y in zip(self.fading_param, given)), 'the parameters set differ from those '
                'given', given=given, got=self.fading_param)
        c.check(self.isComplex == np.iscomplexobj(given[0]), 'the type of the channel does not follow the mean',
                given=given[0], got=self.isComplex)
        kf(c, self)
        STATE.event('setter judged')

    cls.fading_param = property(prop.fget, setter, doc=prop.__doc__)


def bad(ch, p, tol):
    if isinstance(ch, CH.SISOFlatChannel):
        return abs(float(np.real(p[1])) + abs(complex(p[0])) ** 2 - 1) > tol
    e = float((np.abs(p[0]) ** 2).sum() + np.real(np.trace(p[1]) * np.trace(p[2])))
    return abs(e - ch.nb_tx * ch.nb_rx) > tol


def kf(c, ch):
    """ reported K-factor = LOS to NLOS power ratio """
    if isinstance(ch, CH.SISOFlatChannel):
        los, nlos = abs(complex(ch.fading_param[0])) ** 2, abs(ch.fading_param[1])
    else:
        los, nlos = energy(ch)
    if nlos > 1e-9:
        c.close(float(np.real(ch.k_factor)), los / nlos, 'the K-factor is not the LOS to NLOS power ratio', rtol=1e-9,
                atol=1e-12)


def setup():
    p = 'commpy.channels.MIMOFlatChannel.'
    watch_setter(CH.SISOFlatChannel, 'siso')
    watch_setter(CH.MIMOFlatChannel, 'mimo')
    mon.attach(p + 'uncorr_rayleigh_fading', post_rayleigh, pre, exc)
    mon.attach(p + 'uncorr_rician_fading', post_rician, pre, exc)
    mon.attach(p + 'expo_corr_rayleigh_fading', post_expo, pre, exc)
    mon.attach(p + 'expo_corr_rician_fading', post_expo_rician, pre, exc)
    mon.attach(p + 'specular_compo', post_specular, pre, exc)


def unit(rng):
    k = rng.randint(8)
    if k == 0:
        return [1, -1, 1j, -1j, 1., -1.][rng.randint(6)]
    return complex(np.exp(2j * np.pi * rng.rand()))


def any_mean(rng, ch):
    k = rng.randint(4)
    s = (ch.nb_rx, ch.nb_tx)
    if k == 0:
        return np.ones(s, [int, float, complex][rng.randint(3)])
    if k == 1:
        return rng.randn(*s)
    if k == 2:
        return ch.specular_compo(rng.uniform(0, np.pi), rng.uniform(0, 2), rng.uniform(0, np.pi), rng.uniform(0, 2))
    # only the direction matters
    scale = 10. ** rng.randint(-8, 9) if rng.randint(2) else 1.
    return (rng.randn(*s) + 1j * rng.randn(*s)) * scale


def valid(c, ch):
    """ One accepted configuration. """
    rng = c.rng
    k = rng.randint(5)
    beta = [float(rng.choice([0, .1, 1, rng.exponential(), 10. ** rng.uniform(-4, -1)])) for _ in range(2)]
    kfac = float(rng.choice([0, 1, .01, 100, 10. ** rng.uniform(-3, 3)]))
    if k == 0:
        ch.uncorr_rayleigh_fading([float, complex, np.float32, np.complex64, 'complex', int][rng.randint(6)])
    elif k == 1:
        ch.uncorr_rician_fading(any_mean(rng, ch), kfac)
    elif k == 2:
        ch.expo_corr_rayleigh_fading(unit(rng), unit(rng), *beta[:rng.randint(3)])
    elif k == 3:
        ch.expo_corr_rician_fading(any_mean(rng, ch), kfac, unit(rng), unit(rng), *beta[:rng.randint(3)])
    else:
        cplx = bool(rng.randint(2))
        s = rng.rand()
        m = rng.randn(ch.nb_rx, ch.nb_tx) + (1j * rng.randn(ch.nb_rx, ch.nb_tx) if cplx else 0)
        m = m * np.sqrt(s * ch.nb_tx * ch.nb_rx / (np.abs(m) ** 2).sum())
        sc = rng.uniform(.1, 3)
        ch.fading_param = m, corr(rng, ch.nb_tx, cplx) * (1 - s) / sc, corr(rng, ch.nb_rx, cplx) * sc
    c.tag('configured')
    cplx = ch.isComplex
    ch.noise_std = 0
    n = 2 * ch.nb_tx
    x = rng.randn(n) + (1j * rng.randn(n) if cplx else 0)
    c.check(np.all(np.isfinite(ch.propagate(x))), 'propagation fails')


def invalid(c, ch):
    """ One refused configuration. """
    rng = c.rng
    k = rng.randint(7)
    before = snap(ch)
    off = float(rng.choice([0, .5, .9, .99, 1.01, 1.1, 2, 5]))
    neg = -float(rng.choice([1e-3, .1, 1, 10]))
    what = 'invalid parameters accepted'
    if k == 0:
        a = [unit(rng), unit(rng)]
        a[rng.randint(2)] = unit(rng) * off
        c.raises(ValueError, ch.expo_corr_rayleigh_fading, what, *a)
    elif k == 1:
        a = [unit(rng), unit(rng)]
        a[rng.randint(2)] = unit(rng) * off
        c.raises(ValueError, ch.expo_corr_rician_fading, what, any_mean(rng, ch), 2., *a)
    elif k == 2:
        b = [rng.rand(), rng.rand()]
        b[rng.randint(2)] = neg
        c.raises(ValueError, ch.expo_corr_rayleigh_fading, what, unit(rng), unit(rng), *b)
    elif k == 3:
        b = [rng.rand(), rng.rand()]
        b[rng.randint(2)] = neg
        c.raises(ValueError, ch.expo_corr_rician_fading, what, any_mean(rng, ch), 2., unit(rng), unit(rng), *b)
    elif k == 4:
        d = [rng.rand(), rng.rand()]
        d[rng.randint(2)] = neg
        c.raises(ValueError, ch.specular_compo, what, .3, d[0], .6, d[1])
    else:
        m, rt, rr = (np.array(x) for x in ch.fading_param)
        e = float(rng.choice([.5, .9, 1.2, 4]))
        z = m + [0, 1, 1j][rng.randint(3)]
        los, nlos = float((np.abs(z) ** 2).sum()), float(np.real(np.trace(rt) * np.trace(rr)))
        tot = los + nlos
        if k == 5:
            # right in one part, wrong in the other
            p = z * math.sqrt(e * ch.nb_tx * ch.nb_rx / tot), rt * ch.nb_tx * ch.nb_rx / tot, rr
        else:
            p = z * math.sqrt(ch.nb_tx * ch.nb_rx / tot), rt * e * ch.nb_tx * ch.nb_rx / tot, rr
        if not bad(ch, p, 2e-2):
            return
        def do():
            ch.fading_param = p
        c.raises(ValueError, do, what)
    c.tag('refused')
    same(c, before, snap(ch), 'a refused configuration changed the channel')


def config(c):
    rng = c.rng
    most = 17 if c.idx % 8 == 0 else 7
    ch = CH.MIMOFlatChannel(int(rng.randint(1, most)), int(rng.randint(1, most)))
    c.note(nt=ch.nb_tx, nr=ch.nb_rx, s=c.seed)
    c.check(not np.any(ch.fading_param[0]) and ch.k_factor == 0, 'the default is not Rayleigh')
    product(c, ch, np.eye(ch.nb_tx), np.eye(ch.nb_rx))
    for _ in range(10):
        if rng.randint(3):
            valid(c, ch)
        else:
            invalid(c, ch)


def siso(c):
    rng = c.rng
    ch = CH.SISOFlatChannel(.1)
    c.note(s=c.seed)
    c.check(complex(ch.fading_param[0]) == 1 and ch.fading_param[1] == 0 and not ch.isComplex, 'wrong default')
    for _ in range(10):
        p = siso_param(rng, bool(rng.randint(2)))
        if rng.randint(3):
            ch.fading_param = p
            c.tag('configured')
        else:
            e = float(rng.choice([.5, .99, 1.01, 2]))
            q = [(p[0] * math.sqrt(e), p[1]), (p[0], p[1] * e), (p[0], p[1] + e - 1)][rng.randint(3)]
            if not bad(ch, q, 1e-3):
                continue
            before = snap(ch)

            def do():
                ch.fading_param = q
            c.raises(ValueError, do, 'energy changing parameters accepted')
            same(c, before, snap(ch), 'refused parameters changed the channel')
            c.raises(ValueError, CH.SISOFlatChannel, 'energy changing parameters accepted by the constructor', None, q)
            c.tag('refused')


def judge(c, g, mean, cov, cplx):
    """ g: N x K samples, mean: K, cov: K x K """
    n, k = g.shape
    var = np.real(np.diag(cov)).clip(0)
    z = g - mean
    c.check(np.iscomplexobj(g) == cplx, 'gains of the wrong type')
    for a in range(k):
        if var[a] < 1e-9:
            c.check(np.abs(z[:, a]).max() < 1e-3, 'a constant gain varies', entry=a)
            continue
        parts = (z[:, a].real, z[:, a].imag) if cplx else (z[:, a],)
        sd = math.sqrt(var[a] / (2 if cplx else 1))
        for p in parts:
            stats.mean0(c, p, sd, 'wrong mean of a gain', entry=a)
            if a < 4:
                stats.gaussian(c, p, sd, 'a gain is not Gaussian', entry=a)
                for lag in (1, 2, 7):
                    for q in parts:
                        stats.uncorr(c, p[lag:], q[:-lag], sd, sd, 'gains of different symbols are correlated', lag=lag)
    est = np.einsum('na,nb->ab', z, z.conj()) / n
    sd = np.sqrt(np.outer(var, var) * (1 if cplx else 2) / n) + 1e-9
    dev = est - cov
    for part in ((dev.real, dev.imag) if cplx else (dev,)):
        i = np.unravel_index(np.argmax(np.abs(part) / sd), part.shape)
        c.stat(float(part[i] / sd[i]), 'wrong covariance of the gains', limit=7.5, entry=i, estimated=est[i],
               configured=cov[i])
    if cplx:
        pse = np.einsum('na,nb->ab', z, z) / n
        sd2 = np.sqrt(2 * np.outer(var, var) / n) + 1e-9
        worst = float(max((np.abs(pse.real) / sd2).max(), (np.abs(pse.imag) / sd2).max()))
        c.stat(worst, 'complex gains are not circular', limit=7.5)


def gains(c):
    """ The gains recorded during propagations follow the configuration. """
    rng = c.rng
    sis = c.idx % 4 == 0
    if sis:
        ch = CH.SISOFlatChannel()
        ch.fading_param = siso_param(rng, bool(rng.randint(2)))
        if ch.fading_param[1] == 0 and rng.randint(3):
            ch.fading_param = (0j, 1)
    else:
        ch = CH.MIMOFlatChannel(int(rng.randint(1, 5)), int(rng.randint(1, 5)))
        for _ in range(rng.randint(1, 4)):
            valid(c, ch)
    c.note(siso=sis, nt=ch.nb_tx, nr=ch.nb_rx, s=c.seed)
    c.tag('gains siso' if sis else 'gains mimo')
    cplx = bool(ch.isComplex)
    ch.set_SNR_dB(rng.uniform(-5, 20))
    nt, nr = ch.nb_tx, ch.nb_rx
    total, chunk = 8000, int(rng.choice([500, 2000, 1]) if sis else rng.choice([500, 2000]))
    if chunk == 1:
        total = 3000
    out, energy_ = [], 0.
    for _ in range(total // chunk):
        x = rng.randint(0, 2, chunk * nt) * 2. - 1
        ch.propagate(x)
        out.append(np.array(ch.channel_gains))
    g = np.concatenate(out).reshape(-1, nr * nt)
    if sis:
        mean, cov = np.array([ch.fading_param[0]]), np.array([[float(ch.fading_param[1])]])
    else:
        m, rt, rr = ch.fading_param
        mean = np.asarray(m).reshape(-1)
        cov = np.einsum('ik,jl->ijkl', rr, rt).reshape(nr * nt, nr * nt)
    judge(c, g, mean, cov, cplx)
    e = (np.abs(g) ** 2).mean(0).sum()
    # energy: mean nr * nt, the variance of the sum is bounded by that of fully correlated gains
    sd = math.sqrt((2 * (nr * nt) ** 2 + 4 * (nr * nt) ** 2) / len(g))
    c.stat((e - nr * nt) / sd, 'the channel does not preserve the energy', estimated=e)
    fresh = set(np.round(g.reshape(-1).real, 13))
    if cov[0, 0].real > .1 and sis:
        c.check(len(fresh) > .99 * len(g), 'gains are repeated')


def long_run(c):
    """ Messages of many symbols: every gain is a new one, up to the last. """
    rng = c.rng
    cplx = bool(rng.randint(2))
    if c.idx % 2:
        ch = CH.SISOFlatChannel(None, (0j, 1) if cplx else (0, 1))
    else:
        ch = CH.MIMOFlatChannel(int(rng.randint(1, 4)), int(rng.randint(1, 4)))
        k = rng.randint(3)
        if k == 0:
            ch.uncorr_rayleigh_fading(complex if cplx else float)
        elif k == 1:
            cplx = True
            ch.uncorr_rician_fading(np.ones((ch.nb_rx, ch.nb_tx), complex), 2.)
        else:
            cplx = True
            ch.expo_corr_rayleigh_fading(np.exp(.3j), np.exp(2j), .5, .3)
    nt, nr = ch.nb_tx, ch.nb_rx
    n = int(rng.choice([9000, 25000, 40000, 70000])) // (nt * nr)
    c.note(siso=bool(c.idx % 2), n=n, nt=nt, nr=nr, s=c.seed)
    ch.set_SNR_dB(20)
    ch.propagate(np.ones(n * nt, complex if cplx else float))
    g = np.asarray(ch.channel_gains).reshape(-1, nr * nt)
    c.check(len(g) == n, 'not one gain per symbol', gains=len(g))
    for p in ((g.real, g.imag) if cplx else (g,)):
        for a in range(nr * nt):
            u = np.unique(p[:, a])
            c.check(n - len(u) <= 1, 'gains are repeated along a long message', gains=n, distinct=len(u))
    if c.idx % 2:
        mean, cov = np.array([0.]), np.eye(1)
    else:
        m, rt, rr = ch.fading_param
        mean = np.asarray(m).reshape(-1)
        cov = np.einsum('ik,jl->ijkl', rr, rt).reshape(nr * nt, nr * nt)
    for part in np.array_split(g, 3):
        judge(c, part, mean, cov, cplx)
    c.tag('long')


WORKLOADS = {'long': (long_run, 24, 500), 'config': (config, 200, 6000), 'siso': (siso, 120, 3000), 'gains': (gains, 128, 3000)}
