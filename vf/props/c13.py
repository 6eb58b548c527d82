"""C13: flat channels output exactly gains times message plus noise, as recorded."""
import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
from .. import mon

RULE = ('SISO and MIMO channels (1 to 6 antennas, real and complex, correlated, Rician, singular correlations), messages '
        'of every numeric type and length (padding included), histories of reconfigurations, refused operations and '
        'propagations, link simulations.')
ASSUMPTIONS = ['Messages are non-empty one-dimensional numeric arrays; means and correlations of a real channel are real.']
REQUIRE = {'judged propagate': 1500, 'refused complex': 60, 'refused without noise': 60, 'padded': 100,
           'clean siso': 40, 'kept records': 300}


def ref_apply(gains, x, siso):
    if siso:
        return [g * v for g, v in zip(gains, x)]
    out = []
    for g, v in zip(gains, x):
        row = []
        for i in range(g.shape[0]):
            s = 0
            for j in range(g.shape[1]):
                s = s + g[i, j] * v[j]
            row.append(s)
        out.append(row)
    return out


def pre(c, a):
    ch = a['self']
    return ch.isComplex, ch.noise_std, ch.nb_tx, ch.nb_rx


def post(c, a, r, t):
    ch = a['self']
    cplx, std, nt, nr = t
    msg = np.asarray(a['msg'])
    siso = isinstance(ch, CH.SISOFlatChannel)
    n = len(msg)
    c.check(cplx or not np.iscomplexobj(msg), 'a complex message went through a real channel', msg=msg)
    c.check(std is not None, 'propagated without any noise configured', result=r)
    nv = n if siso else -(-n // nt)
    if n % nt:
        c.tag('padded')
    noises, gains, clean = (np.asarray(x) for x in (ch.noises, ch.channel_gains, ch.unnoisy_output))
    r = np.asarray(r)
    shape = (nv,) if siso else (nv, nr)
    c.check(r.shape == shape, 'wrong output shape', shape=r.shape, want=shape)
    c.check(noises.shape == shape, 'wrong noise shape', shape=noises.shape, want=shape)
    c.check(clean.shape == shape, 'wrong unnoisy output shape', shape=clean.shape, want=shape)
    gshape = (nv,) if siso else (nv, nr, nt)
    c.check(gains.shape == gshape, 'wrong gain shape', shape=gains.shape, want=gshape)
    for x, name in ((noises, 'noises'), (gains, 'gains'), (r, 'output'), (clean, 'unnoisy output')):
        c.check(np.iscomplexobj(x) == bool(cplx), '%s: complex and real mixed up' % name, dtype=x.dtype, channel=cplx)
        c.check(np.all(np.isfinite(x)), '%s not finite' % name, value=x)
    wide = complex if np.iscomplexobj(msg) else float
    x = msg.astype(wide)
    if not siso:
        x = np.concatenate((x, np.zeros(nv * nt - n, wide))).reshape(nv, nt)
    want = np.array(ref_apply(gains, x, siso))
    scale = max(1., float(np.abs(want).max()))
    tol = 1e-6 if msg.dtype in (np.complex64, np.float32, np.float16) else 1e-12
    c.close(clean / scale, want / scale, 'the unnoisy output is not the gains applied to the message', rtol=0, atol=tol,
            msg=msg, gains=gains)
    c.close((r - noises - clean) / scale, np.zeros(shape), 'the output is not the unnoisy output plus the noises',
            rtol=0, atol=tol, out=r, noises=noises, clean=clean)
    if std == 0:
        c.check(not np.any(noises), 'noise although its deviation is 0', noises=noises)
    if siso and std == 0 and complex(ch.fading_param[0]) == 1 and ch.fading_param[1] == 0:
        c.tag('clean siso')
        c.close(r, x, 'a perfect channel changes the message', rtol=tol, atol=0)
    c.tag('complex' if cplx else 'real')
    c.tag('siso' if siso else 'mimo %dx%d' % (nr, nt))


def exc(c, a, e, t):
    cplx, std, nt, nr = t
    if np.iscomplexobj(np.asarray(a['msg'])) and not cplx:
        c.check(isinstance(e, TypeError), 'complex message in a real channel: wrong exception', error=e)
        c.tag('refused complex')
    elif std is None:
        c.check(isinstance(e, AssertionError), 'no noise set: wrong exception', error=e)
        c.tag('refused without noise')
    else:
        c.fail('propagate raised', error=e, msg=a['msg'])


def setup():
    for k in ('SISOFlatChannel', 'MIMOFlatChannel'):
        mon.attach('commpy.channels.%s.propagate' % k, post, pre, exc)


def message(rng, n, cplx_ok=True):
    k = rng.randint(9)
    if k == 0:
        if rng.randint(2):
            t = [np.int16, np.int32, np.int64, np.uint8, np.uint16][rng.randint(5)]
            return rng.randint(0 if t in (np.uint8, np.uint16) else -3000, 255 if t == np.uint8 else 30000, n).astype(t)
        return rng.randint(0, 2, n)
    if k == 1:
        return (2 * rng.randint(0, 2, n) - 1).astype(np.int8)
    if k == 2:
        return rng.randint(0, 2, n).astype(np.uint8)
    if k == 3:
        return rng.randn(n).astype(np.float32)
    if k == 4:
        return rng.randn(n) * 10. ** rng.randint(-6, 7)
    if not cplx_ok:
        return rng.randn(n)
    if k == 5:
        return (rng.randn(n) + 1j * rng.randn(n)).astype(np.complex64)
    m = MO.QAMModem(int(rng.choice([4, 16, 64]))) if k < 8 else MO.PSKModem(int(rng.choice([2, 4, 8])))
    return np.asarray(m.constellation)[rng.randint(0, m.m, n)]


def corr(rng, n, cplx, rank=None):
    """ positive semi-definite matrix of unit diagonal """
    rank = rank or rng.randint(1, n + 2)
    a = rng.randn(n, rank) + (1j * rng.randn(n, rank) if cplx else 0)
    a = a / np.sqrt((np.abs(a) ** 2).sum(1))[:, None]
    r = a.dot(a.conj().T)
    r[np.diag_indices(n)] = 1
    return r


def siso_param(rng, cplx):
    k = rng.randint(6)
    if k == 0:
        return (1 + 0j, 0) if cplx else (1, 0)
    if k == 1:
        return (0j, 1) if cplx else (0., 1)
    if k == 2:
        return (-1 + 0j, 0) if cplx else (-1, 0)
    s = rng.rand()
    ph = np.exp(2j * np.pi * rng.rand()) if cplx else float(rng.choice([-1, 1]))
    v = ph * np.sqrt(1 - s)
    return (complex(v) if cplx and rng.randint(2) else v), s


def configure(rng, ch, cplx):
    """ One of the ways of configuring the fading. """
    if isinstance(ch, CH.SISOFlatChannel):
        ch.fading_param = siso_param(rng, cplx)
        return
    nr, nt = ch.nb_rx, ch.nb_tx
    k = rng.randint(5 if cplx else 3)
    mean = rng.randn(nr, nt) + (1j * rng.randn(nr, nt) if cplx else 0)
    kf = 10. ** rng.uniform(-2, 2)
    u = lambda: np.exp(2j * np.pi * rng.rand())
    if k == 0:
        ch.uncorr_rayleigh_fading(complex if cplx else float)
    elif k == 1:
        ch.uncorr_rician_fading(mean, kf)
    elif k == 2:
        s = rng.rand()
        mean = mean * np.sqrt(s * nt * nr / (np.abs(mean) ** 2).sum())
        ch.fading_param = mean, corr(rng, nt, cplx) * (1 - s), corr(rng, nr, cplx)
    elif k == 3:
        ch.expo_corr_rayleigh_fading(u(), u(), *rng.rand(2))
    else:
        ch.expo_corr_rician_fading(mean, kf, u(), u(), *rng.rand(2))


def noise(rng, ch):
    k = rng.randint(4)
    if k == 0:
        ch.noise_std = 0
    elif k == 1:
        ch.set_SNR_dB(rng.uniform(-10, 30), rng.choice([.5, 1]), rng.choice([1, 10]))
    elif k == 2:
        ch.set_SNR_lin(10 ** rng.uniform(-1, 3), rng.choice([.5, 1]), rng.choice([1, 10]))
    else:
        ch.noise_std = 10. ** rng.uniform(-6, 3)


def new(rng):
    if rng.randint(3) == 0:
        return CH.SISOFlatChannel()
    return CH.MIMOFlatChannel(int(rng.randint(1, 7)), int(rng.randint(1, 7)))


def history(c):
    rng = c.rng
    c.note(s=c.seed)
    ch = new(rng)
    kept = []
    for _ in range(16):
        op = rng.randint(8)
        cplx = ch.isComplex
        if op == 0:
            configure(rng, ch, bool(rng.randint(2)))
        elif op == 1:
            noise(rng, ch)
        elif op == 2 and ch.noise_std is None:
            try:
                ch.propagate(message(rng, 5, cplx))
                c.fail('propagated although the noise was never set')
            except AssertionError:
                pass
        elif op == 3 and not cplx:
            try:
                ch.propagate(np.array([1, 1j, -1, -1j])[:rng.randint(2, 5)])
                c.fail('complex message in a real channel accepted')
            except (TypeError, AssertionError):
                pass
        else:
            if ch.noise_std is None:
                noise(rng, ch)
            n = int(rng.choice([1, 2, 3, 5, 12, 35, rng.randint(1, 40), rng.randint(1, 300)]))
            x = message(rng, n, cplx)
            x0 = x.copy()
            y = ch.propagate(x)
            c.equal(x, x0, 'the message was modified')
            kept.append([(np.asarray(v), np.array(v)) for v in (ch.noises, ch.channel_gains, ch.unnoisy_output, y)])
            if rng.randint(3) == 0:
                y += 1  # the caller owns the output
                kept[-1].pop()
                c.equal(ch.unnoisy_output, kept[-1][2][1], 'output shares memory with the unnoisy output')
                c.equal(ch.noises, kept[-1][0][1], 'output shares memory with the noises')
    for rec in kept:
        for live, copy in rec:
            c.equal(live, copy, 'a later operation changed the record of a propagation')
            c.tag('kept records')


def refused(c):
    """ No noise set, complex message: refused, and the channel still works. """
    rng = c.rng
    siso = bool(c.idx % 2)
    ch = CH.SISOFlatChannel() if siso else CH.MIMOFlatChannel(int(rng.randint(1, 5)), int(rng.randint(1, 5)))
    if rng.randint(2):
        configure(rng, ch, False)
    n = int(rng.randint(1, 9))
    c.note(siso=siso, n=n, s=c.seed)
    c.raises(AssertionError, ch.propagate, 'no noise set', message(rng, n, False))
    noise(rng, ch)
    z = (rng.randn(n) + 1j * rng.randn(n)).astype([complex, np.complex64][rng.randint(2)])
    if rng.randint(3) == 0:
        z.imag = 0
    if siso and rng.randint(3) == 0:
        z = [complex(v) for v in z]
    c.raises(TypeError, ch.propagate, 'complex message in a real channel', z)
    ch.propagate(message(rng, n, False))
    configure(rng, ch, True)
    c.check(ch.isComplex, 'the channel is not complex')
    ch.propagate(np.asarray(z))
    configure(rng, ch, False)
    c.check(not ch.isComplex, 'the channel is not real')
    c.raises(TypeError, ch.propagate, 'complex message in a channel back to real', z)


def clean(c):
    rng = c.rng
    cplx = bool(c.idx % 2)
    n = int(rng.choice([1, 4, 33]))
    x = message(rng, n, cplx)
    c.note(cplx=cplx, n=n, dtype=x.dtype, s=c.idx)
    p = (1 + 0j, 0) if cplx else (1, 0)
    ch = CH.SISOFlatChannel(0, p)
    y = ch.propagate(list(x) if rng.randint(2) else x)
    c.close(y, x, 'perfect channel', rtol=1e-12, atol=0)
    c.close(ch.unnoisy_output, x, 'perfect channel: unnoisy output', rtol=1e-12, atol=0)
    nr = int(rng.randint(1, 5))
    m = CH.MIMOFlatChannel(nr, nr, 0)
    m.fading_param = np.eye(nr) * np.sqrt(nr) * (1 + 0j if cplx else 1), np.zeros((nr, nr)), np.eye(nr)
    y = m.propagate(x)
    pad = np.concatenate((x, np.zeros(-n % nr)))
    c.close(y, np.sqrt(nr) * pad.reshape(-1, nr), 'parallel channels', rtol=1e-6, atol=1e-12)
    kr = CH.SISOFlatChannel(fading_param=p)
    kr.noise_std = 0
    c.close(kr.propagate(x), x, 'perfect channel set later', rtol=1e-12, atol=0)


def big(c):
    """ Long messages, many antennas. """
    rng = c.rng
    ch = new(rng) if rng.randint(2) else CH.MIMOFlatChannel(int(rng.randint(1, 17)), int(rng.randint(1, 17)))
    configure(rng, ch, True)
    noise(rng, ch)
    n = int(rng.choice([300, 1001]))
    c.note(n=n, s=c.seed)
    ch.propagate(message(rng, n))


def lengths(c):
    """ All the lengths of messages, with all the remainders. """
    rng = c.rng
    nt = 2 + c.idx % 6
    ch = CH.MIMOFlatChannel(nt, int(rng.randint(1, 5)), .1)
    cplx = bool(rng.randint(2))
    configure(rng, ch, cplx)
    start = 1 + 25 * (c.idx // 6)
    c.note(nt=nt, nr=ch.nb_rx, cplx=cplx, lengths=(start, start + 24), s=c.seed)
    for n in range(start, start + 25):
        ch.propagate(message(rng, n, cplx))


def link(c):
    """ Propagations made by the link simulations. """
    rng = c.rng
    m = MO.PSKModem(2 * int(rng.randint(1, 3)))
    siso = rng.randint(2)
    ch = CH.SISOFlatChannel() if siso else CH.MIMOFlatChannel(2, int(rng.randint(2, 4)))
    configure(rng, ch, True)
    c.note(m=m.m, siso=siso, s=c.seed)
    if siso:
        receive = lambda y, h, k, nv: m.demodulate(y, 'hard')
    else:
        receive = lambda y, h, k, nv: m.demodulate(np.asarray(MO.mimo_ml(y, h, k)).reshape(-1), 'hard')
    model = LK.LinkModel(m.modulate, ch, receive, m.num_bits_symbol, m.constellation, m.Es)
    LK.link_performance(model, [0, 5], 60, 20, 12, 1)


WORKLOADS = {'lengths': (lengths, 60, 600), 'history': (history, 500, 20000), 'refused': (refused, 120, 3000), 'clean': (clean, 120, 3000),
             'big': (big, 40, 800), 'link': (link, 30, 400)}
