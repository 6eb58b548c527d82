"""C25: WiFi simulations follow the 802.11 modulation and coding schemes."""
from fractions import Fraction

import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
import commpy.wifi80211 as W
from .. import mon, trace

RULE = ('WiFi simulations of the ten modulation and coding schemes over clean, noisy, real-fading and MIMO channels with '
        'library and custom receivers, all chunk sizes, aggregations and limits; the bits, symbols, receptions, decodings '
        'and counts are traced and compared with an 802.11 reference encoder and with recomputed figures.')
ASSUMPTIONS = ['Chunks are the sizes made by the link, i.e. multiples of the puncturing pattern.',
               'Custom receivers return LLRs which are positive for bit 1.']
REQUIRE = {'judged link_performance': 50, 'encoded by the reference': 80, 'error free': 35, 'noisy': 10, 'mimo': 6}

#          modulation size, coding rate
SCHEMES = [(2, (1, 2)), (4, (1, 2)), (4, (3, 4)), (16, (1, 2)), (16, (3, 4)), (64, (2, 3)), (64, (3, 4)), (64, (5, 6)),
           (256, (3, 4)), (256, (5, 6))]
# transmitted (A, B) outputs of each step of the pattern
KEPT = {(1, 2): ['AB'], (2, 3): ['AB', 'A'], (3, 4): ['AB', 'A', 'B'], (5, 6): ['AB', 'A', 'B', 'A', 'B']}


def reference(bits, rate):
    u = [0] * 6 + [int(b) for b in bits]
    out = []
    pat = KEPT[rate]
    for i in range(len(bits)):
        w = u[i:i + 7][::-1]  # w[d] is the input delayed by d
        a = w[0] ^ w[2] ^ w[3] ^ w[5] ^ w[6]
        b = w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[6]
        keep = pat[i % len(pat)]
        if 'A' in keep:
            out.append(a)
        if 'B' in keep:
            out.append(b)
    return np.array(out)


_modems = {}


def mapper(size):
    if size not in _modems:
        with mon.quiet():
            _modems[size] = MO.PSKModem(size) if size <= 4 else MO.QAMModem(size)
    return _modems[size]


LIVE = {}


def pre_model(c, a):
    t = trace.Trace(a['self'])
    LIVE['trace'] = t
    return t


def post_model(c, a, r, t):
    t.stop()


def exc_model(c, a, e, t):
    t.stop()


def pre_wifi(c, a):
    LIVE.clear()


def post_wifi(c, a, r, t):
    w = a['self']
    size, (p, q) = SCHEMES[w.mcs]
    rate = Fraction(p, q)
    tr = LIVE.get('trace')
    c.check(tr is not None, 'the simulation used no link')
    model = tr.model
    m = mapper(size)
    c.close(np.sort_complex(np.asarray(model.constellation)), np.sort_complex(np.asarray(m.constellation)),
            'wrong modulation', rtol=0, atol=1e-9, mcs=w.mcs)
    c.check(model.num_bits_symbol == m.num_bits_symbol, 'wrong number of bits per symbol')
    c.close(float(np.real(model.Es)), float(np.real(m.Es)), 'wrong symbol energy', rtol=1e-9)
    c.check(model.channel is a['channel'], 'another channel is used')
    for s in tr.sends:
        ref = reference(s['msg'], (p, q))
        c.check(len(ref) % m.num_bits_symbol == 0, 'the chunk does not fill whole symbols', bits=len(ref))
        with mon.quiet():
            want = m.modulate(ref)
        c.close(s['input'], want, 'the symbols are not those of the scheme', rtol=0, atol=1e-9, mcs=w.mcs, msg=s['msg'])
        c.tag('encoded by the reference')
    asked = a['send_chunk'] if a['send_chunk'] is not None else a['err_min']
    n = trace.chunk_size(model, rate, int(asked))
    trace.judge_full(c, model, tr.sends, list(a['SNRs']), a['tx_max'], a['err_min'], n, a['frame_aggregation'], rate,
                     a['stop_on_surpass_error'], r)
    c.tag('mcs %d' % w.mcs)


def setup():
    mon.attach('commpy.wifi80211.Wifi80211.link_performance', post_wifi, pre_wifi)
    # inner monitor: listens to the link model of the simulation; called with the outer monitor's guard released
    mon.attach('commpy.links.LinkModel.link_performance_full_metrics', post_model, pre_model, exc_model,
               name='LinkModel full metrics')


def wifi(c):
    w = W.Wifi80211(c.idx % 10)
    return w, SCHEMES[c.idx % 10]


def chunks(c, size):
    rng = c.rng
    if rng.randint(5) == 0:
        return int(rng.choice([1, 20])), int(rng.choice([5, 8, 12]))
    return int(rng.choice([1, 20, 40, 61, 90])), int(rng.choice([1, 1, 2, 3]))


def clean(c):
    rng = c.rng
    w, (size, rate) = wifi(c)
    ch = CH.SISOFlatChannel(fading_param=(1 + 0j, 0))
    chunk, agg = chunks(c, size)
    tx = int(rng.randint(1, 3))
    c.note(mcs=w.mcs, chunk=chunk, agg=agg, tx=tx, s=c.idx // 10)
    err = int(rng.choice([1, 5, 30]))
    k = rng.randint(3)
    snr = [70., 90.][:1 + rng.randint(2)]
    if k == 0:
        r = w.link_performance(ch, snr, tx, err, chunk, agg)
    elif k == 1:
        r = w.link_performance(ch, snr, tx, err, send_chunk=chunk, frame_aggregation=agg, stop_on_surpass_error=False)
    else:
        agg = 1
        r = w.link_performance(ch, np.array(snr), tx, max(err, 10))
    c.check(not np.any(r[0]), 'bit errors without noise', bers=r[0])
    c.check(not np.any(r[1]) and not np.any(r[2]), 'lost frames without noise', errors=r[1], lost=r[2])
    c.check(np.asarray(r[3]).sum() == tx * agg, 'wrong number of chunks', chunks=r[3])
    c.tag('error free')


def noisy(c):
    """ Natural errors: the figures must be the ones of the traced messages. """
    rng = c.rng
    w, (size, rate) = wifi(c)
    ch = CH.SISOFlatChannel(fading_param=(1 + 0j, 0))
    chunk, agg = chunks(c, size)
    c.note(mcs=w.mcs, chunk=chunk, agg=agg, s=c.idx // 10)
    snr = 10 * np.log10(size) * .9 + rng.uniform(-6, 3)
    r = w.link_performance(ch, [snr, snr + 1], 2, int(rng.choice([0, 1, 5, 1000])), chunk, agg,
                           stop_on_surpass_error=bool(rng.randint(2)))
    c.tag('noisy')
    if np.any(r[1]):
        c.tag('with errors')


def custom(c):
    """ Custom receivers: MIMO and equalised fading. """
    rng = c.rng
    w, (size, rate) = wifi(c)
    m = mapper(size)
    chunk, agg = chunks(c, size)
    mimo = bool(rng.randint(2))
    if mimo:
        nt = int(rng.randint(1, 4))
        ch = CH.MIMOFlatChannel(nt, nt + int(rng.randint(2)))
        ch.uncorr_rayleigh_fading(complex)
        c.tag('mimo')
    else:
        ch = CH.SISOFlatChannel(fading_param=(0j, 1))
    c.note(mcs=w.mcs, chunk=chunk, agg=agg, mimo=mimo, s=c.idx // 10)

    def receiver(y, h, constellation, noise_var):
        with mon.quiet():
            z = np.linalg.lstsq(h, y, rcond=None)[0] if mimo else np.asarray(y) / h
            return 2. * m.demodulate(z, 'hard') - 1
    r = w.link_performance(ch, [170.], 1, 10, chunk, agg, receiver)
    c.check(not np.any(r[1]) and not np.any(r[2]), 'errors without noise', errors=r[1], lost=r[2])
    c.tag('error free')


def reuse(c):
    """ One object simulates several links. """
    rng = c.rng
    w, (size, rate) = wifi(c)
    c.note(mcs=w.mcs, s=c.seed)
    m = mapper(size)
    calls = []

    def receiver(y, h, constellation, noise_var):
        calls.append(1)
        with mon.quiet():
            return 2. * m.demodulate(np.asarray(y) / h, 'hard') - 1
    for kind in rng.permutation(3):
        ch = CH.SISOFlatChannel(fading_param=(1 + 0j, 0) if kind else (0j, 1))
        del calls[:]
        r = w.link_performance(ch, [170.], 1, 2, int(rng.randint(1, 30)), int(rng.randint(1, 3)), *([] if kind else [receiver]))
        c.check(not np.any(r[1]), 'errors without noise', errors=r[1])
        c.check(bool(calls) == (kind == 0), 'the receiver of another simulation was used', calls=len(calls), kind=kind)
    c.check(w.get_modem().m == size, 'wrong modem', m=w.get_modem().m)


WORKLOADS = {'clean': (clean, 40, 1200), 'noisy': (noisy, 20, 800), 'custom': (custom, 30, 800), 'reuse': (reuse, 10, 300)}
