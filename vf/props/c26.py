"""C26: puncturing and depuncturing."""
import numpy as np

import commpy.channels as CH
import commpy.wifi80211 as W
from commpy.channelcoding import convcode as CV
from .. import mon

RULE = ('Streams of bits, of reals and of LLRs (lists and arrays of several types), of all lengths from 0 to hundreds, with '
        'the standard and random patterns of 1 to 24 positions (all of the shortest ones); round trips; decoding of '
        'punctured codes with the missing bits as erasures; and the puncturings made by WiFi simulations.')
ASSUMPTIONS = ['Patterns contain zeros and ones.',
               'The length given to depuncturing is the one of the original stream.']
REQUIRE = {'judged puncturing': 800, 'judged depuncturing': 800, 'partial period': 300, 'wifi': 3}


def kept(n, pat):
    p = [int(x) for x in pat]
    return [i for i in range(n) if p[i % len(p)]]


def post_punct(c, a, r, t):
    msg, pat = np.asarray(a['message']), a['punct_vec']
    idx = kept(len(msg), pat)
    got = np.asarray(r)
    c.check(got.ndim == 1 and len(got) == len(idx), 'wrong number of elements kept', got=r, n=len(msg), pattern=pat)
    if idx:
        c.equal(got, msg[idx], 'not the elements at the ones of the pattern', message=msg, pattern=pat)
    if len(msg) % len(pat):
        c.tag('partial period')


def post_depunct(c, a, r, t):
    punctured, pat, n = np.asarray(a['punctured']), a['punct_vec'], int(a['shouldbe'])
    idx = kept(n, pat)
    if len(punctured) < len(idx):
        return
    want = np.zeros(n)
    want[idx] = punctured[:len(idx)]
    c.equal(np.asarray(r), want, 'elements are not back at their positions', punctured=punctured, pattern=pat)
    c.check(not isinstance(r, np.ndarray) or not isinstance(a['__live__']['punctured'], np.ndarray)
            or not np.shares_memory(r, a['__live__']['punctured']), 'the result is the given array')


def exc_depunct(c, a, e, t):
    punctured, pat, n = a['punctured'], a['punct_vec'], int(a['shouldbe'])
    c.check(len(punctured) < len(kept(n, pat)), 'failure on a complete stream', error=e, punctured=punctured, pattern=pat,
            n=n)


def setup():
    mon.attach('commpy.channelcoding.convcode.puncturing', post_punct)
    mon.attach('commpy.channelcoding.convcode.depuncturing', post_depunct, exc=exc_depunct)


STANDARD = [[1], [1, 1], [1, 1, 1, 0], [1, 1, 1, 0, 0, 1], [1, 1, 1, 0, 0, 1, 1, 0, 0, 1], [1, 0], [0, 1], [0, 0, 1],
            [1, 1, 0, 1], [1, 1, 1, 1, 0, 1, 1, 1, 1, 0, 0, 0]]


def pattern(rng):
    k = rng.randint(4)
    if k == 0:
        p = STANDARD[rng.randint(len(STANDARD))]
    else:
        p = (rng.rand(rng.randint(1, 25 if k == 1 else 8)) < rng.choice([.3, .5, .8])).astype(int).tolist()
    if rng.randint(12) == 0:  # patterns of frames
        p = (rng.rand(rng.randint(25, 400)) < rng.choice([.3, .5, .8])).astype(int).tolist()
    return p


def dress(rng, x):
    k = rng.randint(5)
    if k == 3:
        return np.asarray(x).astype([bool, np.int8, np.uint8, float][rng.randint(4)])
    if k == 4:
        return [bool(v) for v in x]
    return list(x) if k == 0 else (np.asarray(x) if k == 1 else tuple(x))


def stream(rng, n):
    k = rng.randint(6)
    if k == 0:
        return rng.randint(0, 2, n).astype(np.int8)
    if k == 1:
        return rng.randint(0, 2, n)
    if k == 2:
        return rng.randn(n) * 10 ** rng.uniform(-3, 3)
    if k == 3:
        x = rng.randn(n)
        x[rng.rand(n) < .1] = np.inf
        x[rng.rand(n) < .1] = -np.inf
        return x
    if k == 4:
        return np.arange(1, n + 1)  # each element is identifiable
    return (rng.rand(n) * 100).astype(np.float32)


def round_trip(c, x, pat):
    p = CV.puncturing(x, pat)
    d = CV.depuncturing(p, pat, len(x))
    again = CV.puncturing(d, pat)
    c.equal(np.asarray(again, float), np.asarray(p, float), 'puncturing again does not return the punctured stream',
            stream=x, pattern=pat)
    idx = kept(len(x), pat)
    if len(idx) == len(x):
        c.equal(d, np.asarray(x, float), 'an empty puncturing changes the stream')
    return p, d


def trips(c):
    rng = c.rng
    n = int(rng.choice([0, 1, 2, 3, 7, 24, 25, rng.randint(1, 60), rng.randint(60, 400)]))
    pat = pattern(rng)
    x = stream(rng, n)
    c.note(n=n, pattern=pat, t=x.dtype, s=c.seed)
    if rng.randint(3) == 0:
        x = list(x)
    round_trip(c, x, dress(rng, pat))


def short(c):
    """ Every pattern of up to 6 positions, with all the stream lengths of up to 3 periods. """
    i = c.idx
    L = 1
    while i >= 2 ** L:
        i -= 2 ** L
        L += 1
    pat = [i >> j & 1 for j in range(L)]
    c.note(pattern=pat)
    for n in range(3 * L + 2):
        round_trip(c, np.arange(1., n + 1), np.array(pat))


def extra(c):
    """ Streams sent one after the other: each starts the pattern again, and longer inputs are read from their start. """
    rng = c.rng
    pat = pattern(rng)
    c.note(pattern=pat, s=c.seed)
    for _ in range(3):
        n = rng.randint(1, 80)
        x = stream(rng, n)
        p, d = round_trip(c, x, pat)
        keep = len(kept(n, pat))
        if keep:
            more = np.concatenate((np.asarray(p, float), rng.randn(rng.randint(1, 5))))
            c.equal(CV.depuncturing(more, pat, n), d, 'more received values change the first ones')


def wifi(c):
    """ Puncturing and depuncturing in the loop of a WiFi simulation. """
    rng = c.rng
    mcs = [2, 4, 5, 6, 7, 8, 9][c.idx % 7]
    c.note(mcs=mcs, s=c.seed)
    ch = CH.SISOFlatChannel(fading_param=(1 + 0j, 0))
    r = W.Wifi80211(mcs).link_performance(ch, [60], 1, 1, int(rng.choice([1, 6, 30])))
    c.check(not np.any(r[1]), 'errors without noise', errors=r[1])
    c.tag('wifi')


def long_streams(c):
    rng = c.rng
    pat = pattern(rng)
    n = int(rng.choice([1000, 4096, 10007, 33000, 70000]))
    x = stream(rng, n)
    c.note(pattern=pat, n=n, s=c.seed)
    round_trip(c, x, dress(rng, pat))


WORKLOADS = {'trips': (trips, 2400, 120000), 'short': (short, 126, 2046), 'extra': (extra, 400, 20000),
             'wifi': (wifi, 14, 140),
             'long streams': (long_streams, 16, 300)}
