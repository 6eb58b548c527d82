"""C05: Viterbi decoding is maximum likelihood and inverts the encoder."""
import numpy as np

import commpy.channelcoding as CC
from commpy.channelcoding import convcode
from .. import mon
from ..boot import Poison
from ..ref.conv import Distances, TableCode, best_metric
from .c04 import random_code

RULE = ('Random and published codes (1 to 3 inputs, 2 to 64 states, feedback or not), streams from 0 to a few hundred '
        'symbols, traceback depths shorter than, equal to and longer than the stream, hard, soft and unquantized '
        'inputs: noiseless, noisy, pure garbage, erased, extreme. Optimality is judged by a separate dynamic '
        'programming; round trips by the column distances of the code.')
ASSUMPTIONS = ['Round trips are claimed for the symbols which the received values determine: codes whose column '
               'distance reaches the required weight within the traceback depth.', 'Traceback depths of at least 2.']
REQUIRE = {'judged viterbi_decode': 300, 'optimal': 150, 'round trip': 80, 'corrected': 40}


def metric(kind, r, bits):
    b = np.asarray(bits, float)
    r = np.asarray(r, float)
    if kind == 'hard':
        return float(np.sum(r != b))
    if kind == 'soft':
        r = np.clip(r, -500, 500)
        return float(np.sum(np.logaddexp(0, r) - r * b))
    return float(np.sum((r - (2 * b - 1)) ** 2))


def post(c, a, r, t):
    tr = a['trellis']
    k, n = int(tr.k), int(tr.n)
    y = np.asarray(a['coded_bits'])
    if len(y) % n:
        return
    steps = len(y) // n
    r = np.asarray(r)
    c.check(r.shape == (steps * k,), 'wrong number of decoded bits', got=r.shape, expected=steps * k)
    c.check(np.all((r == 0) | (r == 1)), 'decoded values are not bits', result=r)
    tb = a['tb_depth']
    tb = 5 * int(tr.total_memory) if tb is None else int(tb)
    if tb <= steps or steps == 0:
        return
    code = TableCode(tr)
    kind = a['decoding_type']
    out, _ = code.run(list(r))
    got = metric(kind, y, out)
    if kind == 'hard':
        yy = [int(v) for v in y]

        def cost(t, p):
            return sum(1 for j in range(n) if yy[t * n + j] != p[j])
    elif kind == 'soft':
        z = np.clip(np.asarray(y, float), -500, 500)
        c0, c1 = np.logaddexp(0, z).tolist(), (np.logaddexp(0, z) - z).tolist()

        def cost(t, p):
            return sum((c1 if p[j] else c0)[t * n + j] for j in range(n))
    else:
        z = np.asarray(y, float)
        c0, c1 = ((z + 1) ** 2).tolist(), ((z - 1) ** 2).tolist()

        def cost(t, p):
            return sum((c1 if p[j] else c0)[t * n + j] for j in range(n))
    want = best_metric(code, cost, steps)
    c.tag('optimal')
    c.tag('optimal ' + kind)
    scale = float(np.sum(np.abs(np.clip(np.asarray(y, float), -500, 500)))) if kind == 'soft' else \
        (float(np.sum((np.abs(y) + 1) ** 2)) if kind == 'unquantized' else 0)
    c.check(got <= want + 1e-9 + 1e-11 * scale, 'decoded sequence is not optimal (%s)' % kind, metric=got, best=want,
            received=y, decoded=r, k=k, n=n, memory=tr.total_memory, tb_depth=a['tb_depth'])


def setup():
    mon.attach('commpy.channelcoding.convcode.viterbi_decode', post)


PUBLISHED = [(2, (0o5, 0o7)), (3, (0o15, 0o17)), (4, (0o23, 0o35)), (2, (0o5, 0o7, 0o7)), (3, (0o13, 0o15, 0o17)),
             (5, (0o53, 0o75)), (6, (0o133, 0o171))]


def pick_code(rng, tmax=4):
    if rng.randint(4) == 0:
        m, g = PUBLISHED[rng.randint(5)]
        return CC.Trellis(np.array([m]), np.array([g])), 'm %d g %s' % (m, g)
    if rng.randint(6) == 0:
        m = int(rng.randint(1, 5))
        g = rng.randint(0, 2 ** (m + 1), (1, 2)) | (1 << m)
        g[0, 0] = 1
        fb = int(rng.randint(0, 2 ** m)) | (1 << m) | 1
        return CC.Trellis(np.array([m]), g, fb, 'rsc'), 'int feedback m %d g %s fb %d' % (m, g.tolist(), fb)
    return random_code(rng, 3, tmax)


def values(rng, kind, bits):
    """ received values: noiseless, noisy or garbage """
    b = np.asarray(bits, int)
    s = 2. * b - 1
    how = rng.randint(5)
    if kind == 'hard':
        if how == 0:
            return b
        if how == 1:
            return rng.randint(0, 2, len(b))
        return b ^ (rng.rand(len(b)) < rng.choice([.02, .1, .3])).astype(int)
    if how == 0:
        y = s * rng.choice([1e-3, 1, 3, 1e3, 1e6])
    elif how == 1:
        y = rng.randn(len(b)) * rng.choice([1e-8, 1e-6, 1e-4, .01, .1, 1, 10, 100])
        if kind == 'soft' and rng.randint(3) == 0:
            y = rng.uniform(30, 480, len(b)) * rng.choice([-1, 1], len(b))
    elif how == 2:
        y = (s + rng.randn(len(b))) * rng.choice([1, 1, 4])
        y[rng.rand(len(b)) < .2] = 0
    elif how == 3:
        y = rng.choice([-1e9, -600, -500, -40, -1, 0, 1e-12, 1, 37, 499, 501, 1e12], len(b))
        if kind == 'unquantized':
            y = np.clip(y, -1e3, 1e3)
    else:
        y = s + rng.randn(len(b)) * .7
    return y


KINDS = ('hard', 'soft', 'unquantized')


def optimal(c):
    rng = c.rng
    tr, desc = pick_code(rng)
    k, n = int(tr.k), int(tr.n)
    steps = int(rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 12, 20]))
    if tr.number_states * tr.number_inputs > 64:
        steps = min(steps, 8)
    kind = KINDS[rng.randint(3)]
    msg = rng.randint(0, 2, steps * k)
    y = values(rng, kind, CC.conv_encode(msg, tr, 'cont'))
    tb = steps + 1 + int(rng.choice([0, 0, 1, 5, 40]))
    tb = max(tb, 2)
    c.note(code=desc, steps=steps, kind=kind, tb=tb)
    r = CC.viterbi_decode(y, tr, tb, kind)
    if rng.randint(3) == 0:
        for Poison.mode in (1, 2, 3):
            try:
                r2 = CC.viterbi_decode(y, tr, tb, kind)
            finally:
                Poison.mode = 0
            c.equal(r2, r, 'decoded bits depend on the content of uninitialised memory')


def short_tb(c):
    """ any depth: the decoded bits are determined by the received values """
    rng = c.rng
    tr, desc = pick_code(rng, 3)
    k = int(tr.k)
    steps = int(rng.randint(1, 14))
    tb = [None, 2, 3, 5, 8][rng.randint(5)]
    kind = KINDS[rng.randint(3)]
    if tb is None:
        steps *= 3
    y = values(rng, kind, CC.conv_encode(rng.randint(0, 2, steps * k), tr, 'cont'))
    c.note(code=desc, steps=steps, kind=kind, tb=tb)
    r = CC.viterbi_decode(y, tr, tb, kind)
    if tb is None and tr.total_memory:
        c.equal(CC.viterbi_decode(y, tr, 5 * int(tr.total_memory), kind), r,
                'the default depth is not five times the memory')
    for Poison.mode in (1, 2, 3):
        try:
            r2 = CC.viterbi_decode(y, tr, tb, kind)
        finally:
            Poison.mode = 0
        c.equal(r2, r, 'decoded bits depend on the content of uninitialised memory')


def noiseless(rng, kind, bits):
    if kind == 'hard':
        return np.asarray(bits).astype([int, np.int8, float][rng.randint(3)])
    s = 2. * np.asarray(bits) - 1
    return s * (rng.choice([1e-2, 1, 5, 1e3, 1e8]) if kind == 'soft' else rng.choice([.1, 1, 1, 3]))


def check_prefix(c, got, msg, k, prefix, what, **d):
    prefix = max(0, min(prefix * k, len(msg)))
    c.equal(np.asarray(got)[:prefix], np.asarray(msg)[:prefix], what, **d)


def roundtrip(c):
    rng = c.rng
    tr, desc = pick_code(rng, 4)
    k, n, m = int(tr.k), int(tr.n), int(tr.total_memory)
    d = Distances(TableCode(tr))
    w = d.delay(1)
    tb = [None, None, 5 * (m + 1), 5 * (m + 1) + int(rng.randint(0, 20))][rng.randint(4)]
    depth = 5 * m if tb is None else tb
    if w is None or w + 2 > depth:
        c.tag('catastrophic or slow')
        return
    small = tr.number_states * tr.number_inputs <= 16
    steps = int(rng.choice([1, 2, 3, 4, 6, depth - 2, depth - 1, depth, depth + 1, depth + 2, 2 * depth + 3, 60]))
    if not small:
        steps = min(steps, depth + 2, 40)
    kind = KINDS[rng.randint(3)]
    msg = rng.randint(0, 2, steps * k)
    term = ['cont', 'term'][rng.randint(2)]
    coded = CC.conv_encode(msg, tr, term)
    c.note(code=desc, steps=steps, kind=kind, tb=tb, term=term)
    got = CC.viterbi_decode(noiseless(rng, kind, coded), tr, tb, kind)
    total = len(coded) // n
    c.tag('round trip')
    check_prefix(c, got, msg, k, total - w + 1, 'noiseless stream is not decoded to the message (%s)' % kind,
                 w=w)


def correctable(c, codes=None, cap=30):
    rng = c.rng
    tr, desc = codes if codes else pick_code(rng, 4)
    k, n, m = int(tr.k), int(tr.n), int(tr.total_memory)
    d = Distances(TableCode(tr))
    if not d.dfree or d.dfree < 2:
        return
    w = d.delay(d.dfree)
    depth = 5 * (m + 1) if rng.randint(2) else 5 * m + int(rng.randint(5, 20))
    if w is None or w + 2 > depth:
        c.tag('catastrophic or slow')
        return
    steps = int(rng.choice([w + 1, w + 3, depth, depth + 10]))
    if tr.number_states * tr.number_inputs > 16:
        steps = min(steps, cap)
    msg = rng.randint(0, 2, steps * k)
    term = ['cont', 'term'][rng.randint(2)]
    coded = np.asarray(CC.conv_encode(msg, tr, term))
    total = len(coded) // n
    kind = KINDS[rng.randint(3)]
    # errors + erasures: 2 errors + erasures < dfree, often in a burst
    ne = int(rng.randint(0, (d.dfree - 1) // 2 + 1))
    ner = int(rng.randint(0, d.dfree - 2 * ne))
    if rng.randint(2):
        ne, ner = (d.dfree - 1) // 2, 0
    lo = int(rng.randint(0, len(coded)))
    if rng.randint(2):
        lo = 0 if rng.randint(2) else max(0, len(coded) - w * n - 2 * d.dfree)
    span = min(len(coded), max(ne + ner, int(rng.choice([ne + ner, 2 * d.dfree, len(coded)]))))
    if ne + ner > span:
        return
    pos = (lo + rng.permutation(span)[:ne + ner]) % len(coded)
    if kind == 'hard':
        y = coded.copy()
        y[pos[:ne]] ^= 1  # erased positions are left as they are: hard inputs are bits
    else:
        a = 2. if kind == 'soft' else 1.
        y = a * (2. * coded - 1)
        y[pos[:ne]] *= -1
        y[pos[ne:]] = 0
    c.note(code=desc, steps=steps, kind=kind, depth=depth, term=term, errors=ne, erasures=ner)
    got = CC.viterbi_decode(y, tr, depth, kind)
    c.tag('corrected')
    check_prefix(c, got, msg, k, total - w + 1, 'correctable errors are not corrected (%s)' % kind,
                 dfree=d.dfree, positions=pos)


def big(c):
    rng = c.rng
    m, g = PUBLISHED[5 + c.idx % 2]
    tr = CC.Trellis(np.array([m]), np.array([g]))
    if c.idx % 4 < 2:
        correctable(c, (tr, 'm %d g %s' % (m, g)), cap=36)
        return
    kind = KINDS[rng.randint(3)]
    msg = rng.randint(0, 2, 24)
    y = values(rng, kind, CC.conv_encode(msg, tr, ['cont', 'term'][rng.randint(2)]))
    c.note(big=m, kind=kind, s=c.idx)
    CC.viterbi_decode(y, tr, None, kind)


def punctured(c):
    """ punctured streams with the missing values erased """
    rng = c.rng
    tr, desc = pick_code(rng, 3)
    k, n = int(tr.k), int(tr.n)
    p = rng.randint(0, 2, int(rng.randint(2, 7)))
    p[rng.randint(len(p))] = 1
    steps = int(rng.randint(2, 12))
    msg = rng.randint(0, 2, steps * k)
    kept = CC.conv_encode(msg, tr, 'cont', np.array([p]))
    y = convcode.depuncturing(2. * np.asarray(kept) - 1, p, steps * n)
    kind = ('soft', 'unquantized')[rng.randint(2)]
    c.note(code=desc, p=p.tolist(), steps=steps, kind=kind)
    CC.viterbi_decode(y, tr, steps + 2, kind)
    CC.viterbi_decode(y + .5 * rng.randn(len(y)) * (y != 0), tr, steps + 2, kind)


def repeat(c):
    """ one stream decoded by several codes and types in turn (shared caches) """
    rng = c.rng
    trs = [pick_code(rng, 3)[0] for _ in range(3)]
    c.note(repeat=c.seed)
    base = rng.randint(0, 2, 60)
    for _ in range(5):
        tr = trs[rng.randint(3)]
        steps = min(6, len(base) // int(tr.n))
        y = base[:steps * int(tr.n)]
        kind = KINDS[rng.randint(3)]
        if kind != 'hard' and rng.randint(2):
            y = y.astype(float)
        CC.viterbi_decode(y, tr, steps + 1, kind)


def errors(c):
    tr = CC.Trellis(np.array([2]), np.array([[5, 7]]))
    for bad in ('Hard', '', 'erasure', None, 3):
        for ln in (0, 2, 20):
            c.raises(ValueError, lambda: CC.viterbi_decode(np.zeros(ln), tr, 10, bad),
                     'decoding type %r accepted' % (bad,))
    c.note(i=c.idx)


def system(c):
    from commpy.channels import SISOFlatChannel
    from commpy.links import LinkModel
    from commpy.modulation import PSKModem
    tr = CC.Trellis(np.array([2]), np.array([[5, 7]]))
    m = PSKModem(4)
    kind = ('hard', 'soft')[c.idx % 2]
    lk = LinkModel(lambda b: m.modulate(CC.conv_encode(b, tr, 'cont')), SISOFlatChannel(fading_param=(1 + 0j, 0)),
                   lambda y, h, k, nv: m.demodulate(y, kind, nv), 2, m.constellation, 1.,
                   lambda z: CC.viterbi_decode(z, tr, 26, kind), .5)
    c.note(kind=kind, s=c.idx)
    lk.link_performance([2, 5], 48, 100, 24, .5)


def long_streams(c):
    """ Streams much longer than the traceback, clean or with one correctable burst anywhere """
    rng = c.rng
    while True:
        tr, desc = pick_code(rng, 3)
        k, n, m = int(tr.k), int(tr.n), int(tr.total_memory)
        d = Distances(TableCode(tr))
        if tr.number_states * tr.number_inputs <= 16 and d.dfree and d.dfree > 1:
            break
    w = d.delay(d.dfree)
    tb = [None, 5 * (m + 1), 5 * (m + 1) + int(rng.randint(0, 60))][rng.randint(3)]
    depth = 5 * m if tb is None else tb
    if w is None or w + 2 > depth:
        c.tag('catastrophic or slow')
        return
    steps = int(rng.choice([200, 257, 500, 1025]))
    kind = KINDS[rng.randint(3)]
    msg = rng.randint(0, 2, steps * k)
    coded = np.asarray(CC.conv_encode(msg, tr, ['cont', 'term'][rng.randint(2)]))
    y = np.array(noiseless(rng, kind, coded))
    ne = int(rng.randint(0, (d.dfree - 1) // 2 + 1))
    lo = int(rng.randint(0, len(coded) - 2 * d.dfree))
    pos = lo + rng.permutation(2 * d.dfree)[:ne]
    a = np.abs(y[pos]).max() if ne and kind != 'hard' else 0
    y[pos] = 1 - y[pos] if kind == 'hard' else -y[pos]
    c.note(code=desc, steps=steps, kind=kind, tb=tb, errors=ne)
    if a and np.ptp(np.abs(y)) > 1e-9 * a:
        y[pos] = -y[pos]
        ne = 0
    got = CC.viterbi_decode(y, tr, tb, kind)
    c.tag('long')
    check_prefix(c, got, msg, k, len(coded) // n - w + 1, 'long stream is not decoded to the message (%s)' % kind, w=w,
                 positions=pos)


def long_optimal(c):
    """ long noisy streams decoded with a depth above their length: the decoded word has the best metric """
    rng = c.rng
    tr, desc = pick_code(rng, 3)
    while tr.number_states * tr.number_inputs > 16:
        tr, desc = pick_code(rng, 3)
    k, n = int(tr.k), int(tr.n)
    steps = int([130, 270, 520, 1040][c.idx % 4])
    kind = KINDS[rng.randint(3)]
    coded = np.asarray(CC.conv_encode(rng.randint(0, 2, steps * k), tr, 'cont'))
    p = rng.choice([.05, .1, .2])
    if kind == 'hard':
        y = coded ^ (rng.rand(len(coded)) < p)
    else:
        y = 2. * coded - 1 + rng.randn(len(coded)) * rng.choice([.6, 1, 1.5])
    c.note(code=desc, steps=steps, kind=kind)
    c.tag('long noisy')
    CC.viterbi_decode(y, tr, steps + 1 + int(rng.choice([0, 1, 50])), kind)


WORKLOADS = {'optimal': (optimal, 400, 8000), 'short_tb': (short_tb, 100, 2000), 'roundtrip': (roundtrip, 300, 5000),
             'correctable': (correctable, 250, 4000), 'big': (big, 16, 300), 'punctured': (punctured, 80, 1500),
             'repeat': (repeat, 60, 1000), 'errors': (errors, 8, 8), 'system': (system, 8, 80),
             'long streams': (long_streams, 24, 500), 'long optimal': (long_optimal, 16, 300)}
