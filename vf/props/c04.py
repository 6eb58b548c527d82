"""C04: trellises and convolutional encoding implement the generator polynomials."""
import weakref

import numpy as np

import commpy.channelcoding as CC
from .. import mon
from ..ref.conv import Circuit, inputs

RULE = ('Random codes with 1 to 3 inputs (up to 6 sometimes), 1 to 5 outputs (up to 17 sometimes), equal and '
        'unequal memories (total memory up to 7, sometimes 10), the same matrices in several orders, random '
        'generator and feedback matrices in the MSB, LSB and Matlab orders and through the integer feedback interface; '
        'messages from empty to hundreds of bits; both terminations; random and standard puncturing patterns; and the '
        'encodings made by turbo codes and WiFi simulations.')
ASSUMPTIONS = ['Generator degrees do not exceed the memory of their input, at least one memory element.',
               'Integer feedback: one input and generators with a direct tap (the library documents limitations '
               'otherwise).',
               'Recursive systematic codes given to terminate are controllable (each state can reach the zero state).']
REQUIRE = {'judged Trellis': 150, 'judged conv_encode': 400, 'terminated': 80, 'punctured': 60, 'feedback': 60}

SPECS = weakref.WeakKeyDictionary()


def post_trellis(c, a, r, t):
    tr = a['self']
    g, mem, fb = np.asarray(a['g_matrix']), np.asarray(a['memory']), a['feedback']
    fmt = a['polynomial_format']
    if isinstance(fb, int):
        if g.shape[0] != 1:
            return
        gg = [[int(x) for x in g[0]]]
        m = int(mem[0])
        if a['code_type'] == 'rsc':
            gg[0][0] = fb
            if not fb >> m & 1:
                return
        elif fb:
            return
        if fb and not all(x >> m & 1 for x in gg[0]):
            return
        circ = Circuit(mem, gg, lsb=True, legacy=fb if fb else 1 << m)
    else:
        circ = Circuit(mem, g, None if fb is None else np.asarray(fb), lsb=fmt != 'MSB')
        if fb is not None:
            c.tag('feedback')
    c.check(int(tr.k) == g.shape[0] and int(tr.n) == g.shape[1], 'wrong k or n', k=tr.k, n=tr.n)
    c.check(int(tr.total_memory) == int(mem.sum()), 'wrong total memory', got=tr.total_memory)
    c.check(int(tr.number_states) == 2 ** int(mem.sum()), 'wrong number of states', got=tr.number_states)
    c.check(int(tr.number_inputs) == 2 ** g.shape[0], 'wrong number of inputs', got=tr.number_inputs)
    ns = np.zeros((2 ** int(mem.sum()), 2 ** g.shape[0]), int)
    ot = np.zeros_like(ns)
    for s in range(ns.shape[0]):
        st = circ.state(s)
        for u, ub in enumerate(inputs(circ.k)):
            nxt, o = circ.step(st, ub)
            ns[s, u] = circ.number(nxt)
            v = 0
            for b in o:
                v = 2 * v + b
            ot[s, u] = v
    c.equal(np.asarray(tr.next_state_table), ns, 'wrong next state table', memory=mem, g=g, feedback=fb, fmt=fmt)
    c.equal(np.asarray(tr.output_table), ot, 'wrong output table', memory=mem, g=g, feedback=fb, fmt=fmt)
    SPECS[tr] = circ


def keep(bits, pattern):
    p = list(pattern)
    return [b for i, b in enumerate(bits) if p[i % len(p)] == 1]


def post_encode(c, a, r, t):
    tr = a['trellis']
    circ = SPECS.get(tr)
    msg = np.asarray(a['message_bits'])
    term = a['termination']
    if circ is None or msg.size % circ.k or term not in ('cont', 'term'):
        return
    pm = a['puncture_matrix']
    pattern = None if pm is None else np.asarray(pm)[0]
    r = np.asarray(r)
    body, st = circ.run([int(b) for b in msg.ravel()])
    got = [int(x) for x in r]
    c.check(r.ndim == 1 and all(x in (0, 1) for x in got), 'encoded stream is not made of bits', result=r)
    if pattern is not None:
        c.tag('punctured')
    if term == 'cont':
        want = body if pattern is None else keep(body, pattern)
        c.equal(np.array(got, int), np.array(want, int), 'wrong encoded stream', message=msg, pattern=pattern)
        return
    feedfwd = circ.legacy is False and all(
        circ.f[l][i] == [1 if (l == i and q == 0) else 0 for q in range(len(circ.f[l][i]))]
        for l in range(circ.k) for i in range(circ.k)) or (circ.legacy and circ.q == [1] + [0] * (len(circ.q) - 1))
    rsc = tr.code_type == 'rsc'
    if not feedfwd and not rsc:
        return  # nothing promised about a recursive code which is not declared as such
    c.tag('terminated')
    tm = sum(circ.mem)
    if rsc or circ.k == 1:
        lengths = [tm]
    else:
        lengths = range(max(circ.mem), tm + 1)
    ok = False
    for tail in lengths:
        full = circ.n * (len(msg) // circ.k + tail)
        sel = list(range(full)) if pattern is None else keep(range(full), pattern)
        if len(sel) != len(got):
            continue
        known = dict(zip(sel, got))
        if any(known.get(i, b) != b for i, b in enumerate(body)):
            continue
        if rsc:
            alive = {st}
            pos = len(body)
            for _ in range(tail):
                nxt = set()
                for s in alive:
                    for u in inputs(circ.k):
                        s2, o = circ.step(s, u)
                        if all(known.get(pos + j, b) == b for j, b in enumerate(o)):
                            nxt.add(s2)
                alive = nxt
                pos += circ.n
            ok = circ.zero() in alive
        else:
            s, pos, good = st, len(body), True
            for _ in range(tail):
                s, o = circ.step(s, [0] * circ.k)
                good = good and all(known.get(pos + j, b) == b for j, b in enumerate(o))
                pos += circ.n
            ok = good and s == circ.zero()
        if ok:
            break
    c.check(ok, 'terminated stream is not the message followed by a return to the zero state', message=msg,
            pattern=pattern, result=r, memory=circ.mem, rsc=rsc)


def setup():
    mon.attach('commpy.channelcoding.convcode.Trellis.__init__', post_trellis, name='Trellis')
    mon.attach('commpy.channelcoding.convcode.conv_encode', post_encode)


def polys(rng, mem, shape_n, top, lsb, direct=False):
    """ random generator matrix with degrees limited by the memory of each input """
    k = len(mem)
    g = np.zeros((k, shape_n), int)
    for i in range(k):
        for j in range(shape_n):
            v = int(rng.randint(0, 2 ** (mem[i] + 1)))
            if direct:
                v |= 1
            if lsb:  # coefficient of D^t is bit top - t
                v = sum(((v >> t) & 1) << (top - t) for t in range(mem[i] + 1))
            g[i, j] = v
    return g


def random_code(rng, kmax=3, tmax=7, feedback=None, rsc=None, mem=None, n=None, args=False):
    """ (trellis, description) """
    want_args = args
    while mem is None:
        k = int(rng.choice([1, 1, 1, 2, 2, 3])) if kmax >= 3 else int(rng.randint(1, kmax + 1))
        mem = rng.randint(0, 5, k) if k > 1 else rng.randint(1, 7, 1)
        if not 1 <= mem.sum() <= tmax:
            mem = None
    k = len(mem)
    n = n or int(rng.randint(1, 6))
    fmt = ['MSB', 'LSB', 'Matlab'][rng.randint(3)]
    lsb = fmt != 'MSB'
    top = int(mem.max())
    if rsc is None:
        rsc = rng.randint(3) == 0
    if feedback is None:
        feedback = rsc or rng.randint(3) == 0
    if rsc:
        n = max(n, k)
    g = polys(rng, mem, n, top, lsb)
    one = (1 << top) if lsb else 1
    fb = None
    if feedback:
        fb = polys(rng, mem, k, top, lsb)
        if rsc:
            for l in range(k):
                for i in range(k):
                    # direct input on its own line, last tap of its own line: controllable
                    if l == i:
                        fb[l, i] |= one
                        last = int(mem[l])
                        fb[l, i] |= (1 << (top - last)) if lsb else (1 << last)
                    else:
                        fb[l, i] &= ~one
            g[:, :k] = np.eye(k, dtype=int) * one
    args = (mem, g, fb, 'rsc' if rsc else 'default', fmt)
    if want_args:
        return args
    return CC.Trellis(*args), 'mem %s g %s fb %s %s %s' % (
        mem.tolist(), g.tolist(), None if fb is None else fb.tolist(), args[3], fmt)


def some_pattern(rng, n):
    kind = rng.randint(4)
    if kind == 0:
        p = [[1, 1, 1, 0], [1, 1, 1, 0, 0, 1], [1, 1, 1, 0, 0, 1, 1, 0, 0, 1], [0, 1], [1, 0], [0, 1, 1]][rng.randint(6)]
    else:
        ln = int(rng.randint(1, 10))
        p = rng.randint(0, 2, ln)
        if not np.any(p):
            p[rng.randint(ln)] = 1
    return np.array([p])


def lengths(rng, k):
    return int(rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 11, 20, 50])) * k


def encode_all(c, tr, k):
    rng = c.rng
    for _ in range(3):
        msg = rng.randint(0, 2, lengths(rng, k)).astype([int, np.int8, bool, np.uint8][rng.randint(4)])
        term = ['cont', 'term'][rng.randint(2)]
        pm = some_pattern(rng, tr.n) if rng.randint(3) == 0 else None
        r = CC.conv_encode(msg, tr, term, pm) if pm is not None else CC.conv_encode(msg, tr, term)
        if pm is None and term == 'cont':
            c.check(len(r) * k == len(msg) * tr.n, 'length is not n/k times the message')


def controllable(tr):
    ns = np.asarray(tr.next_state_table)
    ok = {0}
    for _ in range(int(tr.total_memory)):
        ok |= {s for s in range(len(ns)) if set(ns[s]) & ok}
    return len(ok) == len(ns)


def codes(c):
    tr, desc = random_code(c.rng)
    c.note(code=desc)
    if tr.code_type == 'rsc' and not controllable(tr):
        c.tag('not controllable')
        return
    encode_all(c, tr, int(tr.k))
    if tr.code_type == 'rsc':
        msg = c.rng.randint(0, 2, 12 * int(tr.k))
        o = np.asarray(CC.conv_encode(msg, tr, 'cont')).reshape(-1, tr.n)
        c.equal(o[:, :tr.k].reshape(-1), msg, 'systematic outputs are not the message')


def legacy(c):
    """ integer feedback interface, one input """
    rng = c.rng
    m = int(rng.randint(1, 7))
    n = int(rng.randint(1, 4))
    g = rng.randint(0, 2 ** (m + 1), (1, n)) | (1 << m)
    rsc = bool(rng.randint(3))
    fb = int(rng.randint(0, 2 ** m)) | (1 << m) | 1 if rsc else 0
    if rsc:
        g[0, 0] = 1
    c.note(m=m, g=g.tolist(), fb=fb)
    tr = CC.Trellis(np.array([m]), g, fb, 'rsc' if rsc else 'default')
    encode_all(c, tr, 1)


def known(c):
    """ published codes, free distances checked through the lowest weight of encoded words """
    table = [  # memory, generators (octal), free distance
        (2, (0o5, 0o7), 5), (3, (0o15, 0o17), 6), (4, (0o23, 0o35), 7), (5, (0o53, 0o75), 8), (6, (0o133, 0o171), 10),
        (2, (0o5, 0o7, 0o7), 8), (3, (0o13, 0o15, 0o17), 10), (4, (0o25, 0o33, 0o37), 12)]
    m, g, d = table[c.idx % len(table)]
    c.note(m=m, g=g)
    tr = CC.Trellis(np.array([m]), np.array([g]))
    best = None
    # lowest weight of the words of all short inputs starting with 1
    for v in range(2 ** 7):
        bits = np.array([1] + [(v >> i) & 1 for i in range(7)])
        w = int(np.sum(CC.conv_encode(bits, tr)))
        best = w if best is None else min(best, w)
    c.check(best == d, 'free distance of a published code', got=best, expected=d)


def linear(c):
    """ linearity and time invariance on long messages """
    rng = c.rng
    tr, desc = random_code(rng)
    k, n = int(tr.k), int(tr.n)
    c.note(code=desc)
    a, b = rng.randint(0, 2, (2, 200 * k))
    ea, eb = CC.conv_encode(a, tr, 'cont'), CC.conv_encode(b, tr, 'cont')
    es = CC.conv_encode((a + b) % 2, tr, 'cont')
    c.equal(np.asarray(es), (np.asarray(ea) + np.asarray(eb)) % 2, 'the code is not linear')
    z = np.concatenate((np.zeros(5 * k, int), a))
    c.equal(np.asarray(CC.conv_encode(z, tr, 'cont'))[5 * n:], np.asarray(ea), 'the code is not time invariant')


def system(c):
    rng = c.rng
    if c.idx % 2:
        from commpy.channels import SISOFlatChannel
        from commpy.wifi80211 import Wifi80211
        w = Wifi80211(int(rng.randint(0, 10)))
        c.note(wifi=c.idx)
        w.link_performance(SISOFlatChannel(fading_param=(1 + 0j, 0)), [40], 1, 1, 24, 1, False)
    else:
        tr, desc = random_code(rng, 1, 4, True, True)
        c.note(turbo=desc)
        if tr.n >= 2 and controllable(tr):
            il = CC.RandInterlv(20, 3)
            CC.turbo_encode(rng.randint(0, 2, 20), tr, tr, il)


def formats(c):
    """ the same code in both bit orders gives the same trellis; unknown orders are refused """
    rng = c.rng
    k = int(rng.randint(1, 4))
    m = int(rng.randint(1, 4)) if k < 3 else int(rng.randint(1, 3))
    n = int(rng.randint(1, 4))
    g = rng.randint(0, 2 ** (m + 1), (k, n))

    def rev(x):
        return np.array([[int(format(v, '0%db' % (m + 1))[::-1], 2) for v in r] for r in x])
    fb = rng.randint(0, 2 ** (m + 1), (k, k)) if rng.randint(2) else None
    mem = np.full(k, m)
    c.note(m=m, g=g.tolist(), fb=None if fb is None else fb.tolist())
    t1 = CC.Trellis(mem, g, fb)
    t2 = CC.Trellis(mem, rev(g), None if fb is None else rev(fb), polynomial_format=['LSB', 'Matlab'][rng.randint(2)])
    c.equal(t1.next_state_table, t2.next_state_table, 'bit orders give different codes')
    c.equal(t1.output_table, t2.output_table, 'bit orders give different codes')
    for bad in ('msb', '', 'other'):
        c.raises(ValueError, lambda: CC.Trellis(mem, g, fb, 'default', bad), 'polynomial format %r accepted' % bad)


def many_states(c):
    """ more states, inputs or outputs than fit in small integers """
    rng = c.rng
    kind = c.idx % 4
    n = None
    if kind == 0:
        mem = np.array([int(rng.choice([8, 9, 10]))])
    elif kind == 1:
        mem = np.array([[4, 4], [4, 5], [3, 6], [5, 5]][rng.randint(4)])
    elif kind == 2:
        mem = np.array([[1, 2], [3]][rng.randint(2)])
        n = int(rng.choice([8, 9, 12, 16, 17]))
    else:
        mem = np.array([1, 0, 1, 0, 1, 1][:int(rng.randint(4, 7))])
    tr, desc = random_code(rng, rsc=False if len(mem) > 3 else None, mem=mem, n=n,
                           feedback=False if len(mem) > 3 else None)
    c.note(code=desc)
    c.tag('more than 256 states', int(tr.number_states > 256))
    if tr.code_type == 'rsc' and not controllable(tr):
        return
    for term in ('cont', 'term') if kind > 1 or tr.code_type == 'default' else ('cont',):
        CC.conv_encode(rng.randint(0, 2, 40 * int(tr.k)), tr, term)


def same_arguments(c):
    """ trellises made from nearly the same arguments in one process: formats, types, matrices, memories """
    rng = c.rng
    mem, g, fb, typ, fmt = random_code(rng, 2, 4, args=True)
    c.note(mem=mem.tolist(), g=g.tolist(), s=c.idx)
    made = []
    for _ in range(6):
        v = rng.randint(6)
        if v == 0:
            fmt = ['MSB', 'LSB', 'Matlab'][rng.randint(3)]
        elif v == 1:
            typ = ['default', 'rsc'][rng.randint(2)]
        elif v == 2 and len(g) == 1:
            g = g[:, rng.permutation(g.shape[1])]
        elif v == 3 and len(g) == 1 and g.shape[1] > 1:
            g = g[:, :-1]
        elif v == 4:
            fb = None if fb is not None else polys(rng, mem, len(mem), int(mem.max()), fmt != 'MSB') | \
                (1 << int(mem.max()) if fmt != 'MSB' else 1) * np.eye(len(mem), dtype=int)
        else:
            mem, g = mem.copy(), g.astype([int, np.int32, np.int64][rng.randint(3)])
        top = int(mem.max())
        if any(int(x) >> m + 1 if f == 'MSB' else int(x) & (1 << top - m) - 1
               for f in [fmt] for mat in ([g] if fb is None else [g, fb]) for r, m in zip(mat, mem) for x in r):
            fmt = {'MSB': 'LSB', 'LSB': 'MSB', 'Matlab': 'MSB'}[fmt]
            if any(int(x) >> m + 1 if fmt == 'MSB' else int(x) & (1 << top - m) - 1
                   for mat in ([g] if fb is None else [g, fb]) for r, m in zip(mat, mem) for x in r):
                continue
        made.append(CC.Trellis(mem, g, fb, typ, fmt))
        CC.conv_encode(rng.randint(0, 2, 8 * len(mem)), made[rng.randint(len(made))], 'cont')


def long_messages(c):
    rng = c.rng
    tr, desc = random_code(rng)
    if tr.code_type == 'rsc' and not controllable(tr):
        return
    k = int(tr.k)
    n = k * int(rng.choice([255, 256, 1000, 1024, 2049, 5000]))
    msg = rng.randint(0, 2, n)
    c.note(code=desc, n=n)
    CC.conv_encode(msg, tr, ['cont', 'term'][rng.randint(2)])
    if rng.randint(2):
        p = np.array([[1, 1, 0, 1, 1, 0, 1], [1, 0, 1, 1, 1, 1, 0]][:1 + rng.randint(2)])
        CC.conv_encode(msg, tr, ['cont', 'term'][rng.randint(2)], p)


WORKLOADS = {'codes': (codes, 260, 4000), 'legacy': (legacy, 60, 600), 'known': (known, 8, 8),
             'linear': (linear, 60, 800), 'system': (system, 12, 100), 'formats': (formats, 60, 800),
             'many states': (many_states, 24, 300), 'same arguments': (same_arguments, 60, 800),
             'long messages': (long_messages, 24, 400)}
