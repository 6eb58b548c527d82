"""C27: results depend only on the arguments; arguments are never modified; no uninitialised memory."""
import copy
import random

import numpy as np

from .. import mon, ops
from ..boot import Poison
from ..core import STATE
from ..zygote import Zygote

RULE = ('Sequences of operations covering the public interface, on shared modems, trellises, fields, interleavers, LDPC '
        'parameters and channels; results in a pristine process (one per operation) are compared with those inside '
        'random histories with repetitions, with callers overwriting results and arguments after each call and with '
        'other contents of uninitialised buffers; callers overwriting the arrays they have given to constructors '
        'and setters; arguments and objects are compared before and after each call.')
ASSUMPTIONS = ['Random operations are preceded by the same seeding of the global generator.',
               'Attributes of the library objects are not overwritten by the caller.',
               'Floating-point results are compared within 1e-7 (summation order may depend on memory alignment).']
REQUIRE = {'fresh results': 1000, 'results within a history': 2500, 'arguments compared': 4000,
           'results overwritten by the caller': 1500, 'poisoned buffers of a history': 200, 'results on long data': 60,
           'objects whose given arrays were overwritten': 50}

ZYGOTE = Zygote('vf.props.c27')


def setup():
    ZYGOTE.start()


# -- data handled structurally ---------------------------------------------------------------------------------------
def freeze(x, depth=0):
    """ A picklable copy of a result or an argument. """
    if isinstance(x, ops.Exempt):
        return ('exempt',)
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, np.array(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(x[k], depth + 1)) for k in sorted(x, key=str))
    if isinstance(x, np.generic):
        return ('scalar', x.dtype.kind, x.item())
    if x is None or isinstance(x, (bool, int, float, complex, str)):
        return ('scalar', type(x).__name__, x)
    if hasattr(x, 'toarray'):
        return ('sparse', freeze(x.toarray(), depth + 1))
    if callable(x) or depth > 4:
        return ('opaque',)
    d = getattr(x, '__dict__', None)
    if d is None:
        return ('opaque',)
    return ('object', type(x).__name__) + tuple((k, freeze(v, depth + 1)) for k, v in sorted(d.items()))


def numbers(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        if not len(a.ravel()):
            return True
        with np.errstate(all='ignore'):
            fin = np.abs(a[np.isfinite(a)])
            s = 1e-9 * (fin.max() if fin.size else 1)
            return bool(np.allclose(a, b, rtol=1e-7, atol=s, equal_nan=True))
    return bool(np.array_equal(a, b))


def same(a, b, subset=False):
    """ Equality of frozen values; with subset, objects and dicts of b may have more entries. """
    if type(a) is not tuple or type(b) is not tuple:
        return a == b
    if not a or not b or a[0] != b[0]:
        return False
    if a[0] == 'array':
        return a[1] == b[1] and numbers(a[2], b[2])
    if a[0] == 'scalar':
        x, y = a[2], b[2]
        if isinstance(x, (float, complex)) and isinstance(y, (float, complex)):
            return numbers(np.asarray(x), np.asarray(y))
        return a[1] == b[1] and x == y
    if a[0] in ('dict', 'object'):
        k = 2 if a[0] == 'object' else 1
        da, db = dict(a[k:]), dict(b[k:])
        if not subset and set(da) != set(db):
            return False
        return all(n in db and same(v, db[n], subset) for n, v in da.items())
    return len(a) == len(b) and all(same(x, y, subset) for x, y in zip(a[1:], b[1:]))


def scribble(x, depth=0):
    """ What a caller may do with its own arrays. """
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'iufcb' and x.size:
            x[...] = {'f': np.nan, 'c': np.nan, 'b': True}.get(x.dtype.kind, 7)
            n = 1
    elif isinstance(x, ops.Exempt):
        n = scribble(x.x, depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 3:
        n = sum(scribble(v, depth + 1) for v in x)
        if isinstance(x, list):
            x.append('overwritten')
            n += 1
    elif isinstance(x, dict) and depth < 3:
        n = sum(scribble(v, depth + 1) for v in x.values())
    return n


def owned(args, pool):
    """ The arguments which belong to the caller of this operation only. """
    shared = {id(v) for v in pool.objects.values()}
    shared |= {id(getattr(v, 'constellation', None)) for v in pool.objects.values()}
    return [a for a in args if id(a) not in shared]


def call(name, seed, pool, out):
    """ One operation: its frozen result. Problems with the arguments are appended to out['bad']. """
    f, args = ops.make(name, seed, pool)
    args = list(args)
    for v in list(pool.objects.values()):
        k = getattr(v, 'constellation', None)
        if k is not None:  # given by reference: the caller does not own it
            args = [np.array(a) if a is k else a for a in args]
    channel = [type(a).__name__.endswith('Channel') or a is pool.objects.get(('scratch modem', 0))
               or type(a).__name__ == 'Wifi80211' for a in args]
    before = [freeze(a) for a in args]
    objects = {k: freeze(v) for k, v in pool.objects.items()
               if not type(v).__name__.endswith('Channel') and k[0] not in ('scratch modem', 'wifi')}
    np.random.seed(seed % 2 ** 32)
    try:
        r = f(*[a.x if isinstance(a, ops.Exempt) else a for a in args])
        res = freeze(r)
    except Exception as e:  # noqa
        r = None
        res = ('exception', type(e).__name__, str(e)[:200])
        out['exceptions'] = out.get('exceptions', 0) + 1
    for i, a in enumerate(args):
        if not channel[i] and not same(before[i], freeze(a), True):
            out['bad'].append('%s (seed %d) modified its argument %d' % (name, seed, i))
        out['args'] += 1
    for k, v in objects.items():
        if k in pool.objects and not same(v, freeze(pool.objects[k]), True):
            out['bad'].append('%s (seed %d) modified a shared %s' % (name, seed, k[0]))
    return res, r, args


def fresh(payload):
    name, seed, mode = payload
    Poison.mode = mode
    random.seed(seed)
    out = {'bad': [], 'args': 0}
    res, r, args = call(name, seed, ops.Pool(), out)
    return res, out


def history(payload):
    order, scr, modes = payload
    pool = ops.Pool()
    out = {'bad': [], 'args': 0, 'scribbled': 0}
    results = []
    b0 = Poison.buffers
    for j, (name, seed) in enumerate(order):
        Poison.mode = modes[j % len(modes)]
        res, r, args = call(name, seed, pool, out)
        results.append(res)
        if scr:
            out['scribbled'] += scribble(r)
            out['scribbled'] += sum(scribble(a) for a in owned(args, pool))
        if out['bad']:
            break
    out['poisoned'] = Poison.buffers - b0
    return results, out


def ask(c, what, payload, describe):
    r = ZYGOTE.run(what, payload)
    if r[0] != 'ok':
        c.fail('a pristine process ended without a result: ' + r[0], why=r[1], task=describe)
    return r[1]


def mixed(c, only=None):
    rng = c.rng
    names = only or ops.names()
    inst = [(names[rng.randint(len(names))], int(rng.randint(2 ** 31))) for _ in range(10)]
    # operations repeated with other arguments, and the same ones again
    for k in range(4):
        inst.append((inst[rng.randint(len(inst))][0], int(rng.randint(2 ** 31))))
    expected = {}
    for n, s in inst:
        mode = int(rng.randint(4))
        res, out = ask(c, 'fresh', (n, s, mode), n)
        report(c, out)
        STATE.event('fresh results')
        if res[0] == 'exception':
            c.tag('exceptions')
            c.fail('an operation of the catalogue failed: ' + n, result=res, seed=s)
        expected[n, s] = res
    order = [inst[i] for i in rng.permutation(len(inst))] + [inst[rng.randint(len(inst))] for _ in range(20)]
    # immediate repetitions
    for k in range(4):
        i = rng.randint(len(order))
        order.insert(i, order[i])
    scr = bool(rng.randint(4))
    modes = [int(x) for x in rng.randint(0, 4, 3)]
    c.note(ops=sorted(set(n for n, s in inst)), scribble=scr, modes=modes, s=c.seed)
    results, out = ask(c, 'history', (order, scr, modes), order)
    report(c, out)
    STATE.event('results overwritten by the caller', out['scribbled'])
    STATE.event('poisoned buffers of a history', out['poisoned'])
    for (n, s), r in zip(order, results):
        STATE.event('results within a history')
        c.tag('op ' + n)
        if not same(expected[n, s], r):
            c.fail('the result of %s depends on the history or on uninitialised memory' % n, alone=expected[n, s],
                   within=r, seed=s, order=order, scribble=scr)


def report(c, out):
    STATE.event('arguments compared', out['args'])
    if out['bad']:
        c.fail('arguments or shared objects were modified', which=out['bad'])


GROUPS = [['dec2bitarray', 'decimal2bitarray', 'bitarray2dec', 'pnsequence', 'new_trellis', 'modulate'],
          ['viterbi_decode', 'conv_encode', 'new_trellis', 'puncturing', 'depuncturing'],
          ['turbo_encode', 'map_decode', 'turbo_decode', 'interleave', 'new_interleaver'],
          ['ldpc_decode', 'ldpc_read', 'ldpc_write', 'ldpc_encode', 'ldpc_matrix'],
          ['modulate', 'demodulate_hard', 'demodulate_soft', 'new_modem', 'reassign_constellation'],
          ['mimo_ml', 'kbest_hard', 'kbest_soft', 'best_first', 'bit_lvl_repr', 'max_log_approx', 'idd'],
          ['siso_channel', 'mimo_channel', 'specular', 'awgn', 'bec', 'bsc'],
          ['link', 'siso_channel', 'idd_link', 'wifi'],
          ['field_operation', 'new_field', 'polynomials', 'cyclic'],
          ['filters', 'frequency_offset', 'zcsequence', 'ofdm', 'ofdm_rx', 'upsample', 'signal_power']]


def focused(c):
    mixed(c, GROUPS[c.idx % len(GROUPS)])


def large(c):
    """ Long data, before and after operations on other data, with other contents of uninitialised buffers. """
    rng = c.rng
    names = sorted(set(ops.names(('bigdet', 'bigrand'))))
    pick = [names[(3 * c.idx + j) % len(names)] for j in range(3)]
    inst = [(n, int(rng.randint(2 ** 31))) for n in pick for _ in range(2)]
    expected = []
    for n, s in inst:
        res, out = ask(c, 'fresh', (n, s, int(rng.randint(4))), n)
        report(c, out)
        if res[0] == 'exception':
            c.fail('an operation of the catalogue failed: ' + n, result=res, seed=s)
        expected.append(res)
    order = [int(i) for i in rng.permutation(len(inst))]
    order += [order[-1]]
    c.note(ops=pick, s=c.seed)
    results, out = ask(c, 'history', ([inst[i] for i in order], bool(rng.randint(4)), [int(x) for x in rng.randint(0, 4, 2)]),
                       pick)
    report(c, out)
    for i, r in zip(order, results):
        STATE.event('results on long data')
        c.tag('op ' + inst[i][0])
        c.check(same(expected[i], r), 'the result of %s on long data depends on the history or on uninitialised memory'
                % inst[i][0], alone=expected[i], within=r, seed=inst[i][1])


def uninitialised(c):
    """ The same operations with different contents of uninitialised buffers. """
    rng = c.rng
    names = ops.names()
    inst = [(names[rng.randint(len(names))], int(rng.randint(2 ** 31))) for _ in range(4)]
    c.note(inst=inst)
    for n, s in inst:
        ref = None
        for mode in range(4):
            (r,), out = ask(c, 'history', ([(n, s)], False, [mode]), n)
            report(c, out)
            STATE.event('poisoned buffers of a history', out['poisoned'])
            if ref is None:
                ref = r
            elif not same(ref, r):
                c.fail('the result of %s depends on uninitialised memory' % n, first=ref, other=r, seed=s)


def drawing(c):
    """ Drawings do not modify the arguments. """
    rng = c.rng
    import matplotlib.pyplot as plt
    pool = ops.Pool()
    t = ops.trellis(rng, pool)
    o = [int(x) for x in rng.permutation(int(t.number_states))]
    before, o2 = freeze(t), list(o)
    c.note(order=o)
    col = ['#00ff00', '#ff0000', '#0000ff', '#888888'][:int(t.number_inputs)]
    col2 = list(col)
    t.visualize(2, o, edge_colors=col)
    plt.close('all')
    c.check(o == o2 and col == col2, 'visualize modified its arguments', order=o, was=o2)
    t.visualize_fsm(np.array(o))
    plt.close('all')
    m = ops.modem(rng, pool)
    m0 = freeze(m)
    m.plot_constellation()
    plt.close('all')
    c.check(same(before, freeze(t), True) and same(m0, freeze(m), True), 'drawing modified the object')


# -- arrays given to objects, which the caller goes on using ------------------------------------------------------------
def build_set(make):
    def f(*a):
        m = make()
        m.constellation = a[0]
        return m
    return f


def use_modem(m, rng):
    y = ops.cplx(rng, 6)
    return (m.constellation, m.Es, m.m, m.modulate(ops.bits(rng, 4 * m.num_bits_symbol)), m.demodulate(y, 'hard'),
            m.demodulate(y, 'soft', .7))


def use_trellis(t, rng):
    from commpy.channelcoding import convcode
    msg = ops.bits(rng, 6 * int(t.k))
    code = convcode.conv_encode(msg, t)
    return (code, np.array(t.next_state_table), np.array(t.output_table), int(t.total_memory), int(t.k), int(t.n),
            convcode.viterbi_decode(code.astype(float), t, 4))


def use_field(g, rng):
    return (g + g).elements, (g * g).elements, np.array(g.elements), g.m


def use_siso(ch, rng):
    np.random.seed(rng.randint(2 ** 31))
    x = np.ones(12, complex)
    return ch.propagate(x), ch.fading_param, ch.k_factor, ch.noise_std


def use_mimo(ch, rng):
    np.random.seed(rng.randint(2 ** 31))
    y = ch.propagate(np.ones(4 * ch.nb_tx, complex))
    return y, ch.channel_gains, ch.fading_param, ch.k_factor


def mimo_set(*f):
    ch = ops.CH.MIMOFlatChannel(2, 2, 0.)
    ch.fading_param = f
    return ch


def mimo_rician(mean, t, r):
    ch = ops.CH.MIMOFlatChannel(2, 2, 0.)
    ch.uncorr_rician_fading(mean, 2.)
    return ch


def mimo_exp(mean, t, r):
    ch = ops.CH.MIMOFlatChannel(2, 2, 0.)
    ch.expo_corr_rician_fading(mean, 1.5, np.exp(.3j), np.exp(2j))
    return ch


def mimo_args(rng):
    """ powers: |mean|^2 + tr(Rt) tr(Rr) = 4 """
    a, b, mean = ops.cplx(rng, 2, 2), ops.cplx(rng, 2, 2), ops.cplx(rng, 2, 2)
    rt, rr = a.dot(a.conj().T) + np.eye(2), b.dot(b.conj().T) + np.eye(2)
    los = rng.choice([.1, .2, .5])
    return (mean * np.sqrt(4 * los / np.sum(np.abs(mean) ** 2)), rt * (2 / np.trace(rt).real * np.sqrt(1 - los)),
            rr * (2 / np.trace(rr).real * np.sqrt(1 - los)))


def points(rng):
    return (ops.cplx(rng, 2 ** rng.randint(1, 5)),)


GIVEN = {
    'modem': (points, ops.MO.Modem, use_modem),
    'modem kept order': (points, lambda k: ops.MO.Modem(k, reorder_as_gray=False), use_modem),
    'modem constellation': (points, build_set(lambda: ops.MO.QAMModem(16)), use_modem),
    'PSK constellation': (points, build_set(lambda: ops.MO.PSKModem(4)), use_modem),
    'trellis': (lambda rng: (np.array([2]), np.array([[5, 7]])), ops.CC.Trellis, use_trellis),
    'trellis of several inputs': (lambda rng: (np.array([1, 2]), np.array([[3, 1, 0], [2, 5, 7]])), ops.CC.Trellis,
                                  use_trellis),
    'recursive trellis': (lambda rng: (np.array([2]), np.array([[7, 5]]), np.array([[7]])),
                          lambda m, g, f: ops.CC.Trellis(m, g, f, 'rsc'), use_trellis),
    'polynomial trellis': (lambda rng: (np.array([3]), np.array([[11, 13]])),
                           lambda m, g: ops.CC.Trellis(m, g, polynomial_format='Matlab'), use_trellis),
    'field': (lambda rng: (rng.randint(0, 8, 5),), lambda x: ops.CC.GF(x, 3), use_field),
    'MIMO fading': (mimo_args, mimo_set, use_mimo),
    'MIMO fading given first': (mimo_args, lambda *f: ops.CH.MIMOFlatChannel(2, 2, 0., f), use_mimo),
    'MIMO Rician mean': (mimo_args, mimo_rician, use_mimo),
    'MIMO correlated Rician mean': (mimo_args, mimo_exp, use_mimo),
}


def ownership(c):
    """ An object does not follow the arrays it has been given. """
    rng = c.rng
    name = sorted(GIVEN)[c.idx % len(GIVEN)]
    args, build, use = GIVEN[name]
    given = args(rng)
    copies = [np.array(a) for a in given]
    c.note(object=name, s=c.seed)
    seed = int(rng.randint(2 ** 31))
    want = freeze(use(build(*copies), np.random.RandomState(seed)))
    o = build(*given)
    if rng.randint(2):
        c.check(same(want, freeze(use(o, np.random.RandomState(seed)))), 'two equal objects behave differently',
                object=name)
    c.check(all(np.array_equal(a, b) for a, b in zip(given, copies)), 'construction or use modified the given arrays',
            object=name)
    how = rng.randint(3)
    for a in given:
        if how == 0:
            a[...] = 1
        elif how == 1:
            a[...] = np.array(a).ravel()[::-1].reshape(a.shape)
            a += 1
        else:
            a *= 0
    got = freeze(use(o, np.random.RandomState(seed)))
    STATE.event('objects whose given arrays were overwritten')
    c.check(same(want, got), 'an object follows the arrays it has been given', object=name, expected=want, result=got)


WORKLOADS = {'large': (large, 18, 600), 'ownership': (ownership, 104, 2000), 'mixed': (mixed, 64, 4000), 'focused': (focused, 90, 4000), 'uninitialised': (uninitialised, 24, 3000),
             'drawing': (drawing, 6, 60)}
