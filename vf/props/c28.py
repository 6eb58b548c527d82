"""C28: random results are repeatable from the seed; deterministic code draws nothing."""
import os
import pickle
import random
import subprocess
import sys

import numpy as np

import commpy.channels as CH
import commpy.links as LK
import commpy.modulation as MO
from .. import ops
from ..core import STATE
from .c27 import freeze, same

RULE = ('Operations covering the public interface: the state of the global NumPy generator (and of the one of Python) is '
        'compared around each deterministic operation, random ones are repeated from the same state in the same process, '
        'after other operations, in other processes with other hash seeds, and from other states, also on long data and '
        'in simulations of hundreds of transmissions; long runs of channels '
        'and link simulations whose successive noises, fadings and messages are recorded and searched for repetitions.')
ASSUMPTIONS = ['Floating-point results are compared within 1e-7 between processes, exactly within one.']
REQUIRE = {'generator untouched': 700, 'repeated exactly': 280, 'other state, other result': 140, 'mixed sequences': 25,
           'processes': 4, 'long data': 60, 'noises compared': 100, 'messages compared': 400, 'many draws': 16}


def state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def execute(name, seed, pool, rseed):
    """ -> frozen result, arguments are the ones of seed, the generator starts from rseed (None: left as it is) """
    f, args = ops.make(name, seed, pool)
    args = [a.x if isinstance(a, ops.Exempt) else a for a in args]
    if rseed is not None:
        np.random.seed(rseed)
    return freeze(f(*args))


def exact(a, b):
    return pickle.dumps(a, 4) == pickle.dumps(b, 4)


def deterministic(c):
    rng = c.rng
    names = ops.names(('det',))
    pool = ops.Pool()
    picks = []
    for j in range(24):
        name = names[rng.randint(len(names))]
        seed = int(rng.randint(2 ** 31))
        picks.append(name)
        f, args = ops.make(name, seed, pool)
        args = [a.x if isinstance(a, ops.Exempt) else a for a in args]
        np.random.seed(int(rng.randint(2 ** 31)))
        if rng.randint(2):
            np.random.standard_normal(1 + 2 * rng.randint(3))  # also a cached Gaussian
        s0, p0 = state(), random.getstate()
        r1 = freeze(f(*args))
        c.check(state() == s0, 'a deterministic operation consumed or changed the global generator', op=name, seed=seed)
        c.check(random.getstate() == p0, 'a deterministic operation changed the generator of Python', op=name)
        STATE.event('generator untouched')
        np.random.seed(int(rng.randint(2 ** 31)))
        r2 = execute(name, seed, ops.Pool(), None)
        c.check(same(r1, r2), 'the result of a deterministic operation depends on the generator', op=name, seed=seed,
                first=r1, second=r2)
        c.tag('op ' + name)
    c.note(picks=sorted(set(picks)), s=c.seed)


def repeatable(c):
    rng = c.rng
    names = ops.names(('rand',))
    pool = ops.Pool()
    for j in range(8):
        name = names[rng.randint(len(names))]
        seed, rs = int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))
        c.note(**{'op%d' % j: (name, seed, rs)})
        r1 = execute(name, seed, pool, rs)
        end1, p1 = state(), random.getstate()
        random.seed(rs + 1)
        r2 = execute(name, seed, pool, rs)
        c.check(exact(r1, r2), 'not repeatable bit for bit from the seed', op=name, seed=seed, rs=rs, first=r1, second=r2)
        c.check(state() == end1, 'the generator is left in another state by the repetition', op=name)
        STATE.event('repeated exactly')
        # from an equal state which was not obtained by seeding
        np.random.seed(rs)
        np.random.random_sample(5)
        s = np.random.get_state()
        r3 = execute(name, seed, pool, None)
        np.random.set_state(s)
        r4 = execute(name, seed, pool, None)
        c.check(exact(r3, r4), 'not repeatable from a state of the generator', op=name, first=r3, second=r4)
        end2 = state()
        c.check(end2 != end1, 'the generator is left in the same state whatever its initial state', op=name)
        c.check(end1 != seeded(rs), 'a random operation draws nothing from the global generator', op=name)
        if continuous(name, r1):
            c.check(not same(r1, r3), 'the same result from another state of the generator', op=name, result=r1)
            STATE.event('other state, other result')
        c.tag('op ' + name)
        del p1


def large(c):
    """ The same with long data and long simulations. """
    rng = c.rng
    names = sorted(set(ops.names(('bigdet', 'bigrand'))))
    pool = ops.Pool()
    for j in range(6):
        name = names[(6 * c.idx + j) % len(names)]
        seed, rs = int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))
        c.note(**{'op%d' % j: (name, seed, rs)})
        r1 = execute(name, seed, pool, rs)
        end1 = state()
        np.random.seed(rs)
        s0 = state()
        random.seed(rs + 1)
        p0 = random.getstate()
        r2 = execute(name, seed, ops.Pool(), None)
        c.check(exact(r1, r2), 'not repeatable bit for bit from the seed', op=name, seed=seed, rs=rs, first=r1, second=r2)
        c.check(state() == end1, 'the generator is left in another state by the repetition', op=name)
        c.check(random.getstate() == p0, 'an operation changed the generator of Python', op=name)
        c.check((state() == s0) == (ops.OPS[name][1] == 'bigdet'), 'a deterministic operation consumed or changed the '
                'global generator, or a random one drew nothing from it', op=name, seed=seed)
        STATE.event('long data')
        c.tag('op ' + name)


def seeded(rs):
    np.random.seed(rs)
    return state()


def continuous(name, r):
    """ results with real random values: equal only by defect """
    return name in ('awgn', 'siso_channel', 'mimo_channel')


def sequence(c):
    """ Random operations give the same results with deterministic operations between them. """
    rng = c.rng
    rand, det = ops.names(('rand',)), ops.names(('det',))
    plan = [(rand[rng.randint(len(rand))], int(rng.randint(2 ** 31))) for _ in range(6)]
    fill = [[(det[rng.randint(len(det))], int(rng.randint(2 ** 31))) for _ in range(rng.randint(4))] for _ in plan]
    rs = int(rng.randint(2 ** 31))
    c.note(plan=[p[0] for p in plan], fill=fill, rs=rs)
    pool = ops.Pool()
    np.random.seed(rs)
    first = [execute(n, s, pool, None) for n, s in plan]
    end = state()
    np.random.seed(rs)
    pool = ops.Pool()
    second = []
    for (n, s), f in zip(plan, fill):
        for d, ds in f:
            execute(d, ds, pool, None)
        second.append(execute(n, s, pool, None))
    for a, b, (n, s) in zip(first, second, plan):
        c.check(same(a, b), 'deterministic operations changed the results of a random one', op=n, seed=s, plan=plan, fill=fill)
    c.check(state() == end, 'the generator is left in another state')
    STATE.event('mixed sequences')


def processes(c):
    """ Bit for bit across processes with other hash seeds, other working directories. """
    rng = c.rng
    rand = ops.names(('rand',))
    plan = [(n, int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))) for n in sorted(set(rand)) for _ in range(2)]
    c.note(s=c.seed)
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(rng.randint(1, 1000))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ('import sys,pickle; sys.path.insert(0, %r)\n'
            'import numpy, random; numpy.random.seed(%d); random.seed(%d); s = numpy.random.get_state(), random.getstate()\n'
            'from vf import boot, ops\n'
            't = numpy.random.get_state(), random.getstate()\n'
            'same = s[0][0] == t[0][0] and (s[0][1] == t[0][1]).all() and s[0][2:] == t[0][2:] and s[1] == t[1]\n'
            'sys.stdout.buffer.write(b"IMPORT" + str(int(same)).encode())\n'
            'from vf.props import c28\n'
            'plan = pickle.loads(sys.stdin.buffer.read())\n'
            'sys.stdout.buffer.write(b"RESULT" + pickle.dumps([c28.execute(n, s, ops.Pool(), r) for n, s, r in plan], 4))\n'
            % (root, c.seed % 1000, c.seed % 1000))
    p = subprocess.run([sys.executable, '-c', code], input=pickle.dumps(plan, 4), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=600)
    c.check(p.returncode == 0 and b'RESULT' in p.stdout, 'the other process failed', err=p.stderr.decode()[-1000:])
    c.check(b'IMPORT1' in p.stdout, 'importing the library changes the global generators')
    other = pickle.loads(p.stdout.partition(b'RESULT')[2])
    for (n, s, r), o in zip(plan, other):
        mine = execute(n, s, ops.Pool(), r)
        c.check(same(mine, o), 'not repeatable across processes', op=n, seed=s, rs=r, here=mine, there=o)
    STATE.event('processes')


def chunks_of(x):
    x = np.asarray(x)
    if x.dtype.kind == 'c':
        x = np.stack((x.real, x.imag))
    return x.ravel()


def fresh_noise(c):
    """ Draws of one run are not repeated: noises, their two quadratures, fadings, over several propagations. """
    rng = c.rng
    siso = bool(c.idx % 2)
    cplx = bool(rng.randint(2))
    n = int(rng.randint(4, 40))
    if siso:
        ch = CH.SISOFlatChannel(1., (0j, 1) if cplx else (0, 1))
        other = CH.SISOFlatChannel(1., (0j, 1) if cplx else (0, 1))
    else:
        ch = CH.MIMOFlatChannel(int(rng.randint(1, 4)), int(rng.randint(1, 4)), 1.)
        other = CH.MIMOFlatChannel(ch.nb_tx, ch.nb_rx, 1.)
        for x in (ch, other):
            x.uncorr_rayleigh_fading(complex if cplx else float)
    c.note(siso=siso, cplx=cplx, n=n, s=c.seed)
    noises, gains = [], []
    for j in range(6):
        x = ch if rng.randint(3) else other
        msg = rng.randn(n)
        x.propagate(msg)
        noises.append(chunks_of(x.noises))
        gains.append(chunks_of(x.channel_gains))
        if rng.randint(3) == 0:
            noises.append(np.asarray(CH.awgn(np.zeros(n) + 1., 0.) - 1).ravel() if rng.randint(2) else
                          np.asarray(chunks_of(CH.awgn(np.ones(n, complex), 0.) - 1)))
    for what, parts in (('noises', noises), ('fadings', gains)):
        v = np.round(np.abs(np.concatenate(parts)), 12)
        v = v[v > 0]
        _, cnt = np.unique(v, return_counts=True)
        c.check(len(v) > 0 and not np.any(cnt > 1), 'a draw is repeated in the %s' % what, repeated=v.size - cnt.size,
                total=v.size)
        STATE.event(what + ' compared')


def many_draws(c):
    """ Draws of many short propagations: the samples do not come from a small set. """
    rng = c.rng
    kind = c.idx % 4
    cplx = bool(c.idx // 4 % 2)
    n = int(rng.randint(2, 6))
    total = 1500
    if kind < 2:
        ch = CH.SISOFlatChannel(1., (0j, 1) if cplx else (0, 1))
    else:
        ch = CH.MIMOFlatChannel(int(rng.randint(1, 3)), int(rng.randint(1, 3)), 1.)
        ch.uncorr_rayleigh_fading(complex if cplx else float)
    c.note(kind=kind, cplx=cplx, n=n, s=c.seed)
    x = np.ones(n * ch.nb_tx)
    noises, gains = [], []
    for j in range(total):
        if kind % 2 and j % 2:
            noises.append(chunks_of(CH.awgn(np.ones(n, complex if cplx else float), 0.) - 1))
            continue
        ch.propagate(x)
        noises.append(chunks_of(ch.noises))
        gains.append(chunks_of(ch.channel_gains))
    for what, parts in (('noises', noises), ('fadings', gains)):
        v = np.round(np.abs(np.concatenate(parts)), 13)
        v = v[v > 0]
        _, cnt = np.unique(v, return_counts=True)
        c.check(np.count_nonzero(cnt > 1) <= 1, 'draws are repeated in the %s' % what, repeated=v.size - cnt.size,
                total=v.size)
    bits = [np.asarray(CH.bsc(np.zeros(64, int), .5)).tobytes() for _ in range(total)]
    bits += [np.asarray(CH.bec(np.zeros(64, int), .5)).tobytes() for _ in range(total)]
    c.check(len(set(bits)) == len(bits), 'draws of binary channels are repeated', distinct=len(set(bits)), total=len(bits))
    STATE.event('many draws')


def messages(c):
    """ The messages and receptions of a simulation are all different. """
    rng = c.rng
    m = MO.QAMModem(4)
    ch = CH.SISOFlatChannel(None, (0j, 1) if rng.randint(2) else (1 + 0j, 0))
    sent, got = [], []

    def modulate(b):
        sent.append(np.array(b).tobytes())
        return m.modulate(b)

    def receive(y, h, k, nv):
        got.append(np.round(np.asarray(ch.noises) / ch.noise_std, 9))
        return m.demodulate(y, 'hard')
    model = LK.LinkModel(modulate, ch, receive, m.num_bits_symbol, m.constellation, m.Es)
    n = int(rng.randint(60, 100)) * 2
    full = bool(rng.randint(2))
    c.note(full=full, n=n, s=c.seed)
    snrs = rng.uniform(-6, -2, 3)
    for k in range(4):
        # the next SNR is simulated when there are enough errors only
        if full:
            model.link_performance_full_metrics(snrs, 4, 10 ** 9 if k % 2 else 1, n, stop_on_surpass_error=False)
        else:
            model.link_performance(snrs, 4 * n, 10 ** 9 if k % 2 else 15, n)
    c.check(len(sent) >= 9, 'too few messages', sent=len(sent))
    c.check(len(set(sent)) == len(sent), 'a message is sent twice', sent=len(sent), distinct=len(set(sent)))
    v = np.abs(np.concatenate([chunks_of(g) for g in got]))
    v = v[v > 1e-6]
    _, cnt = np.unique(v, return_counts=True)
    c.check(np.count_nonzero(cnt > 1) <= 1, 'noises are repeated during a simulation', total=len(v), distinct=len(cnt))
    STATE.event('messages compared', len(sent))


WORKLOADS = {'large': (large, 24, 1500), 'many draws': (many_draws, 16, 300), 'deterministic': (deterministic, 60, 8000), 'repeatable': (repeatable, 70, 6000),
             'sequence': (sequence, 50, 4000), 'processes': (processes, 8, 24), 'fresh noise': (fresh_noise, 200, 10000),
             'messages': (messages, 60, 3000)}
