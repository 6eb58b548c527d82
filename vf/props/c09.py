"""C09: LDPC belief propagation follows the message-passing rules, block by block."""
import os

import numpy as np
import scipy.sparse as sp

import commpy.channelcoding as CC
from .. import mon
from .c08 import design, matrix_of, scratch

RULE = ('Random sparse codes (check degrees of at least 1), the Hamming code and the shipped designs, both algorithms, '
        '0 to 20 iterations, 1 to 5 blocks; LLRs from noisy codewords, garbage, erasures, noiseless, huge, infinite '
        'and null values. The oracle is a dense flooding message passing.')
ASSUMPTIONS = ['The exact comparison of sum-product messages stops once a message exceeds 18, where the tanh rule '
               'saturates in double precision; the decisions, finiteness and correction claims remain checked.',
               'Checks involve at least one bit; a null output LLR can be decided either way.']
REQUIRE = {'judged ldpc_bp_decode': 200, 'exact SPA': 100, 'exact MSA': 100, 'blocks': 60, 'corrected': 40,
           'early stop': 50, 'check of degree one': 5, 'more than 20 iterations': 5}


def reference(h, llr, alg, iters):
    """ (output LLRs, largest message, iterations done, smallest |LLR| seen in a stopping decision) """
    m, n = h.shape
    lch = np.clip(np.asarray(llr, float), -500, 500)
    out = lch.copy()
    rows = [np.flatnonzero(r) for r in h]
    q = [lch[r] for r in rows]
    big, amb, it = 0., np.inf, 0
    sure = certain(h)
    for it in range(iters + 1):
        amb = min(amb, np.abs(out).min()) if it else amb
        if it and not np.all(np.isfinite(out)):
            break
        hard = out < 0
        if all(hard[r].sum() % 2 == 0 for r in rows) or it == iters:
            break
        r_msgs = []
        for i, r in enumerate(rows):
            v = q[i]
            d = len(r)
            free = ~sure[r]
            big = max(big, np.abs(v[free]).max() if free.any() else 0)
            res = np.empty(d)
            if d == 1:  # the bit is known to be 0
                r_msgs.append(np.array([500.]))
                continue
            for j in range(d):
                o = np.concatenate((v[:j], v[j + 1:]))
                if alg == 'SPA':
                    p = np.prod(np.tanh(o / 2))
                    res[j] = 500 * np.sign(p) if abs(p) >= 1 else min(500, max(-500, 2 * np.arctanh(p)))
                else:
                    res[j] = np.prod(np.sign(o)) * np.abs(o).min()
            r_msgs.append(res)
        tot = np.zeros(n)
        for r, v in zip(rows, r_msgs):
            tot[r] += v
        out = tot + lch
        q = [out[r] - v for r, v in zip(rows, r_msgs)]
        if alg == 'SPA' and sure.any() and (out - 500 * h[h.sum(1) == 1].sum(0))[sure].min() < -5:
            big = np.inf  # the message of a check of degree one is limited by the precision of the tanh rule
    return out, big, it, amb


def certain(h):
    """ bits known by a check of degree one """
    return h[h.sum(1) == 1].any(0) if (h.sum(1) == 1).any() else np.zeros(h.shape[1], bool)


def cols(x, n, blocks):
    return np.asarray(x).reshape(n, blocks)


def post(c, a, r, t):
    p = a['ldpc_code_params']
    h = matrix_of(p)
    n = h.shape[1]
    llr = np.asarray(a['llr_vec'], float)
    blocks = llr.size // n
    alg, iters = a['decoder_algorithm'], int(a['n_iters'])
    if blocks * n != llr.size or blocks == 0 or h.sum(1).min() < 1:
        return
    dec, out = np.asarray(r[0]), np.asarray(r[1])
    shape = (n,) if blocks == 1 else (n, blocks)
    if n > 1:
        c.check(dec.shape == shape and out.shape == shape, 'wrong shapes', got=(dec.shape, out.shape), expected=shape)
    dec, out = cols(dec, n, blocks), cols(out, n, blocks)
    c.check(np.all(np.isfinite(out)), 'output LLRs are not finite', llr=llr, alg=alg, iters=iters)
    clear = np.abs(out) > 0
    c.equal(dec[clear].astype(int), (out[clear] < 0).astype(int), 'hard decisions are not the signs of the LLRs')
    c.check(np.all((dec == 0) | (dec == 1)), 'decoded values are not bits')
    if h.size > 6000 and iters > 3:
        c.tag('large')
        return
    for b in range(blocks):
        x = llr[b * n:(b + 1) * n]
        want, big, it, amb = reference(h, x, alg, iters)
        if certain(h).any():
            c.tag('check of degree one')
        if it < iters:
            c.tag('early stop')
        if np.any(x == 0) and np.any(np.signbit(x[x == 0])):
            continue
        if alg == 'SPA' and big > 18:
            c.tag('saturated')
            continue
        if it and amb < 1e-6:
            c.tag('ambiguous')
            continue
        tol = (1e-5 if alg == 'SPA' else 1e-9) * (1 + np.abs(want) + (big if alg == 'MSA' else 0))
        bad = np.abs(out[:, b] - want) > tol
        sure = certain(h)
        if alg == 'SPA' and sure.any():
            # their messages are limited by the precision of the tanh rule
            bad &= ~sure
            if it:
                c.check(not dec[sure, b].any(), 'a bit known by a check of degree one is wrong', h=h, llr=x)
        if bad.any():
            i = int(np.argmax(bad))
            c.fail('output LLRs are not those of the message passing (%s)' % alg, block=b, bit=i, got=out[i, b],
                   expected=want[i], iterations=it, llr=x, h=h if h.size < 200 else h.shape)
        c.tag('exact ' + alg)


def setup():
    mon.attach('commpy.channelcoding.ldpc.ldpc_bp_decode', post)


def params(h, rng):
    """ parameters of a code, in one of the ways in which users can give them """
    how = rng.randint(3)
    m, n = h.shape
    f = os.path.join(scratch(), 'd')
    CC.write_ldpc_params(h, f)
    if how == 0:
        return CC.get_ldpc_code_params(f)
    if how == 1:
        return CC.get_ldpc_code_params(f, True)
    p = CC.get_ldpc_code_params(f)
    return {k: p[k] for k in ('n_vnodes', 'n_cnodes', 'max_cnode_deg', 'cnode_adj_list', 'cnode_deg_list')}


HAMMING = np.array([[1, 1, 0, 1, 1, 0, 0], [1, 0, 1, 1, 0, 1, 0], [0, 1, 1, 1, 0, 0, 1]])


def random_code(rng):
    ones = rng.randint(3) == 0
    while True:
        m = int(rng.choice([1, 2, 3, 4, 6, 10]))
        n = m + int(rng.choice([1, 2, 3, 6, 10]))
        h = (rng.rand(m, n) < min(1, rng.choice([2, 3, 4, 5]) / n)).astype(int)
        for j in range(n):
            if not h[:, j].any():
                h[rng.randint(m), j] = 1
        if h.sum(1).min() >= (1 if ones else 2):
            return h


def codewords(h):
    """ basis of the null space over GF(2) """
    h = h.copy() % 2
    m, n = h.shape
    piv, row = [], 0
    for col in range(n):
        k = [i for i in range(row, m) if h[i, col]]
        if not k:
            continue
        h[[row, k[0]]] = h[[k[0], row]]
        for i in range(m):
            if i != row and h[i, col]:
                h[i] ^= h[row]
        piv.append(col)
        row += 1
    free = [j for j in range(n) if j not in piv]
    res = []
    for f in free:
        w = np.zeros(n, int)
        w[f] = 1
        for i, pcol in enumerate(piv):
            w[pcol] = h[i, f]
        res.append(w)
    return np.array(res).reshape(-1, n)


def word(rng, basis, n):
    if len(basis) == 0:
        return np.zeros(n, int)
    return rng.randint(0, 2, len(basis)).dot(basis) % 2


def llrs(rng, w, kind):
    s = 1. - 2 * w
    n = len(w)
    if kind == 0:
        return s * rng.choice([.5, 2, 4]) + rng.randn(n) * rng.choice([.3, 1, 2])
    if kind == 1:
        return rng.randn(n) * rng.choice([.1, 1, 3])
    if kind == 2:
        x = s * 2. + rng.randn(n)
        x[rng.rand(n) < .3] = 0.
        return x
    if kind == 3:
        return rng.choice([-np.inf, -1e9, -600., -499, -36, -1, 0, 1e-12, 2, 40, 500, 1e300, np.inf], n)
    if kind == 4:
        return np.zeros(n)
    return s * rng.choice([1e-3, 1, 10, 499, 1e4, np.inf])


def decode(c):
    rng = c.rng
    h = HAMMING if rng.randint(5) == 0 else random_code(rng)
    p = params(h, rng)
    n = h.shape[1]
    basis = codewords(h)
    blocks = int(rng.choice([1, 1, 2, 3, 5, 9, 20]))
    kind = int(rng.randint(6))
    alg = ['SPA', 'MSA'][rng.randint(2)]
    iters = int(rng.choice([0, 1, 1, 2, 3, 5, 20]))
    x = np.concatenate([llrs(rng, word(rng, basis, n), kind) for _ in range(blocks)])
    c.note(shape=h.shape, blocks=blocks, kind=kind, alg=alg, iters=iters, s=c.seed)
    dec, out = CC.ldpc_bp_decode(x.copy(), p, alg, iters)
    if blocks > 1:
        c.tag('blocks')
        dec, out = cols(dec, n, blocks), cols(out, n, blocks)
        for b in rng.permutation(blocks)[:6]:
            with mon.quiet():
                d1, o1 = CC.ldpc_bp_decode(x[b * n:(b + 1) * n].copy(), p, alg, iters)
            c.close(np.asarray(o1).reshape(-1), out[:, b], 'a block is decoded differently when it is alone', block=b)
            c.equal(np.asarray(d1).reshape(-1), dec[:, b], 'a block is decoded differently when it is alone', block=b)


def clean(c):
    """ noiseless codewords """
    rng = c.rng
    h = random_code(rng)
    p = params(h, rng)
    n = h.shape[1]
    basis = codewords(h)
    blocks = int(rng.choice([1, 2, 4, 12, 33, 70]))
    w = np.array([word(rng, basis, n) for _ in range(blocks)])
    amp = rng.choice([1e-6, .5, 3, 100, 500, 1e5, np.inf])
    x = (1. - 2 * w).reshape(-1) * amp
    alg = ['SPA', 'MSA'][rng.randint(2)]
    iters = int(rng.choice([0, 1, 5]))
    c.note(shape=h.shape, blocks=blocks, amp=amp, alg=alg, iters=iters, s=c.idx)
    dec, out = CC.ldpc_bp_decode(x.copy(), p, alg, iters)
    c.equal(cols(dec, n, blocks), w.T, 'a noiseless codeword is modified')
    c.equal(cols(out, n, blocks), np.clip(x, -500, 500).reshape(blocks, n).T, 'the LLRs of a codeword are modified')


def peel(h, erased, rounds):
    """ positions solved by iterative erasure decoding in this number of rounds """
    e = set(erased)
    for _ in range(rounds):
        new = set()
        for r in h:
            k = [j for j in np.flatnonzero(r) if j in e]
            if len(k) == 1:
                new.add(k[0])
        if not new:
            break
        e -= new
    return e


def erasures(c):
    rng = c.rng
    if c.idx % 5 == 4:
        name = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt', 'wimax/960.720.a.txt'][rng.randint(3)]
        p = design(name)
        h = matrix_of(p)
        w = np.zeros(h.shape[1], int)
        if name.startswith('wimax'):
            p = design(name, True)
            w = np.asarray(CC.triang_ldpc_systematic_encode(rng.randint(0, 2, 720), p)).astype(int)
        alg = 'SPA' if h.shape[1] > 100 else ['SPA', 'MSA'][rng.randint(2)]
        frac = rng.choice([.02, .05, .1])
    else:
        h = random_code(rng)
        p = params(h, rng)
        w = word(rng, codewords(h), h.shape[1])
        alg = ['SPA', 'MSA'][rng.randint(2)]
        frac = rng.choice([.1, .3])
    n = len(w)
    er = np.flatnonzero(rng.rand(n) < frac)
    iters = 40
    left = peel(h, er, iters)
    amp = float(rng.choice([.5, 2, 8, 100]))
    x = (1. - 2 * w) * amp
    x[er] = 0
    c.note(n=n, erased=len(er), left=len(left), alg=alg, amp=amp, s=c.idx)
    dec, out = CC.ldpc_bp_decode(x.copy(), p, alg, iters)
    keep = np.array([j not in left for j in range(n)])
    c.tag('corrected')
    if not left:
        c.equal(np.asarray(dec).astype(int), w, 'erasures which the recursion resolves are not corrected', erased=er)
    else:
        # messages computed from erased positions only stay null: the known positions never change
        known = np.array([j not in set(er) for j in range(n)])
        c.equal(np.asarray(dec).astype(int)[known], w[known], 'a received bit is flipped by erasures', erased=er)


def single(c):
    """ single errors of the Hamming code and of the shipped codes """
    rng = c.rng
    if c.idx % 3:
        h = HAMMING
        p = params(h, rng)
        w = word(rng, codewords(h), 7)
        x = (1. - 2 * w) * 4.
        x[rng.randint(7)] *= -.1
        alg = ['SPA', 'MSA'][rng.randint(2)]
    else:
        name = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt'][rng.randint(2)]
        p = design(name)
        w = np.zeros(96, int)
        x = 4. + np.zeros(96)
        x[rng.permutation(96)[:2]] *= -1
        alg = ['SPA', 'MSA'][rng.randint(2)]
    c.note(i=c.idx % 3, s=c.idx, alg=alg)
    dec, out = CC.ldpc_bp_decode(x.copy(), p, alg, 20)
    c.tag('corrected')
    c.equal(np.asarray(dec).astype(int), w, 'correctable errors are not corrected', llr=x)


def shipped(c):
    """ noisy words of the shipped designs, few iterations """
    rng = c.rng
    name = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt'][c.idx % 2]
    p = design(name)
    x = 2 / .8 * (1 + np.sqrt(.8) * rng.randn(96 * int(rng.choice([1, 2]))))
    alg = ['SPA', 'MSA'][rng.randint(2)]
    c.note(design=name, s=c.idx, alg=alg)
    CC.ldpc_bp_decode(x, p, alg, int(rng.choice([1, 2, 3])))


def slow(c):
    """ Information which travels along a chain of checks: one step per iteration. """
    rng = c.rng
    n = int(rng.choice([30, 45, 70, 110]))
    perm = rng.permutation(n)
    h = np.zeros((n - 1, n), int)
    for i, r in enumerate(rng.permutation(n - 1)):
        h[r, perm[i:i + 2]] = 1
    p = params(h, rng)
    alg = ['SPA', 'MSA'][c.idx % 2]
    iters = [5, 33, 64, 21, 100, 150, 300][c.idx // 2 % 7]
    amp = float(rng.choice([1, 5, 8]))
    ends = 1 + (rng.randint(3) == 0)
    c.note(n=n, alg=alg, iters=iters, s=c.seed)
    w = int(rng.randint(4) > 0)
    x = np.zeros(n)
    x[perm[0]] = (1 - 2 * w) * amp
    if ends == 2:
        x[perm[-1]] = x[perm[0]]
    dec, out = CC.ldpc_bp_decode(x.copy(), p, alg, iters)
    dec, out = np.asarray(dec)[perm], np.asarray(out)[perm]
    reached = np.zeros(n, bool)
    reached[:iters + 1] = True
    if ends == 2:
        reached[-1 - iters:] = True
    if w:
        c.equal(dec[reached].astype(int), np.ones(reached.sum(), int), 'the iterations asked for were not all done')
        c.check(np.all(out[reached] < 0), 'the iterations asked for were not all done', out=out)
        c.equal(dec[~reached].astype(int), np.zeros((~reached).sum(), int), 'information without a path')
        if min(iters, n - 1) > 20 and ends == 1:
            c.tag('more than 20 iterations')
    else:
        c.equal(dec.astype(int), np.zeros(n, int), 'a codeword is modified')


WORKLOADS = {'slow': (slow, 56, 500), 'decode': (decode, 260, 5000), 'clean': (clean, 60, 800), 'erasures': (erasures, 75, 1200),
             'single': (single, 45, 600), 'shipped': (shipped, 12, 200)}
