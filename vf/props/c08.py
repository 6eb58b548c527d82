"""C08: LDPC design files round-trip and systematic encoding gives codewords."""
import os
import tempfile

import numpy as np
import scipy.sparse as sp

import commpy.channelcoding as CC
from commpy.channelcoding import ldpc
from .. import mon
from ..boot import REPO

RULE = ('Random binary matrices (regular and irregular, 1 to 40 rows, square, tall and wide), all the shipped designs, '
        'lower-triangular codes of all densities, the WiMax designs, messages of all lengths with and without padding, '
        'repeated reads, writes on existing files and encodings with the same parameters.')
ASSUMPTIONS = ['Files are written in a scratch directory which the check creates and removes.']
REQUIRE = {'judged get_ldpc_code_params': 100, 'judged write_ldpc_params': 100,
           'judged triang_ldpc_systematic_encode': 150, 'several blocks': 30, 'padded': 30, 'isolated nodes': 8}

DESIGNS = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt', 'wimax/1440.720.txt', 'wimax/960.720.a.txt']


def dense(m):
    return np.asarray(m.toarray() if sp.issparse(m) else m)


def parse(path):
    """ independent reader: (matrix by variable nodes, matrix by check nodes, header) """
    tok = [[int(x) for x in ln.split()] for ln in open(path)]
    n, m = tok[0]
    byv, byc = np.zeros((m, n), int), np.zeros((m, n), int)
    for v in range(n):
        for cn in tok[4 + v]:
            byv[cn - 1, v] += 1
    for cn in range(m):
        for v in tok[4 + n + cn]:
            byc[cn, v - 1] += 1
    return byv, byc, tok[1], tok[2], tok[3]


def describes(c, p, h):
    """ the parameters describe exactly the matrix h """
    m, n = h.shape
    vd, cd = h.sum(0), h.sum(1)
    c.check(int(p['n_vnodes']) == n and int(p['n_cnodes']) == m, 'wrong numbers of nodes', got=(p['n_vnodes'],
                                                                                                p['n_cnodes']))
    c.check(int(p['max_vnode_deg']) == vd.max() and int(p['max_cnode_deg']) == cd.max(), 'wrong maximal degrees')
    c.equal(np.asarray(p['vnode_deg_list']), vd, 'wrong degrees of the variable nodes')
    c.equal(np.asarray(p['cnode_deg_list']), cd, 'wrong degrees of the check nodes')
    va = np.asarray(p['vnode_adj_list']).reshape(n, -1)
    ca = np.asarray(p['cnode_adj_list']).reshape(m, -1)
    c.check(va.shape[1] == vd.max() and ca.shape[1] == cd.max(), 'wrong sizes of the adjacency lists')
    for v in range(n):
        got = [int(x) for x in va[v, :vd[v]]]
        c.check(sorted(got) == list(np.flatnonzero(h[:, v])), 'wrong neighbours of a variable node', node=v, got=got)
    for k in range(m):
        got = [int(x) for x in ca[k, :cd[k]]]
        c.check(sorted(got) == list(np.flatnonzero(h[k])), 'wrong neighbours of a check node', node=k, got=got)
    vc = np.asarray(p['vnode_cnode_map']).reshape(n, -1)
    cv = np.asarray(p['cnode_vnode_map']).reshape(m, -1)
    for v in range(n):
        for i in range(vd[v]):
            k = va[v, i]
            c.check(0 <= vc[v, i] < cd[k] and ca[k, vc[v, i]] == v, 'wrong map from variable to check nodes', node=v)
    for k in range(m):
        for i in range(cd[k]):
            v = ca[k, i]
            c.check(0 <= cv[k, i] < vd[v] and va[v, cv[k, i]] == k, 'wrong map from check to variable nodes', node=k)
    if p.get('parity_check_matrix') is not None:
        c.equal(dense(p['parity_check_matrix']).astype(int), h, 'wrong parity check matrix')
        c.tag('matrix computed')


def post_read(c, a, r, t):
    byv, byc, mx, vd, cd = parse(a['ldpc_design_filename'])
    if not np.array_equal(byv, byc):
        c.tag('inconsistent file')
        return
    if a['compute_matrix']:
        c.check(r.get('parity_check_matrix') is not None, 'the parity check matrix is missing')
    describes(c, r, byc)


def pre_write(c, a):
    path = a['file_path']
    return open(path).read() if os.path.exists(path) else None


def post_write(c, a, r, before):
    path = a['file_path']
    if before is not None:
        c.check(open(path).read() == before, 'an existing file has been overwritten')
        c.fail('writing on an existing file is accepted')
    h = dense(a['parity_check_matrix']).astype(int)
    byv, byc, mx, vd, cd = parse(path)
    c.equal(byv, h, 'the variable node lines do not describe the matrix')
    c.equal(byc, h, 'the check node lines do not describe the matrix')
    c.check(mx == [h.sum(0).max(), h.sum(1).max()], 'wrong maximal degrees', got=mx)
    c.equal(np.array(vd), h.sum(0), 'wrong variable degrees')
    c.equal(np.array(cd), h.sum(1), 'wrong check degrees')


def exc_write(c, a, e, before):
    if before is not None:
        c.check(open(a['file_path']).read() == before, 'an existing file has been overwritten')


def matrix_of(p):
    """ parity check matrix from the adjacency lists when they are there """
    if p.get('cnode_adj_list') is not None:
        m, n = int(p['n_cnodes']), int(p['n_vnodes'])
        h = np.zeros((m, n), int)
        ca = np.asarray(p['cnode_adj_list']).reshape(m, -1)
        for k in range(m):
            for v in ca[k, :p['cnode_deg_list'][k]]:
                h[k, v] = 1
        return h
    return dense(p['parity_check_matrix']).astype(int) % 2


def post_encode(c, a, r, t):
    h = matrix_of(a['ldpc_code_params'])
    m, n = h.shape
    k = n - m
    msg = [int(b) for b in a['message_bits']]
    if not msg:
        return
    if len(msg) % k:
        c.check(a['pad'], 'an incomplete message is accepted without padding', length=len(msg), k=k)
        msg += [0] * (k - len(msg) % k)
        c.tag('padded')
    blocks = len(msg) // k
    r = np.asarray(r)
    c.check(r.shape == ((n,) if blocks == 1 else (n, blocks)), 'wrong shape', got=r.shape, n=n, blocks=blocks)
    if blocks > 1:
        c.tag('several blocks')
    r = r.reshape(n, blocks)
    c.check(np.all((r == 0) | (r == 1)), 'codeword is not made of bits', result=r)
    c.equal(r[:k].astype(int), np.array(msg).reshape(blocks, k).T, 'codeword does not start with the message')
    s = h.dot(r.astype(int)) % 2
    if s.any():
        c.fail('parity checks are not satisfied', unsatisfied=int(s.sum()), shape=h.shape, blocks=blocks)


def setup():
    p = 'commpy.channelcoding.ldpc.'
    mon.attach(p + 'get_ldpc_code_params', post_read)
    mon.attach(p + 'write_ldpc_params', post_write, pre_write, exc_write)
    mon.attach(p + 'triang_ldpc_systematic_encode', post_encode)


def scratch():
    return tempfile.mkdtemp(prefix='ldpc', dir=os.environ.get('VF_TMP'))


def random_matrix(rng):
    m, n = int(rng.choice([1, 2, 3, 5, 8, 13, 25, 40])), int(rng.choice([1, 2, 3, 4, 7, 12, 30, 60]))
    h = (rng.rand(m, n) < rng.choice([.05, .2, .5, .9, 1])).astype(int)
    if rng.randint(4) == 0:  # nodes without neighbours
        h[rng.randint(m), rng.randint(n)] = 1
        return h
    for i in range(m):
        if not h[i].any():
            h[i, rng.randint(n)] = 1
    for j in range(n):
        if not h[:, j].any():
            h[rng.randint(m), j] = 1
    return h


def files(c):
    rng = c.rng
    d = scratch()
    h = random_matrix(rng)
    t = [int, np.int8, np.int32, np.uint8][rng.randint(4)]
    c.note(shape=h.shape, weight=h.sum(), t=t.__name__, s=c.idx)
    if not (h.any(0).all() and h.any(1).all()):
        c.tag('isolated nodes')
    f = os.path.join(d, 'design')
    CC.write_ldpc_params(h.astype(t), f)
    p = CC.get_ldpc_code_params(f)
    describes(c, p, h)
    if rng.randint(2):
        describes(c, CC.get_ldpc_code_params(f, compute_matrix=True), h)
    c.raises(FileExistsError, lambda: CC.write_ldpc_params(random_matrix(rng), f), 'an existing file is overwritten')
    p2 = CC.get_ldpc_code_params(f)
    describes(c, p2, h)
    # a second generation file
    f2 = os.path.join(d, 'copy')
    CC.write_ldpc_params(matrix_of(p2), f2)
    c.check(open(f).read() == open(f2).read(), 'the copy of a design file differs')
    ldpc.build_matrix(p)
    c.equal(dense(p['parity_check_matrix']).astype(int), h, 'wrong parity check matrix')


_cache = {}


def design(name, compute=False):
    with mon.quiet():
        if (name, compute) not in _cache:
            _cache[name, compute] = CC.get_ldpc_code_params(
                os.path.join(REPO, 'commpy/channelcoding/designs/ldpc', name), compute)
        return dict(_cache[name, compute])


def shipped(c):
    name = DESIGNS[c.idx % 4]
    f = os.path.join(REPO, 'commpy/channelcoding/designs/ldpc', name)
    c.note(design=name)
    byv, byc, mx, vd, cd = parse(f)
    c.equal(byv, byc, 'the two halves of a shipped design differ')
    p = CC.get_ldpc_code_params(f, name.startswith('wimax'))
    d = os.path.join(scratch(), 'copy')
    CC.write_ldpc_params(matrix_of(p), d)
    q = CC.get_ldpc_code_params(d)
    describes(c, q, byc)


def lower(rng):
    """ [A | T] with T lower triangular with a unit diagonal """
    m = int(rng.choice([1, 2, 3, 4, 6, 10, 20]))
    k = int(rng.choice([1, 2, 3, 5, 10, 30]))
    dens = rng.choice([0, .1, .3, .5, 1])
    if m > 10:
        dens = min(dens, .3)
    t = np.tril((rng.rand(m, m) < dens).astype(int), -1) + np.eye(m, dtype=int)
    if rng.randint(3) == 0:  # dual diagonal (accumulator)
        t = np.eye(m, dtype=int) + np.eye(m, k=-1, dtype=int)
    a = (rng.rand(m, k) < rng.choice([.1, .3, .7])).astype(int)
    for j in range(k):
        if not a[:, j].any():
            a[rng.randint(m), j] = 1
    return np.hstack((a, t))


def message(rng, k):
    n = int(rng.choice([1, k, k, 2 * k, 3 * k, k + 1, 2 * k - 1 if k > 1 else 2, int(rng.randint(1, 5 * k + 1)),
                        int(rng.randint(5 * k, 20 * k + 1))]))
    return rng.randint(0, 2, n).astype([int, np.int8, np.uint8, bool][rng.randint(4)])


def encode(c):
    rng = c.rng
    h = lower(rng)
    m, n = h.shape
    k = n - m
    f = os.path.join(scratch(), 'design')
    how = rng.randint(4)
    c.note(shape=h.shape, weight=h.sum(), how=how, s=c.idx)
    if how == 0:
        # user-given matrices
        t = h[:, k:]
        inv = np.rint(np.linalg.inv(t)).astype(int) % 2
        g = inv.dot(h[:, :k]) % 2
        p = {'parity_check_matrix': sp.csc_matrix(h), 'generator_matrix': g if rng.randint(2) else sp.csr_matrix(g)}
    else:
        with mon.quiet():
            CC.write_ldpc_params(h, f)
        p = CC.get_ldpc_code_params(f, how == 1)
    for _ in range(3):
        msg = message(rng, k)
        if rng.randint(3) == 0 and len(msg) % k:
            c.raises(ValueError, lambda: CC.triang_ldpc_systematic_encode(msg, p, False),
                     'an incomplete message is accepted without padding')
        CC.triang_ldpc_systematic_encode(msg, p, True if len(msg) % k else bool(rng.randint(2)))


def wimax(c):
    name = DESIGNS[2 + c.idx % 2]
    p = design(name)
    c.note(design=name, s=c.idx)
    rng = c.rng
    if c.idx % 4 < 2 or True:
        with mon.quiet():
            q = design(name, True)
        p = q
    k = 720
    for _ in range(4):
        CC.triang_ldpc_systematic_encode(rng.randint(0, 2, int(rng.choice([1, 300, k, k + 1, 2 * k, 2000, 6000]))), p)
    msg = np.zeros(k, int)
    msg[rng.randint(k)] = 1
    CC.triang_ldpc_systematic_encode(msg, p, False)
    c.raises(ValueError, lambda: CC.triang_ldpc_systematic_encode(msg[1:], p, False), 'incomplete message accepted')


WORKLOADS = {'files': (files, 160, 3000), 'shipped': (shipped, 4, 4), 'encode': (encode, 240, 5000),
             'wimax': (wimax, 10, 120)}
