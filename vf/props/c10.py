"""C10: Galois field arithmetic is that of GF(2^m)."""
import re

import numpy as np

import commpy.channelcoding as CC
from commpy.channelcoding import gfields
from .. import mon
from ..ref.gf2 import Field, is_irreducible, is_primitive, pmod, pmul

RULE = ('All fields from GF(2) to GF(2^16), element lists of all sizes with duplicates and zeros, exhaustive tables of '
        'the small fields, exponents beyond the field size, binary polynomials up to degree 300, and the operations '
        'made by the enumeration of cyclic codes.')
ASSUMPTIONS = ['Element orders are asked for nonzero elements; divisors are nonzero.']
REQUIRE = {'judged __add__': 50, 'judged __mul__': 50, 'judged power_to_tuple': 50, 'judged tuple_to_power': 50,
           'judged order': 30, 'judged cosets': 20, 'judged minpolys': 10, 'judged polydivide': 500, 'primitive': 16}


def field(c, g):
    m, p = int(g.m), int(g.prim_poly)
    if (m, p) not in OK:
        c.check(is_primitive(p, m), 'the advertised polynomial is not primitive', m=m, polynomial=p)
        OK.add((m, p))
    return Field(m, p)


OK = set()


def elems(g):
    return [int(x) for x in g.elements]


def same(c, r, g, want, what, **kw):
    c.check(int(r.m) == int(g.m) and int(r.prim_poly) == int(g.prim_poly), 'the result is in another field')
    c.equal(np.array(elems(r)), np.array(want, int), what, m=g.m, **kw)


def inside(f, e):
    return all(0 <= x <= f.n for x in e)


def post_add(c, a, r, t):
    g = a['self']
    f = field(c, g)
    x, y = elems(g), elems(a['x'])
    same(c, r, g, [p ^ q for p, q in zip(x, y)], 'wrong sum', x=x, y=y)


def post_mul(c, a, r, t):
    g = a['self']
    f = field(c, g)
    x, y = elems(g), elems(a['x'])
    if inside(f, x) and inside(f, y):
        same(c, r, g, [f.mul(p, q) for p, q in zip(x, y)], 'wrong product', x=x, y=y)


def post_p2t(c, a, r, t):
    g = a['self']
    f = field(c, g)
    e = elems(g)
    same(c, r, g, [f.exp[i % f.n] for i in e], 'wrong power to tuple conversion', powers=e)


def post_t2p(c, a, r, t):
    g = a['self']
    f = field(c, g)
    e = elems(g)
    if not inside(f, e):
        return
    got = elems(r)
    nz = [i for i, v in enumerate(e) if v]
    c.check(len(got) == len(e), 'wrong number of elements')
    c.equal(np.array([got[i] for i in nz], int), np.array([f.log[e[i]] for i in nz], int),
            'wrong tuple to power conversion', m=g.m, elements=e)


def post_order(c, a, r, t):
    g = a['self']
    f = field(c, g)
    e = elems(g)
    if not all(e) or not inside(f, e):
        return
    want = []
    for v in e:
        lg = f.log[v]
        n, d = f.n, lg
        while d:
            n, d = d, n % d
        want.append(f.n // n)
    c.equal(np.asarray(r).astype(int), np.array(want), 'wrong orders', m=g.m, elements=e)
    for v, o in list(zip(e, want))[:20]:  # the oracle itself, by the definition
        assert f.exp[f.log[v] * o % f.n] == 1


def post_cosets(c, a, r, t):
    g = a['self']
    f = field(c, g)
    e = elems(g)
    if not inside(f, e):
        return
    groups = {}
    for v in e:
        groups.setdefault(f.conj(v), []).append(v)
    got = [elems(x) for x in r]
    for x in r:
        c.check(int(x.m) == f.m, 'coset in another field')
    if len(set(e)) == len(e):
        c.check(sorted(map(sorted, got)) == sorted(sorted(v) for v in groups.values()),
                'wrong cyclotomic cosets', m=g.m, elements=e, got=got)
    else:
        c.check(sorted(map(lambda v: sorted(set(v)), got)) == sorted(sorted(set(v)) for v in groups.values()),
                'wrong cyclotomic cosets', m=g.m, elements=e, got=got)


def post_minpolys(c, a, r, t):
    g = a['self']
    f = field(c, g)
    e = elems(g)
    if not inside(f, e):
        return
    got = [int(x) for x in r]
    c.check(len(got) == len(e), 'wrong number of minimal polynomials', got=len(got), n=len(e))
    for v, p in zip(e, got):
        c.check(p > 0 and f.eval(p, v) == 0, 'minimal polynomial does not vanish at its element', element=v, poly=p)
        c.check(is_irreducible(p), 'minimal polynomial is not irreducible', element=v, poly=p)
        c.check(p == f.minpoly(v), 'wrong minimal polynomial', element=v, poly=p)


def post_polydivide(c, a, r, t):
    x, y = int(a['x']), int(a['y'])
    c.check(int(r) == pmod(x, y), 'wrong remainder', dividend=x, divisor=y, got=r)


def post_polymultiply(c, a, r, t):
    x, y, m, p = (int(a[k]) for k in ('x', 'y', 'm', 'prim_poly'))
    c.check(int(r) == pmod(pmul(x, y), p), 'wrong product', x=x, y=y, modulus=p, got=r)


def post_string(c, a, r, t):
    x = int(a['x'])
    got = sorted(int(v) for v in re.findall(r'x\^(\d+)', r))
    c.check(got == [i for i in range(x.bit_length()) if x >> i & 1], 'wrong text form', polynomial=x, got=r)


def setup():
    p = 'commpy.channelcoding.gfields.'
    for n, f in (('__add__', post_add), ('__mul__', post_mul), ('power_to_tuple', post_p2t),
                 ('tuple_to_power', post_t2p), ('order', post_order), ('cosets', post_cosets),
                 ('minpolys', post_minpolys)):
        mon.attach(p + 'GF.' + n, f)
    mon.attach(p + 'polydivide', post_polydivide)
    mon.attach(p + 'polymultiply', post_polymultiply)
    mon.attach(p + 'poly_to_string', post_string)


def some(rng, m, n, low=0):
    t = [np.int64, np.int32, float][rng.randint(3)]
    return rng.randint(low, 2 ** m, n).astype(t)


def primitive(c):
    m = c.idx % 16 + 1
    g = CC.GF(np.array([0, 1]), m)
    c.note(m=m)
    field(c, g)
    c.tag('primitive')
    a = CC.GF(1, m)
    c.check(elems(a) == [1] and int(a.prim_poly) == int(g.prim_poly), 'element given as an integer')


def arith(c):
    rng = c.rng
    m = int(rng.randint(1, 17))
    n = int(rng.choice([1, 2, 3, 8, 30]))
    c.note(m=m, n=n, s=c.seed)
    a, b, d = (CC.GF(some(rng, m, n), m) for _ in range(3))
    x = elems(a)
    s, p = a + b, a * b
    c.check(elems(a) == x, 'operand modified')
    c.equal(np.array(elems((a + b) * d)), np.array(elems(a * d + b * d)), 'not distributive', m=m)
    c.equal(np.array(elems(p)), np.array(elems(b * a)), 'not commutative', m=m)
    c.equal(np.array(elems((a * b) * d)), np.array(elems(a * (b * d))), 'not associative', m=m)
    c.check(not any(elems(a + a)), 'an element is not its own opposite')
    one = CC.GF(np.ones(n, int), m)
    c.equal(np.array(elems(a * one)), np.array(elems(a)), 'one is not neutral')
    if n > 1:
        e = CC.GF(some(rng, m, n - 1), m)
        c.raises(ValueError, lambda: a + e, 'sum of lists of different lengths')
        c.raises(ValueError, lambda: a * e, 'product of lists of different lengths')


def conversions(c):
    rng = c.rng
    m = int(rng.randint(1, 17))
    n = int(rng.choice([1, 3, 10])) if m > 10 else int(rng.choice([1, 5, 40]))
    c.note(m=m, n=n, s=c.seed)
    t = CC.GF(some(rng, m, n, 1), m)
    p = t.tuple_to_power()
    c.check(all(0 <= x < max(2 ** m - 1, 1) for x in elems(p)), 'power out of range')
    if m <= 11:
        c.equal(np.array(elems(p.power_to_tuple())), np.array(elems(t)), 'conversions are not inverse', m=m)
    e = CC.GF(rng.randint(0, min(2 ** m - 1, 1500) + 1, n), m)
    q = e.power_to_tuple()
    big = CC.GF(rng.randint(0, 2000, 4), m)
    big.power_to_tuple()
    t.order()
    if m <= 11 and m > 1:
        f = CC.GF(np.array([x % (2 ** m - 1) for x in elems(e)]), m)
        c.equal(np.array(elems(f.power_to_tuple().tuple_to_power())), np.array(elems(f)), 'conversions not inverse')


def tables(c):
    """ whole small fields """
    m = c.idx % 6 + 1
    c.note(m=m, i=c.idx // 6)
    full = np.arange(2 ** m)
    g = CC.GF(full, m)
    for x in range(2 ** m):
        xs = CC.GF(np.full(2 ** m, x), m)
        xs * g
        xs + g
    g.tuple_to_power()
    CC.GF(np.arange(2 ** (m + 1)), m).power_to_tuple()
    CC.GF(full[1:], m).order()
    cs = g.cosets()
    c.check(sorted(sum((elems(x) for x in cs), [])) == list(range(2 ** m)), 'cosets do not partition the field')
    g.minpolys()


def subsets(c):
    """ cosets and minimal polynomials of parts of fields """
    rng = c.rng
    m = int(rng.randint(1, 8))
    n = int(rng.randint(1, min(2 ** m, 40) + 1))
    e = rng.permutation(2 ** m)[:n]
    c.note(m=m, e=e.tolist()[:8], n=n, s=c.seed)
    g = CC.GF(e, m)
    g.cosets()
    if rng.randint(4) == 0:
        CC.GF(rng.choice(e, 3), m).minpolys()


def medium(c):
    m = [8, 9][c.idx % 2]
    c.note(m=m, s=c.idx)
    g = CC.GF(c.rng.permutation(2 ** m)[:30], m)
    g.minpolys()
    CC.GF(c.rng.permutation(2 ** 10)[:200], 10).cosets()


def polys(c):
    rng = c.rng
    c.note(s=c.seed)

    def poly():
        d = int(rng.choice([0, 1, 2, 3, 8, 16, 31, 40, 62, 63, 64, 65, 100, 300]))
        v = 1 << d
        for i in range(d):
            v |= int(rng.randint(2)) << i
        return v
    for _ in range(8):
        x, y = poly() if rng.randint(8) else 0, poly()
        gfields.polydivide(x, y)
        gfields.poly_to_string(x)
        x, y = int(rng.randint(0, 1 << 16)), int(rng.randint(1, 1 << 10))
        gfields.polydivide(x, y)
        m = int(rng.randint(1, 17))
        p = int(CC.GF(1, m).prim_poly)
        gfields.polymultiply(int(rng.randint(0, 1 << m)), int(rng.randint(0, 1 << m)), m, p)


def cyclic(c):
    n, k = [(7, 4), (15, 7), (9, 3), (21, 9), (5, 1)][c.idx % 5]
    c.note(n=n, k=k)
    CC.cyclic_code_genpoly(n, k)


WORKLOADS = {'primitive': (primitive, 16, 16), 'arith': (arith, 200, 3000), 'conversions': (conversions, 150, 2000),
             'tables': (tables, 6, 6), 'subsets': (subsets, 100, 2000), 'medium': (medium, 4, 40),
             'polys': (polys, 200, 3000), 'cyclic': (cyclic, 5, 5)}
