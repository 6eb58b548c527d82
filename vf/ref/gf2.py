"""Independent arithmetic over GF(2)[x] (polynomials are integers) and GF(2^m)."""


def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def pmod(a, b):
    d = b.bit_length()
    while a.bit_length() >= d:
        a ^= b << (a.bit_length() - d)
    return a


def factorint(n):
    f, d = [], 2
    while d * d <= n:
        if n % d == 0:
            f.append(d)
            while n % d == 0:
                n //= d
        d += 1
    if n > 1:
        f.append(n)
    return f


def ppow(a, e, m):
    r = 1
    a = pmod(a, m)
    while e:
        if e & 1:
            r = pmod(pmul(r, a), m)
        a = pmod(pmul(a, a), m)
        e >>= 1
    return pmod(r, m)


def is_primitive(p, m):
    """ p has degree m and x has order 2^m - 1 modulo p """
    if p.bit_length() != m + 1 or not p & 1:
        return False
    n = 2 ** m - 1
    return ppow(2, n, p) == 1 and all(ppow(2, n // q, p) != 1 for q in factorint(n))


def is_irreducible(p):
    n = p.bit_length() - 1
    if n <= 0:
        return False
    x = 2
    for i in range(1, n // 2 + 1):
        x = pmod(pmul(x, x), p)
        if pgcd(x ^ 2, p) != 1:
            return False
    return True


def pgcd(a, b):
    while b:
        a, b = b, pmod(a, b)
    return a


class Field:
    _all = {}

    def __new__(cls, m, prim):
        if (m, prim) not in cls._all:
            f = object.__new__(cls)
            f.m, f.prim, f.n = m, prim, 2 ** m - 1
            f.exp, f.log = [0] * f.n, {}
            x = 1
            for i in range(f.n):
                f.exp[i] = x
                f.log[x] = i
                x <<= 1
                if x >> m & 1:
                    x ^= prim
            cls._all[m, prim] = f
        return cls._all[m, prim]

    def mul(self, a, b):
        return self.exp[(self.log[a] + self.log[b]) % self.n] if a and b else 0

    def conj(self, a):
        """ conjugates of an element """
        res, x = [], a
        while x not in res:
            res.append(x)
            x = self.mul(x, x)
        return frozenset(res)

    def minpoly(self, a):
        p = [1]
        for r in self.conj(a):
            new = [0] * (len(p) + 1)
            for i, v in enumerate(p):
                new[i + 1] ^= v
                new[i] ^= self.mul(v, r)
            p = new
        assert all(v in (0, 1) for v in p)
        return sum(v << i for i, v in enumerate(p))

    def eval(self, p, a):
        r = 0
        for i in range(p.bit_length() - 1, -1, -1):
            r = self.mul(r, a) ^ (p >> i & 1)
        return r


def find_primitive(m):
    p = (1 << m) | 1
    while not is_primitive(p, m):
        p += 2
    return p


def factors_xn1(n):
    """ irreducible factors of x^n + 1, n odd """
    m = 1
    while (2 ** m - 1) % n:
        m += 1
    f = Field(m, find_primitive(m))
    step = f.n // n
    seen, res = set(), []
    for j in range(n):
        if j not in seen:
            k = j
            while k not in seen:
                seen.add(k)
                k = 2 * k % n
            res.append(f.minpoly(f.exp[j * step]))
    return res


def divisors_xn1(n, degree):
    """ all the divisors of x^n + 1 of this degree """
    table = {0: {1}}
    for p in factors_xn1(n):
        d = p.bit_length() - 1
        new = {k: set(v) for k, v in table.items()}
        for k, v in table.items():
            if k + d <= degree:
                new.setdefault(k + d, set()).update(pmul(p, q) for q in v)
        table = new
    return sorted(table.get(degree, set()))
