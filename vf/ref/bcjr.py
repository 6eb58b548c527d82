"""A posteriori log-likelihood ratios of rate 1/2 trellis codes: log-domain recursion and brute force."""
import math

from .conv import TableCode

NINF = float('-inf')


def lse(a, b):
    if a < b:
        a, b = b, a
    if b == NINF:
        return a
    return a + math.log1p(math.exp(b - a))


def bcjr(trellis, y0, y1, nv, lint):
    """ exact LLRs, free final state; also returns the size of the largest metric (for tolerances) """
    code = TableCode(trellis)
    n = len(y0)
    S = code.states
    big = 0.
    gam = []
    for t in range(n):
        g = {}
        for a in (0, 1):
            for b in (0, 1):
                v = -((y0[t] - (2 * a - 1)) ** 2 + (y1[t] - (2 * b - 1)) ** 2) / (2 * nv)
                g[a, b] = v
                big = max(big, -v)
        gam.append(g)
    pri = [(-lse(0., x), -lse(0., -x)) for x in lint]
    big = max([big] + [abs(x) for x in lint])
    beta = [None] * (n + 1)
    beta[n] = [0.] * S
    for t in range(n - 1, -1, -1):
        g, p, nb = gam[t], pri[t], beta[t + 1]
        cur = []
        for s in range(S):
            v = NINF
            for u in (0, 1):
                o = code.obits[s][u]
                v = lse(v, nb[code.nst[s][u]] + g[o[0], o[1]] + p[u])
            cur.append(v)
        m = max(cur)
        beta[t] = [v - m for v in cur]
    alpha = [NINF] * S
    alpha[0] = 0.
    out = []
    for t in range(n):
        g, p, nb = gam[t], pri[t], beta[t + 1]
        app = [NINF, NINF]
        new = [NINF] * S
        for s in range(S):
            if alpha[s] == NINF:
                continue
            for u in (0, 1):
                o = code.obits[s][u]
                d = code.nst[s][u]
                v = alpha[s] + g[o[0], o[1]]
                app[u] = lse(app[u], v + nb[d])
                new[d] = lse(new[d], v + p[u])
        out.append(lint[t] + (app[1] - app[0]))
        m = max(new)
        alpha = [v - m for v in new]
    return out, big


def brute(trellis, y0, y1, nv, lint):
    code = TableCode(trellis)
    n = len(y0)
    num = [[NINF, NINF] for _ in range(n)]
    for w in range(2 ** n):
        bits = [(w >> i) & 1 for i in range(n)]
        out, _ = code.run(bits)
        v = 0.
        for t in range(n):
            v -= ((y0[t] - (2 * out[2 * t] - 1)) ** 2 + (y1[t] - (2 * out[2 * t + 1] - 1)) ** 2) / (2 * nv)
            v += bits[t] * lint[t]
        for t in range(n):
            num[t][bits[t]] = lse(num[t][bits[t]], v)
    return [b - a for a, b in num]
