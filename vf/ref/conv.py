"""Shift-register circuits of convolutional codes (independent of the library's tables)."""


class Circuit:
    """ Registers are kept as lists of bits, one list per input, most recent bit first. """

    def __init__(self, memory, g, feedback=None, lsb=False, legacy=None):
        """ legacy: feedback polynomial of the backwards compatible interface (k = 1, LSB order) """
        self.mem = [int(x) for x in memory]
        self.k, self.n = len(g), len(g[0])
        top = max(self.mem)
        self.legacy = legacy is not None

        def taps(v, length=top):
            v = int(v)
            b = [(v >> t) & 1 for t in range(length + 1)]
            return b[::-1] if lsb else b

        self.g = [[taps(g[i][j]) for j in range(self.n)] for i in range(self.k)]
        if self.legacy:
            self.q = taps(legacy)
            return
        if feedback is None:
            self.f = [[[1 if (l == i and t == 0) else 0 for t in range(top + 1)] for i in range(self.k)]
                      for l in range(self.k)]
        else:
            self.f = [[taps(feedback[l][i]) for i in range(self.k)] for l in range(self.k)]

    def zero(self):
        return tuple((0,) * m for m in self.mem)

    def step(self, state, u):
        """ (next state, output bits) for the input bits u """
        out = []
        if self.legacy:
            s = state[0]
            w = u[0]
            for t in range(1, len(s) + 1):
                w ^= self.q[t] & s[t - 1]
            for j in range(self.n):
                y = self.g[0][j][0] & w
                for t in range(1, len(s) + 1):
                    y ^= self.g[0][j][t] & s[t - 1]
                out.append(y)
            return ((w,) + s[:-1] if s else (),), out
        lines = [(u[i],) + tuple(state[i]) for i in range(self.k)]
        for j in range(self.n):
            y = 0
            for i in range(self.k):
                for t, b in enumerate(lines[i]):
                    y ^= self.g[i][j][t] & b
            out.append(y)
        new = []
        for l in range(self.k):
            w = 0
            for i in range(self.k):
                for t, b in enumerate(lines[i]):
                    w ^= self.f[l][i][t] & b
            new.append(((w,) + tuple(state[l][:-1])) if state[l] else ())
        return tuple(new), out

    def number(self, state):
        v = 0
        for reg in state:
            for b in reg:
                v = 2 * v + b
        return v

    def state(self, v):
        bits = []
        for _ in range(sum(self.mem)):
            bits.append(v & 1)
            v >>= 1
        bits = bits[::-1]
        res, pos = [], 0
        for m in self.mem:
            res.append(tuple(bits[pos:pos + m]))
            pos += m
        return tuple(res)

    def run(self, bits, state=None):
        state = self.zero() if state is None else state
        out = []
        for i in range(0, len(bits), self.k):
            state, o = self.step(state, [int(b) for b in bits[i:i + self.k]])
            out += o
        return out, state


def inputs(k):
    return [[(v >> (k - 1 - i)) & 1 for i in range(k)] for v in range(2 ** k)]


class TableCode:
    """ The same interface from the tables of a trellis (for trellises that were not built from polynomials here). """

    def __init__(self, trellis):
        self.k, self.n = int(trellis.k), int(trellis.n)
        self.nst = [[int(x) for x in r] for r in trellis.next_state_table]
        self.ot = [[int(x) for x in r] for r in trellis.output_table]
        self.states = len(self.nst)
        self.obits = [[[(o >> (self.n - 1 - j)) & 1 for j in range(self.n)] for o in r] for r in self.ot]
        self.ibits = inputs(self.k)

    def run(self, bits, s=0):
        out = []
        for i in range(0, len(bits), self.k):
            u = 0
            for b in bits[i:i + self.k]:
                u = 2 * u + int(b)
            out += self.obits[s][u]
            s = self.nst[s][u]
        return out, s


def best_metric(code, cost, steps):
    """ lowest sum of cost(t, output bits) over the paths leaving state 0 (TableCode) """
    inf = float('inf')
    met = [inf] * code.states
    met[0] = 0.
    nin = len(code.ibits)
    pats = sorted({tuple(o) for r in code.obits for o in r})
    for t in range(steps):
        cst = {p: cost(t, p) for p in pats}
        new = [inf] * code.states
        for s in range(code.states):
            m = met[s]
            if m == inf:
                continue
            for u in range(nin):
                v = m + cst[tuple(code.obits[s][u])]
                d = code.nst[s][u]
                if v < new[d]:
                    new[d] = v
        met = new
    return min(met)


class Distances:
    """ Free distance and column distances of a linear trellis code. """

    def __init__(self, code, cap=80):
        import heapq
        self.code = code
        w = [[sum(o) for o in r] for r in code.obits]
        nin = len(code.ibits)
        # free distance: lightest path leaving 0 with a nonzero input and coming back
        dist = {}
        heap = []
        self.dfree = None
        for u in range(1, nin):
            heapq.heappush(heap, (w[0][u], 0 if code.nst[0][u] == 0 else 1, code.nst[0][u]))
        while heap:
            d, flag, s = heapq.heappop(heap)
            if s == 0:
                self.dfree = d
                break
            if s in dist:
                continue
            dist[s] = d
            for u in range(nin):
                heapq.heappush(heap, (d + w[s][u], 1, code.nst[s][u]))
        # column distances
        self.column = []
        cur = {}
        for u in range(1, nin):
            s = code.nst[0][u]
            cur[s] = min(cur.get(s, 10 ** 9), w[0][u])
        for _ in range(cap):
            self.column.append(min(cur.values()))
            if self.dfree is not None and self.column[-1] >= self.dfree:
                break
            new = {}
            for s, d in cur.items():
                for u in range(nin):
                    v = d + w[s][u]
                    q = code.nst[s][u]
                    if v < new.get(q, 10 ** 9):
                        new[q] = v
            cur = new

    def delay(self, weight):
        """ number of steps after which any divergence has at least this weight (None: never within the cap) """
        for i, d in enumerate(self.column):
            if d >= weight:
                return i + 1
        return None
