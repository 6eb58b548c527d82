"""C30: drawings show exactly the constellation, the trellis and the state machine."""
import os
import re

import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.patches import FancyArrowPatch

import commpy.channelcoding as CC
import commpy.modulation as MO
from .. import mon

RULE = ('Constellations of all modems and of random custom ones; trellises and state machines of random codes with 1 or '
        '3 inputs and 2 to 64 states, every order of states, default and chosen colors and sizes, saved or not. The '
        'monitors read the artists of the figure after each drawing and compare them with the tables of the object.')
ASSUMPTIONS = ['Figures are drawn with a non-interactive backend; state orders are permutations of all the states.',
               'Colors of different inputs are different.']
REQUIRE = {'judged plot_constellation': 40, 'judged visualize': 40, 'judged visualize_fsm': 40, 'transitions': 800,
           'points': 300, 'saved': 25}


def rgb(x):
    return tuple(round(v, 6) for v in mcolors.to_rgb(x))


def shapes(ax):
    """ (vertices, codes, color) of each patch of the axes, drawn alone or in a collection. """
    out = []
    for coll in ax.collections:
        off = np.asarray(coll.get_offsets(), float)
        fc = coll.get_facecolors()
        paths = coll.get_paths()
        for i, p in enumerate(paths):
            out.append((p, tuple(round(float(v), 6) for v in fc[i % len(fc)][:3])))
    for p in ax.patches:
        if not isinstance(p, FancyArrowPatch):
            out.append((p.get_patch_transform().transform_path(p.get_path()), rgb(p.get_facecolor())))
    return out


def split(ax):
    """ circles (x, y, radius) and polygons (vertices, color). """
    circles, polys = [], []
    for p, col in shapes(ax):
        v = np.asarray(p.vertices, float)
        if p.codes is not None and 4 in p.codes:
            lo, hi = v.min(0), v.max(0)
            circles.append(((lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (hi[0] - lo[0]) / 2))
        else:
            polys.append((v, col))
    return circles, polys


def texts(ax):
    out = []
    for t in ax.texts:
        x, y = t.get_position()
        box = t.get_bbox_patch()
        out.append((float(x), float(y), t.get_text(), rgb(box.get_facecolor()) if box is not None else None))
    return out


def legend_colors(c, ax, n):
    leg = ax.get_legend()
    c.check(leg is not None, 'no legend')
    names = [t.get_text() for t in leg.get_texts()]
    c.check(names == ['%d-input' % i for i in range(n)], 'legend of the inputs', names=names)
    out = []
    for h in leg.get_patches():
        out.append(rgb(h.get_facecolor()))
    c.check(len(out) == n, 'legend without a color for each input', colors=out)
    return out


def check_saved(c, path):
    if path is not None:
        c.check(os.path.exists(path) and open(path, 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'figure not saved', path=path)
        c.tag('saved')


def post_constellation(c, a, r, t):
    m = a['self']
    ax = plt.gca()
    pts = np.asarray(m.constellation)
    drawn = [np.asarray(o.get_offsets(), float) for o in ax.collections]
    drawn = np.concatenate(drawn) if drawn else np.zeros((0, 2))
    for line in ax.lines:
        drawn = np.concatenate((drawn, np.asarray(line.get_xydata(), float)))
    want = np.stack((pts.real, pts.imag), 1).astype(float)
    c.check(drawn.shape == want.shape and np.allclose(drawn[np.lexsort(np.round(drawn.T, 9))],
                                                      want[np.lexsort(np.round(want.T, 9))]),
            'points of the drawing are not those of the constellation', drawn=drawn, want=want)
    k = int(m.num_bits_symbol)
    labels = {}
    for x, y, s, _ in texts(ax):
        w = re.findall('[01]', s)
        if len(w) == k:
            labels.setdefault(''.join(w), []).append((x, y))
    for i, p in enumerate(pts):
        w = format(i, '0%db' % k)
        c.check(len(labels.get(w, [])) == 1, 'the word of a point is not written exactly once', word=w,
                labels=[t[2] for t in texts(ax)])
        x, y = labels[w][0]
        c.check(abs(y - p.imag) < 1e-9 and 0 <= x - p.real <= .5, 'a word is not written next to its point', word=w,
                point=p, at=(x, y))
        c.tag('points')


def tables(tr):
    return np.asarray(tr.next_state_table), np.asarray(tr.output_table), int(tr.number_states), int(tr.number_inputs)


def match_colors(c, ax, tr, given):
    n = int(tr.number_inputs)
    leg = legend_colors(c, ax, n)
    if given is not None:
        want = [rgb(x) for x in given[:n]]
        c.check(leg == want, 'legend does not give each input its color', legend=leg, want=want)
    c.check(len(set(leg)) == n, 'inputs with the same color', legend=leg)
    return leg


def post_visualize(c, a, r, t):
    tr = a['self']
    nxt, out, S, n = tables(tr)
    order = list(range(S)) if a['state_order'] is None else [int(x) for x in a['state_order']]
    L = int(a['trellis_length'])
    ax = plt.gca()
    circles, polys = split(ax)
    col = match_colors(c, ax, tr, a['edge_colors'])
    c.check(len(circles) == S * L, 'number of states drawn', drawn=len(circles), want=S * L)
    xs = sorted(set(round(x, 6) for x, _, _ in circles))
    ys = sorted(set(round(y, 6) for _, y, _ in circles), reverse=True)
    c.check(len(xs) == L and len(ys) == S, 'states are not drawn on a grid', columns=len(xs), rows=len(ys))
    grid = {(xs.index(round(x, 6)), ys.index(round(y, 6))) for x, y, _ in circles}
    c.check(len(grid) == S * L, 'states drawn at the same place')
    rad = circles[0][2]
    # Names of the states: each row holds the state of the requested order
    names = {}
    labels = []
    for x, y, s, _ in texts(ax):
        if re.fullmatch(r'\d+', s):
            i = min(range(L), key=lambda j: abs(xs[j] - x))
            j = min(range(S), key=lambda j: abs(ys[j] - y))
            c.check(abs(xs[i] - x) <= rad and abs(ys[j] - y) <= rad, 'name of a state out of its circle', name=s)
            names.setdefault((i, j), []).append(int(s))
        elif '/' in s:
            labels.append((x, y, s))
    for i in range(L):
        for j in range(S):
            c.check(names.get((i, j)) == [order[j]], 'wrong name of a state', column=i, row=j, name=names.get((i, j)),
                    order=order)
    # Labels input/output: from top to bottom, those of each state in turn
    c.check(len(labels) == S * n, 'number of labels', labels=[x[2] for x in labels])
    want = ['%d/%d' % (u, out[s, u]) for s in order for u in range(n)]
    if n > 4 or S > 16:  # labels of many inputs cover those of the next states
        c.equal(np.array(sorted(x[2] for x in labels)), np.array(sorted(want)), 'labels of the transitions')
    elif 4 * rad < abs(ys[0] - ys[1]) * 1.5 or n <= 2:
        labels.sort(key=lambda v: -v[1])
        c.check([x[2] for x in labels] == want, 'labels of the transitions', labels=[x[2] for x in labels], want=want)
    # Edges
    edges = set()
    for v, color in polys:
        lo = v[:, 0].min()
        tip = v[v[:, 0].argmax()]
        start = (lo, v[v[:, 0] < lo + 1e-2, 1].mean())
        i = min(range(L), key=lambda k: abs(xs[k] - start[0]))
        e = min(range(L), key=lambda k: abs(xs[k] - tip[0]))
        j = min(range(S), key=lambda k: abs(ys[k] - start[1]))
        f = min(range(S), key=lambda k: abs(ys[k] - tip[1]))
        c.check(e == i + 1 and abs(xs[i] - start[0]) < 1.5 * rad and abs(xs[e] - tip[0]) < 1.5 * rad and
                abs(ys[j] - start[1]) < rad and abs(ys[f] - tip[1]) < rad, 'an edge does not join two states', start=start,
                tip=tip)
        edges.add((i, order[j], order[f], color))
    for i in range(L - 1):
        for s in range(S):
            for f in range(S):
                u = [k for k in range(n) if nxt[s, k] == f]
                got = {x[3] for x in edges if x[:3] == (i, s, f)}
                c.check(bool(got) == bool(u), 'an edge is missing' if u else 'an edge which is no transition', step=i,
                        start=s, end=f)
                c.check(got <= {col[k] for k in u}, 'color of an edge', step=i, start=s, end=f, inputs=u, color=got,
                        colors=col)
                c.tag('transitions', len(u))
    check_saved(c, a['save_path'])


def post_fsm(c, a, r, t):
    tr = a['self']
    nxt, out, S, n = tables(tr)
    ax = plt.gca()
    circles, _ = split(ax)
    col = match_colors(c, ax, tr, a['edge_colors'])
    c.check(len(circles) == S, 'number of states drawn', drawn=len(circles), want=S)
    pos = np.array([z[:2] for z in circles])
    rad = circles[0][2]
    names = {}
    outputs = []
    for x, y, s, bg in texts(ax):
        if re.fullmatch(r'\d+', s):
            d = np.hypot(*(pos - (x, y)).T)
            c.check(d.min() < rad, 'name of a state out of its circle', name=s)
            names.setdefault(int(d.argmin()), []).append(int(s))
        elif re.fullmatch(r'\(\d+\)', s):
            outputs.append((int(s[1:-1]), bg))
    c.check(sorted(names) == list(range(S)) and all(len(v) == 1 for v in names.values()) and
            sorted(v[0] for v in names.values()) == list(range(S)), 'names of the states', names=names)
    if a['state_order'] is not None:
        # Around the circle in the requested order
        ang = [np.angle(complex(*pos[i])) % (2 * np.pi) for i in range(S)]
        ring = [names[i][0] for i in sorted(range(S), key=lambda i: round(ang[i], 6) % 6.283185)]
        c.check(ring == [int(x) for x in a['state_order']], 'order of the states', ring=ring, order=a['state_order'])
    want = sorted((int(out[s, u]), col[u]) for s in range(S) for u in range(n))
    c.check(sorted(outputs) == want, 'outputs written on the transitions', outputs=sorted(outputs), want=want)
    edges = []
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            path = p._path_original
            ends = (path.vertices[0], path.vertices[-1]) if path is not None else p._posA_posB
            e = []
            for v in ends:
                d = np.hypot(*(pos - np.asarray(v, float)).T)
                c.check(d.min() < 1.2 * rad, 'an arrow does not touch a state', at=v)
                e.append(names[int(d.argmin())][0])
            edges.append((e[0], e[1], rgb(p.get_facecolor())))
    want = sorted((s, int(nxt[s, u]), col[u]) for s in range(S) for u in range(n))
    c.check(sorted(edges) == want, 'arrows are not the transitions', arrows=sorted(edges), want=want)
    c.tag('transitions', len(want))
    check_saved(c, a['save_path'])


def setup():
    mon.attach('commpy.modulation.Modem.plot_constellation', post_constellation)
    mon.attach('commpy.channelcoding.convcode.Trellis.visualize', post_visualize)
    mon.attach('commpy.channelcoding.convcode.Trellis.visualize_fsm', post_fsm)


PALETTE = ['#00ff00', '#ff0000', '#0000ff', '#888888', '#00ffff', '#ff00ff', '#ffff00', '#000000']


def small_trellis(rng):
    """ Random code of at most 16 states, 64 sometimes. """
    k = int(rng.choice([1, 1, 1, 2, 2, 3]))
    top = 6 if k == 1 and rng.randint(6) == 0 else 4
    n = k + int(rng.randint(1, 3))
    while True:
        mem = rng.randint(0 if k > 1 else 1, (7 if top == 6 else 5) if k < 3 else 2, k)
        if 1 <= mem.sum() <= top:
            break
    g = np.array([[rng.randint(0, 2 << m) for _ in range(n)] for m in mem])
    if k == 1 and rng.rand() < .3:
        fb = int(rng.randint(1 << mem[0], 2 << mem[0])) | 1
        g[0] |= 1 << int(mem[0])
        return CC.Trellis(mem, g, fb, 'rsc')
    return CC.Trellis(mem, g, polynomial_format=['MSB', 'LSB'][rng.randint(2)])


def fresh():
    plt.close('all')
    plt.figure()


def constellation(c):
    rng = c.rng
    k = rng.randint(5)
    if k == 0:
        m = MO.PSKModem(2 ** int(rng.randint(1, 7)))
    elif k == 1:
        m = MO.QAMModem(4 ** int(rng.randint(1, 4)))
    elif k == 2:
        m = MO.Modem(np.array([-1., 1.]) * rng.rand())
    else:
        n = 2 ** int(rng.randint(1, 6))
        scale = 10. ** rng.uniform(-4, 4) if rng.randint(2) else 1
        m = MO.Modem((rng.randn(n) + 1j * rng.randn(n)) * scale, reorder_as_gray=bool(rng.randint(2)))
    c.note(modem=type(m).__name__, points=m.constellation)
    fresh()
    m.plot_constellation()
    if rng.rand() < .3 and m.m <= 16:
        m.constellation = m.constellation[rng.permutation(m.m)] if isinstance(m.constellation, np.ndarray) else \
            [m.constellation[i] for i in rng.permutation(m.m)]
        fresh()
        m.plot_constellation()
    plt.close('all')


def arguments(c, t, kw):
    rng = c.rng
    S = int(t.number_states)
    if rng.rand() < .7:
        kw['state_order'] = [list, np.array, tuple][rng.randint(3)]([int(x) for x in rng.permutation(S)])
    if rng.rand() < .6:
        kw['edge_colors'] = [PALETTE[i] for i in rng.permutation(8)[:int(t.number_inputs)]]
    path = None
    if rng.rand() < .6:
        path = os.path.join(os.environ.get('VF_TMP', '/tmp'), 'c30-%d-%s-%d.png' % (os.getpid(), c.workload, c.idx))
        kw['save_path'] = path
    c.note(states=S, inputs=int(t.number_inputs), **{k: v for k, v in kw.items() if k != 'save_path'})
    return path


def trellises(c):
    rng = c.rng
    t = small_trellis(rng)
    kw = {}
    if rng.rand() < .7:
        kw['trellis_length'] = int(rng.randint(2, 5) if rng.randint(3) or t.number_states > 8 else rng.randint(5, 10))
    path = arguments(c, t, kw)
    plt.close('all')
    try:
        t.visualize(**kw)
    finally:
        plt.close('all')
        if path and os.path.exists(path):
            os.unlink(path)


def machines(c):
    rng = c.rng
    t = small_trellis(rng)
    kw = {}
    path = arguments(c, t, kw)
    fresh()
    try:
        t.visualize_fsm(**kw)
    finally:
        plt.close('all')
        if path and os.path.exists(path):
            os.unlink(path)


WORKLOADS = {'constellation': (constellation, 60, 1000), 'trellises': (trellises, 60, 1500),
             'machines': (machines, 60, 1500)}
