"""C38: generated graphs are drawn, and what matplotlib holds afterwards (nodes, colours, edges, labels, density surface) is compared with the graph and the layout."""
import copy

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
import scipy.ndimage
from hypothesis import strategies as st
from mpl_toolkits.mplot3d import Axes3D

import metaknowledge.contour
from mkv.core import Suite
from mkv.gen import fixed, ints, one, weigh

suite = Suite('C38')
NODES = ['a', 'b', 'Levy, Y', 'd', 5, 'f', 'g', 'h', 'i', 'j', 'k']
TYPES = ['AF', 'CR', 'DE', 'ID', 'J9', 'PY', 'TI', 'UT', 'AU', 'C1']
graph = fixed(kind=one('Graph', 'Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'), nodes=st.lists(st.tuples(ints(0, len(NODES) - 1), ints(0, len(TYPES) - 1)), max_size=10, unique_by=lambda t: t[0]), edges=st.lists(st.tuples(ints(0, 9), ints(0, 9)), max_size=8), typed=weigh((4, st.just('all')), (3, st.just('none')), (2, one('first', 'last', 'middle', 'but first'))))


def make(case):
    g = getattr(nx, case['kind'])()
    n = len(case['nodes'])
    for i, (k, t) in enumerate(case['nodes']):
        has = {'all': True, 'none': False, 'first': i == 0, 'last': i == n - 1, 'middle': i == n // 2, 'but first': i > 0}[case['typed']]
        g.add_node(NODES[k], **({'type': TYPES[t]} if has else {'count': t}))
    nodes = list(g)
    for u, v in case['edges']:
        if nodes:
            g.add_edge(nodes[u % n], nodes[v % n], weight=u + v)
    return g


def snapshot(g):
    return [list(g.nodes(data=True)), list(g.edges(data=True))]


@suite.test(fixed(graph=graph, labels=st.booleans()), quick=1500, rule='two types, or two nodes without types, and an edge')
def visual(case, ctx):
    plt.close('all')
    g = make(case['graph'])
    before = copy.deepcopy(snapshot(g))
    types = [d.get('type') for n, d in g.nodes(data=True)]
    draw = lambda: metaknowledge.contour.quickVisual(g, showLabel=True) if case['labels'] else metaknowledge.contour.quickVisual(g)
    if None in types and any(types):
        with ctx.raises(RuntimeError, 'some nodes have a type and some do not'):
            draw()
        ctx.eq(snapshot(g), before, 'the graph')
        return
    draw()
    ctx.eq(snapshot(g), before, 'the graph')
    ctx.eq(len(plt.get_fignums()), 1, 'figures')
    ctx.eq(len(plt.gcf().axes), 1, 'axes')
    ax = plt.gcf().axes[0]
    points = [c for c in ax.collections if type(c).__name__ == 'PathCollection']
    if not g:
        ctx.eq([c for c in points if len(c.get_offsets())], [], 'points of an empty graph')
        plt.close('all')
        return
    ctx.eq(len(points), 1, 'sets of points')
    pos = np.asarray(points[0].get_offsets())
    ctx.eq(pos.shape, (len(g), 2), 'points')
    ctx.check(bool(np.isfinite(pos).all()), 'positions')
    colours = [tuple(c) for c in points[0].get_facecolors()]
    if len(colours) == 1:
        colours *= len(g)
    ctx.eq(len(colours), len(g), 'colours')
    if any(types):
        order = list(dict.fromkeys(types))
        ctx.eq([[colours[i] == colours[j] for j in range(len(g))] for i in range(len(g))], [[order.index(s) % 8 == order.index(t) % 8 for t in types] for s in types], 'which of the nodes of types %r have the same colour' % types)
    else:
        ctx.eq(len(set(colours)), 1, 'colours of nodes without types')
    at = dict(zip(g, map(tuple, pos)))
    same = lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1]) < 1e-6
    lines = [[tuple(s[0]), tuple(s[-1])] for c in ax.collections if type(c).__name__ == 'LineCollection' for s in c.get_segments()]
    arrows = [p for p in ax.patches if type(p).__name__ == 'FancyArrowPatch']
    want = [(u, v) for u, v in g.edges()]
    if not g.is_directed() and not g.is_multigraph():
        loops = sum(u == v for u, v in want)
        ctx.check(loops or len(lines) + len(arrows) == len(want), lambda: '%d edges drawn, of %r' % (len(lines) + len(arrows), want))
        left = [e for e in want if e[0] != e[1]]
        for a, b in lines:
            hit = next((e for e in left if same(at[e[0]], a) and same(at[e[1]], b) or same(at[e[0]], b) and same(at[e[1]], a)), None)
            if hit is not None:
                left.remove(hit)
        ctx.eq(left, [], 'edges that are not drawn')
    else:
        ctx.eq(len(arrows) + len(lines), len(want), 'edges drawn')
    texts = sorted([t.get_text(), round(float(t.get_position()[0]), 5), round(float(t.get_position()[1]), 5)] for t in ax.texts if t.get_text())
    ctx.eq(texts, sorted([str(n), round(float(p[0]), 5), round(float(p[1]), 5)] for n, p in at.items()) if case['labels'] else [], 'labels')
    plt.close('all')
    ctx.nontrivial(g.number_of_edges() > 0 and len(g) > 1)
    ctx.label('typed', any(types))


class Recorder:
    """Notes what is plotted as a surface or as contours, and draws it all the same."""

    def __enter__(self):
        self.calls, self.saved = [], (Axes3D.plot_surface, Axes3D.contourf)

        def wrap(name, f):
            def g(ax, x, y, z, *a, **k):
                self.calls.append((name, np.array(x), np.array(y), np.array(z), a))
                return f(ax, x, y, z, *a, **k)
            return g
        Axes3D.plot_surface, Axes3D.contourf = wrap('surface', self.saved[0]), wrap('contours', self.saved[1])
        return self

    def __exit__(self, *a):
        Axes3D.plot_surface, Axes3D.contourf = self.saved


@suite.test(fixed(graph=graph, layout=weigh((4, st.lists(st.tuples(ints(-8, 8), ints(-8, 8)), min_size=10, max_size=10)), (1, st.none())), factor=one(1, 2, 0.5, 10), overlay=st.booleans(), samples=one(9, 17, 33, 20, 100), blur=one(.1, .02, .3), contours=one(15, 5, 2, 3, 40), solid=weigh((3, st.just(False)), (1, st.just(True))), wrong=weigh((12, st.just(0)), (1, one(1, 2)))), quick=900, rule='three nodes with a layout')
def density(case, ctx):
    plt.close('all')
    g = make(case['graph'])
    f = metaknowledge.contour.graphDensityContourPlot
    if case['wrong']:
        with ctx.raises(TypeError, 'a wrong %s' % ['graph', 'layout'][case['wrong'] - 1]):
            f([1, 2]) if case['wrong'] == 1 else f(g, layout=[(0, 0)])
        return
    kw = dict(overlay=case['overlay'], axisSamples=case['samples'], blurringFactor=case['blur'], contours=case['contours'])
    if case['solid']:
        kw['graphType'] = 'solid'
    layout = None
    if case['layout'] is not None:
        layout = {n: np.array(p) / 8 * case['factor'] for n, p in zip(g, case['layout'])}
        kw.update(layout=layout, layoutScaleFactor=case['factor'])
    else:
        kw['iters'] = 5
    before = copy.deepcopy(snapshot(g)), copy.deepcopy(layout)
    with Recorder() as rec:
        f(g, **kw)
    ctx.eq(snapshot(g), before[0], 'the graph')
    ctx.check(layout is None or all((layout[n] == before[1][n]).all() for n in g) and list(layout) == list(before[1]), 'the layout is changed')
    ctx.eq([c[0] for c in rec.calls], ['surface' if case['solid'] else 'contours'], 'plots')
    name, x, y, z, args = rec.calls[0]
    n = case['samples']
    ctx.eq([list(x[0]), list(y[:, 0]), x.shape], [list(range(n)), list(range(n)), (n, n)], 'grid')
    if name == 'contours':
        ctx.eq(args, (case['contours'],), 'number of contours')
    ax = plt.gcf().axes[0]
    if case['overlay'] and len(g):
        pts = [c for c in ax.collections if type(c).__name__ == 'Path3DCollection']
        ctx.eq(len(pts), 1, 'sets of points of the overlay')
        px, py, pz = (np.asarray(v) for v in pts[0]._offsets3d)
        cells = list(zip(px, py))
        ctx.eq(len(cells), len(g), 'nodes of the overlay')
    else:
        cells = None
    if layout is not None:
        own = [tuple((layout[v] / case['factor'] + 1) / 2 * (n - 1)) for v in g]
        if cells is not None:
            ctx.eq(np.allclose(np.sort(np.array(cells), axis=0), np.sort(np.array(own), axis=0), atol=1e-4), True, 'positions of the overlay (%r) are those of the layout (%r)' % (cells, own))
        cells = own
    if cells is not None and all(abs(c % 1 - .5) > 1e-6 for p in cells for c in p):
        grid = np.zeros((n, n))
        for a, b in cells:
            grid[int(round(b)), int(round(a))] += 1
        want = scipy.ndimage.gaussian_filter(grid, case['blur'] * n)
        ctx.check(bool(np.allclose(z, want, atol=1e-4)), lambda: 'density: highest at %r, expected at %r' % (np.unravel_index(z.argmax(), z.shape), np.unravel_index(want.argmax(), want.shape)))
    ctx.check(abs(float(z.sum()) - len(g)) < .01 * max(len(g), 1) and float(z.min()) > -1e-6, lambda: 'the density adds up to %r for %d nodes' % (float(z.sum()), len(g)))
    plt.close('all')
    ctx.nontrivial(len(g) > 2 and layout is not None)


def crowd(seed, n, m, kind, typed):
    import random
    r = random.Random(seed)
    return {'kind': kind, 'nodes': [[i, r.randrange(len(TYPES))] for i in range(n)], 'edges': [[r.randrange(n), r.randrange(n)] for _ in range(m)], 'typed': typed}


def crowds(kinds, most):
    return st.builds(crowd, ints(0, 10 ** 6), ints(12, most), ints(0, most), one(*kinds), one('all', 'all', 'none'))


NODES += ['node %d' % i for i in range(len(NODES), 400)]
suite.larger(visual, 60, graph=crowds(['Graph', 'Graph', 'DiGraph'], 90))
suite.larger(density, 40, graph=crowds(['Graph', 'DiGraph'], 300), layout=st.tuples(ints(1, 99), ints(0, 99)).map(lambda p: [[(i * p[0] + p[1]) % 17 - 8, (i * i + p[1] * i // 7) % 17 - 8] for i in range(300)]), wrong=st.just(0))
