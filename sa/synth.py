"""C25: synthetic meshes are the documented ones (constant propagation through the constructors)."""
import itertools
import numpy as np
from . import fold, chains
from .grid import LinProp
from .templates import Report, Undecided

S = 'synthetic.'


def near(a, b):
    return np.allclose(a, b, atol=1e-7)


def signed(rows, n):
    at = {}
    for j, f, s in rows:
        at.setdefault(f, {}).setdefault(j, 0)
        at[f][j] += s
    m = np.zeros((len(at), n), int)
    for i, f in enumerate(sorted(at)):
        for j, s in at[f].items():
            m[i, j] = s
    return m


def parity(x):
    return sum(a > b for a, b in itertools.combinations(x, 2)) % 2


def signed_facets(e):
    """incidence of the facets of oriented simplices, each with respect to its sorted vertices"""
    return signed([(j, tuple(sorted(t[:k] + t[k + 1:])), (-1) ** (k + parity(t[:k] + t[k + 1:])))
                   for j, t in enumerate([tuple(int(v) for v in x) for x in e]) for k in range(len(t))], len(e))


def signed_edges(e):
    """incidence of the edges of oriented quads"""
    rows = []
    for j, q in enumerate(e):
        ring = [int(q[0, 0]), int(q[0, 1]), int(q[1, 1]), int(q[1, 0])]
        rows += [(j, (min(a, b), max(a, b)), 1 if a < b else -1) for a, b in zip(ring, ring[1:] + ring[:1])]
    return signed(rows, len(e))


class Made(object):
    """vertices, top elements and incidence derived from the source for one constructor call"""

    def __init__(self, P, name, args, kw):
        self.P, self.name, self.args, self.kw = P, name, args, kw
        self.memo = {}

    def build(self, w):
        a = [w.tup(*x) if isinstance(x, tuple) else x for x in self.args]
        return w.eng.call(w.func(S + self.name), a, dict(self.kw), w.st, None)

    def get(self, what):
        if what not in self.memo:
            P = self.P

            def f(w):
                o = self.build(w)
                if what == 'vertices':
                    return w.get(o, 'vertices')
                return w.eng.getitem(w.get(w.get(o, 'topology'), what), -1, w.st, None)
            v = P.run(f)
            real, fold.REAL = fold.REAL, True
            try:
                with np.errstate(all='ignore'):
                    r = np.asarray(chains.plain(P, v))
            finally:
                fold.REAL = real
            if r.dtype == object:
                raise Undecided('not a constant')
            self.memo[what] = r
        return self.memo[what]

    vertices = property(lambda self: self.get('vertices').astype(float))
    tops = property(lambda self: self.get('elements'))

    def oriented(self, closed):
        e = self.tops
        m = signed_facets(e) if e.ndim == 2 else signed_edges(e) if e.shape[1:] == (2, 2) else self.get('matrices')
        n = np.abs(m).sum(axis=1)
        if n.shape[0] and (n.max() > 2 or n.min() < 1):
            return 'a facet belongs to %s elements' % n
        if closed and n.min() < 2:
            return 'the mesh is not closed'
        if np.any(m.sum(axis=1)[n == 2]):
            return 'neighbouring elements are not consistently oriented'
        return None


def grid(P, R, shape, centering, mirror, fn='n_cube_grid'):
    n = len(shape)
    M = Made(P, fn, [tuple(shape) if fn == 'n_cube_grid' else n], dict(centering=centering, mirror=mirror))
    nm = '%s(%s, centering=%s, mirror=%s)' % (fn, shape if fn == 'n_cube_grid' else n, centering, mirror)
    where = S + fn
    points = np.array(list(itertools.product(*[range(s + 1) for s in shape])), float)
    shift = points.mean(axis=0) if centering else 0

    def vertices():
        v = M.vertices
        if v.shape != points.shape or not near(v[np.lexsort(v.T)], (points - shift)[np.lexsort(points.T)]):
            return 'the vertices are not the grid points'
    R.check('vertices of ' + nm, where, vertices)

    def cubes():
        v, e = M.vertices + shift, M.tops
        if e.shape != (int(np.prod(shape)),) + (2,) * n:
            return 'elements of shape %s' % (e.shape,)
        cells = set()
        for c in e:
            x = v[c.ravel()]
            cells.add(tuple(np.round(x.min(axis=0), 6)))
            if len({tuple(y) for y in np.round(x, 6)}) != 2 ** n or not near(x.max(axis=0) - x.min(axis=0), 1):
                return 'an element is no unit cube'
            for k in range(n):
                d = v[np.take(c, 1, k)] - v[np.take(c, 0, k)]
                if not near(np.abs(d).sum(axis=-1), 1):
                    return 'an axis of an element is no edge'
        if len(cells) != len(e) or not all(0 <= a <= s - 1 for c in cells for a, s in zip(c, shape)):
            return 'a cell occurs twice or not at all'
    R.check('cubes of ' + nm, where, cubes)
    if mirror:
        R.check('orientation of ' + nm, where, lambda: M.oriented(False))


def simplex(P, R, n, equilateral):
    M = Made(P, 'n_simplex', [n], dict(equilateral=equilateral))
    nm = 'n_simplex(%d, equilateral=%s)' % (n, equilateral)

    def t():
        v, e = M.vertices, M.tops
        if v.shape != (n + 1, n) or e.shape != (1, n + 1) or sorted(e[0]) != list(range(n + 1)):
            return 'not one simplex'
        if equilateral:
            d = [np.linalg.norm(a - b) for a, b in itertools.combinations(v, 2)]
            return None if near(d, d[0]) and near(np.linalg.norm(v, axis=1), 1) and near(v.mean(axis=0), 0) else 'the vertices are not equidistant on the sphere'
        return None if near(v, np.eye(n + 1)[:, 1:]) else 'the vertices are not canonical'
    R.check(nm, S + 'n_simplex', t)


def cross(P, R, n):
    M = Made(P, 'n_cube_dual', [n], {})

    def t():
        v, e = M.vertices, M.tops
        if v.shape != (2 * n, n) or not near(np.sort(np.abs(v), axis=1)[:, :-1], 0) or not near(np.linalg.norm(v, axis=1), 1) or len({tuple(np.round(x, 6)) for x in v}) != 2 * n:
            return 'the vertices are not the unit vectors and their opposites'
        if len({frozenset(x) for x in e}) != 2 ** n or e.shape != (2 ** n, n) or not all(np.linalg.matrix_rank(v[x]) == n for x in e):
            return 'the simplices do not pick one vertex of each antipodal pair'
        return M.oriented(True)
    R.check('n_cube_dual(%d)' % n, S + 'n_cube_dual', t)


def icosahedron(P, R):
    M = Made(P, 'icosahedron', [], {})

    def t():
        v, e = M.vertices, M.tops
        if v.shape != (12, 3) or not near(np.linalg.norm(v, axis=1), 1) or e.shape != (20, 3):
            return '%d vertices and %d triangles, or vertices off the sphere' % (len(v), len(e))
        d = np.linalg.norm(v[e] - v[np.roll(e, 1, axis=1)], axis=-1)
        if not near(d, d[0, 0]) or len({frozenset(x) for x in e}) != 20:
            return 'the triangles are not congruent'
        return M.oriented(True)
    R.check('icosahedron', S + 'icosahedron', t)


def hexacosichoron(P, R):
    M = Made(P, 'hexacosichoron', [], {})

    def t():
        v = M.vertices
        if v.shape != (120, 4) or not near(np.linalg.norm(v, axis=1), 1):
            return '%d vertices, or vertices off the sphere' % len(v)
        g = np.sort(v.dot(v.T), axis=1)
        phi = (1 + 5 ** .5) / 2
        if not near(g, np.repeat([-1, -phi / 2, -.5, -.5 / phi, 0, .5 / phi, .5, phi / 2, 1], [1, 12, 20, 12, 30, 12, 20, 12, 1])):
            return 'the vertices are not those of the 600-cell'
    R.check('vertices of hexacosichoron', S + 'hexacosichoron', t)


def icosphere(P, R, k):
    M = Made(P, 'icosphere', [k], {})

    def t():
        e = M.tops
        if e.shape != (20 * 4 ** k, 3) or len({frozenset(x) for x in e}) != len(e) or len(np.unique(e)) != 10 * 4 ** k + 2:
            return '%d triangles on %d vertices' % (len(e), len(np.unique(e)))
        return M.oriented(True)
    R.check('icosphere(%d)' % k, S + 'icosphere', t)


def circle(P, R, k):
    M = Made(P, 'circle', [k], {})
    m = 4 * 2 ** k

    def t():
        v, e = M.vertices, M.tops
        if v.shape != (m, 2) or e.shape != (m, 2) or (k and not near(np.linalg.norm(v, axis=1), 1)):
            return '%d vertices and %d edges, or vertices off the circle' % (len(v), len(e))
        r = np.linalg.norm(v[0])
        if not near(np.linalg.norm(v[e[:, 0]] - v[e[:, 1]], axis=1), 2 * r * np.sin(np.pi / m)):
            return 'the edges are not all of the same length'
        return M.oriented(True)
    R.check('circle(%d)' % k, S + 'circle', t)


def cylinder(P, R, length, radius, k):
    M = Made(P, 'cylinder', [length, radius, k], {})
    a, m = 2 ** k, 4 * 2 ** k

    def t():
        v, e = M.vertices, M.tops
        if v.shape != ((a + 1) * m, 3) or e.shape != (a * m, 2, 2):
            return '%d vertices and elements of shape %s' % (len(v), e.shape)
        if not near(np.linalg.norm(v[:, 1:], axis=1), radius) or not near(np.ptp(v[:, 0]), length):
            return 'the vertices are not at distance radius from an axis of the given length'
        c = v[e]
        d = [np.abs(c[:, 1] - c[:, 0]), np.abs(c[:, :, 1] - c[:, :, 0])]
        for x, y in (d, d[::-1]):
            if near(x[..., 0], length / a) and near(x[..., 1:], 0) and near(y[..., 0], 0) and near(np.linalg.norm(y, axis=-1), 2 * radius * np.sin(np.pi / m)):
                return M.oriented(False)
        return 'a quad is not spanned by a step along the axis and one around it'
    R.check('cylinder(%s, %s, %s)' % (length, radius, k), S + 'cylinder', t)


def run(repo, tier):
    P, R = LinProp(repo), Report()
    shapes = [(3,), (2, 3), (1, 1), (3, 2, 1), (1, 2, 2), (1, 1, 1, 1)] + ([(4, 4), (2, 2, 2), (5,), (2, 1, 1, 1)] if tier == 'thorough' else [])
    for s in shapes:
        for c, m in ((True, True), (False, True), (True, False)):
            grid(P, R, s, c, m)
    for n in range(1, 5):
        for q in (True, False):
            simplex(P, R, n, q)
            if n < 4:
                grid(P, R, (1,) * n, q, True, 'n_cube')
                grid(P, R, (1,) * n, q, False, 'n_cube')
    for n in range(2, 5):
        cross(P, R, n)
    icosahedron(P, R)
    hexacosichoron(P, R)
    for k in (0, 1) + ((2,) if tier == 'thorough' else ()):
        icosphere(P, R, k)
        circle(P, R, k + 1)
    for k in (1, 2):
        cylinder(P, R, 3., .5, k)
    return P, R
