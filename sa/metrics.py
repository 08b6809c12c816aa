"""C15: metrics are made of every fundamental piece once (constant propagation over small meshes).

The geometric primitives (volume of a simplex or box given by its corner positions, barycentric coordinates of
circumcenters, angles) are replaced by a table of generic numbers, one per set of positions; positions are symbols, one
per element.  What remains is the combinatorics of the metric, which is propagated as constants and compared with
the sum over the pieces that the definition names."""
import ast
import hashlib
import itertools
import numpy as np
from . import fold, linear
from .chains import Mesh, gridmesh, Table, meshes, elements, same, CCUB, CSIM, CTRI
from .grid import LinProp
from .linear import Lin, sym
from .templates import Report, Undecided
from .values import Arr, ClassV, Prop as PropV, FuncV, StaticM, ClassM

SPH2, SPH1 = 'complex.simplicial.spherical.ComplexSpherical2', 'complex.simplicial.spherical.ComplexCircular'
REG = {4: 'complex.regular.ComplexRegular4', 1: 'complex.regular.ComplexRegular1', 2: 'complex.regular.ComplexRegular2', 3: 'complex.regular.ComplexRegular3'}


def generic(*key):
    """a number in [0.5, 1.5) that stands for the named quantity"""
    h = hashlib.md5(repr(key).encode()).hexdigest()
    return 0.5 + int(h[:8], 16) / float(16 ** 8)


def tag(s):
    return tuple(sorted(s))


def volume(sets):
    """of the simplex or box whose corners are the positions of elements with these vertex sets"""
    return generic('volume', sorted(tag(s) for s in sets))


def bary(top, v):
    """barycentric coordinate of the circumcenter; some are negative"""
    if len(top) == 2:
        return 0.5
    x = generic('bary', tag(top), v)
    return -x if int(x * 997) % 3 == 0 else x


class Positions(object):
    """installs the tables as summaries of the geometric primitives"""

    def __init__(self, P, centered):
        self.P, self.centered = P, centered
        self.keys = {}
        mods = P.eng.mods
        self.hooked = []
        for m in mods.values():
            for node, cls in self.functions(m.tree):
                nm = node.name
                if cls is None and m.name.split('.')[-2:-1] == ['geometry']:
                    h = {'unsigned_volume': self.unsigned, 'hypervolume': self.box, 'circumcenter_barycentric': self.bary,
                         'circumcenter_barycentric_weighted': self.bary, 'triangle_angles': self.angles}.get(nm)
                elif cls is not None and '.complex.' in m.name + '.':
                    h = {'primal_position': self.position, 'is_well_centered': self.true, 'is_pairwise_delaunay': self.true, 'triangle_normals': self.normals}.get(nm)
                else:
                    h = None
                if h is not None:
                    q = m.name + ':' + ((cls + '.') if cls else '') + nm
                    P.eng.hooks[q] = h
                    self.hooked.append(q)

    def functions(self, tree):
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                yield n, None
            elif isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        yield k, n.name

    def close(self):
        for q in self.hooked:
            self.P.eng.hooks.pop(q, None)

    # -------------------------------------------------------------------------------- summaries
    def normals(self, eng, st, args, kw, node):
        o = args[0]
        x = self.array(eng.getattr(o, 'vertices', st, node))
        self.width = x.shape[-1]
        ids = self.vertex_ids(x)
        c = self.array(eng.getitem(eng.getattr(eng.getattr(o, 'topology', st, node), 'corners', st, node), 2, st, node))
        return self.P.arr(np.array([[generic('normal', tag(frozenset(int(ids[int(v)]) for v in e)), k) for k in range(self.width)] for e in c]))

    def true(self, eng, st, args, kw, node):
        return True

    def array(self, v):
        return np.asarray(self.P.numbers(v))

    def vertex_ids(self, a):
        """rows of vertex positions -> index of the vertex; also for positions relative to the mean"""
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            x = a[i + (0,)]
            if not isinstance(x, Lin):
                raise Undecided('position')
            m = [(c, k) for k, c in x.t.items() if c > 0]
            if len(m) != 1 or len(m[0][1]) != 1 or m[0][1][0][0] != 'x':
                raise Undecided('position')
            out[i] = m[0][1][0][1] // self.width
        return out

    def position(self, eng, st, args, kw, node):
        o = args[0]
        P = self.P
        x = self.array(eng.getattr(o, 'vertices', st, node))
        self.width = d = x.shape[-1]
        ids = self.vertex_ids(x)
        out = []
        for c in eng.iterate(eng.getattr(eng.getattr(o, 'topology', st, node), 'corners', st, node), st, node):
            c = self.array(c)
            rows = np.empty((len(c), d), dtype=object)
            for i, e in enumerate(c):
                key = tag(frozenset(int(ids[int(v)]) for v in e.ravel()))
                for k in range(d):
                    rows[i, k] = sym(('p', key, k))
            out.append(P.arr(rows))
        return eng.mklist(st, out)

    def elements_at(self, a):
        """rows of positions -> vertex sets of the elements that sit there"""
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            x = a[i]
            ks = set()
            for j, y in enumerate(x):
                if not isinstance(y, Lin) or len(y.t) != 1:
                    raise Undecided('position')
                (m, c), = y.t.items()
                if c != 1 or len(m) != 1 or m[0][0] not in ('p', 'x'):
                    raise Undecided('position')
                ks.add(m[0][1] if m[0][0] == 'p' else (m[0][1] // self.width,))
            if len(ks) != 1:
                raise Undecided('position')
            out[i] = ks.pop()
        return out

    def unsigned(self, eng, st, args, kw, node):
        if len(args) != 1 or kw:
            raise Undecided('arguments of unsigned_volume')
        e = self.elements_at(self.array(args[0]))
        out = np.zeros(e.shape[:-1])
        for i in np.ndindex(out.shape):
            out[i] = volume(e[i]) if e.shape[-1] > 1 else 1
        return self.P.arr(out)

    def box(self, eng, st, args, kw, node):
        a, b = self.array(args[0]), self.array(args[1])
        n = args[2] if len(args) > 2 else kw.get('n')
        if n is not None and not isinstance(n, int):
            n = self.array(n)
            if n.shape != ():
                raise Undecided('dimension')
            n = int(n)
        n = a.shape[-1] if n is None else n
        ea, eb = np.broadcast_arrays(self.elements_at(a), self.elements_at(b))
        out = np.zeros(ea.shape)
        for i in np.ndindex(out.shape):
            out[i] = boxvolume(n, ea[i], eb[i])
        return self.P.arr(out)

    def bary(self, eng, st, args, kw, node):
        ids = self.vertex_ids(self.array(args[0]))
        out = np.zeros(ids.shape)
        for i in np.ndindex(ids.shape[:-1]):
            for k, v in enumerate(ids[i]):
                out[i + (k,)] = 0.3 if self.centered else bary(ids[i], v)
        return self.P.arr(out)

    def angles(self, eng, st, args, kw, node):
        ids = self.vertex_ids(self.array(args[0]))
        out = np.zeros(ids.shape)
        for i in np.ndindex(ids.shape[:-1]):
            for k, v in enumerate(ids[i]):
                out[i + (k,)] = generic('angle', tag(ids[i]), v)
        return self.P.arr(out)


def boxvolume(n, a, b):
    return generic('box', n, sorted([tag(a), tag(b)])) if n else 1.


# ------------------------------------------------------------------------------------------------ definition
def up(els, k, n, x):
    """chains of elements from x (of dimension k) to a top element"""
    if k == n:
        return [[x]]
    return [[x] + c for y in els[k + 1] if x < y for c in up(els, k + 1, n, y)]


def down(els, k, x):
    """chains of elements from a vertex to x"""
    if k == 0:
        return [[x]]
    return [c + [x] for y in els[k - 1] if y < x for c in down(els, k - 1, y)]


def sign(chain):
    """of a piece: whether the circumcenter of the top element is on the inner side of its facet"""
    top, facet = chain[-1], chain[-2]
    v, = top - facet
    return 1. if bary(top, v) > 0 else -1.


def simplicial_metric(els, n, signed):
    s = sign if signed else (lambda c: 1.)
    PM, DM = [np.ones(len(els[0]))], [np.ones(len(els[n]))]
    for k in range(1, n + 1):
        PM.append(np.array([sum(volume(c) * (s(c) if k == n else 1) for c in down(els, k, x)) for x in els[k]]))
    for k in range(n - 1, -1, -1):
        DM.append(np.array([sum(volume(c) * s(c) for c in up(els, k, n, x)) for x in els[k]]))
    return PM, DM


def regular_metric(els, n):
    PM, DM = [np.ones(len(els[0]))], [np.ones(len(els[n]))]
    for k in range(1, n + 1):
        PM.append(np.array([sum(boxvolume(k, v, x) for v in els[0] if v < x) for x in els[k]]))
    for k in range(n - 1, -1, -1):
        DM.append(np.array([sum(boxvolume(n - k, x, y) for y in els[n] if x < y) for x in els[k]]))
    return PM, DM


# ------------------------------------------------------------------------------------------------ obligations
def rules(P, R, M, kind):
    t = Table(P, M)
    n = M.n
    cls, d, radius = dict(euclidian=(CTRI if n == 2 else CSIM, max(3, n), 1), spherical=({1: SPH1, 2: SPH2}.get(n), n + 1, 3),
                          regular=(REG.get(n), n, 1))[kind]
    nm = '[%s %dd %s]' % (kind, n, M.name)
    memo = {}

    def build(w):
        kw = dict(radius=radius) if kind == 'spherical' else {}
        return w.make(cls, vertices=P.field((M.nv, d), 'x', 'float'), topology=t.top(w), **kw)

    def el():
        if 'el' not in memo:
            e = elements(t)
            if not all(set(e[k]) == M.sets[k] and len(e[k]) == len(M.sets[k]) for k in range(n + 1)) or e[0] != [frozenset([i]) for i in range(M.nv)]:
                raise Undecided('elements')
            memo['el'] = e
        return memo['el']

    def metric(els=None, dim=n):
        els = el() if els is None else els
        PM, DM = regular_metric(els, dim) if kind == 'regular' else simplicial_metric(els, dim, kind == 'euclidian')
        f = lambda m: [x * float(radius) ** i for i, x in enumerate(m)]
        return f(PM), f(DM)

    def get(f):
        pos = Positions(P, centered=kind != 'euclidian')
        pos.width = d
        try:
            with np.errstate(all='ignore'):
                return t.get(f)
        finally:
            pos.close()

    def ob(what, place, f, X):
        def g():
            x = X()
            a = get(f)
            if len(a) != len(x):
                return '%s has %d entries instead of %d' % (what, len(a), len(x))
            for k, (p, q) in enumerate(zip(a, x)):
                e = same(p, q, '%s[%d]' % (what, k))
                if e:
                    return e
            return None
        R.check('%s %s' % (what, nm), place, g)
    where = cls + '.'
    ob('primal_metric', where + 'metric', lambda w: w.get(build(w), 'primal_metric'), lambda: metric()[0])
    ob('dual_metric', where + 'metric', lambda w: w.get(build(w), 'dual_metric'), lambda: metric()[1])
    ratio = lambda a, b: [x / y for x, y in zip(a, b)]
    ob('hodge_PD', 'complex.base.BaseComplex.hodge_PD', lambda w: w.get(build(w), 'hodge_PD'), lambda: ratio(metric()[0], metric()[1][::-1]))
    ob('hodge_DP', 'complex.base.BaseComplex.hodge_DP', lambda w: w.get(build(w), 'hodge_DP'), lambda: ratio(metric()[1][::-1], metric()[0]))

    if kind == 'euclidian' and n == 2:
        def normals():
            e = el()
            return [np.array([sum(np.array([generic('normal', tag(f), k) for k in range(3)]) for f in e[2] if x < f) for x in e[0]])]
        def build3(w):
            return w.make(CTRI + '3', vertices=P.field((M.nv, 3), 'x', 'float'), topology=t.top(w))
        ob('vertex_normals', CTRI + '3.vertex_normals', lambda w: w.tup(w.meth(build3(w), 'vertex_normals')), normals)

        def cot():
            e = el()
            return [np.array([sum(1 / np.tan(generic('angle', tag(f), v)) for f in e[2] if x < f for v in f - x) / 2 for x in e[1]])]
        ob('compute_edge_ratio', where + 'compute_edge_ratio', lambda w: w.tup(w.get(build(w), 'compute_edge_ratio')), cot)

    if kind != 'regular' and n > 1:
        def weights(k):
            # dual elements of dimension n - k at elements x of dimension k, from the tops y around x
            e = el()
            W = np.zeros((len(e[k]), len(e[n])))
            for i, x in enumerate(e[k]):
                for c in up(e, k, n, x):
                    W[i, e[n].index(c[-1])] += (volume(c[1:]) if len(c) > 2 else 1) / np.prod([volume([x, y]) for y in c[1:]])
            return W / W.sum(axis=1, keepdims=True)

        def weighted():
            e = el()
            ms = get(lambda w: w.get(build(w), 'weighted_average_operators'))[1:]
            if len(ms) != n:
                return 'weighted_average_operators has %d entries instead of %d' % (len(ms) + 1, n + 1)
            for m, a in enumerate(ms):
                k = n - 1 - m
                X = weights(k)
                Y = np.asarray(a)[:len(e[k])]
                X = np.concatenate([X, np.zeros((len(X), Y.shape[1] - X.shape[1]))], axis=1) if Y.shape[1] >= X.shape[1] else X
                r = same(Y, X, 'rows of the elements of weighted_average_operators[%d]' % (m + 1))
                if r:
                    return r
            return None
        R.check('weighted_average_operators %s' % nm, 'complex.base.BaseComplex.weighted_average_operators', weighted)

    def closed():
        e = el()
        dm = metric()[1]
        if M.bounding():
            idx = t.get(t.path('boundary', 'parent_idx'))
            be = [[e[k][int(i)] for i in idx[k]] for k in range(n)]
            bm = metric(be, n - 1)[1]
            dm = [np.concatenate([x, y]) for x, y in zip(dm, bm + [np.zeros(0)])]
        return dm
    if n > 1 and (kind != 'regular' or not M.bounding()):
        ob('dual_metric_closed', 'complex.base.BaseComplex.dual_metric_closed', lambda w: w.get(build(w), 'dual_metric_closed'), closed)


def run(repo, tier):
    P, R = LinProp(repo), Report()
    extra = [Mesh('cell', 'simplicial', [list(range(5))]), Mesh('cell', 'cubical', gridmesh(4, (1, 1, 1, 1)))]
    for M in meshes(tier) + extra:
        if M.kind == 'simplicial':
            rules(P, R, M, 'euclidian')
            if M.n <= 2:
                rules(P, R, M, 'spherical')
        elif M.name != 'bow tie':
            rules(P, R, M, 'regular')
    return P, R
