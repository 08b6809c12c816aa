"""C09: input outside of the documented domain is rejected (constant propagation through the checks that guard it).

Every obligation applies an operation to input that its documentation excludes; on every path of the abstract program
the operation must end in an exception.  If the source is followed to a result with constant decisions only, the input is
accepted silently: that is reported.  Paired obligations apply the operation to input on the allowed side."""
import ast
import numpy as np
from . import fold
from .grid import LinProp
from .templates import Report, Undecided, Unset, simplicial, cubical
from .values import Arr, C, AbsRaise, Ext
from .chains import Mesh, gridmesh, closed, flip

TB, TP, TS, TC, TD = 'topology.base.BaseTopology.', 'topology.primal.PrimalTopology.', 'topology.simplicial.', 'topology.cubical.', 'topology.dual.'
CS, CC = 'complex.simplicial.', 'complex.cubical.'
ST = 'stencil.'
S, CB = 'simplicial', 'cubical'


class Guard(object):
    def __init__(self, P, R):
        self.P, self.R = P, R

    def follow(self, f, rejected=True):
        """'raises' | 'returns' | None (cannot be followed)"""
        P = self.P
        box = {}

        def g(w):
            n = P.eng.guardctr
            try:
                box['v'] = f(w)
            except AbsRaise as e:
                box['e'] = e
                return None
            box['open'] = P.eng.guardctr - n
            return box['v']
        P.run(g)
        if 'e' in box:
            e = box['e']
            return 'raises' if isinstance(e.node, (ast.Raise, ast.Assert)) or getattr(e, 'definite', False) or rejected else None
        return None if box['open'] else 'returns'

    def rejects(self, name, where, f):
        def t():
            r = self.follow(f)
            if r is None:
                raise Undecided('a check on the way could not be decided')
            return None if r == 'raises' else 'is accepted'
        self.R.check(name, where, t)

    def accepts(self, name, where, f):
        def t():
            r = self.follow(f, False)
            if r is None:
                raise Undecided('a check on the way could not be decided')
            return None if r == 'returns' else 'is rejected'
        self.R.check(name, where, t)


def run(repo, tier):
    fold.DTYPES = True
    try:
        return run_(repo, tier)
    finally:
        fold.DTYPES = False


def run_(repo, tier):
    P, R = LinProp(repo), Report()
    G = Guard(P, R)
    topology_guards(P, G)
    complex_guards(P, G)
    geometry_guards(P, G)
    stencil_guards(P, G)
    return P, R


def samples():
    fan = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]]
    mob = [[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 0, 4], [4, 0, 1]]
    return dict(path=Mesh('path', S, [[0, 1], [1, 2]]), loop=Mesh('loop', S, [[0, 1], [1, 2], [2, 0]]), fan=Mesh('fan', S, fan), ball=Mesh('pair', S, simplicial(3).tops), sphere=Mesh('surface', S, closed(S, 2)),
                quads=Mesh('pair', CB, cubical(2).tops), box=Mesh('surface', CB, closed(CB, 2)), cpath=Mesh('path', CB, [[0, 1], [1, 2]]), cloop=Mesh('loop', CB, [[0, 1], [1, 2], [2, 0]]), cubes=Mesh('pair', CB, cubical(3).tops),
                bow=Mesh('bow tie', S, [[0, 1, 2], [2, 3, 4]]), moebius=Mesh('moebius', S, mob))


def flipped(M):
    return [flip(M.kind, x) if i == 0 else x for i, x in enumerate(M.tops)]


def topology_guards(P, G):
    ms = samples()
    build = lambda w, k, tops=None: ms[k].build(P, w, tops)
    for k in ('fan', 'ball', 'quads', 'path'):
        N = len(ms[k].tops)
        nm = ' (%s)' % k
        for n in (N - 1, N + 1, 0):
            G.rejects('selection of %d among %d elements%s' % (n, N, nm), TP + 'select_subset', lambda w, n=n, k=k: w.meth(build(w, k), 'select_subset', P.const([1] * n, 'sign')))
        G.accepts('selection of %d among %d elements%s' % (N, N, nm), TP + 'select_subset', lambda w, k=k, N=N: w.meth(build(w, k), 'select_subset', P.const([1] * N, 'sign')))
        # the dual and the boundary of a topology that is not oriented
        for a in ('dual', 'boundary'):
            G.rejects('%s of a topology that is not oriented%s' % (a, nm), TP + a, lambda w, a=a, k=k: w.get(build(w, k, flipped(ms[k])), a))
            G.accepts('%s of an oriented topology%s' % (a, nm), TP + a, lambda w, a=a, k=k: w.get(build(w, k), a))
    for k in ('fan', 'quads', 'path', 'cpath'):
        G.rejects('closed dual of an open topology (%s)' % k, TD + 'ClosedDual.__init__', lambda w, k=k: w.make(TD + 'ClosedDual', build(w, k)))
        G.accepts('dual of an open topology (%s)' % k, TD + 'Dual.__init__', lambda w, k=k: w.make(TD + 'Dual', build(w, k)))
    for k in ('sphere', 'loop', 'box', 'cloop'):
        G.rejects('open dual of a closed topology (%s)' % k, TD + 'Dual.__init__', lambda w, k=k: w.make(TD + 'Dual', build(w, k)))
        G.accepts('closed dual of a closed topology (%s)' % k, TD + 'ClosedDual.__init__', lambda w, k=k: w.make(TD + 'ClosedDual', build(w, k)))
    G.rejects('orienting a moebius strip', TB + 'relative_parity', lambda w: w.meth(build(w, 'moebius'), 'fix_orientation'))
    G.rejects('relative parity of a moebius strip', TB + 'relative_parity', lambda w: w.meth(build(w, 'moebius'), 'relative_parity'))
    G.rejects('manifold check of a bow tie', TB + 'check_manifold', lambda w: w.meth(build(w, 'bow'), 'check_manifold'))
    for k in ('fan', 'sphere', 'quads', 'box', 'cubes'):
        G.accepts('manifold check of a manifold (%s)' % k, TB + 'check_manifold', lambda w, k=k: w.meth(build(w, k), 'check_manifold'))
    for k in ('loop', 'path', 'ball', 'cpath'):
        G.rejects('cast of a %d-topology to two dimensions (%s)' % (ms[k].n, k), TS + 'TopologySimplicial.as_2', lambda w, k=k: w.meth(w.meth(w.klass(TS + 'TopologySimplicial'), 'from_elements', P.const(ms[k].tops)), 'as_2'))
    G.accepts('cast of a 2-topology to two dimensions', TS + 'TopologySimplicial.as_2', lambda w: w.meth(w.meth(w.klass(TS + 'TopologySimplicial'), 'from_elements', P.const(ms['fan'].tops)), 'as_2'))
    # element arrays of cubes
    for sh in ((2, 4), (2, 2, 3), (1, 3), (2, 3, 2)):
        G.rejects('cubes of shape %s' % (sh,), TC + 'TopologyCubical.from_elements', lambda w, sh=sh: w.meth(w.klass(TC + 'TopologyCubical'), 'from_elements', P.const(np.arange(int(np.prod(sh))).reshape(sh))))
    for bad in ([[0, 1], [1, 2]], [[0, 3], [2, 1]], [[0, 3], [1, 2]], [[0, 2], [3, 1]]):
        G.rejects('parity of corners %s' % (bad,), TC + 'relative_cube_parity', lambda w, bad=bad: w.fn(TC + 'relative_cube_parity', P.const([bad])))
    G.accepts('parity of a square', TC + 'relative_cube_parity', lambda w: w.fn(TC + 'relative_cube_parity', P.const([[[2, 3], [0, 1]]])))
    # the arrays a topology is made of
    for kind, T in ((S, simplicial(2)), (CB, cubical(2))):
        constructor_guards(P, G, kind, T)
    # chain complexes that are none
    for k in ('fan', 'ball', 'quads', 'cubes', 'sphere', 'box'):
        for j in range(ms[k].n):
            def broken(w, k=k, j=j):
                t = build(w, k)
                o = P.eng.lst(w.st, w.get(t, '_orientation')).items
                e, b = w.get(t, '_elements'), w.get(t, '_boundary')
                a = P.numbers(o[j]).copy()
                a.ravel()[-1] *= -1
                o = [P.const(a.astype(int), 'sign') if i == j else x for i, x in enumerate(o)]
                u = w.make(ms[k].cls, elements=e, boundary=b, orientation=w.lst(o))
                return w.meth(u, 'check_chain')
            G.rejects('chain with a wrong sign of a %d-element (%s)' % (j + 1, k), TB + 'check_chain', broken)
        G.accepts('chain check (%s)' % k, TB + 'check_chain', lambda w, k=k: w.meth(build(w, k), 'check_chain'))
    G.rejects('octahedral subdivision of an open topology', TC + 'TopologyCubical.subdivide_octohedral', lambda w: w.meth(build(w, 'quads'), 'subdivide_octohedral'))


def constructor_guards(P, G, kind, T):
    cls = TS + 'TopologyTriangular' if kind == S else TC + 'TopologyCubical2'
    n = T.n

    def make(w, e=None, b=None, o=None):
        E = [P.const(x) for x in T.E]
        B = [P.const(x) for x in T.B]
        O = [P.const(x, 'sign') for x in T.O]
        for l, c in ((E, e), (B, b), (O, o)):
            if c:
                c(l)
        return w.make(cls, elements=w.lst(E), boundary=w.lst(B), orientation=w.lst(O))

    def put(i, a, dt='index'):
        def f(l):
            l[i] = P.const(a, dt)
        return f
    nm = ' (%s)' % kind
    W = TP + '__init__'
    G.accepts('consistent arrays' + nm, W, lambda w: make(w))
    G.rejects('vertices that do not start at zero' + nm, W, lambda w: make(w, e=put(0, np.asarray(T.E[0]) + 1)))
    e0 = np.array(T.E[0]).copy()
    e0[-1] += 1
    G.rejects('vertices with a gap' + nm, W, lambda w: make(w, e=put(0, e0)))
    e1 = np.array(T.E[0]).copy()
    e1[[0, 1]] = e1[[1, 0]]
    G.rejects('vertices out of order' + nm, W, lambda w: make(w, e=put(0, e1)))
    for i in range(n):
        b = np.asarray(T.B[i])
        G.rejects('incidence of one element less (%d)%s' % (i, nm), W, lambda w: make(w, b=put(i, b[:-1])))
        G.rejects('orientation of one element less (%d)%s' % (i, nm), W, lambda w: make(w, o=put(i, np.asarray(T.O[i])[:-1], 'sign')))
        G.rejects('incidence of another type (%d)%s' % (i, nm), W, lambda w: make(w, b=put(i, b, 'sign')))
        G.rejects('orientation of another type (%d)%s' % (i, nm), W, lambda w: make(w, o=put(i, T.O[i], 'index')))
    for i in range(n + 1):
        G.rejects('elements of another type (%d)%s' % (i, nm), W, lambda w: make(w, e=put(i, T.E[i], 'sign')))
    G.rejects('incidence of one dimension less' + nm, W, lambda w: make(w, b=lambda l: l.pop()))
    G.rejects('orientation of one dimension less' + nm, W, lambda w: make(w, o=lambda l: l.pop()))
    G.rejects('elements of one dimension less' + nm, W, lambda w: make(w, e=lambda l: l.pop()))


def complex_guards(P, G):
    ms = samples()
    build = lambda w, k, tops=None: ms[k].build(P, w, tops)
    x = lambda k, d: P.field((ms[k].nv, d), 'x', 'float')

    def cub(w, k, d, cls='ComplexCubical'):
        return w.make(CC + cls, vertices=x(k, d), topology=build(w, k))
    for k in ('cpath', 'quads', 'cubes'):
        for d in (1, 2, 3, 4):
            for a, (n, m) in dict(as_11=(1, 1), as_12=(1, 2), as_22=(2, 2), as_23=(2, 3), as_33=(3, 3), as_44=(4, 4)).items():
                f = G.accepts if (ms[k].n, d) == (n, m) else G.rejects
                f('cast %s of a %d-complex in %d dimensions' % (a, ms[k].n, d), CC + 'ComplexCubical.' + a, lambda w, k=k, d=d, a=a: w.meth(cub(w, k, d), a))
    for k in ('quads', 'cpath'):
        N = len(ms[k].tops)
        for n in (N - 1, N + 1):
            G.rejects('selection of %d among %d elements of a complex (%s)' % (n, N, k), 'complex.base.BaseComplex.select_subset', lambda w, k=k, n=n: w.meth(cub(w, k, 2), 'select_subset', P.const([1] * n, 'sign')))
        G.accepts('selection of %d among %d elements of a complex (%s)' % (N, N, k), 'complex.base.BaseComplex.select_subset', lambda w, k=k, N=N: w.meth(cub(w, k, 2), 'select_subset', P.const([1] * N, 'sign')))
    V = CC + 'ComplexCubical1Euclidian2.volume'
    G.rejects('volume of an open line', V, lambda w: w.meth(cub(w, 'cpath', 2, 'ComplexCubical1Euclidian2'), 'volume'))
    G.accepts('volume of a closed line', V, lambda w: w.meth(cub(w, 'cloop', 2, 'ComplexCubical1Euclidian2'), 'volume'))

    E, T = CS + 'euclidian.ComplexSimplicialEuclidian', CS + 'euclidian.ComplexTriangularEuclidian'

    def simp(w, k, d, cls, tops=None, **kw):
        return w.make(cls, vertices=x(k, d), topology=build(w, k, tops), **kw)
    for k in ('fan', 'ball'):
        G.rejects('%d-complex as line segments' % ms[k].n, E + '.as_cube', lambda w, k=k: w.meth(simp(w, k, 3, E), 'as_cube'))
    G.accepts('1-complex as line segments', E + '.as_cube', lambda w: w.meth(simp(w, 'path', 2, E), 'as_cube'))
    for a, d in (('as_2', 2), ('as_3', 3)):
        for m in (2, 3):
            f = G.accepts if m == d else G.rejects
            f('cast %s of triangles in %d dimensions' % (a, m), T + '.' + a, lambda w, a=a, m=m: w.meth(simp(w, 'fan', m, T), a))
    wt = lambda k: P.field((ms[k].nv,), 'w', 'float')
    G.rejects('edge ratio of a weighted complex', T + '.compute_edge_ratio', lambda w: w.ev(simp(w, 'fan', 3, T, weights=wt('fan')), 'compute_edge_ratio'))
    G.accepts('edge ratio of an unweighted complex', T + '.compute_edge_ratio', lambda w: w.ev(simp(w, 'fan', 3, T), 'compute_edge_ratio'))
    for a in ('optimize_weights', 'optimize_weights_metric', 'optimize_weights_fundamental'):
        G.rejects('%s of a weighted complex' % a, CS + 'base.BaseComplexSimplicial.' + a, lambda w, a=a: w.meth(simp(w, 'fan', 3, T, weights=wt('fan')), a))
    for cls, k in ((T, 'fan'), (E, 'ball')):
        G.rejects('metric of a complex that is not oriented (%s)' % k, E + '.metric', lambda w, k=k, cls=cls: w.get(simp(w, k, 3, cls, flipped(ms[k])), 'metric'))
    Q = CS + 'spherical.ComplexSpherical2'
    G.rejects('metric of a spherical complex that is not oriented', CS + 'spherical.ComplexSpherical.metric', lambda w: w.get(simp(w, 'fan', 3, Q, flipped(ms['fan'])), 'metric'))
    for k in ('quads', 'box', 'ball', 'path'):
        G.rejects('spherical triangles from other elements (%s)' % k, Q + '.__init__', lambda w, k=k: w.make(Q, vertices=x(k, 3), topology=build(w, k)))
    G.accepts('spherical triangles', Q + '.__init__', lambda w: simp(w, 'sphere', 3, Q))
    T = CS + 'euclidian.ComplexTriangularEuclidian3'
    X = T + '.extrude'
    G.rejects('extrusion to another topology', X, lambda w: w.meth(simp(w, 'fan', 3, T), 'extrude', simp(w, 'fan', 3, T)))
    G.rejects('extrusion of a closed complex', X, lambda w: (lambda c: w.meth(c, 'extrude', w.meth(c, 'translate', P.arr(np.array([0., 0., 1.])))))(simp(w, 'sphere', 3, T)))
    G.accepts('extrusion', X, lambda w: (lambda c: w.meth(c, 'extrude', w.meth(c, 'translate', P.arr(np.array([0., 0., 1.])))))(simp(w, 'fan', 3, T)))


def geometry_guards(P, G):
    p = lambda *sh: P.field(sh, 'p', 'float')
    SG, EG = 'geometry.spherical.', 'geometry.euclidian.'
    for n, d in ((3, 2), (3, 4)):
        G.rejects('spherical volume of %d points in %d dimensions' % (n, d), SG + 'unsigned_volume', lambda w, n=n, d=d: w.fn(SG + 'unsigned_volume', p(2, n, d)))
    for n in (1, 3):
        G.rejects('circumcenter of an edge of %d points' % n, SG + 'edge_circumcenter', lambda w, n=n: w.fn(SG + 'edge_circumcenter', p(2, n, 3)))
    G.accepts('circumcenter of an edge', SG + 'edge_circumcenter', lambda w: w.fn(SG + 'edge_circumcenter', p(2, 2, 3)))
    for n, d in ((3, 2), (3, 4), (2, 3), (4, 3)):
        G.rejects('spherical circumcenter of %d points in %d dimensions' % (n, d), SG + 'triangle_circumcenter', lambda w, n=n, d=d: w.fn(SG + 'triangle_circumcenter', p(2, n, d)))
    G.accepts('circumcenter of a spherical triangle', SG + 'triangle_circumcenter', lambda w: w.fn(SG + 'triangle_circumcenter', p(2, 3, 3)))
    for n, d in ((3, 1), (4, 2), (5, 3)):
        G.rejects('volume of %d points in %d dimensions' % (n, d), EG + 'unsigned_volume', lambda w, n=n, d=d: w.fn(EG + 'unsigned_volume', p(2, n, d)))
    for n, d in ((2, 1), (3, 2), (1, 3), (2, 3)):
        G.accepts('volume of %d points in %d dimensions' % (n, d), EG + 'unsigned_volume', lambda w, n=n, d=d: w.fn(EG + 'unsigned_volume', p(2, n, d)))
    for n, d in ((2, 2), (3, 3), (4, 2), (2, 3)):
        G.rejects('signed volume of %d points in %d dimensions' % (n, d), EG + 'signed_volume', lambda w, n=n, d=d: w.fn(EG + 'signed_volume', p(2, n, d)))
        if n != d:
            G.rejects('normal of %d points in %d dimensions' % (n, d), EG + 'segment_normals', lambda w, n=n, d=d: w.fn(EG + 'segment_normals', p(2, n, d)))
    for d in (1, 2, 3):
        G.accepts('signed volume of %d points in %d dimensions' % (d + 1, d), EG + 'signed_volume', lambda w, d=d: w.fn(EG + 'signed_volume', p(2, d + 1, d)))
    for n, m in ((2, 3), (3, 2)):
        G.rejects('angle of a %dx%d matrix' % (n, m), 'math.linalg.angle_from_rotation', lambda w, n=n, m=m: w.fn('math.linalg.angle_from_rotation', p(n, m)))
    G.rejects('inverse of a sparse matrix that is not diagonal', 'sparse.inv_diag', lambda w: w.fn('sparse.inv_diag', P.eng.call(Ext('scipy.sparse.csr_matrix'), [P.arr(np.eye(3))], {}, w.st, None)))
    G.rejects('inverse of an off-diagonal matrix', 'sparse.inv_diag', lambda w: w.fn('sparse.inv_diag', P.eng.call(Ext('scipy.sparse.diags'), [P.arr(np.ones(2)), 1], {}, w.st, None)))
    for a, b in (((2, 3), (3, 2)), ((2, 3), (1, 3))):
        G.rejects('relative permutations of shapes %s and %s' % (a, b), 'topology.util.relative_permutations', lambda w, a=a, b=b: w.fn('topology.util.relative_permutations', P.const(np.arange(int(np.prod(a))).reshape(a)), P.const(np.arange(int(np.prod(b))).reshape(b))))


def stencil_guards(P, G):
    top = lambda w, sh, **k: w.make(ST + 'topology.StencilTopology', shape=w.tup(*sh), **k)
    TT = ST + 'topology.StencilTopology.'
    for sh in ((3,), (4, 3), (2, 5, 2)):
        G.rejects('coarsening a grid of shape %s' % (sh,), TT + 'coarse', lambda w, sh=sh: w.get(top(w, sh), 'coarse'))
    for sh in ((4,), (4, 6), (2, 4, 2)):
        G.accepts('coarsening a grid of shape %s' % (sh,), TT + 'coarse', lambda w, sh=sh: w.get(top(w, sh), 'coarse'))
    for what, f in (('primal', lambda w, t: w.get(t, 'primal')), ('form', lambda w, t: w.meth(t, 'form', 0))):
        G.rejects('%s of a grid that is not periodic' % what, TT + what, lambda w, f=f: f(w, top(w, (4, 2), boundary='open')))
    G.rejects('unknown initial value', TT + 'form', lambda w: w.meth(top(w, (4, 2)), 'form', 1, init='random'))
    for i in ('zeros', 'ones', 'empty'):
        G.accepts('initial value %s' % i, TT + 'form', lambda w, i=i: w.meth(top(w, (4, 2)), 'form', 1, init=i))
    OP = ST + 'operator.'
    # operators on forms of another shape
    for sh in ((4,), (4, 2), (2, 4, 6)):
        n = len(sh)

        def forms(w, k):
            return [x for x in P.eng.lst(w.st, w.get(top(w, sh), 'n_elements')).items][k]
        for k in range(n):
            for j in range(n + 1):
                if j == k:
                    continue
                # shapes of forms of complementary degree can agree
                from math import comb
                if comb(n, j) == comb(n, k):
                    continue
                f = lambda w, k=k, j=j, sh=sh, n=n: P.apply(w, P.eng.getitem(w.get(top(w, sh), 'primal'), k, w.st, None), P.field((comb(n, j),) + sh))
                G.rejects('derivative of %d-forms applied to a %d-form on %s' % (k, j, sh), OP + 'StencilOperator.__call__', f)
        for k in range(n):
            f = lambda w, k=k, sh=sh, n=n: P.apply(w, P.eng.getitem(w.get(top(w, sh), 'primal'), k, w.st, None), P.field((comb(n, k),) + sh))
            from math import comb
            G.accepts('derivative of %d-forms applied to a %d-form on %s' % (k, k, sh), OP + 'StencilOperator.__call__', f)
        for k in range(n):
            for j in range(n):
                a, b = comb(n, k), comb(n, j + 1)
                g = lambda w, k=k, j=j, sh=sh: (lambda l: w.meth(l[k], '__mul__', l[j]))(P.eng.lst(w.st, w.get(top(w, sh), 'primal')).items)
                (G.accepts if a == b else G.rejects)('product of the derivatives of %d- and %d-forms on %s' % (k, j, sh), OP + 'ComposedOperator.__init__', g)
                if j != k and (comb(n, k), comb(n, k + 1)) != (comb(n, j), comb(n, j + 1)):
                    h = lambda w, k=k, j=j, sh=sh: (lambda l: w.meth(l[k], '__add__', l[j]))(P.eng.lst(w.st, w.get(top(w, sh), 'primal')).items)
                    G.rejects('sum of the derivatives of %d- and %d-forms on %s' % (k, j, sh), OP + 'CombinedOperator.__init__', h)
    # block arrays
    K = ST + 'block.BlockArray'

    def blocks(w):
        return w.make(K, w.lst([P.field((2, 3), 'a', 'float'), P.field((4,), 'b', 'float')]), 1)
    for size in (9, 11, 6):
        G.rejects('block array of %d numbers from a layout of 10' % size, K + '.from_dense', lambda w, size=size: w.meth(blocks(w), 'from_dense', P.field((size,), 'd', 'float')))
    G.accepts('block array of 10 numbers from a layout of 10', K + '.from_dense', lambda w: w.meth(blocks(w), 'from_dense', P.field((10,), 'd', 'float')))
    for cls, d in (('StencilComplex2D', 2), ('StencilComplex3D', 3)):
        for sh in ((4,), (4, 2), (2, 4, 2)):
            f = G.accepts if len(sh) == d else G.rejects
            f('%s on a grid of shape %s' % (cls, sh), ST + 'complex.%s.__init__' % cls, lambda w, cls=cls, sh=sh: w.make(ST + 'complex.' + cls, top(w, sh), 1.0))
