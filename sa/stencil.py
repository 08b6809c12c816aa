"""C19 (stencil operators): matrices derived by propagating linear forms."""
import itertools
import math
import numpy as np
from .grid import LinProp, same, TOL
from .templates import Report, Undecided, findings
from .values import Arr, Inst, ExtObj
from .linear import Lin, sym
from . import fold

S = 'stencil.'
def small(rng, *shape):
    """generic numbers that are exact in floating point"""
    a = rng.randint(1, 40, shape) * rng.choice([-1, 1], shape)
    return a / 8.


class Grid(object):
    """a periodic template grid, its operators and the matrices their definition implies"""

    def __init__(self, P, shape, scale=2.):
        self.P, self.shape, self.n, self.scale = P, tuple(shape), len(shape), scale
        n = self.n
        self.points = list(np.ndindex(*self.shape))
        self.name = 'x'.join(map(str, shape))
        sy = P.table(lambda w: w.get(self.topo(w), 'symbols'))
        self.symbols = [[tuple(int(x) for x in s) for s in k] for k in sy]

    def topo(self, w):
        return w.make(S + 'topology.StencilTopology', w.tup(*self.shape))

    def cplx(self, w):
        return w.make(S + 'complex.StencilComplex', self.topo(w), self.scale)

    def it(self, w, o, *i):
        for k in i:
            o = self.P.eng.getitem(o, k, w.st, None)
        return o

    def top(self, name, *i):
        return lambda w: self.it(w, w.get(self.topo(w), name), *i)

    def cop(self, name, *i):
        return lambda w: self.it(w, w.get(self.cplx(w), name), *i)

    def sh(self, k, fine=0):
        s = tuple(x // 2 if fine < 0 else x for x in self.shape)
        return (math.comb(self.n, k),) + s

    def size(self, k, fine=0):
        return int(np.prod(self.sh(k, fine)))

    def at(self, c, x, shape=None):
        shape = shape or self.shape
        return c * int(np.prod(shape)) + int(np.ravel_multi_index([a % b for a, b in zip(x, shape)], shape))

    def matrix(self, build, k, to, fine_in=0, fine_out=0, T=False):
        b = (lambda w: w.get(build(w), 'T')) if T else build
        M, o = self.P.matrix(b, self.sh(k, fine_in))
        if o != self.sh(to, fine_out):
            return M, 'a result of shape %s instead of %s' % (o, self.sh(to, fine_out))
        return M, None

    def d(self, k):
        """(matrix with the absolute pattern, signs per component pair) of the derivative"""
        n = self.n
        D = np.zeros((self.size(k + 1), self.size(k)))
        for c, s in enumerate(self.symbols[k + 1]):
            for x in self.points:
                for i in s:
                    f = self.symbols[k].index(tuple(j for j in s if j != i))
                    y = list(x)
                    y[i] += 1
                    D[self.at(c, x), self.at(f, y)] += 1
                    D[self.at(c, x), self.at(f, x)] -= 1
        return D


def topology_rules(P, R, G):
    n, nm = G.n, G.name
    U = S + 'topology.StencilTopology.'

    def t():
        if len(G.symbols) != n + 1:
            return '%d kinds of forms in %d dimensions' % (len(G.symbols), n)
        for k, s in enumerate(G.symbols):
            if sorted(s) != sorted(itertools.combinations(range(n), k)):
                return 'the components of a %d-form extend along %s' % (k, s)
    R.check('components of forms %s' % nm, S + 'util.generate', t)
    D = {}
    for k in range(n):
        def t(k=k):
            M, e = G.matrix(G.top('primal', k), k, k + 1)
            if e:
                return e
            D[k] = M
            # differences along the axes of each component, up to a sign per pair of components
            X, m = G.d(k), len(G.points)
            for c in range(len(G.symbols[k + 1])):
                for f in range(len(G.symbols[k])):
                    a, b = M[c * m:(c + 1) * m, f * m:(f + 1) * m], X[c * m:(c + 1) * m, f * m:(f + 1) * m]
                    if np.abs(a - b).max() > TOL and np.abs(a + b).max() > TOL:
                        return 'component %s of the derivative is not the periodic difference of component %s along the axis in which they differ' % (G.symbols[k + 1][c], G.symbols[k][f])
        R.check('derivative %d is a periodic difference %s' % (k, nm), U + 'primal', t)

        def t(k=k):
            if k not in D:
                raise Undecided('derivative')
            M, e = G.matrix(G.top('primal', k), k + 1, k, T=True)
            return e or same(M, D[k].T, 'the transpose of the derivative')
        R.check('derivative %d transposes %s' % (k, nm), U + 'primal', t)

        def t(k=k):
            if k not in D:
                raise Undecided('derivative')
            M, e = G.matrix(G.top('dual', k), k + 1, k)
            return e or same(M, D[k].T, 'the dual derivative against the transpose')
        R.check('dual derivative %d %s' % (k, nm), U + 'dual', t)

        def t(k=k):
            if k not in D:
                raise Undecided('derivative')
            M, e = G.matrix(G.top('dual', k), k, k + 1, T=True)
            return e or same(M, D[k], 'the transpose of the dual derivative')
        R.check('dual derivative %d transposes %s' % (k, nm), U + 'dual', t)
    for k in range(n - 1):
        def t(k=k):
            if k not in D or k + 1 not in D:
                raise Undecided('derivative')
            return same(D[k + 1].dot(D[k]), np.zeros((G.size(k + 2), G.size(k))), 'derivative of a derivative')
        R.check('derivative of derivative %d %s' % (k, nm), U + 'primal', t)
    for k in range(n + 1):
        def t(k=k):
            X = np.zeros((G.size(k), G.size(0)))
            for c, s in enumerate(G.symbols[k]):
                for x in G.points:
                    for o in itertools.product(*[(0, 1) if i in s else (0,) for i in range(n)]):
                        X[G.at(c, x), G.at(0, [a + b for a, b in zip(x, o)])] += 0.5 ** k
            M, e = G.matrix(G.top('averaging_operators_0', k), 0, k)
            return e or same(M, X, 'average over the corners of each element')
        R.check('averaging onto %d-forms %s' % (k, nm), U + 'averaging_operators_0', t)
    return D


def child(G, k, weight):
    X = np.zeros((G.size(k, -1), G.size(k)))
    cs = tuple(s // 2 for s in G.shape)
    for c, s in enumerate(G.symbols[k]):
        for x in np.ndindex(*cs):
            for o in itertools.product(*[(0, 1) if i in s else (0,) for i in range(G.n)]):
                X[G.at(c, x, cs), G.at(c, [2 * a + b for a, b in zip(x, o)])] = weight
    return X


def transfer_rules(P, R, G):
    n, nm = G.n, G.name
    U, V = S + 'topology.StencilTopology.', S + 'complex.StencilComplex.'
    if any(s % 2 for s in G.shape):
        return
    for k in range(n + 1):
        def t(k=k):
            M, e = G.matrix(G.top('transfers', k), k, k, fine_out=-1)
            return e or same(M, child(G, k, 0.5 ** k), 'transfer to the parent (mean of the children)')
        R.check('transfer of %d-forms %s' % (k, nm), U + 'transfers', t)

        def t(k=k):
            M, e = G.matrix(G.top('transfers', k), k, k, fine_in=-1, T=True)
            return e or same(M, child(G, k, 1.).T, 'transfer to the children')
        R.check('transfer of %d-forms to the children %s' % (k, nm), U + 'transfers', t)
        for scale in (True, False):
            def t(k=k, scale=scale):
                b = lambda w: G.it(w, w.meth(G.cplx(w), 'smoothers', scale), k)
                M, e = G.matrix(b, k, k)
                if e:
                    return e
                X = np.zeros_like(M)
                v = [.25, .5, .25] if scale else [.5, 1, .5]
                for c, s in enumerate(G.symbols[k]):
                    for x in G.points:
                        for o in itertools.product(*[(0,) if i in s else (-1, 0, 1) for i in range(n)]):
                            X[G.at(c, x), G.at(c, [a + b for a, b in zip(x, o)])] += np.prod([v[q + 1] for i, q in enumerate(o) if i not in s] or [1.])
                r = same(M, X, 'periodic smoothing normal to each component')
                if r:
                    return r
                N, e = G.matrix(b, k, k, T=True)
                return e or same(N, M.T, 'transpose of the smoother')
            R.check('smoothing of %d-forms (%s) %s' % (k, scale, nm), V + 'smoothers', t)
        Q = {}

        def t(k=k):
            M, e = G.matrix(G.cop('coarsen', k), k, k, fine_out=-1)
            if e:
                return e
            Q['c'] = M
            return same(M.sum(axis=1), np.ones(len(M)), 'coarsening of a constant field')
        R.check('coarsening keeps constant %d-forms %s' % (k, nm), V + 'coarsen', t)

        def t(k=k):
            M, e = G.matrix(G.cop('refine', k), k, k, fine_in=-1)
            if e:
                return e
            Q['r'] = M
            return same(M.sum(axis=1), np.ones(len(M)), 'refinement of a constant field')
        R.check('refinement keeps constant %d-forms %s' % (k, nm), V + 'refine', t)

        def t(k=k):
            if len(Q) < 2:
                raise Undecided('transfers')
            return same(Q['r'].T * 0.5 ** n, Q['c'], 'coarsening against the transpose of refinement')
        R.check('coarsening and refinement of %d-forms are transposes %s' % (k, nm), V + 'refine', t)
        for inv in (False, True):
            def t(k=k, inv=inv):
                b = G.cop('hodge', k)
                M, e = G.matrix((lambda w: w.get(b(w), 'I')) if inv else b, k, k)
                h = G.scale ** (n - 2 * k)
                return e or same(M, np.eye(G.size(k)) * (1 / h if inv else h), 'hodge')
            R.check('hodge of %d-forms%s %s' % (k, ' inverse' if inv else '', nm), V + 'hodge', t)

    for interior in (False, True):
        def t(interior=interior):
            # fractional positions, also outside of the first period
            base = [np.array(x) for x in G.points]
            fr = [np.zeros(n)] + [np.array(f) for f in itertools.product((0.25, 0.5), repeat=n)][:3]
            lo, hi = (0, 0) if interior else (-1, 1)
            pts, rows = [], []
            for x in base[::max(1, len(base) // 12)] + base[-1:]:
                for f in fr:
                    if interior and any(a + (b > 0) > s - 1 for a, b, s in zip(x, f, G.shape)):
                        continue
                    for k in range(lo, hi + 1):
                        pts.append((x + f + k * np.array(G.shape)) * G.scale)
                        row = np.zeros(G.size(0))
                        for o in itertools.product((0, 1), repeat=n):
                            row[G.at(0, x + np.array(o))] += np.prod([b if q else 1 - b for q, b in zip(o, f)])
                        rows.append(row)
            v = P.run(lambda w: w.meth(G.cplx(w), 'sample_0', P.field(G.sh(0), 'f'), P.arr(np.array(pts)), interior))
            return same(P.rows(v, [('f', G.size(0))]), np.array(rows), 'values at the sample points')
        R.check('sampling of 0-forms (%s) %s' % (interior, nm), V + 'sample_0', t)


# ------------------------------------------------------------------------------------------------ operator algebra
def algebra_rules(P, R, G, D):
    """sums, products, transposes and simplifications act like the matrices"""
    n, nm = G.n, G.name
    rng = np.random.RandomState(3)
    if len(D) < n:
        R.undecided.append('operator algebra %s (derivatives)' % nm)
        return
    O = S + 'operator.'
    diag = [small(rng, *G.sh(k)) for k in range(n + 1)]
    op = {}
    for k in range(n):
        op['d%d' % k] = (G.top('primal', k), D[k], k, k + 1)
        op['t%d' % k] = (G.top('dual', k), D[k].T, k + 1, k)
    for k in range(n + 1):
        mk = lambda w, k=k: w.make(O + 'DiagonalOperator', P.arr(diag[k]), w.tup(*G.sh(k)))
        op['D%d' % k] = (mk, np.diag(diag[k].ravel()), k, k)
        op['H%d' % k] = (G.cop('hodge', k), np.eye(G.size(k)) * G.scale ** (n - 2 * k), k, k)
        op['I%d' % k] = (lambda w, k=k: w.make(O + 'IdentityOperator', w.tup(*G.sh(k))), np.eye(G.size(k)), k, k)
        op['one%d' % k] = (lambda w, k=k: w.make(O + 'DiagonalOperator', P.arr(np.ones(G.sh(k))), w.tup(*G.sh(k))), np.eye(G.size(k)), k, k)
        op['nul%d' % k] = (lambda w, k=k: w.make(O + 'DiagonalOperator', P.arr(np.zeros(G.sh(k))), w.tup(*G.sh(k))), np.zeros((G.size(k),) * 2), k, k)
        for j in range(n + 1):
            op['Z%d%d' % (j, k)] = (lambda w, k=k, j=j: w.make(O + 'ZeroOperator', w.tup(w.tup(*G.sh(j)), w.tup(*G.sh(k)))), np.zeros((G.size(j), G.size(k))), k, j)
    mul = lambda w, a, b: P.eng.binop('Mult', a, b, w.st, None)
    add = lambda w, a, b: P.eng.binop('Add', a, b, w.st, None)

    def build(e):
        if isinstance(e, str):
            return op[e]
        if e[0] == 'T':
            f, M, a, b = build(e[1])
            return (lambda w: w.get(f(w), 'T')), M.T, b, a
        if e[0] == 'S':
            f, M, a, b = build(e[1])
            return (lambda w: w.meth(f(w), 'simplify')), M, a, b
        if e[0] == 'inv':
            f, M, a, b = build(e[1])
            return (lambda w: w.get(f(w), 'I')), np.linalg.inv(M), b, a
        f, M, a, b = build(e[1])
        g, N, c, d = build(e[2])
        if e[0] == '*':
            assert a == d, e
            return (lambda w: mul(w, f(w), g(w))), M.dot(N), c, b
        assert (a, b) == (c, d), e
        return (lambda w: add(w, f(w), g(w))), M + N, a, b

    def m(*x):
        r = x[0]
        for y in x[1:]:
            r = ('*', r, y)
        return r
    ex = [('T', 'D0'), ('inv', 'D0'), ('inv', 'I0'), ('inv', 'one0'), ('T', 'Z10'), 'Z10', 'I0', 'one0', 'nul0', ('S', 'nul0'), ('S', 'one0'), ('S', 'D1'),
          ('*', 'D1', 'H1'), ('*', 'H1', 'D1'), ('*', 'D0', 'I0'), ('*', 'I0', 'I0'), ('*', 'I0', 'D0'), ('*', 'D0', ('inv', 'D0')),
          ('+', 'D0', 'D0'), ('+', 'D0', 'nul0'), ('+', 'nul0', ('S', 'nul0')), ('+', ('S', 'nul0'), 'D0'), ('+', 'Z10', 'd0'), ('+', 'd0', 'Z10'), ('+', 'd0', 'd0'),
          ('+', ('+', 'D0', 'H0'), 'D0'), ('+', 'D0', ('+', 'H0', 'I0')), ('T', ('+', 'd0', ('*', 'd0', 'D0'))),
          ('*', ('+', 'D0', 'H0'), ('+', 'I0', 'D0')), ('*', 'nul1', 'd0'), ('*', 'd0', 'nul0'), ('*', 'one1', 'd0'), ('*', 'd0', 'one0'),
          m('t0', 'd0'), m('d0', 't0'), m('t0', 'D1', 'd0'), ('T', m('t0', 'D1', 'd0')), ('T', m('D1', 'd0', 'D0')), ('*', ('*', 'D1', 'd0'), ('*', 't0', 'D1')),
          ('*', 't0', ('*', 'H1', ('*', 'D1', 'd0'))), m('t0', 'H1', 'D1', 'd0'), m('t0', 'D1', 'H1', 'one1', 'd0', 'D0', 'H0'), ('S', m('t0', 'D1', 'd0')), ('+', m('t0', 'H1', 'd0'), 'H0'),
          ('+', m('t0', 'H1', 'd0'), m('t0', 'D1', 'd0')), ('T', ('+', m('t0', 'H1', 'd0'), m('D0', 't0', 'D1', 'd0'))),
          ('S', ('+', m('t0', 'H1', 'd0'), m('t0', 'D1', 'd0'))), m('Z10', 't0'), m('t0', 'Z10'), ('S', ('+', ('+', 'd0', 'Z10'), ('*', 'd0', 'D0'))), ('S', ('+', 'Z10', ('+', ('*', 'D1', 'd0'), 'd0'))), m('Z01', 'd0'), ('T', m('D1', 'Z10')), ('T', ('*', 'd0', 'nul0'))]
    if n > 1:
        ex += [m('d1', 'd0'), m('t0', 't1'), ('T', m('d1', 'd0')), m('d1', 'D1', 'd0'), m('t0', 'D1', 't1'), m('d1', 'one1', 'd0'), m('d1', 'H1', 'd0'), ('+', m('t1', 'd1'), m('d0', 't0')), m('d0', 't0', 't1'),
               ('*', ('*', 'd1', 'D1'), ('*', 'D1', 'd0')), ('*', 't1', ('*', 'd1', 'd0')), ('*', ('T', 'd0'), ('T', 'd1')), ('T', ('+', m('t1', 'd1'), m('d0', 't0'))), ('*', 'd1', ('+', 'd0', ('*', 'D1', 'd0')))]
    if n > 2:
        ex += [m('d2', 'd1'), m('t1', 't2'), m('d2', 'D2', 'd1'), ('+', m('t2', 'd2'), m('d1', 't1'))]
    for e in ex:
        def t(e=e):
            f, X, a, b = build(e)
            M, r = G.matrix(f, a, b)
            return r or same(M, X, 'action')
        s = str(e).replace("'", '').replace(' ', '')
        R.check('operator %s %s' % (s, nm), O + 'StencilOperator', t)

        def t(e=e):
            f, X, a, b = build(e)
            M, r = G.matrix(f, b, a, T=True)
            return r or same(M, X.T, 'action of the transpose')
        R.check('operator %s transposed %s' % (s, nm), O + 'StencilOperator', t)

        def t(e=e):
            f, X, a, b = build(e)
            sh = P.table(lambda w: w.get(f(w), 'shape'))
            sh = tuple(tuple(int(x) for x in y) for y in sh)
            return None if sh == (G.sh(b), G.sh(a)) else 'shape %s instead of %s' % (sh, (G.sh(b), G.sh(a)))
        R.check('operator %s shape %s' % (s, nm), O + 'StencilOperator', t)
    for e in ('d0', 'D0', ('+', m('t0', 'D1', 'd0'), 'D0')):
        def t(e=e):
            f, X, a, b = build(e)
            return same(np.array(P.numbers(P.run(lambda w: w.meth(f(w), 'to_dense'))), float), X, 'dense form')
        R.check('operator %s dense %s' % (str(e), nm), O + 'StencilOperator.to_dense', t)


# ------------------------------------------------------------------------------------------------ blocks and systems
class Blocks(object):
    def __init__(self, P, G):
        self.P, self.G = P, G

    def vec(self, w, ks, name, level=0):
        return w.make(S + 'block.BlockArray', w.lst([self.P.field(self.G.sh(k, level), '%s%d' % (name, i)) for i, k in enumerate(ks)]), ndim=1)

    def names(self, ks, name, level=0):
        return [('%s%d' % (name, i), self.G.size(k, level)) for i, k in enumerate(ks)]

    def blocks(self, w, v):
        b = w.get(v, 'block')
        if isinstance(b, Arr):
            c = self.P.eng.content(b, w.st)
            if c.kind == 'obj' and c.items is not None:
                return list(c.items)
        raise Undecided('not a block array')

    def stack(self, w, v, names):
        real, fold.REAL = fold.REAL, True
        try:
            bs = self.blocks(w, v)
        finally:
            fold.REAL = real
        return np.concatenate([self.P.rows(b, names) for b in bs], axis=0)

    def op_matrix(self, build, cols, level=0):
        """matrix of a block operator"""
        P = self.P
        v = P.run(lambda w: P.eng.binop('Mult', build(w), self.vec(w, cols, 'x', level), w.st, None))
        return self.stack(P.w, v, self.names(cols, 'x', level))


def linop(P, build, name, X):
    def f(w):
        A = build(w)
        if not isinstance(A, ExtObj) or A.type != 'linop' or A.kw.get(name) is None:
            raise Undecided('not a linear operator')
        sh = A.kw.get('shape')
        return w.lst([sh, w.eng.call(A.kw[name], [P.field((X.shape[1],), 'v', 'float')], {}, w.st, None)])
    v = P.run(f)
    sh, r = P.eng.lst(P.w.st, v).items
    sh = tuple(int(i) for i in np.ravel(P.value(sh)))
    if sh != (X.shape if name == 'matvec' else X.shape[::-1]):
        return 'a linear operator of shape %s for a matrix of shape %s' % (sh, X.shape if name == 'matvec' else X.shape[::-1])
    if len(P.numbers(r).shape) != 1:
        return 'a result of shape %s' % (P.numbers(r).shape,)
    return same(P.rows(r, [('v', X.shape[1])]), X, name)


def canonical(G, D):
    n = G.n
    N = n + 1
    H = [np.eye(G.size(k)) * G.scale ** (n - 2 * k) for k in range(N)]
    A = [[np.zeros((G.size(i), G.size(j))) for j in range(N)] for i in range(N)]
    for i in range(N):
        A[i][i] = H[i]
    for i in range(n):
        A[i + 1][i] = H[i + 1].dot(D[i])
        A[i][i + 1] = D[i].T.dot(H[i + 1])
    return A


def system_rules(P, R, G, D):
    n, nm = G.n, G.name
    if len(D) < n:
        R.undecided.append('systems %s (derivatives)' % nm)
        return
    B = Blocks(P, G)
    L, K = S + 'linear_system.System.', S + 'block.BlockOperator.'
    A = canonical(G, D)
    ks = list(range(n + 1))
    full = np.block(A)
    sysm = lambda w: w.meth(w.klass(S + 'linear_system.System'), 'canonical', G.cplx(w))
    get = lambda *a: (lambda w: chain(w, sysm(w), a))

    def chain(w, o, a):
        for x in a:
            o = w.meth(o, x[:-2]) if x.endswith('()') else w.get(o, x)
        return o

    def sl(w, *s):
        from .values import SliceV
        return w.tup(*[SliceV(a, b, None) for a, b in s])

    def eq(name, where, build, X, cols=ks, level=0):
        def t():
            M = B.op_matrix(build, cols, level)
            return same(M, X, name)
        R.check('%s %s' % (name, nm), where, t)
    eq('canonical system', L + 'canonical', get('A'), full)
    eq('canonical right hand side', L + 'canonical', get('B'), np.eye(len(full)))
    eq('transposed canonical system', K + 'transpose', get('A', 'transpose()'), full.T)
    eq('normal equations', L + 'normal', get('normal()', 'A'), full.T.dot(full))
    eq('right hand side of the normal equations', L + 'normal', get('normal()', 'B'), full.T)
    eq('normal equations of the second kind', L + 'normal_ne', get('normal_ne()', 'A'), full.dot(full.T))
    eq('right hand side of the normal equations of the second kind', L + 'normal_ne', get('normal_ne()', 'B'), np.eye(len(full)))
    eq('simplified system', K + 'simplify', get('A', 'simplify()'), full)
    eq('copied system', L + 'copy', get('copy()', 'A'), full)
    eq('square of the canonical system', K + '__mul__', lambda w: P.eng.binop('Mult', w.get(sysm(w), 'A'), w.get(sysm(w), 'A'), w.st, None), full.dot(full))
    eq('sum of block operators', K + '__add__', lambda w: P.eng.binop('Add', w.get(sysm(w), 'A'), w.meth(w.get(sysm(w), 'A'), 'transpose'), w.st, None), full + full.T)
    subs = [((0, 2), (0, 2))]
    if n > 1:
        subs += [((0, 2), (1, 3)), ((1, 3), (0, 3)), ((0, 3), (0, 2))]
    for r, c in subs:
        X = np.block([[A[i][j] for j in range(*c)] for i in range(*r)])
        Y = np.eye(sum(G.size(i) for i in range(*r)))
        sub = lambda w, r=r, c=c: G.it(w, sysm(w), sl(w, r, c))
        cols, rows = list(range(*c)), list(range(*r))
        s = '[%d:%d,%d:%d]' % (r + c)
        eq('subsystem %s' % s, L + '__getitem__', lambda w, sub=sub: w.get(sub(w), 'A'), X, cols)
        eq('right hand side of subsystem %s' % s, L + '__getitem__', lambda w, sub=sub: w.get(sub(w), 'B'), Y, rows)
        eq('normal equations of subsystem %s' % s, L + 'normal', lambda w, sub=sub: w.get(w.meth(sub(w), 'normal'), 'A'), X.T.dot(X), cols)
        eq('right hand side of the normal equations of subsystem %s' % s, L + 'normal', lambda w, sub=sub: w.get(w.meth(sub(w), 'normal'), 'B'), X.T, rows)
        eq('normal equations of the second kind of subsystem %s' % s, L + 'normal_ne', lambda w, sub=sub: w.get(w.meth(sub(w), 'normal_ne'), 'A'), X.dot(X.T), rows)
        for q, form, kinds in (('normal', 'L', cols), ('normal', 'R', cols), ('normal_ne', 'L', rows), ('normal_ne', 'R', rows)):
            def t(q=q, form=form, kinds=kinds, sub=sub):
                v = [int(x) for x in np.ravel(P.table(lambda w: w.get(w.meth(sub(w), q), form)))]
                return None if v == kinds else 'forms %s instead of %s' % (v, kinds)
            R.check('forms (%s) of the %s equations of subsystem %s %s' % (form, q, s, nm), L + q, t)
        nrm = lambda w, sub=sub: w.meth(sub(w), 'normal')
        for kinds, alloc in ((cols, 'allocate_y'), (cols, 'allocate_x')):
            def t(kinds=kinds, alloc=alloc, nrm=nrm):
                b = B.blocks(P.w, P.run(lambda w: w.meth(nrm(w), alloc)))
                sh = [tuple(P.numbers(x).shape) for x in b]
                return None if sh == [G.sh(k) for k in kinds] else 'blocks of shape %s' % sh
            R.check('%s of the normal equations of subsystem %s %s' % (alloc, s, nm), L + 'normal', t)
        for mv, Z in (('matvec', X), ('rmatvec', X.T)):
            def t(mv=mv, sub=sub, Z=Z):
                return linop(P, lambda w: w.meth(w.get(sub(w), 'A'), 'aslinearoperator'), mv, Z)
            R.check('%s of the linear operator of subsystem %s %s' % (mv, s, nm), K + 'aslinearoperator', t)
        for which, kinds, alloc in (('L', rows, 'allocate_y'), ('R', cols, 'allocate_x')):
            def t(which=which, kinds=kinds, sub=sub):
                v = [int(x) for x in np.ravel(P.table(lambda w: w.get(sub(w), which)))]
                return None if v == kinds else 'forms %s instead of %s' % (v, kinds)
            R.check('forms (%s) of subsystem %s %s' % (which, s, nm), L + '__getitem__', t)

            def t(alloc=alloc, kinds=kinds, sub=sub):
                b = B.blocks(P.w, P.run(lambda w: w.meth(sub(w), alloc)))
                sh = [tuple(P.numbers(x).shape) for x in b]
                return None if sh == [G.sh(k) for k in kinds] else 'blocks of shape %s' % sh
            R.check('%s of subsystem %s %s' % (alloc, s, nm), L + alloc, t)
    # the flattened forms handed to external solvers
    nf = len(full)
    for what, b, X, k in (('system', get('A'), full, K), ('transposed system', get('A', 'transpose()'), full.T, K)):
        for mv, Y in (('matvec', X), ('rmatvec', X.T)):
            def t(b=b, mv=mv, Y=Y):
                return linop(P, lambda w: w.meth(b(w), 'aslinearoperator'), mv, Y)
            R.check('%s of the linear operator of the %s %s' % (mv, what, nm), k + 'aslinearoperator', t)
    for k in range(n):
        for mv, Y in (('matvec', D[k]), ('rmatvec', D[k].T)):
            def t(k=k, mv=mv, Y=Y):
                return linop(P, lambda w: w.meth(G.top('primal', k)(w), 'aslinearoperator'), mv, Y)
            R.check('%s of the linear operator of derivative %d %s' % (mv, k, nm), S + 'operator.StencilOperator.aslinearoperator', t)
    # diagonals of operators whose stencil reaches the nearest neighbours
    rng = np.random.RandomState(5)
    for what, X, b in (('canonical', full, get('A')), ('normal', full.T.dot(full), get('normal()', 'A')), ('normal_ne', full.dot(full.T), get('normal_ne()', 'A'))):
        def t(X=X, b=b):
            if any(s % 2 for s in G.shape) or min(G.shape) < 4:
                raise Undecided('small template')
            v = P.run(lambda w: w.meth(b(w), 'diagonal'))
            M = np.concatenate([np.ravel(P.numbers(x)).astype(float) for x in B.blocks(P.w, v)])
            return same(M, np.diag(X), 'diagonal')
        if min(G.shape) >= 4:
            R.check('diagonal of the %s system %s' % (what, nm), K + 'diagonal', t)

    def t():
        v = P.run(lambda w: w.meth(w.get(sysm(w), 'A'), 'to_dense'))
        return same(np.array(P.numbers(v), float), full, 'dense form')
    if len(full) <= 60:
        R.check('dense canonical system %s' % nm, K + 'to_dense', t)

    def t():
        v = P.run(lambda w: (lambda x: w.meth(x, 'from_dense', w.meth(x, 'to_dense')))(B.vec(w, ks, 'x')))
        sh = [tuple(P.numbers(x).shape) for x in B.blocks(P.w, v)]
        if sh != [G.sh(k) for k in ks]:
            return 'blocks of shape %s' % sh
        return same(B.stack(P.w, v, B.names(ks, 'x')), np.eye(len(full)), 'round trip')
    R.check('from_dense inverts to_dense %s' % nm, S + 'block.BlockArray.from_dense', t)
    two = np.eye(len(full))
    for o, c in (('Add', 1), ('Sub', -1)):
        def t(o=o, c=c):
            v = P.run(lambda w: P.eng.binop(o, B.vec(w, ks, 'x'), B.vec(w, ks, 'y'), w.st, None))
            return same(B.stack(P.w, v, B.names(ks, 'x') + B.names(ks, 'y')), np.concatenate([two, c * two], axis=1), o)
        R.check('block arrays %s %s' % (o, nm), S + 'block.BlockArray', t)

    def t():
        v = P.run(lambda w: P.eng.binop('Mult', B.vec(w, ks, 'x'), 2.5, w.st, None))
        return same(B.stack(P.w, v, B.names(ks, 'x')), 2.5 * two, 'multiple')
    R.check('block arrays times a number %s' % nm, S + 'block.BlockArray', t)

    def t():
        v = P.run(lambda w: w.meth(B.vec(w, ks, 'x'), 'sum'))
        return same(P.rows(v, B.names(ks, 'x')), np.ones((1, len(full))), 'sum')
    R.check('sum of a block array %s' % nm, S + 'block.BlockArray.sum', t)
    if all(s % 2 == 0 for s in G.shape):
        C = []
        try:
            for k in ks:
                M, e = G.matrix(G.cop('coarsen', k), k, k, fine_out=-1)
                C.append(M)
        except Undecided:
            C = None
        if C:
            for name, h in (('restrict_dual', True), ('restrict_primal', False)):
                def t(name=name, h=h):
                    v = P.run(lambda w: w.meth(sysm(w), name, B.vec(w, ks, 'x')))
                    M = B.stack(P.w, v, B.names(ks, 'x'))
                    X = np.zeros_like(M)
                    r = c = 0
                    for k in ks:
                        f = (2 * G.scale) ** (n - 2 * k) / G.scale ** (n - 2 * k) if h else 1
                        X[r:r + len(C[k]), c:c + G.size(k)] = C[k] * f
                        r, c = r + len(C[k]), c + G.size(k)
                    return same(M, X, 'restriction')
                R.check('%s %s' % (name, nm), L + name, t)


# ------------------------------------------------------------------------------------------------ diffusion
class Diffusion(object):
    def __init__(self, P, G, D, kind, fields=None):
        self.P, self.G, self.kind = P, G, kind
        self.B = Blocks(P, G)
        rng = np.random.RandomState(7)
        self.f = {'constraint': small(rng, *G.sh(0)), 'conductance': small(rng, *G.sh(1)), 'resistance': small(rng, *G.sh(1)), 'foo': small(rng, *G.sh(1))}
        self.f = fields or self.f
        A = canonical(G, D)
        F = {k: np.diag(v.ravel()) for k, v in self.f.items()}
        if kind == 'formulate':
            self.rows, self.cols = [0, 1], [0, 1]
            A[0][0] = -A[0][0].dot(F['constraint'])
            A[0][1] = A[0][1].dot(F['conductance'])
            A[1][1] = A[1][1].dot(F['resistance'])
            A[1][0] = F['foo'].dot(A[1][0])
        elif kind == 'formulate_flux_only':
            self.rows, self.cols = [0, 2], [1]
            A[0][1] = A[0][1].dot(F['conductance'])
            A[2][1] = A[2][1].dot(F['resistance'])
        else:
            self.rows, self.cols = [0, 1, 2], [0, 1]
            A[0][0] = -A[0][0].dot(F['constraint'])
            A[0][1] = A[0][1].dot(F['conductance'])
            A[1][1] = A[1][1].dot(F['resistance'])
            A[2][1] = A[2][1].dot(F['resistance'])
        self.A = np.block([[A[i][j] for j in self.cols] for i in self.rows])

    def build(self, w):
        return w.meth(w.klass(S + 'diffusion.Diffusion'), self.kind, self.G.cplx(w), w.dict({k: self.P.arr(v) for k, v in self.f.items()}))


def diffusion_rules(P, R, G, D):
    nm = G.name
    if len(D) < G.n:
        R.undecided.append('diffusion %s (derivatives)' % nm)
        return
    for kind in ('formulate', 'formulate_flux_only', 'formulate_all'):
        if G.n < 2 and kind != 'formulate':
            continue
        E = Diffusion(P, G, D, kind)

        def t(E=E):
            M = E.B.op_matrix(lambda w: w.get(w.get(E.build(w), 'system'), 'A'), E.cols)
            return same(M, E.A, 'system matrix')
        R.check('diffusion %s %s' % (kind, nm), S + 'diffusion.Diffusion.' + kind, t)

        def t(E=E):
            v = P.run(lambda w: w.meth(E.build(w), 'residual', E.B.vec(w, E.cols, 'x'), E.B.vec(w, E.rows, 'y')))
            M = E.B.stack(P.w, v, E.B.names(E.cols, 'x') + E.B.names(E.rows, 'y'))
            return same(M, np.concatenate([E.A, -np.eye(len(E.A))], axis=1), 'residual Ax-By')
        R.check('residual of diffusion %s %s' % (kind, nm), S + 'equation.Equation.residual', t)


def run(repo, tier):
    P, R = LinProp(repo), Report()
    shapes = [(4,), (4, 6), (2, 4, 4)]
    if tier == 'thorough':
        shapes += [(6,), (8, 4), (3, 5), (4, 4, 2), (2, 2, 4, 2)]
    for s in shapes:
        try:
            G = Grid(P, s)
        except Undecided as e:
            R.undecided.append('grid %s (%s)' % (s, e))
            continue
        D = topology_rules(P, R, G)
        transfer_rules(P, R, G)
    for s in [(3,), (2, 3), (2, 2, 3)] + ([(5,), (3, 4)] if tier == 'thorough' else []):
        try:
            G = Grid(P, s)
        except Undecided as e:
            R.undecided.append('grid %s (%s)' % (s, e))
            continue
        algebra_rules(P, R, G, topology_rules(P, R, G))
    for s in [(4,), (4, 4)] + ([(8,), (4, 6), (2, 4, 4)] if tier == 'thorough' else []):
        try:
            G = Grid(P, s)
        except Undecided as e:
            R.undecided.append('grid %s (%s)' % (s, e))
            continue
        D = topology_rules(P, Report(), G)
        system_rules(P, R, G, D)
        diffusion_rules(P, R, G, D)
    return P, R
