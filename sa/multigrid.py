"""C14 (multigrid cycles, smoothers and solver interfaces): the formulas that the source computes, derived by
propagating linear forms through the cycles applied to abstract equations, and through the equations of the library."""
import numpy as np
from .grid import LinProp, same
from .templates import Report, Undecided
from .values import Arr, Inst, ExtObj
from .linear import sym
from .stencil import S, Blocks, Grid, Diffusion, topology_rules, small
from . import fold, extmodel
from .values import C

MG, EQ, DF = S + 'multigrid.', S + 'equation.', S + 'diffusion.Diffusion'
WITNESS = '''
from pycomplex.stencil.multigrid import MultiGridEquation

class Witness(MultiGridEquation):
    """an abstract member of a multigrid hierarchy: every operation is a generic matrix"""
    def __init__(self, A, B, M, N, R, P, K, coarse, tag):
        self.A, self.B, self.M, self.N, self.R, self.P, self.K = A, B, M, N, R, P, K
        self.coarse = coarse
        self.tag = tag

    def residual(self, x, y):
        return self.A.dot(x) - self.B.dot(y)

    def smooth(self, x, y, base=0.5):
        return self.M.dot(x) + self.N.dot(y)

    def solve(self, y, x0=None, **kwargs):
        return self.K.dot(y)

    def restrict(self, y):
        return self.R.dot(y)

    def interpolate(self, x):
        return self.P.dot(x)
'''


class Level(object):
    """the matrices of one level"""
    def __init__(self, rng, n, m):
        self.n = n
        for k, sh in dict(A=(n, n), B=(n, n), M=(n, n), N=(n, n), R=(m, n), P=(n, m), K=(n, n)).items():
            setattr(self, k, small(rng, *sh) / 8)


class Hierarchy(object):
    def __init__(self, P, levels):
        rng = np.random.RandomState(11)
        self.P = P
        sizes = [2, 3, 4][:levels] if levels < 3 else [3] * levels     # (equal sizes: a confusion of levels stays a number)
        self.levels = [Level(rng, n, sizes[max(i - 1, 0)]) for i, n in enumerate(sizes)]      # coarsest first
        self.n = self.levels[-1].n

    def build(self, w):
        o = None
        r = []
        for i, l in enumerate(self.levels):
            o = w.make('witness_.Witness', *([self.P.arr(getattr(l, k)) for k in 'A B M N R P K'.split()] + [o, i]))
            r.append(o)
        return r

    def listed(self, w):
        return w.lst(self.build(w))

    def v(self, k=None):
        """(Vx, Vy): the documented cycle is Vx x + Vy y"""
        k = len(self.levels) - 1 if k is None else k
        l = self.levels[k]
        n = l.n
        if k == 0:
            return np.zeros((n, n)), l.K
        X, Y = l.M, l.N                                      # presmooth
        _, c = self.v(k - 1)                                 # (starts from zero)
        E = l.P.dot(c).dot(l.R)
        X, Y = X - E.dot(l.A).dot(X), Y - E.dot(l.A.dot(Y) - l.B)
        return l.M.dot(X), l.M.dot(Y) + l.N

    def full(self, its, k=None):
        k = len(self.levels) - 1 if k is None else k
        l = self.levels[k]
        if k == 0:
            return l.K
        Y = l.P.dot(self.full(its, k - 1)).dot(l.R)
        Vx, Vy = self.v(k)
        for i in range(its):
            Y = Vx.dot(Y) + Vy
        return Y


def cycle_rules(P, R, levels):
    H = Hierarchy(P, levels)
    n = H.n
    nm = '(%d levels)' % levels
    x, y = lambda: P.field((n,), 'x', 'float'), lambda: P.field((n,), 'y', 'float')
    names = [('x', n), ('y', n)]
    Vx, Vy = H.v()

    def eq(name, f, X, Y, where):
        def t():
            return same(P.rows(P.run(f), names), np.concatenate([X, Y], axis=1), name)
        R.check(name + ' ' + nm, MG + where, t)
    Z = np.zeros((n, n))
    eq('v-cycle is smooth, coarse correction of the residual, smooth', lambda w: w.fn(MG + 'v_cycle', H.listed(w), y(), x()), Vx, Vy, 'v_cycle')
    eq('v-cycle without a guess starts at zero', lambda w: w.fn(MG + 'v_cycle', H.listed(w), y()), Z, Vy, 'v_cycle')
    for its in (0, 1, 2, 3):
        X, Y = np.eye(n), Z
        for i in range(its):
            X, Y = Vx.dot(X), Vx.dot(Y) + Vy
        eq('%d repeated v-cycles' % its, lambda w: w.fn(MG + 'solve_v_cycle', H.listed(w), y(), x(), iterations=its), X, Y, 'solve_v_cycle')
    for its in (0, 1, 2):
        eq('full cycle with %d corrections' % its, lambda w: w.fn(MG + 'solve_full_cycle', H.listed(w), y(), iterations=its), Z, H.full(its), 'solve_full_cycle')
    eq('full cycle does two corrections', lambda w: w.fn(MG + 'solve_full_cycle', H.listed(w), y()), Z, H.full(2), 'solve_full_cycle')

    def t():
        def f(w):
            h = w.meth(H.build(w)[-1], 'hierarchy', levels - 1)
            return w.lst([w.get(o, 'tag') for o in P.eng.lst(w.st, h).items])
        v = [int(i) for i in np.ravel(P.table(f))]
        return None if v == list(range(levels)) else 'the equations come in order %s (0 is the coarsest)' % v
    R.check('hierarchy runs from the coarsest to the finest equation %s' % nm, MG + 'MultiGridEquation.hierarchy', t)


class Solver(object):
    """records what an external solver is asked to solve"""
    NAMES = ['scipy.sparse.linalg.' + k for k in ('minres', 'qmr', 'cg', 'gmres', 'bicg', 'bicgstab', 'lgmres')]

    def __enter__(self):
        self.old = {k: extmodel.F[k] for k in self.NAMES}
        self.asked = []
        for k in self.NAMES:
            extmodel.F[k] = self.model
        return self

    def __exit__(self, *a):
        extmodel.F.update(self.old)

    def model(self, eng, st, a, kw, node):
        g = lambda i, n: a[i] if len(a) > i else kw.get(n)
        A, b, x0 = g(0, 'A'), g(1, 'b'), g(2, 'x0')
        c = eng.content(b, st) if isinstance(b, Arr) else None
        if c is None or c.shape is None or not isinstance(c.shape[0], int):
            self.asked.append(None)
            return extmodel.N().top_arr(eng, st, a)
        self.asked.append((A, b, x0))
        x = Arr(C(shape=c.shape, dtype='float', deg=0, tr=0, lin=(), items=tuple(sym(('m', i)) for i in range(c.shape[0]))))
        return eng.mklist(st, [x, Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))], 'tuple')


def matvec(P, w, A, v, name='matvec'):
    if isinstance(A, ExtObj) and A.type == 'linop' and A.kw.get(name) is not None:
        return w.eng.call(A.kw[name], [v], {}, w.st, None)
    raise Undecided('not a linear operator')


def equation_rules(P, R, G, D):
    nm = G.name
    if len(D) < G.n:
        R.undecided.append('equations %s (derivatives)' % nm)
        return
    E = Diffusion(P, G, D, 'formulate')
    B, A, n = E.B, E.A, len(E.A)
    ks = E.cols
    N = A.T.dot(A)
    I, Z = np.eye(n), np.zeros((n, n))
    names = B.names(ks, 'x') + B.names(ks, 'y')
    d = 1 / np.diag(N)
    dn = 1 / np.diag(A.dot(A.T))
    xy = lambda w: (B.vec(w, ks, 'x'), B.vec(w, ks, 'y'))
    chk = lambda name, where, t: R.check('%s %s' % (name, nm), where, t)

    def eq(name, where, f, X, Y):
        def t():
            M = B.stack(P.w, P.run(f), names)
            return same(M, np.concatenate([X, Y], axis=1), name)
        chk(name, where, t)
    NE = EQ + 'NormalSmoothEquation.'

    def J(r):
        return I - d[:, None] * N * r / 2, d[:, None] * A.T * r / 2
    for r in (1, .5):
        eq('jacobi step (relaxation %s)' % r, NE + 'jacobi', lambda w: w.meth(E.build(w), 'jacobi', *xy(w), relaxation=r), *J(r))
    eq('jacobi step (default relaxation)', NE + 'jacobi', lambda w: w.meth(E.build(w), 'jacobi', *xy(w)), *J(1))

    def chain(ks):
        X, Y = I, Z
        for k in ks:
            a, b = J(k)
            X, Y = a.dot(X), a.dot(Y) + b
        return X, Y
    eq('overrelaxation at given knots', NE + 'overrelax', lambda w: w.meth(E.build(w), 'overrelax', *(xy(w) + (w.lst([.5, 1.5]),))), *chain([.5, 1.5]))
    eq('smoothing', NE + 'smooth', lambda w: w.meth(E.build(w), 'smooth', *xy(w)), *chain([.5, 1.25, 2.]))
    eq('smoothing with another base', NE + 'smooth', lambda w: w.meth(E.build(w), 'smooth', *xy(w), base=.25), *chain([.25, .625, 1.]))

    # the exact solution is a fixed point of every smoother
    def exact(w, x):
        return P.eng.binop('Mult', w.get(w.get(E.build(w), 'system'), 'A'), x, w.st, None)
    for name in ('jacobi', 'smooth', 'NR_BLOCK_GS', 'NE_BLOCK_GS'):
        def t(name=name):
            def f(w):
                x = B.vec(w, ks, 'x')
                return w.meth(E.build(w), name, x, exact(w, x))
            return same(B.stack(P.w, P.run(f), B.names(ks, 'x')), I, 'the exact solution after ' + name)
        chk('%s keeps the exact solution' % name, NE + name, t)
    # block Gauss-Seidel on the normal equations: one block after the other, with the current values
    off = np.cumsum([0] + [G.size(k) for k in ks])
    X, Y = I, Z
    for a, b in zip(off[:-1], off[1:]):
        X, Y = X.copy(), Y.copy()
        rx, ry = N[a:b].dot(X), N[a:b].dot(Y) - A.T[a:b]
        X[a:b] -= d[a:b, None] * rx / 2
        Y[a:b] -= d[a:b, None] * ry / 2
    eq('block Gauss-Seidel on the normal equations', NE + 'NR_BLOCK_GS', lambda w: w.meth(E.build(w), 'NR_BLOCK_GS', *xy(w)), X, Y)
    X, Y = I, Z
    for a, b in zip(off[:-1], off[1:]):
        rx, ry = A[a:b].dot(X), A[a:b].dot(Y) - I[a:b]
        X = X - A[a:b].T.dot(dn[a:b, None] * rx / 2)
        Y = Y - A[a:b].T.dot(dn[a:b, None] * ry / 2)
    eq('block Gauss-Seidel on the rows', NE + 'NE_BLOCK_GS', lambda w: w.meth(E.build(w), 'NE_BLOCK_GS', *xy(w)), X, Y)
    for name, x in (('inverse_normal_diagonal', d), ('inverse_normal_ne_diagonal', dn)):
        def t(name=name, x=x):
            v = P.run(lambda w: w.get(E.build(w), name))
            return same(np.concatenate([np.ravel(P.numbers(b)).astype(float) for b in B.blocks(P.w, v)]), x, name)
        chk(name, NE + name, t)

    # what external solvers are asked to solve
    for name, M, Y, where in (('solve_minres', A, I, 'Equation.solve_minres'), ('solve_qmr', A, I, 'Equation.solve_qmr'),
                              ('solve_minres_normal', N, A.T, 'Equation.solve_minres_normal'), ('solve', N, A.T, 'Equation.solve')):
        for guess in (True, False):
            if name == 'solve_qmr' and not guess:
                continue

            def t(name=name, M=M, Y=Y, guess=guess):
                with Solver() as s:
                    y0 = {}

                    def f(w):
                        x, y = xy(w)
                        o = w.meth(E.build(w), name, y, *([x] if guess else []))
                        y0['o'] = o
                        if len(s.asked) != 1 or s.asked[0] is None:
                            raise Undecided('%d solver calls' % len(s.asked))
                        a, b, g = s.asked[0]
                        return w.lst([matvec(P, w, a, P.field((n,), 'v', 'float')), b] + ([g] if isinstance(g, Arr) else []))
                    v = P.run(f)
                    its = P.eng.lst(P.w.st, v).items
                e = same(P.rows(its[0], [('v', n)]), M, 'the matrix handed to the solver') or \
                    same(P.rows(its[1], names), np.concatenate([Z, Y], axis=1), 'the right hand side handed to the solver')
                if not e and len(its) > 2:
                    e = same(P.rows(its[2], names), np.concatenate([I if guess else Z, Z], axis=1), 'the first guess handed to the solver')
                return e or same(B.stack(P.w, y0['o'], [('m', n)]), I, 'the returned solution, in terms of that of the solver')
            chk('%s hands its equation to the solver%s' % (name, '' if guess else ', without a guess'), EQ + where, t)
    if any(s % 2 or s < 4 for s in G.shape):
        return
    # transfers between the levels of a hierarchy
    try:
        Gc = Grid(P, tuple(s // 2 for s in G.shape), G.scale * 2)
        Cs, Rs = [], []
        for k in ks:
            M, e = G.matrix(G.cop('coarsen', k), k, k, fine_out=-1)
            Cs.append(M)
            M, e = G.matrix(G.cop('refine', k), k, k, fine_in=-1)
            Rs.append(M)
    except Undecided as e:
        R.undecided.append('transfers %s (%s)' % (nm, e))
        return
    nc = sum(Gc.size(k) for k in ks)

    def diag(Ms):
        X = np.zeros((sum(len(m) for m in Ms), sum(m.shape[1] for m in Ms)))
        r = c = 0
        for m in Ms:
            X[r:r + m.shape[0], c:c + m.shape[1]] = m
            r, c = r + m.shape[0], c + m.shape[1]
        return X
    h = [(2 * G.scale) ** (G.n - 2 * k) / G.scale ** (G.n - 2 * k) for k in ks]
    for name, X in (('restrict', diag([f * m for f, m in zip(h, Cs)])), ('restrict_dual', diag([f * m for f, m in zip(h, Cs)])), ('restrict_primal', diag(Cs))):
        def t(name=name, X=X):
            v = P.run(lambda w: w.meth(E.build(w), name, B.vec(w, ks, 'x')))
            return same(B.stack(P.w, v, B.names(ks, 'x')), X, name)
        chk('%s of the equation' % name, DF + '.' + name, t)

    def t():
        v = P.run(lambda w: w.meth(E.build(w), 'interpolate', B.vec(w, ks, 'x', -1)))
        return same(B.stack(P.w, v, B.names(ks, 'x', -1)), diag(Rs), 'interpolate')
    chk('interpolate of the equation', DF + '.interpolate', t)

    def t():
        # the coarse equation: the same formulation of coarsened fields on the coarse complex
        Dc = topology_rules(P, Report(), Gc)
        if len(Dc) < Gc.n:
            raise Undecided('derivatives')
        f = {k: (Cs[0 if k == 'constraint' else 1].dot(v.ravel())).reshape(Gc.sh(0 if k == 'constraint' else 1)) for k, v in E.f.items()}
        Ec = Diffusion(P, Gc, Dc, 'formulate', f)
        Bc = Blocks(P, Gc)
        M = Bc.op_matrix(lambda w: w.get(w.get(w.get(E.build(w), 'coarse'), 'system'), 'A'), ks)
        return same(M, Ec.A, 'matrix of the coarse equation')
    chk('coarse equation', DF + '.coarse', t)


def run(repo, tier):
    P, R = LinProp(repo, {'pycomplex.witness_': WITNESS}), Report()
    for k in (1, 2, 3):
        cycle_rules(P, R, k)
    for s in [(4,), (2, 2), (4, 4)] + ([(6,), (8,), (4, 6), (4, 4, 4)] if tier == 'thorough' else []):
        try:
            G = Grid(P, s)
        except Undecided as e:
            R.undecided.append('grid %s (%s)' % (s, e))
            continue
        equation_rules(P, R, G, topology_rules(P, Report(), G))
    return P, R
