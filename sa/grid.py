"""Propagation of linear forms through the operators of the library: derives the matrix of an operator on a
small template from its source, for comparison with the matrices its definition implies."""
import numpy as np
from . import fold, scenarios, linear
from .linear import Lin, sym
from .templates import Prop, Report, Undecided, Unset
from .values import Arr, C, ListV

TOL = 1e-5


class LinProp(Prop):
    def run(self, f):
        real, fold.REAL = fold.REAL, True
        try:
            self.eng.viewpos = {}
            return Prop.run(self, f)
        finally:
            fold.REAL = real

    def arr(self, a, dtype='float', name=None):
        a = np.asarray(a)
        its = tuple(x if isinstance(x, Lin) else (float(x) if a.dtype.kind == 'f' else int(x) if not isinstance(x, float) else x) for x in a.ravel())
        return Arr(C(shape=a.shape, dtype=dtype, deg=0, tr=0, lin=(), items=its))

    def syms(self, shape, name='f'):
        a = np.empty(int(np.prod(shape)), dtype=object)
        for i in range(a.size):
            a[i] = sym((name, i))
        return a.reshape(shape)

    def field(self, shape, name='f', dtype='float32'):
        return self.arr(self.syms(shape, name), dtype)

    def numbers(self, v):
        """numpy array (of numbers or linear forms) of an abstract value"""
        real, fold.REAL = fold.REAL, True
        limit, fold.LIMIT = fold.LIMIT, 6000
        try:
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return np.array(v)
            if isinstance(v, Arr):
                c = self.eng.content(v, self.w.st)
                if fold.is_const(c):
                    if any(x is fold.UNSET or isinstance(x, Lin) and any(k[0] == '?unset' for m in x.t for k in m) for x in c.items):
                        raise Unset('an entry of the result is never assigned, or depends on memory that was not')
                    if any(isinstance(x, fold.Poly) for x in c.items):
                        raise Undecided('not a number')
                    return fold.to_np(c)
            raise Undecided('not a linear form')
        finally:
            fold.REAL, fold.LIMIT = real, limit

    def rows(self, v, names):
        """matrix of the linear forms in v with respect to the fields (name, size)"""
        a = self.numbers(v).ravel()
        at, n = {}, 0
        for name, size in names:
            for i in range(size):
                at[name, i] = n + i
            n += size
        M = np.zeros((a.size, n))
        for r, x in enumerate(a):
            if isinstance(x, Lin):
                c = linear.coefficients(x)
                if c is None:
                    raise Undecided('not linear')
                for k, s in c[0].items():
                    if k not in at:
                        raise Undecided('other symbols')
                    M[r, at[k]] = s
                if abs(c[1]) > TOL:
                    raise Undecided('affine')
            elif abs(x) > TOL:
                raise Undecided('affine')
        return M

    def matrix(self, build, shape, name='f'):
        """(matrix, output shape) of the operator built by build(w) on a field of the given shape"""
        def f(w):
            return self.apply(w, build(w), self.field(shape, name))
        v = self.run(f)
        return self.rows(v, [(name, int(np.prod(shape)))]), tuple(self.numbers(v).shape)

    def apply(self, w, op, x):
        return w.eng.call(op, [x], {}, w.st, None)


def same(a, b, what):
    if a.shape != b.shape:
        return '%s: a matrix of shape %s instead of %s' % (what, a.shape, b.shape)
    d = np.abs(a - b)
    if (d > TOL).any():
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        return '%s: entry %s is %.4g instead of %.4g (%d entries differ)' % (what, tuple(map(int, i)), a[i], b[i], int((d > TOL).sum()))
    return None
