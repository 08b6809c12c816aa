"""Sparse matrices with known entries (the constant domain for scipy.sparse)."""
import numpy as np
from .linear import Lin


def dense(a):
    """(integers stay integers, linear forms make an array of objects)"""
    a = np.asarray(a)
    return a


def mul(a, b):
    if a.dtype == object or b.dtype == object:
        out = np.empty((a.shape[0],) + b.shape[1:], dtype=object)
        for i in range(a.shape[0]):
            if b.ndim == 1:
                out[i] = row(a[i], b)
            else:
                for j in range(b.shape[1]):
                    out[i, j] = row(a[i], b[:, j])
        return out
    return a.dot(b)


def zero(x):
    return not isinstance(x, Lin) and x == 0


def row(a, b):
    s = 0
    for x, y in zip(a, b):
        if not zero(x) and not zero(y):
            s = s + x * y
    return s


def nz(a):
    if a.dtype == object:
        m = np.array([not zero(x) for x in a.ravel()], dtype=bool)
        return m.reshape(a.shape)
    return a != 0


def nonneg(a):
    return a.dtype != object and bool((a >= 0).all())


def integral(a):
    return a.dtype.kind in 'iub' or a.dtype.kind == 'f' and bool((a == np.round(a)).all())


class SpM(object):
    """a: the entries; exact: the stored entries are the nonzero ones"""
    __array_ufunc__ = None
    __array_priority__ = 100.

    def __init__(self, a, exact=True, fmt='csr'):
        a = np.asarray(a)
        assert a.ndim == 2
        if a.dtype == bool:
            a = a.astype(np.int64) if fmt != 'bool' else a
        self.a, self.exact, self.fmt = a, exact, fmt
        self.shape = a.shape
        self.ndim = 2

    def mk(self, a, exact=None, fmt='csr'):
        return SpM(a, self.exact if exact is None else exact, fmt)

    # ---- algebra
    def __mul__(self, o):
        if isinstance(o, SpM):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            # (scipy does not store the zeros of a product or a sum)
            return SpM(mul(self.a, o.a), integral(self.a) and integral(o.a) or self.exact and o.exact and (nonneg(self.a) and nonneg(o.a) or self.diag() or o.diag()))
        if isinstance(o, np.ndarray) and o.ndim:
            if o.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            r = mul(self.a, np.asarray(o))
            return np.asmatrix(r) if isinstance(o, np.matrix) else r
        if isinstance(o, (int, float, Lin, np.generic)) or isinstance(o, np.ndarray):
            if isinstance(o, np.ndarray):
                o = o.item()
            return SpM(self.a * o, self.exact and not zero(o), self.fmt)
        return NotImplemented
    dot = __mul__

    def __matmul__(self, o):
        if isinstance(o, (SpM, np.ndarray)):
            return self * o
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            r = mul(np.atleast_2d(np.asarray(o)), self.a)
            return np.asmatrix(r) if isinstance(o, np.matrix) else r.reshape(o.shape[:-1] + (self.shape[1],))
        if isinstance(o, (int, float, Lin, np.generic)):
            return self * o
        return NotImplemented
    __rmatmul__ = __rmul__

    def diag(self):
        return self.shape[0] == self.shape[1] and not nz(self.a - np.diag(np.diagonal(self.a))).any() and nz(np.diagonal(self.a)).all() if self.a.dtype != object else False

    def __add__(self, o):
        if isinstance(o, SpM):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return SpM(self.a + o.a, integral(self.a) and integral(o.a) and 'dia' not in (self.fmt, o.fmt) or self.exact and o.exact and nonneg(self.a) and nonneg(o.a))
        if isinstance(o, (int, float)) and o == 0:
            return self
        if isinstance(o, np.ndarray) and o.ndim == 2 and o.shape == self.shape:
            return np.asmatrix(self.a + np.asarray(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SpM):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return SpM(self.a - o.a, False)
        if isinstance(o, (int, float)) and o == 0:
            return self
        if isinstance(o, np.ndarray) and o.ndim == 2 and o.shape == self.shape:
            return np.asmatrix(self.a - np.asarray(o))
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __truediv__(self, o):
        if isinstance(o, (int, float, np.generic)):
            return SpM(self.a / o, self.exact, self.fmt)
        return NotImplemented

    def __neg__(self):
        return SpM(-self.a, self.exact, self.fmt)

    def __abs__(self):
        if self.a.dtype == object:
            raise TypeError
        return SpM(abs(self.a), self.exact, self.fmt)

    def __pow__(self, k):
        if isinstance(k, int) and k > 0 and self.shape[0] == self.shape[1]:
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        return NotImplemented

    def multiply(self, o):
        if isinstance(o, SpM):
            if o.shape != self.shape:
                raise ValueError
            return SpM(self.a * o.a, self.exact and o.exact, 'coo')
        o = np.asarray(o)
        return SpM(np.broadcast_to(self.a * o, self.shape).copy(), False, 'coo')

    def power(self, k):
        return SpM(self.a ** k, self.exact)

    # ---- comparisons (only those that leave zeros alone)
    def cmp(self, o, f):
        if self.a.dtype == object or not isinstance(o, (int, float)):
            raise TypeError
        return SpM(f(self.a, o).astype(np.int64), False)

    def __ne__(self, o):
        return self.cmp(o, np.not_equal)

    def __eq__(self, o):
        return self.cmp(o, np.equal)

    def __gt__(self, o):
        return self.cmp(o, np.greater)

    def __lt__(self, o):
        return self.cmp(o, np.less)

    def __ge__(self, o):
        return self.cmp(o, np.greater_equal)

    def __le__(self, o):
        return self.cmp(o, np.less_equal)
    __hash__ = None

    # ---- forms
    @property
    def T(self):
        return SpM(self.a.T, self.exact, {'csr': 'csc', 'csc': 'csr'}.get(self.fmt, self.fmt))

    def transpose(self, axes=None, copy=False):
        return self.T

    def conj(self):
        return self

    def to(self, fmt):
        return SpM(self.a, self.exact, fmt)

    def tocsr(self, copy=False):
        return self.to('csr')

    def tocsc(self, copy=False):
        return self.to('csc')

    def tocoo(self, copy=False):
        return self.to('coo')

    def todia(self, copy=False):
        return self.to('dia')

    def tolil(self, copy=False):
        return self.to('csr')

    def asformat(self, f, copy=False):
        return self.to(f)

    def copy(self):
        return self.mk(self.a.copy(), fmt=self.fmt)

    def todense(self):
        return np.asmatrix(self.a.copy())

    def toarray(self):
        return self.a.copy()

    def sum(self, axis=None):
        if self.a.dtype == object:
            if axis is None:
                return row(self.a.ravel(), np.ones(self.a.size, dtype=int))
            b = self.a if axis in (1, -1) else self.a.T
            r = np.empty(len(b), dtype=object)
            for i in range(len(b)):
                r[i] = row(b[i], np.ones(b.shape[1], dtype=int))
            return np.asmatrix(r.reshape((-1, 1) if axis in (1, -1) else (1, -1)))
        if axis is None:
            return self.a.sum()
        return np.asmatrix(self.a).sum(axis=axis)

    def mean(self, axis=None):
        return self.a.mean() if axis is None else np.asmatrix(self.a).mean(axis=axis)

    def max(self, axis=None):
        if axis is not None:
            raise TypeError
        return self.a.max()

    def min(self, axis=None):
        if axis is not None:
            raise TypeError
        return self.a.min()

    def diagonal(self):
        return np.diagonal(self.a).copy()

    def nonzero(self):
        return tuple(np.nonzero(nz(self.a)))

    def eliminate_zeros(self):
        raise TypeError

    def getrow(self, i):
        return SpM(self.a[[i]], self.exact)

    def getcol(self, i):
        return SpM(self.a[:, [i]], self.exact)

    def getnnz(self, axis=None):
        self.triple()
        m = nz(self.a)
        return int(m.sum()) if axis is None else m.sum(axis=axis)

    def count_nonzero(self):
        return int(nz(self.a).sum())

    # ---- stored entries
    def triple(self):
        if not self.exact:
            raise TypeError('pattern')
        m = nz(self.a)
        if self.fmt == 'csc':
            c, r = np.nonzero(m.T)
        else:
            r, c = np.nonzero(m)
        return r, c, self.a[r, c]

    def get_data(self):
        if self.fmt == 'dia':
            return np.diagonal(self.a)[None, :].copy() if self.diag() or not nz(self.a - np.diag(np.diagonal(self.a))).any() else self.fail()
        return self.triple()[2]

    def fail(self):
        raise TypeError

    def attr(self, name):
        if name == 'nnz':
            return int(nz(self.a).sum()) if self.exact else self.fail()
        if name == 'data':
            return self.get_data()
        if name == 'offsets' and self.fmt == 'dia':
            i, j = np.nonzero(nz(self.a))
            k = sorted(set((j - i).tolist()))
            if len(k) != 1:
                raise TypeError('offsets')
            return np.array(k)
        if name in ('row', 'col') and self.fmt in ('coo', 'csr', 'csc'):
            return self.triple()[0 if name == 'row' else 1]
        if name == 'indices' and self.fmt in ('csr', 'csc'):
            return self.triple()[1 if self.fmt == 'csr' else 0]
        if name == 'indptr' and self.fmt in ('csr', 'csc'):
            m = nz(self.a).sum(axis=1 if self.fmt == 'csr' else 0)
            self.triple()
            return np.concatenate([[0], np.cumsum(m)])
        if name == 'T':
            return self.T
        if name == 'A':
            return self.a.copy()
        raise TypeError(name)

    def set_data(self, d):
        if self.fmt == 'dia':
            self.get_data()
            d = np.asarray(d)
            if d.shape != (1, self.shape[1]) or self.shape[0] != self.shape[1]:
                raise ValueError
            return SpM(np.diag(d[0]), bool(nz(d).all()), 'dia')
        r, c, _ = self.triple()
        d = np.asarray(d)
        if d.shape != r.shape:
            raise ValueError
        a = np.zeros(self.shape, dtype=d.dtype)
        a[r, c] = d
        return SpM(a, bool(nz(d).all()), self.fmt)

    def __getitem__(self, i):
        a = self.a
        if isinstance(i, tuple):
            if len(i) != 2:
                raise IndexError
            r, c = i
            if all(isinstance(x, (int, np.integer)) for x in i):
                return a[r, c]
            fix = lambda x: [x] if isinstance(x, (int, np.integer)) else x
            r, c = fix(r), fix(c)
            full = lambda x: not isinstance(x, slice)
            if full(r) and full(c):
                raise TypeError
            return SpM(a[r][:, c], self.exact)
        if isinstance(i, (int, np.integer)):
            i = [i]
        if isinstance(i, (SpM,)) or isinstance(i, np.ndarray) and i.ndim != 1:
            raise TypeError
        return SpM(a[i], self.exact)


# ------------------------------------------------------------------------------------------------ constructors
def ctor(fmt):
    def f(x, shape=None, dtype=None, copy=False):
        if isinstance(x, SpM):
            return x.to(fmt)
        if isinstance(x, tuple) and len(x) == 2:
            if all(isinstance(i, (int, np.integer)) for i in x):
                return SpM(np.zeros(x, dtype=int), True, fmt)
            d, ij = x
            if isinstance(ij, (int, float)):
                raise TypeError
            if len(ij) != 2:
                raise TypeError
            r, c = (np.asarray(i) for i in ij)
            d = np.asarray(d)
            if not d.ndim:
                d = np.full(r.shape, d[()])
            if d.ndim != 1 or d.shape != r.shape or r.shape != c.shape:
                raise ValueError
            if shape is None:
                if not r.size:
                    raise ValueError
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            if r.size and (r.min() < 0 or c.min() < 0 or r.max() >= shape[0] or c.max() >= shape[1]):
                raise ValueError
            a = np.zeros(shape, dtype=d.dtype if d.dtype != bool else int)
            seen = set()
            for i, j, v in zip(r, c, d):
                a[i, j] = a[i, j] + v
                seen.add((int(i), int(j)))
            return SpM(a, len(seen) == len(d) and bool(nz(d).all() if d.size else True), fmt)
        if isinstance(x, tuple):
            raise TypeError
        x = np.asarray(x)
        if x.ndim != 2:
            raise TypeError
        return SpM(x, True, fmt)
    return f


def reformat(m, fmt):
    if not isinstance(m, SpM):
        raise TypeError
    return SpM(m.a, m.exact, fmt)


def eye(m, n=None, k=0, dtype=None, format=None):
    if isinstance(m, float) or isinstance(n, float):
        raise TypeError
    return SpM(np.eye(m, n, k, dtype=int), True, 'dia' if k == 0 and n in (None, m) else 'coo')


def identity(n, dtype=None, format=None):
    return eye(n)


def diags(d, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(d, SpM):
        raise TypeError
    if isinstance(d, (list, tuple)) and not isinstance(offsets, int) or isinstance(d, (list, tuple)) and len(d) and isinstance(d[0], (np.ndarray, list, tuple)):
        if isinstance(offsets, int):
            offsets = [offsets]
        if list(offsets) != [0] or len(d) != 1:
            raise TypeError
        d, offsets = d[0], 0
    d = np.asarray(d)
    if d.ndim == 2 and d.shape[0] == 1:
        d = d[0]
    if d.ndim == 1 and isinstance(offsets, int) and offsets and shape is None and nz(d).all():
        return SpM(np.diag(d, offsets), True, 'dia')
    if d.ndim != 1 or offsets != 0 or shape is not None and tuple(shape) != (len(d), len(d)):
        raise TypeError
    a = np.zeros((len(d), len(d)), dtype=d.dtype if d.dtype != bool else int)
    a[np.arange(len(d)), np.arange(len(d))] = d
    return SpM(a, bool(nz(a.diagonal()).all()), 'dia')


def bmat(blocks, format=None, dtype=None):
    g = [[None if x is None or isinstance(x, int) else x for x in r] for r in blocks]
    nr, nc = len(g), max(len(r) for r in g)
    h, w = [None] * nr, [None] * nc
    for i in range(nr):
        for j in range(nc):
            if g[i][j] is not None:
                s = g[i][j].shape
                for l, k, v in ((h, i, s[0]), (w, j, s[1])):
                    if l[k] not in (None, v):
                        raise ValueError
                    l[k] = v
    if None in h or None in w:
        raise ValueError
    rows = []
    for i in range(nr):
        rows.append(np.concatenate([(g[i][j].a if isinstance(g[i][j], SpM) else np.asarray(g[i][j])) if g[i][j] is not None else np.zeros((h[i], w[j]), dtype=int) for j in range(nc)], axis=1))
    return SpM(np.concatenate(rows, axis=0), all(x is None or not isinstance(x, SpM) or x.exact for r in g for x in r), 'coo')


def vstack(b, format=None, dtype=None):
    return bmat([[x] for x in b])


def hstack(b, format=None, dtype=None):
    return bmat([list(b)])


def block_diag(b, format=None, dtype=None):
    b = list(b)
    return bmat([[x if i == j else None for j in range(len(b))] for i, x in enumerate(b)])


def components(g, directed=True, connection='weak', return_labels=True):
    """connected components, numbered in the order of their first vertex"""
    a = nz(g.a)
    if a.shape[0] != a.shape[1]:
        raise ValueError
    lab = [-1] * len(a)
    n = 0
    for i in range(len(a)):
        if lab[i] < 0:
            todo, lab[i] = [i], n
            while todo:
                x = todo.pop()
                for y in range(len(a)):
                    if (a[x, y] or a[y, x]) and lab[y] < 0:
                        lab[y] = n
                        todo.append(y)
            n += 1
    return (n, np.array(lab)) if return_labels else n


FN = {'scipy.sparse.' + k: ctor(v) for k, v in dict(coo_matrix='coo', csr_matrix='csr', csc_matrix='csc', lil_matrix='csr', dok_matrix='csr', bsr_matrix='csr', dia_matrix='dia', coo_array='coo', csr_array='csr').items()}
FN.update({'scipy.sparse.eye': eye, 'scipy.sparse.identity': identity, 'scipy.sparse.speye': eye, 'scipy.sparse.diags': diags, 'scipy.sparse.diags_array': diags, 'scipy.sparse.bmat': bmat,
           'scipy.sparse.block_array': bmat, 'scipy.sparse.vstack': vstack, 'scipy.sparse.hstack': hstack, 'scipy.sparse.block_diag': block_diag,
           'scipy.sparse.csgraph.connected_components': components})
METHODS = ('dot multiply power transpose conj tocsr tocsc tocoo todia tolil asformat copy todense toarray sum mean max min diagonal nonzero getrow getcol count_nonzero getnnz').split()
ATTRS = ('nnz', 'data', 'offsets', 'row', 'col', 'indices', 'indptr', 'T', 'A')


# ------------------------------------------------------------------------------------------------ numpy_indexed
def keys(k, axis=0):
    if isinstance(k, (list, tuple)):
        cols = [np.asarray(x) for x in k]
        if any(x.ndim != 1 for x in cols):
            raise TypeError
        k = np.stack(cols, axis=1) if len(cols) > 1 else cols[0]
    k = np.asarray(k)
    if axis != 0 or k.dtype == object or not k.ndim:
        raise TypeError
    return [tuple(np.ravel(x).tolist()) for x in k], k


def indices(A, B, axis=0, missing='raise'):
    a, _ = keys(A, axis)
    b, _ = keys(B, axis)
    at = {}
    for i, x in enumerate(a):
        if x in at:
            raise TypeError('not unique')
        at[x] = i
    if missing == 'mask':
        raise TypeError
    if missing == 'ignore':
        raise TypeError
    if missing != 'raise':
        return np.array([at.get(x, missing) for x in b], dtype=int)
    return np.array([at[x] for x in b], dtype=int)


def contains(this, that, axis=0):
    a, _ = keys(this, axis)
    a = set(a)
    b, _ = keys(that, axis)
    return np.array([x in a for x in b], dtype=bool)


def order(k, axis=0):
    t, k = keys(k, axis)
    u = sorted(set(t))
    at = {x: i for i, x in enumerate(u)}
    inv = np.array([at[x] for x in t], dtype=int)
    first = np.array([t.index(x) for x in u], dtype=int)
    return t, k, u, inv, first


def unique(k, axis=0, return_index=False, return_inverse=False, return_count=False):
    t, K, u, inv, first = order(k, axis)
    out = [K[first]]
    if return_index:
        out.append(first)
    if return_inverse:
        out.append(inv)
    if return_count:
        out.append(np.bincount(inv, minlength=len(u)))
    return tuple(out) if len(out) > 1 else out[0]


def count(k, axis=0):
    t, K, u, inv, first = order(k, axis)
    return K[first], np.bincount(inv, minlength=len(u))


def multiplicity(k, axis=0):
    t, K, u, inv, first = order(k, axis)
    return np.bincount(inv, minlength=len(u))[inv]


def all_equal(k, axis=0):
    t, K = keys(k, axis)
    return len(set(t)) <= 1
