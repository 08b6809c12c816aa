"""Constant folding of small integer arrays (shapes, corner tables, axis lists, permutations).

Only literal constants of the analysed source take part; no code of the repository is executed."""
from . import dims, spm
from .dims import Poly
from .linear import Lin, sym as lin_sym
from .values import Arr, ListV, SliceV, TERMS, C
try:
    import numpy as np
except Exception:       # pragma: no cover
    np = None

LIMIT = 600
DTYPES = False          # the abstract types of arrays are exact (all arrays are made by the check)
REAL = False            # propagate floating point constants and linear forms too, through views of the same memory
ITEMS = (int, float, bool, Poly, Lin)
UNSET = dims.sym('?unset#')
UNSET_REAL = lin_sym(("?unset", 0))


def unset(shape, dtype):
    """items of a newly allocated integer array of concrete size"""
    if not REAL and dtype not in ('index', 'int', 'sign', 'int32', 'int64') or shape is None or not all(isinstance(d, int) for d in shape):
        return None
    n = 1
    for d in shape:
        n *= d
    x = UNSET_REAL if REAL and 'float' in str(dtype) else UNSET
    return (x,) * n if 0 < n <= LIMIT else None


class Str(str):
    """a string that a folded function understands"""


class NoFold(Exception):
    pass


def is_const(c):
    if c.items is None or c.kind != 'nd' and not (REAL and c.kind in ('sp', 'npmatrix')) or c.shape is None:
        return False
    n = 1
    for d in c.shape:
        if not isinstance(d, int):
            return False
        n *= d
    return n == len(c.items) and n <= LIMIT and all(isinstance(x, ITEMS) for x in c.items)


def to_np(c):
    its = list(c.items)
    if REAL and c.dtype == 'bool' and all(isinstance(x, (int, float)) and x in (0, 1) for x in its):
        a = np.array(its, dtype=bool)
    elif any(isinstance(x, (Poly, Lin)) for x in its):
        a = np.empty(len(its), dtype=object)
        for i, x in enumerate(its):
            a[i] = x
    elif all(isinstance(x, bool) for x in its) and its:
        a = np.array(its, dtype=bool)
    elif any(isinstance(x, float) for x in its):
        a = np.array(its, dtype=float)
    else:
        a = np.array(its, dtype=np.int64)
    return a.reshape(c.shape)


class Conv(object):
    def __init__(self, eng, st):
        self.eng, self.st, self.arrays = eng, st, 0

    def __call__(self, v, depth=0):
        if v is None or v is Ellipsis or isinstance(v, (int, float, bool)):
            return v
        if isinstance(v, (Poly, Lin)):
            return v
        if isinstance(v, Str):
            return str(v)
        if isinstance(v, str):
            raise NoFold
        if isinstance(v, SliceV):
            if all(isinstance(x, (int, type(None))) for x in (v.lo, v.hi, v.step)):
                return slice(v.lo, v.hi, v.step)
            raise NoFold
        if isinstance(v, Arr):
            c = self.eng.content(v, self.st)
            if not is_const(c):
                raise NoFold
            self.arrays += 1
            if c.kind == 'sp':
                return sparse(c)
            if c.kind == 'npmatrix':
                return np.asmatrix(to_np(c))
            if c.kind == 'obj':
                raise NoFold
            return to_np(c)
        if isinstance(v, ListV) and depth < 4 and v.kind in ('list', 'tuple', 'iter'):
            l = self.eng.lst(self.st, v)
            if l is None or l.items is None or len(l.items) > LIMIT:
                raise NoFold
            r = [self(x, depth + 1) for x in l.items]
            return tuple(r) if v.kind == 'tuple' else r
        raise NoFold


def sparse(c):
    """sparse matrix with the known entries"""
    if not REAL or len(c.shape) != 2:
        raise NoFold
    m = next((f for f in c.facts if isinstance(f, tuple) and f[0] == 'spm'), None)
    if m is None:
        raise NoFold
    return spm.SpM(to_np(c), m[1], m[2])


def back_sparse(eng, st, r, res):
    if not isinstance(res, Arr) or r.a.size > LIMIT:
        return res
    its = tuple(plain(x) for x in r.a.ravel())
    if not all(isinstance(x, ITEMS) for x in its):
        return res
    c = eng.content(res, st)
    nc = c.rep(kind='sp', items=its, shape=tuple(r.shape), term=TERMS.fresh('constarr'), facts=frozenset(f for f in c.facts if not (isinstance(f, tuple) and f[0] == 'spm')) | {('spm', r.exact, r.fmt)})
    if res.loc in st.store:
        st.store[res.loc] = nc
    else:
        res.c0 = nc
    return res


def sparse_attr(eng, st, o, name, res):
    c = eng.content(o, st)
    if not REAL or c.items is None or c.kind != 'sp' or name not in spm.ATTRS:
        return res
    try:
        r = sparse(c).attr(name)
    except Exception:
        return res
    if isinstance(r, int):
        return r
    res = back(eng, st, r, res)
    if name == 'data' and isinstance(res, Arr) and res.parents:
        m = sparse(c)
        n = spm.SpM(np.arange(1, m.a.size + 1).reshape(m.shape), True, m.fmt)
        if m.fmt == 'dia':
            pos = np.diagonal(n.a)
        else:
            i, j, _ = m.triple()
            pos = n.a[i, j]
        eng.viewpos[res.loc] = (o, tuple(int(x) - 1 for x in pos))
    return res


def sparse_set_data(eng, st, o, v):
    """o.data = v"""
    c = eng.content(o, st)
    if c.items is None or c.kind != 'sp':
        return
    nc = c.rep(items=None)
    if REAL:
        try:
            m = sparse(c).set_data(Conv(eng, st)(v))
            nc = c.rep(items=tuple(plain(x) for x in m.a.ravel()), facts=frozenset(f for f in c.facts if not (isinstance(f, tuple) and f[0] == 'spm')) | {('spm', m.exact, m.fmt)})
        except Exception:
            pass
    eng.write_arr(st, o, nc, strong=True)


def plain(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def back(eng, st, r, res):
    """attach the folded value r (numpy) to the abstract result res"""
    if isinstance(r, (list, tuple)) and isinstance(res, ListV):
        l = eng.lst(st, res)
        if l.items is not None and len(l.items) == len(r):
            its = tuple(back(eng, st, a, b) for a, b in zip(r, l.items))
            st.store[res.loc] = type(l)(its, None, l.roots, l.n)
        return res
    if isinstance(r, spm.SpM):
        return back_sparse(eng, st, r, res)
    if isinstance(r, np.matrix):
        r = np.asarray(r)
        if isinstance(res, Arr):
            c = eng.content(res, st)
            if c.kind != 'npmatrix':
                res = Arr(c.rep(kind='npmatrix', roots=frozenset()))
    if isinstance(r, np.ndarray):
        if r.size > LIMIT or r.dtype.kind not in 'iubfO':
            return res
        if r.dtype.kind == 'f' and isinstance(res, Arr) and eng.content(res, st).dtype in ('int', 'index', 'sign', 'int32', 'int64') and (r == np.floor(r)).all():
            r = r.astype(np.int64)
        if REAL and r.dtype.kind in 'iuf' and isinstance(res, Arr) and eng.content(res, st).dtype == 'bool':
            r = r != 0
        its = tuple(plain(x) for x in r.ravel())
        if not all(isinstance(x, ITEMS) for x in its):
            return res
        if isinstance(res, Arr):
            c = eng.content(res, st)
            nc = c.rep(items=its, shape=tuple(r.shape), term=TERMS.fresh('constarr') if REAL else TERMS.mk('constarr', tuple(r.shape), its))
            if res.loc in st.store:
                st.store[res.loc] = nc
            else:
                res.c0 = nc
        return res
    if isinstance(r, (np.generic, int, float, bool)):
        r = plain(r)
        if isinstance(r, (int, bool) + ((float,) if REAL else ())) and (not isinstance(res, Arr) or eng.content(res, st).shape in ((), None)):
            return r
        return res
    if isinstance(r, Poly) and isinstance(res, Arr):
        return r
    if isinstance(r, Lin) and isinstance(res, Arr):
        c = eng.content(res, st)
        if c.shape in ((), None):
            nc = c.rep(items=(r,), shape=(), term=TERMS.fresh('constarr'))
            if res.loc in st.store:
                st.store[res.loc] = nc
            else:
                res.c0 = nc
    return res


def positions(eng, st, fn, args, a, k, res, src=None):
    """the places of the elements of the view res in the array it views"""
    for p in res.parents:
        for i, x in enumerate(args):
            if x is p or src is not None and src is p and i == 0:
                n = np.arange(a[i].size).reshape(a[i].shape)
                try:
                    r = fn(*[n if j == i else y for j, y in enumerate(a)], **k)
                except Exception:
                    continue
                if isinstance(r, (np.ndarray, np.generic)):
                    eng.viewpos[res.loc] = (p, tuple(int(q) for q in np.asarray(r).ravel()))
                    return


def fold(eng, st, fn, args, kw, res, src=None):
    if np is None:
        return res
    cv = Conv(eng, st)
    try:
        a = [cv(x) for x in args]
        k = {n: cv(x) for n, x in kw.items()}
    except NoFold:
        return res
    try:
        r = fn(*a, **k)
    except (ValueError, IndexError) as e:
        if REAL:
            misfit(e)
        return res
    except Exception:
        return res
    if REAL and isinstance(res, Arr) and res.parents and isinstance(r, np.ndarray):
        positions(eng, st, fn, args, a, k, res, src)
    return back(eng, st, r, res)


MISFIT = ('could not be broadcast', 'not aligned', 'mismatch in its core dimension', 'out of bounds', 'dimension mismatch', 'inconsistent shapes', 'cannot reshape', 'must match exactly')


def misfit(e):
    """constants whose sizes do not fit: the operation raises"""
    if any(m in str(e) for m in MISFIT):
        from .values import AbsRaise, ExcV
        x = AbsRaise(ExcV('builtins.%s' % type(e).__name__), None)
        x.definite = True
        raise x


PURE = {}
if np is not None:
    for _n in ('take_along_axis tril triu triu_indices tril_indices ix_ bincount searchsorted lexsort argmax argmin sign rot90 ravel_multi_index digitize '
               'setdiff1d intersect1d union1d setxor1d column_stack dstack identity average meshgrid einsum equal not_equal greater greater_equal less less_equal '
               'logical_xor floor_divide power broadcast_arrays atleast_2d atleast_3d compress choose select extract trim_zeros round around rint ceil trunc '
               'bitwise_and bitwise_or bitwise_xor invert left_shift right_shift ptp ediff1d fmod float_power reciprocal positive resize insert '
               'array_equal apply_along_axis hsplit vsplit dsplit fill_diagonal diag_indices diagonal diagflat vander nanmax nanmin nansum interp partition argpartition '
               'flatnonzero broadcast_shapes result_type tri roll rollaxis isfinite isnan heaviside divmod gcd lcm').split():
        if hasattr(np, _n) and _n not in ('apply_along_axis', 'fill_diagonal', 'result_type', 'require', 'divmod'):
            PURE['numpy.' + _n] = getattr(np, _n)
    for _n, _m in (('row_stack', 'vstack'), ('product', 'prod'), ('alltrue', 'all'), ('sometrue', 'any'), ('in1d', 'isin'), ('cumproduct', 'cumprod'), ('round_', 'round')):
        PURE['numpy.' + _n] = getattr(np, _m)
KEEP = ('take_along_axis', 'tril', 'triu', 'rot90', 'column_stack', 'dstack', 'compress', 'choose', 'select', 'extract', 'insert', 'row_stack', 'setdiff1d', 'intersect1d', 'union1d',
        'atleast_2d', 'atleast_3d', 'hsplit', 'vsplit', 'dsplit', 'diagonal', 'sign', 'resize', 'asanyarray', 'ascontiguousarray')


def pure(eng, st, path, args, kw, res):
    """a function without a model of its own, applied to constants"""
    f = PURE.get(path)
    if not f or any(k in kw for k in ('out', 'where')):
        return res
    cv = Conv(eng, st)
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'order', 'copy', 'mode')}
    try:
        a = [Str(x) if isinstance(x, str) else x for x in args]
        a = [cv(x) for x in a]
        k = {n: cv(Str(x) if isinstance(x, str) else x) for n, x in kw.items()}
        if not cv.arrays:
            return res
        r = f(*a, **k)
    except (ValueError, IndexError) as e:
        if REAL:
            misfit(e)
        return res
    except Exception:
        return res
    first = next((eng.content(x, st).dtype for x in args if isinstance(x, Arr)), None)
    if first is None:
        first = next((eng.content(x, st).dtype for y in args if isinstance(y, ListV) for x in (eng.lst(st, y).items or ()) if isinstance(x, Arr)), None)

    def wrap(r):
        if isinstance(r, (list, tuple)):
            its = [wrap(x) for x in r]
            return None if any(x is None for x in its) else eng.mklist(st, its, 'tuple' if isinstance(r, tuple) else 'list')
        if isinstance(r, np.generic):
            r = r.item()
        if isinstance(r, (int, float, bool, Lin)) or r is None:
            return r
        if not isinstance(r, np.ndarray) or r.size > LIMIT or r.dtype.kind not in 'iubfO':
            return None
        dt = {'b': 'bool', 'f': 'float', 'O': 'float'}.get(r.dtype.kind) or (first if path.split('.')[-1] in KEEP and first else 'int')
        if r.dtype.kind == 'O' and first in ('float32', 'float'):
            dt = first
        return back(eng, st, r, Arr(eng.content(eng_fresh(), st).rep(shape=tuple(r.shape), dtype=dt, deg=0, tr=0, lin=())))
    v = wrap(r)
    return res if v is None else v


def eng_fresh():
    from .values import C
    return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))


def _dt(c):
    return {'bool': bool, 'float': float, 'float32': float}.get(c)


FN = {}
if np is not None:
    for _n in ('indices eye reshape ravel transpose swapaxes moveaxis rollaxis expand_dims squeeze flip fliplr flipud roll '
               'repeat tile concatenate vstack hstack stack cumsum cumprod sum prod max min amax amin any all diff sort argsort unique '
               'flatnonzero where nonzero take delete arange zeros ones full zeros_like ones_like full_like array asarray copy '
               'abs absolute broadcast_to atleast_1d dot outer minimum maximum clip count_nonzero split logical_and logical_or '
               'logical_not unravel_index array_equal array_equiv isin in1d argwhere add subtract multiply append remainder mod negative diff block kron matmul tensordot inner trace diag square array_split').split():
        FN['numpy.' + _n] = getattr(np, _n, None)
    FN['numpy.in1d'] = np.isin
    FN['builtins.sum'] = None
    METH = {n: (lambda nm: (lambda o, *a, **k: getattr(o, nm)(*a, **k)))(n) for n in
            'reshape ravel flatten transpose swapaxes squeeze repeat sum prod max min any all cumsum argsort nonzero take copy clip dot argmax argmin tolist'.split()}
else:
    METH = {}


REALFN = {}
REALMETH = {}
if np is not None:
    REALFN = {'builtins.abs': abs, 'numpy.mean': np.mean, 'numpy.linspace': np.linspace, 'numpy.pad': np.pad, 'numpy.remainder': np.remainder, 'numpy.mod': np.mod,
              'numpy.sqrt': np.sqrt, 'numpy.floor': np.floor, 'numpy.add': np.add, 'numpy.subtract': np.subtract, 'numpy.multiply': np.multiply,
              'numpy.negative': np.negative, 'numpy.asfarray': np.asarray, 'numpy.ascontiguousarray': np.array, 'numpy.cross': np.cross,
              'numpy.divide': np.divide, 'numpy.true_divide': np.true_divide, 'numpy.block': np.block, 'numpy.diff': np.diff, 'numpy.square': np.square,
              'numpy.inner': np.inner, 'numpy.vdot': np.vdot, 'numpy.matmul': np.matmul, 'numpy.array_split': np.array_split,
              'numpy.append': np.append, 'numpy.diag': np.diag, 'numpy.kron': np.kron, 'numpy.tensordot': np.tensordot, 'numpy.trace': np.trace,
              'numpy.tan': np.tan, 'numpy.sin': np.sin, 'numpy.cos': np.cos, 'numpy.reciprocal': np.reciprocal, 'numpy.linalg.norm': np.linalg.norm}
    REALMETH = {'mean': lambda o, *a, **k: o.mean(*a, **k), 'diagonal': lambda o, *a, **k: o.diagonal(*a, **k)}


def fold_ext(eng, st, path, args, kw, res):
    f = FN.get(path) or REAL and (REALFN.get(path) or spm.FN.get(path))
    if not f:
        return res
    if path in ('numpy.abs', 'numpy.absolute') and REAL and args and isinstance(args[0], Arr) and eng.content(args[0], st).kind == 'sp':
        f = abs
    if REAL:
        kw = {k: v for k, v in kw.items() if k not in ('dtype', 'out', 'output')}
        if isinstance(kw.get('format'), str) and path.startswith('scipy.sparse.'):
            fmt = kw['format']
            r = fold(eng, st, lambda *a, **k: spm.reformat(f(*a, **k), fmt), args, {k: v for k, v in kw.items() if k != 'format'}, res)
            return r
        if path == 'numpy.pad':
            kw = {k: (Str(v) if isinstance(v, str) else v) for k, v in kw.items()}
    if 'dtype' in kw:
        kw = {k: v for k, v in kw.items() if k != 'dtype'}
        if isinstance(res, Arr) and eng.content(res, st).dtype not in ('int', 'index', 'sign', 'int32', 'int64', 'object', 'uint8'):
            return res
    elif path in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.eye') and not REAL:
        if not isinstance(res, Arr) or eng.content(res, st).dtype not in ('int', 'index', 'sign', 'int32', 'int64'):
            return res              # floating point
    if path in ('numpy.array', 'numpy.asarray', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.arange', 'numpy.eye', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like') and len(args) > 1 and path not in ('numpy.arange', 'numpy.full', 'numpy.full_like'):
        args = args[:1]
    if path == 'numpy.arange' and len(args) > 3:
        args = args[:3]
    return fold(eng, st, f, args, kw, res)


def fold_method(eng, st, name, o, args, kw, res, src=None):
    if name == 'astype':
        c = eng.content(o, st)
        if c.kind == 'sp':
            return fold(eng, st, lambda x, *a, **k: x.copy(), [o], {}, res)
        if REAL and isinstance(res, Arr) and is_const(c) and eng.content(res, st).dtype in ('float', 'float32', 'object', 'copyof', None):
            return back(eng, st, to_np(c), res)
        if isinstance(res, Arr) and is_const(c) and eng.content(res, st).dtype in ('int', 'index', 'sign', 'int32', 'int64', 'object', 'uint8') and not any(isinstance(x, float) for x in c.items):
            return back(eng, st, to_np(c).astype(object if any(isinstance(x, Poly) for x in c.items) else np.int64), res)
        return res
    f = METH.get(name) or REAL and REALMETH.get(name)
    if REAL and eng.content(o, st).kind == 'sp':
        f = (lambda x, *a, **k: getattr(x, name)(*a, **k)) if name in spm.METHODS else None
    if not f:
        return res
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'order')}
    return fold(eng, st, f, [o] + list(args), kw, res, src)


BIN = {}
if np is not None:
    import operator as _op
    BIN = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'FloorDiv': _op.floordiv, 'Mod': _op.mod, 'Pow': _op.pow,
           'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift,
           'Eq': _op.eq, 'NotEq': _op.ne, 'Lt': _op.lt, 'LtE': _op.le, 'Gt': _op.gt, 'GtE': _op.ge}


def fold_bin(eng, st, op, a, b, res):
    f = BIN.get(op) or REAL and {'Div': _op.truediv, 'MatMult': _op.matmul}.get(op)
    if not f or not (isinstance(a, Arr) or isinstance(b, Arr)):
        return res
    if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE') and REAL:
        for x in (a, b):
            if isinstance(x, Lin) or isinstance(x, Arr) and any(isinstance(y, Lin) for y in eng.content(x, st).items or ()):
                return res
    return fold(eng, st, f, [a, b], {}, res)


def fold_getitem(eng, st, v, idx, res):
    return fold(eng, st, lambda x, i: x[index_of(i)], [v, idx], {}, res)


def index_of(i):
    # (a list of slices is an index tuple for the numpy versions of this library)
    return tuple(i) if isinstance(i, tuple) or isinstance(i, list) and any(isinstance(x, slice) for x in i) else i


def fold_setitem(eng, st, arr, c, idx, val):
    """new items of arr after arr[idx] = val, or None"""
    if np is None or not is_const(c) or c.kind != 'nd':
        return None
    cv = Conv(eng, st)
    try:
        i, x = cv(idx), cv(val)
    except NoFold:
        return None
    a = to_np(c)
    if isinstance(x, (Poly, Lin)) or isinstance(x, np.ndarray) and x.dtype == object:
        a = a.astype(object)
    if REAL and a.dtype.kind in 'iub' and c.dtype in ('float', 'float32'):
        a = a.astype(float)
    if a.dtype == object and isinstance(x, np.ndarray):
        x = x.astype(object)
    try:
        a[index_of(i)] = x
    except Exception:
        return None
    return tuple(plain(z) for z in a.ravel())
