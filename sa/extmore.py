"""Models of further numpy functions, mostly as compositions of those of extmodel: alternatives a refactoring may use."""
from . import dims
from . import extmodel as X
from . import fold
from .dims import Poly
from .values import *

F = X.F
reg = X.reg
N = X.N


def call(eng, st, name, a, kw, node):
    return F[name](eng, st, list(a), dict(kw), node)


def arg(a, kw, i, name, default=None):
    return kw[name] if name in kw else (a[i] if len(a) > i else default)


def flat(eng, st, v, node):
    n = N()
    c = n.content(eng, st, v)
    if c.shape is not None and len(c.shape) == 1:
        return v if isinstance(v, Arr) else Arr(c)
    return X.m_flatten(eng, st, v if isinstance(v, Arr) else Arr(c), [], {}, node, True)


@reg('numpy.append')
def _append(eng, st, a, kw, node):
    ax = arg(a, kw, 2, 'axis')
    u, v = a[0], arg(a, kw, 1, 'values')
    if ax is None:
        u, v, ax = flat(eng, st, u, node), flat(eng, st, v, node), 0
        n = N()
        cv = n.content(eng, st, v)
        if cv.shape == ():
            v = Arr(cv.rep(shape=(1,)))
    return call(eng, st, 'numpy.concatenate', [eng.mklist(st, [u, v]), ax], {}, node)


@reg('numpy.insert')
def _insert(eng, st, a, kw, node):
    n = N()
    ax = arg(a, kw, 3, 'axis')
    k, v = arg(a, kw, 1, 'obj'), arg(a, kw, 2, 'values')
    c, vc = n.content(eng, st, a[0]), n.content(eng, st, v)
    if c.shape is not None and len(c.shape) == 1 and c.items is not None and isinstance(k, int) and (vc.shape == () or isinstance(v, (int, float, Poly))):
        l = list(c.items)
        x = v if isinstance(v, (int, float, Poly)) else (vc.items[0] if vc.items else None)
        if x is not None and -len(l) <= k <= len(l):
            l.insert(k, x)
            return Arr(c.rep(shape=(len(l),), items=tuple(l), roots=frozenset(), facts=frozenset(), term=TERMS.mk('insert', c.term, vc.term, k)))
    sh = None
    if c.shape is not None and isinstance(k, int):
        i = n.norm_axis(ax, len(c.shape)) if isinstance(ax, int) else (0 if len(c.shape) == 1 and ax is None else None)
        if i is not None:
            add = 1
            if vc.shape is not None and len(vc.shape) == len(c.shape):
                add = vc.shape[i]
            elif vc.shape is None:
                add = None
            sh = tuple((dims.add(d, add) if add is not None and d is not None else None) if j == i else d for j, d in enumerate(c.shape))
    return Arr(c.rep(shape=sh, roots=frozenset(), items=None, deg=join_deg(c.deg, vc.deg), tr=c.tr if c.tr == vc.tr else None,
                     lin=n.lin_join(c.lin, vc.lin), taint=n.taints([c, vc]), facts=frozenset(), term=TERMS.mk('insert', c.term, vc.term, eng.term_of(k, st))))


@reg('numpy.take_along_axis')
def _taa(eng, st, a, kw, node):
    n = N()
    c, ic = n.content(eng, st, a[0]), n.content(eng, st, arg(a, kw, 1, 'indices'))
    ax = arg(a, kw, 2, 'axis')
    sh = None
    if isinstance(ax, int) and c.shape is not None and ic.shape is not None and len(c.shape) == len(ic.shape):
        i = n.norm_axis(ax, len(c.shape))
        if i is not None:
            n.check_index_space(eng, node, ic, c.shape[i])
            sh = tuple(ic.shape)
    lin = c.lin if not n.lin_any(ic.lin) else n.lin_non(n.lin_join(c.lin, ic.lin))
    return Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=c.tr, lin=lin, taint=c.taint | ic.taint,
                 facts=frozenset(f for f in c.facts if f in ('nonneg', 'zero') or isinstance(f, tuple)),
                 term=TERMS.mk('take_along', c.term, ic.term, ax if isinstance(ax, int) else '?')))


@reg('numpy.compress', 'numpy.extract')
def _compress(eng, st, a, kw, node):
    ax = arg(a, kw, 2, 'axis')
    m, v = a[0], a[1]
    if isinstance(ax, int) and ax > 0:
        m = eng.mklist(st, [SliceV(None, None, None)] * ax + [m], 'tuple')
    elif ax is None:
        v = flat(eng, st, v, node)
    if not isinstance(v, Arr):
        v = Arr(N().content(eng, st, v))
    return eng.getitem(v, m, st, node)


@reg('numpy.argwhere')
def _argwhere(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    r = len(c.shape) if c.shape is not None else None
    d = dims.sym('#%s' % n.nnz_name(c.term))
    return Arr(C(shape=(d, r), dtype='int', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, facts=frozenset(['nonneg']), term=TERMS.mk('argwhere', c.term)))


@reg('numpy.count_nonzero')
def _count_nonzero(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    b = Arr(c.rep(dtype='bool', roots=frozenset(), items=None, deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), facts=frozenset(['nonneg']), term=TERMS.mk('ne0', c.term)))
    return n.reduce_(eng, st, 'sum', b, arg(a, kw, 1, 'axis'), kw.get('keepdims', False), node)


@reg('numpy.bincount')
def _bincount(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    w = arg(a, kw, 1, 'weights')
    wc = n.content(eng, st, w) if w is not None else C(deg=0, tr=0, lin=(), dtype='int')
    m = arg(a, kw, 2, 'minlength', 0)
    d = n.dim_of(eng, st, m)
    p = n.into_of(c)
    if isinstance(p, Poly) and isinstance(d, Poly):
        sh = (d,) if d == p else (None,)
    elif isinstance(p, Poly) and m == 0:
        sh = (X.uniq_dim(c),)
        if sh[0] != p:
            sh = (None,)
    else:
        sh = (None,)
    return Arr(C(shape=sh, dtype='int' if w is None else 'float', deg=wc.deg, tr=wc.tr, lin=wc.lin if not n.lin_any(c.lin) else n.lin_non(n.lin_join(wc.lin, c.lin)),
                 taint=c.taint | wc.taint, facts=frozenset(['nonneg']) & (wc.facts if w is not None else frozenset(['nonneg'])), term=TERMS.mk('bincount', c.term, wc.term)))


@reg('numpy.searchsorted', 'numpy.digitize')
def _searchsorted(eng, st, a, kw, node):
    n = N()
    c, v = n.content(eng, st, a[0]), n.content(eng, st, arg(a, kw, 1, 'v'))
    return Arr(C(shape=v.shape, dtype='int', deg=0, tr=n.tr_nonlin(v.tr) if c.tr in (0, ANY) else None, lin=n.lin_non(n.lin_join(c.lin, v.lin)), taint=c.taint | v.taint,
                 facts=frozenset(['nonneg']), term=TERMS.mk('searchsorted', c.term, v.term)))


@reg('numpy.lexsort')
def _lexsort(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    sh = tuple(c.shape[-1:]) if c.shape else None
    f = {'nonneg'}
    if sh and isinstance(sh[0], Poly) and '#' not in str(sh[0]):
        f.add(('into', sh[0]))
    return Arr(C(shape=sh, dtype='int', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, facts=frozenset(f), term=TERMS.mk('lexsort', c.term)))


def triangle(name):
    def f(eng, st, a, kw, node):
        n = N()
        c = n.content(eng, st, a[0])
        return Arr(c.rep(roots=frozenset(), items=None, facts=frozenset(x for x in c.facts if x in ('nonneg', 'zero')), term=TERMS.mk(name, c.term, eng.term_of(arg(a, kw, 1, 'k', 0), st))))
    return f


for _u in ('tril', 'triu'):
    F['numpy.' + _u] = triangle(_u)


def setop(name):
    def f(eng, st, a, kw, node):
        n = N()
        c, d = n.content(eng, st, a[0]), n.content(eng, st, a[1])
        t = TERMS.mk(name, c.term, d.term)
        fs = {'unique'}
        if 'nonneg' in c.facts and ('nonneg' in d.facts or name != 'union1d'):
            fs.add('nonneg')
        p = n.into_of(c)
        if p is not None and (name != 'union1d' or n.into_of(d) == p):
            fs.add(('into', p))
        return Arr(c.rep(shape=(dims.sym('#%s' % n.nnz_name(t)),), roots=frozenset(), items=None, lin=n.lin_non(n.lin_join(c.lin, d.lin)), taint=c.taint | d.taint, facts=frozenset(fs), term=t))
    return f


for _u in ('setdiff1d', 'intersect1d', 'union1d', 'setxor1d'):
    F['numpy.' + _u] = setop(_u)


@reg('numpy.isin', 'numpy.in1d')
def _isin(eng, st, a, kw, node):
    n = N()
    c, d = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    return Arr(C(shape=c.shape, dtype='bool', deg=0, tr=n.tr_nonlin(c.tr) if d.tr in (0, ANY) else None, lin=n.lin_non(n.lin_join(c.lin, d.lin)), taint=c.taint | d.taint,
                 term=TERMS.mk('isin', c.term, d.term, eng.term_of(kw.get('invert', False), st))))


@reg('numpy.shape')
def _shape(eng, st, a, kw, node):
    v = a[0] if isinstance(a[0], Arr) else Arr(N().content(eng, st, a[0]))
    return eng.getattr(v, 'shape', st, node)


@reg('numpy.ndim')
def _ndim(eng, st, a, kw, node):
    c = N().content(eng, st, a[0])
    return len(c.shape) if c.shape is not None else Top('ndim', taint=c.taint)


@reg('numpy.size')
def _size(eng, st, a, kw, node):
    c = N().content(eng, st, a[0])
    ax = arg(a, kw, 1, 'axis')
    if c.shape is None:
        return Top('size', taint=c.taint)
    if isinstance(ax, int):
        i = N().norm_axis(ax, len(c.shape))
        return c.shape[i] if i is not None and c.shape[i] is not None else Top('size', taint=c.taint)
    p = dims.prod(c.shape)
    return p if p is not None else Top('size', taint=c.taint)


@reg('numpy.hsplit', 'numpy.vsplit', 'numpy.dsplit')
def _hsplit(eng, st, a, kw, node):
    return Top('hsplit', taint=eng.taint_of(a[0], st))


F['numpy.vsplit'] = lambda eng, st, a, kw, node: call(eng, st, 'numpy.split', list(a[:2]), {'axis': 0}, node)
F['numpy.dsplit'] = lambda eng, st, a, kw, node: call(eng, st, 'numpy.split', list(a[:2]), {'axis': 2}, node)
F['numpy.hsplit'] = lambda eng, st, a, kw, node: call(eng, st, 'numpy.split', list(a[:2]), {'axis': 1 if len(N().content(eng, st, a[0]).shape or (0, 0)) > 1 else 0}, node)


@reg('numpy.rot90')
def _rot90(eng, st, a, kw, node):
    return N().top_arr(eng, st, a)


@reg('numpy.negative')
def _negative(eng, st, a, kw, node):
    return eng.binop('Sub', 0, a[0], st, node) if not isinstance(a[0], Arr) else eng.binop('Mult', a[0], -1, st, node)


@reg('numpy.positive')
def _positive(eng, st, a, kw, node):
    return eng.binop('Mult', a[0], 1, st, node)


def ufunc_reduce(red):
    def f(eng, st, a, kw, node):
        k = dict(kw)
        if len(a) > 1:
            k['axis'] = a[1]
        k.setdefault('axis', 0)
        return call(eng, st, 'numpy.' + red, a[:1], k, node)
    return f


for _u, _r in (('add', 'sum'), ('multiply', 'prod'), ('logical_or', 'any'), ('logical_and', 'all'), ('maximum', 'max'), ('minimum', 'min')):
    F['numpy.%s.reduce' % _u] = ufunc_reduce(_r)


@reg('numpy.kron')
def _npkron(eng, st, a, kw, node):
    n = N()
    c, d = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    r = eng.binop('Mult', Arr(c.rep(shape=None, items=None, roots=frozenset())), Arr(d.rep(shape=None, items=None, roots=frozenset())), st, node)
    rc = n.content(eng, st, r)
    sh = tuple(dims.mul(x, y) for x, y in zip(c.shape, d.shape)) if c.shape is not None and d.shape is not None and len(c.shape) == len(d.shape) else None
    return Arr(rc.rep(shape=sh, items=None, term=TERMS.mk('kron', c.term, d.term)))


@reg('numpy.ediff1d')
def _ediff(eng, st, a, kw, node):
    if kw or len(a) > 1:
        return N().top_arr(eng, st, a)
    return call(eng, st, 'numpy.diff', [flat(eng, st, a[0], node)], {}, node)


@reg('numpy.fromiter')
def _fromiter(eng, st, a, kw, node):
    v = eng.call(Ext('builtins.list'), [a[0]], {}, st, node)
    k = {'dtype': arg(a, kw, 1, 'dtype')} if arg(a, kw, 1, 'dtype') is not None else {}
    return call(eng, st, 'numpy.array', [v], k, node)


@reg('numpy.invert', 'numpy.bitwise_not')
def _invert(eng, st, a, kw, node):
    return call(eng, st, 'numpy.logical_not', a, {}, node)


@reg('numpy.fmod')
def _fmod(eng, st, a, kw, node):
    return eng.binop('Mod', a[0], a[1], st, node)


def r_(eng, st, which, k, node):
    """np.r_[a, b] and np.c_[a, b] of arrays and scalars"""
    if which not in ('r_', 'c_'):
        return None
    its = eng.lst(st, k).items if isinstance(k, ListV) and k.kind == 'tuple' else [k]
    if its is None:
        return None
    n = N()
    q = []
    for x in its:
        if isinstance(x, (SliceV, str)) or x is None or x is Ellipsis:
            return None
        c = n.content(eng, st, x)
        if c.shape is None:
            return None
        if which == 'c_' and len(c.shape) > 1:
            q.append(Arr(c) if not isinstance(x, Arr) else x)
        elif which == 'c_':
            if len(c.shape) != 1:
                return None
            q.append(Arr(c.rep(shape=tuple(c.shape) + (1,), roots=frozenset())))
        else:
            q.append(Arr(c.rep(shape=(1,), roots=frozenset())) if c.shape == () else x)
    if which == 'c_':
        return call(eng, st, 'numpy.concatenate', [eng.mklist(st, q), 1], {}, node)
    return call(eng, st, 'numpy.concatenate', [eng.mklist(st, q), 0], {}, node)
