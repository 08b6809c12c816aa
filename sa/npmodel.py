"""Transfer functions of the abstract interpreter for numpy / scipy / builtins."""
from fractions import Fraction
import ast
import itertools as _it

from . import dims
from . import fold
from .dims import Poly
from .values import *
from . import values as V

NUM = (int, float, complex, bool)
RANK = {'bool': 0, 'uint8': 1, 'sign': 1, 'int8': 1, 'int16': 2, 'uint16': 2, 'uint32': 3.5, 'uint64': 4.5, 'float16': 4.7, 'index': 3, 'int32': 3, 'int': 4, 'int64': 4,
        'float32': 5, 'float': 6, 'complex': 7, 'object': 9}
INTS = ('int', 'index', 'sign', 'bool', 'uint8', 'int8', 'int16', 'int32', 'int64', 'uint16', 'uint32', 'uint64')
LO = V._LO


def canon_dtype(eng, st, v):
    """dtype lattice element for a dtype argument"""
    if v is None:
        return None
    if isinstance(v, Ext):
        last = v.path.split('.')[-1]
        return {'int8': 'sign', 'byte': 'sign', 'int32': 'index', 'intc': 'index', 'int64': 'int', 'int': 'int', 'int_': 'int', 'intp': 'int', 'float64': 'float', 'float': 'float',
                'float_': 'float', 'float16': 'float16', 'half': 'float16', 'single': 'float32', 'short': 'int16', 'ubyte': 'uint8',
                'double': 'float', 'float32': 'float32', 'bool': 'bool', 'bool_': 'bool', 'complex': 'complex', 'complex128': 'complex',
                'uint8': 'uint8', 'int16': 'int16', 'object': 'object', 'object_': 'object', 'uint32': 'uint32', 'uint16': 'uint16', 'uint64': 'uint64'}.get(last)
    if isinstance(v, str):
        return {'int8': 'sign', 'i1': 'sign', 'b': 'sign', 'u1': 'uint8', 'uint8': 'uint8', 'i2': 'int16', 'int16': 'int16', 'f2': 'float16', 'float16': 'float16', 'd': 'float', 'f': 'float32', 'i': 'index', '?': 'bool', 'int32': 'index', 'int64': 'int', 'float64': 'float', 'float32': 'float32', 'f4': 'float32', 'f8': 'float', 'i4': 'index', 'i8': 'int', 'int': 'int', 'float': 'float', 'bool': 'bool', 'object': 'object'}.get(v)
    if isinstance(v, DtypeV):
        return v.name
    return None


class DtypeV(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def promote(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if 'copyof' in (a, b):
        o = b if a == 'copyof' else a
        return o if o in ('float', 'complex', 'object') else ('copyof' if o in INTS else None)
    if a not in RANK or b not in RANK:
        return None
    r = a if RANK[a] >= RANK[b] else b
    o = b if r == a else a
    if r == 'float32' and o in ('index', 'int'):
        return 'float'
    return r


def content(eng, st, v):
    """content record of any value used as an array"""
    if isinstance(v, Arr):
        return eng.content(v, st)
    if isinstance(v, bool):
        return C(shape=(), dtype='bool', deg=0, tr=0, lin=(), term=TERMS.mk('const', float(v)))
    if isinstance(v, int) or isinstance(v, float) or isinstance(v, complex):
        z = v == 0
        inf = isinstance(v, float) and (v != v or v in (float('inf'), float('-inf')))
        if isinstance(v, complex):
            return C(shape=(), dtype='complex', deg=ANY if z else 0, tr=ANY if z else 0, lin=(), term=TERMS.mk('const', repr(v)))
        return C(shape=(), dtype='int' if isinstance(v, int) else 'float', deg=ANY if z or inf else 0, tr=ANY if z or inf else 0, lin=(),
                 term=TERMS.mk('const', float(v)), facts=frozenset(['zero'] if z else []) | frozenset(['pyscalar']) | (frozenset(['nonneg']) if v >= 0 else frozenset()))
    if isinstance(v, Poly):
        return C(shape=(), dtype='int', deg=0, tr=0, lin=(), term=TERMS.mk('dim', str(v)), facts=frozenset(['pyscalar', 'nonneg']))
    if isinstance(v, ListV):
        return list_content(eng, st, v)
    if isinstance(v, V.Range):
        return C(shape=(v.n,), dtype='int', deg=0, tr=0, lin=(), term=TERMS.mk('arange', str(v.n)))
    if isinstance(v, Union):
        cs = [content(eng, st, a) for a in v.alts if a is not UNBOUND and a is not None]
        if not cs:
            return C()
        r = cs[0]
        for c in cs[1:]:
            r = join_c(r, c)
        return r
    if isinstance(v, Top):
        return C(taint=v.taint, roots=v.roots)
    return C(taint=eng.taint_of(v, st))


def list_content(eng, st, v, depth=0):
    l = eng.lst(st, v)
    if l.items is not None:
        if not l.items:
            return C(shape=(0,), dtype='float', deg=ANY, tr=ANY, lin=(), term=TERMS.mk('seq'), facts=frozenset(['zero']))
        cs = [content(eng, st, x) for x in l.items]
        sh = cs[0].shape
        for c in cs[1:]:
            if sh is None or c.shape is None or len(sh) != len(c.shape):
                sh = None
                break
            sh = tuple(a if a == b else (None if a is None or b is None else 'ragged') for a, b in zip(sh, c.shape))
        if sh is not None and 'ragged' in sh:
            sh = None
        r = combine(cs)
        return r.rep(shape=(len(cs),) + tuple(sh) if sh is not None else None, roots=frozenset(), kind='nd',
                     term=TERMS.mk('seq', *[c.term for c in cs]),
                     items=tuple(l.items) if all(c.shape == () for c in cs) and len(cs) <= 64 else None,
                     facts=r.facts - frozenset(['pyscalar']))
    if l.summary is None or isinstance(l.summary, Top):
        return C(taint=eng.taint_of(v, st))
    c = content(eng, st, l.summary)
    return c.rep(shape=(l.n,) + tuple(c.shape) if c.shape is not None else None, roots=frozenset(), items=None,
                 term=TERMS.mk('stack', c.term), facts=c.facts - frozenset(['pyscalar']))


def combine(cs):
    """componentwise combination (stacking / selecting) of contents, without shape"""
    r = cs[0]
    for c in cs[1:]:
        d = join_c(r.rep(shape=None), c.rep(shape=None))
        d = d.rep(dtype=promote(r.dtype, c.dtype))
        r = d
    return r


def tr_add(a, b, sign=1):
    if a == ANY:
        return b if sign == 1 else (ANY if b == ANY else (-b if isinstance(b, (int, Fraction)) else b))
    if b == ANY:
        return a
    if a is None or b is None:
        return None
    if a == 'N' or b == 'N':
        return None if a == b == 'N' else 'N'
    return a + sign * b


def tr_mul(a, b, ca=None, cb=None):
    if a == ANY or b == ANY:
        return ANY
    if a is None or b is None:
        return None
    if a == 0 and b == 0:
        return 0
    if ca is not None:
        return ca * b if b != 'N' else 'N'
    if cb is not None:
        return cb * a if a != 'N' else 'N'
    if a == 'N' or b == 'N':
        return None
    if a != 0 and b != 0:
        return 'N'
    return None


def tr_nonlin(a):
    """nonlinear function of a"""
    if a == ANY or a == 0 or a is None:
        return a
    return 'N'


def const_of(c):
    t = c.term
    k = TERMS.get(t)
    if k[0] == 'const' and isinstance(k[1], float):
        f = k[1]
        if f != f or f in (float('inf'), float('-inf')):
            return None
        if f == int(f) if abs(f) < 1e9 else False:
            return Fraction(int(f))
        return Fraction(f).limit_denominator(10 ** 9)
    return None


def lin_mul(a, b):
    if a is None or b is None:
        return None
    r = {}
    d, e = dict(a), dict(b)
    for k in set(d) | set(e):
        x, y = d.get(k, '0'), e.get(k, '0')
        if x == '0':
            r[k] = y
        elif y == '0':
            r[k] = x
        else:
            r[k] = 'N'
    return tuple(sorted(r.items()))


def lin_add(a, b, za=False, zb=False):
    if a is None or b is None:
        return None
    if za:
        return b
    if zb:
        return a
    return lin_join(a, b)


def lin_non(a):
    if a is None:
        return None
    return tuple((k, 'N' if v != '0' else '0') for k, v in a)


def lin_any(a):
    return a is not None and any(v != '0' for k, v in a)


def broadcast(eng, st, shapes, node, what='broadcast'):
    if any(s is None for s in shapes):
        return None
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        ds = [s[len(s) - n + i] for s in shapes if len(s) - n + i >= 0]
        cur = 1
        for d in ds:
            if d == 1:
                continue
            if cur == 1:
                cur = d
            elif cur is None or d is None:
                cur = cur if d is None else d
            elif cur != d:
                eng.event('shape', node, '%s of incompatible sizes %s and %s' % (what, cur, d), shapes=shapes)
                ex = ['#' in str(cur), '#' in str(d)]
                cur = d if ex[0] and not ex[1] else cur if ex[1] and not ex[0] else None
        out.append(cur)
    return tuple(out)


def mkarr(c, parents=()):
    return Arr(c, parents)


def taints(cs):
    return frozenset().union(*[c.taint for c in cs]) if cs else frozenset()


def top_arr(eng, st, vals, dtype=None, shape=None):
    t = frozenset()
    for v in vals:
        t |= eng.taint_of(v, st)
    return Arr(C(taint=t, dtype=dtype, shape=shape))


def opterm(name, cs, *params):
    return TERMS.mk(name, *([c.term for c in cs] + list(params)))


def unit_add(eng, a, b, node, what):
    if a.deg is None or b.deg is None:
        return None
    if a.deg == ANY:
        return b.deg
    if b.deg == ANY:
        return a.deg
    if a.deg != b.deg:
        eng.event('unit', node, '%s of quantities with length-exponents %s and %s' % (what, a.deg, b.deg))
        return None
    return a.deg


# -------------------------------------------------------------------------------------------- binary / unary
def arith(eng, st, op, a, b, node):
    """elementwise arithmetic on contents"""
    sh = broadcast(eng, st, [a.shape, b.shape], node, 'elementwise %s' % op)
    dt = promote(a.dtype, b.dtype)
    if a.dtype is not None and b.dtype is not None and 'pyscalar' in a.facts and b.dtype in RANK and a.dtype in INTS and b.shape != ():
        dt = b.dtype if b.dtype != 'bool' else 'int'
    elif a.dtype is not None and b.dtype is not None and 'pyscalar' in b.facts and a.dtype in RANK and b.dtype in INTS and a.shape != ():
        dt = a.dtype if a.dtype != 'bool' else 'int'
    elif 'pyscalar' in b.facts and a.dtype == 'float32' and b.dtype == 'float' or 'pyscalar' in a.facts and b.dtype == 'float32' and a.dtype == 'float':
        dt = 'float32'
    za, zb = 'zero' in a.facts, 'zero' in b.facts
    kind = 'sp' if 'sp' in (a.kind, b.kind) else 'nd'
    facts = set()
    if 'nonneg' in a.facts and 'nonneg' in b.facts and op in ('Add', 'Mult', 'Div', 'Pow'):
        facts.add('nonneg')
    if op in ('Add', 'Sub'):
        deg = unit_add(eng, a, b, node, 'sum' if op == 'Add' else 'difference')
        tr = tr_add(a.tr, b.tr, 1 if op == 'Add' else -1)
        lin = lin_add(a.lin, b.lin, za, zb)
        if za and zb:
            facts.add('zero')
        if op == 'Add':
            t1, t2 = sorted((a.term, b.term), key=lambda t: t.i)
            term = TERMS.mk('add', t1, t2)
        else:
            term = TERMS.mk('sub', a.term, b.term)
    elif op == 'Mult':
        deg = ANY if ANY in (a.deg, b.deg) else (None if a.deg is None or b.deg is None else a.deg + b.deg)
        tr = tr_mul(a.tr, b.tr, const_of(a), const_of(b))
        lin = lin_mul(a.lin, b.lin)
        if za or zb:
            facts.add('zero')
        t1, t2 = sorted((a.term, b.term), key=lambda t: t.i)
        term = TERMS.mk('mul', t1, t2)
        if kind == 'sp' and a.kind == 'sp' and b.shape == ():
            facts |= (a.facts & frozenset(['square']))
    elif op in ('Div', 'FloorDiv', 'Mod'):
        if op == 'Mod':
            deg = unit_add(eng, a, b, node, 'remainder')
        else:
            deg = ANY if a.deg == ANY else (None if a.deg is None or b.deg is None or b.deg == ANY else a.deg - b.deg)
        if op == 'Div':
            cb = const_of(b)
            if a.tr == ANY:
                tr = ANY
            elif cb:
                tr = a.tr if a.tr in ('N', None) else a.tr / cb
            elif a.tr == 0 and b.tr == 0:
                tr = 0
            elif a.tr is None and b.tr == 'N' and weighted_mean(a.term, b.term):
                tr = 'N'
            elif None in (a.tr, b.tr):
                tr = None
            elif a.tr == 'N' and b.tr == 'N':
                tr = 'N' if within(a.term, b.term) else None
            elif b.tr == 0 or b.tr == ANY:
                tr = 'N' if a.tr != 0 and a.tr == 'N' else None if a.tr != 0 else 0
            else:
                tr = 'N'
            dt = {'float32': 'float32', 'complex': 'complex', None: None, 'object': 'object', 'copyof': None}.get(dt, 'float')
        else:
            tr = 0 if a.tr in (0, ANY) and b.tr in (0, ANY) else (None if None in (a.tr, b.tr) else 'N')
        if a.lin is None or b.lin is None:
            lin = None
        elif lin_any(b.lin):
            lin = lin_non(lin_join(a.lin, b.lin))
        else:
            lin = a.lin if op == 'Div' else lin_non(a.lin)
        if za:
            facts.add('zero')
        if op == 'FloorDiv' and b.shape == ():
            ia = into_of(a)
            kb = const_of(b)
            if isinstance(ia, Poly) and kb is not None and kb == int(kb) and kb > 0:
                q = dims.div(ia, int(kb))
                if q is not None:
                    facts.add(('into', q))
        term = TERMS.mk(op.lower(), a.term, b.term)
    elif op == 'Pow':
        k = const_of(b)
        if k is not None:
            deg = a.deg if a.deg in (None, ANY) else a.deg * k
            tr = a.tr if a.tr in (0, ANY, None) or k == 1 else 'N'
            lin = a.lin if k == 1 else lin_non(a.lin)
        else:
            deg = 0 if a.deg == 0 else (ANY if a.deg == ANY else None)
            tr = 0 if a.tr in (0, ANY) and b.tr in (0, ANY) else None
            lin = lin_non(lin_join(a.lin, b.lin)) if a.lin is not None and b.lin is not None else None
        term = TERMS.mk('pow', a.term, b.term)
    else:
        deg = 0 if a.deg in (0, ANY) and b.deg in (0, ANY) else None
        tr = 0 if a.tr in (0, ANY) and b.tr in (0, ANY) else None
        lin = lin_non(lin_join(a.lin, b.lin)) if a.lin is not None and b.lin is not None else None
        t1, t2 = sorted((a.term, b.term), key=lambda t: t.i)
        term = TERMS.mk(op.lower(), t1, t2)
    return C(shape=sh, dtype=dt, deg=deg, tr=tr, lin=lin, term=term, taint=a.taint | b.taint, kind=kind, facts=frozenset(facts))


def dtype_narrow_check(eng, a, b, op, node):
    if op in ('Mult', 'Add') and a.dtype in ('sign', 'uint8') and b.dtype in ('sign', 'uint8') and a.shape != () and b.shape != () and a.kind == b.kind == 'nd':
        pass


def binop(eng, st, op, a, b, node):
    ca, cb = content(eng, st, a), content(eng, st, b)
    if op == 'MatMult' or op == 'Mult' and ('sp' in (ca.kind, cb.kind) or 'npmatrix' in (ca.kind, cb.kind)) and ca.shape != () and cb.shape != ():
        if op == 'Mult' and ca.kind == 'nd' and ca.shape is None and not isinstance(a, Arr):
            return Top('sparse product', taint=ca.taint | cb.taint)
        if (ca.shape is None and ca.kind != 'sp' and op == 'Mult') or (cb.shape is None and cb.kind != 'sp' and op == 'Mult'):
            # unknown operand: may be a scalar
            k = 'sp' if False else 'nd'
        r = matmul(eng, st, ca, cb, node)
        return fold.fold_bin(eng, st, op, a, b, r) if fold.REAL and ca.items is not None and cb.items is not None else r
    if isinstance(a, (Top,)) and not isinstance(b, Arr) or isinstance(b, Top) and not isinstance(a, Arr):
        return Top('binop', taint=ca.taint | cb.taint)
    if ca.kind == 'obj' or cb.kind == 'obj':
        return obj_arith(eng, st, op, a, b, ca, cb, node)
    if not isinstance(a, (Arr, ListV, Top, Poly) + NUM) or not isinstance(b, (Arr, ListV, Top, Poly) + NUM):
        return Top('binop', taint=ca.taint | cb.taint)
    r = mkarr(arith(eng, st, op, ca, cb, node))
    if op == 'Add':
        for x, y in ((ca, cb), (cb, ca)):
            cols = fact_of(x, 'cols')
            if cols and y.items is not None and y.shape and x.shape and len(y.shape) == 1 and y.shape[0] == x.shape[-1] == len(cols):
                # each column is shifted by the start of its own block: one numbering of the disjoint union
                tot, ok = 0, True
                for (k, p), o in zip(cols, y.items):
                    ok = ok and o == tot
                    tot = dims.add(tot, p)
                if ok and isinstance(tot, Poly):
                    r.c0 = r.c0.rep(facts=r.c0.facts | {('into', tot)})
    if ca.items is not None or cb.items is not None:
        return fold.fold_bin(eng, st, op, a, b, r)
    return r


def obj_arith(eng, st, op, a, b, ca, cb, node):
    if ca.kind == 'obj' and cb.kind == 'obj' and ca.items is not None and cb.items is not None and ca.shape == cb.shape:
        items = tuple(eng.binop(op, x, y, st, node) for x, y in zip(ca.items, cb.items))
        return mkarr(C(shape=ca.shape, kind='obj', dtype='object', items=items))
    if ca.kind == 'obj' and ca.items is not None and (cb.shape == () or not isinstance(b, Arr)):
        items = tuple(eng.binop(op, x, b, st, node) for x in ca.items)
        return mkarr(C(shape=ca.shape, kind='obj', dtype='object', items=items))
    if cb.kind == 'obj' and cb.items is not None and (ca.shape == () or not isinstance(a, Arr)):
        items = tuple(eng.binop(op, a, y, st, node) for y in cb.items)
        return mkarr(C(shape=cb.shape, kind='obj', dtype='object', items=items))
    return Top('object arithmetic', taint=ca.taint | cb.taint)


def matmul(eng, st, a, b, node):
    """matrix product of contents"""
    if a.kind == 'linop' or b.kind == 'linop':
        return Top('linop', taint=a.taint | b.taint)
    sh = None
    if a.shape is not None and b.shape is not None and a.shape and b.shape:
        x, y = a.shape[-1], (b.shape[-2] if len(b.shape) > 1 else b.shape[0])
        if x is not None and y is not None and x != y:
            eng.event('shape', node, 'matrix product contracts incompatible sizes %s and %s' % (x, y), shapes=(a.shape, b.shape))
        elif len(a.shape) <= 2 and len(b.shape) <= 2:
            sh = tuple(a.shape[:-1]) + (tuple(b.shape[1:]) if len(b.shape) > 1 else ())
        else:
            sh = tuple(a.shape[:-1]) + tuple(b.shape[-1:]) if len(b.shape) > 1 else tuple(a.shape[:-1])
    elif a.shape == () or b.shape == ():
        sh = None
    deg = ANY if ANY in (a.deg, b.deg) else (None if a.deg is None or b.deg is None else a.deg + b.deg)
    kind = 'nd'
    if a.kind == 'sp' and b.kind == 'sp':
        kind = 'sp'
    dt = promote(a.dtype, b.dtype)
    facts = set()
    if 'zero' in a.facts or 'zero' in b.facts:
        facts.add('zero')
    if 'nonneg' in a.facts and 'nonneg' in b.facts:
        facts.add('nonneg')
    for ax in ('rowsum1', 'colsum1'):
        if ax in a.facts and ax in b.facts:
            facts.add(ax)
    # diag(1/rowsum|M|) * M
    tr = tr_mul(a.tr, b.tr)
    if 'rowsum1' in a.facts and a.tr == 0 and isinstance(b.tr, (int, Fraction)):
        tr = b.tr
    if 'diffrow' in a.facts and a.tr == 0 and isinstance(b.tr, (int, Fraction)):
        tr = 0
    c = C(shape=sh, dtype=dt, deg=deg, tr=tr, lin=lin_mul(a.lin, b.lin), term=TERMS.mk('mm', a.term, b.term),
          taint=a.taint | b.taint, kind=kind, facts=frozenset(facts))
    c = stochastic_product(a, b, c)
    return mkarr(c)


def strip(t, *ops):
    """peel unary wrappers off a term"""
    while isinstance(t, T):
        k = TERMS.get(t)
        if k[0] in ops:
            t = k[1]
        else:
            return t
    return t


SHAPE_OPS = ('reshape', 'flatten', 'ravel', 'array', 'asarray', 'astype', 'copy', 'tocsr', 'tocoo', 'tocsc', 'todense', 'toarray', 'squeeze', 'newaxis', 'expand_dims', 'nocopy')


def recip_of(t):
    """x if t == 1/x elementwise"""
    t = strip(t, *SHAPE_OPS)
    k = TERMS.get(t) if isinstance(t, T) else ('?',)
    if k[0] == 'div' and const_is(k[1], 1):
        return strip(k[2], *SHAPE_OPS)
    if k[0] == 'pow' and const_is(k[2], -1):
        return strip(k[1], *SHAPE_OPS)
    if k[0] == 'reciprocal':
        return strip(k[1], *SHAPE_OPS)
    return None


def const_is(t, v):
    if not isinstance(t, T):
        return False
    k = TERMS.get(t)
    return k[0] == 'const' and k[1] == float(v)


def abs_norm(t):
    """strip entrywise absolute values (and storage conversions)"""
    return strip(t, 'abs', *[o for o in SHAPE_OPS if o not in ('reshape', 'flatten', 'ravel')])


def stochastic_product(a, b, c):
    """facts about rows/columns summing (absolutely) to one after scaling by reciprocal sums"""
    facts = set(c.facts)
    for diag, m, side in ((a, b, 'left'), (b, a, 'right')):
        k = TERMS.get(strip(diag.term, *SHAPE_OPS))
        if k[0] != 'diag':
            continue
        x = recip_of(k[1])
        if x is None:
            continue
        s = TERMS.get(x)
        if s[0] == 'sum' and len(s) >= 3:
            inner, axis = s[1], s[2]
            if isinstance(inner, T):
                ik = strip(inner, *[o for o in SHAPE_OPS if o not in ('reshape', 'flatten', 'ravel')])
                isabs = TERMS.get(ik)[0] == 'abs'
                base = abs_norm(ik)
                same = base == abs_norm(m.term) or base == TERMS.mk('T', abs_norm(m.term)) and False
                if not same:
                    continue
                want = {'left': 1, 'right': 0}[side]
                ax = axis
                if ax in (-1, '-1'):
                    ax = 1
                if ax in (-2,):
                    ax = 0
                if ax == want and m.dtype is not None:
                    nm = 'rowsum1' if side == 'left' else 'colsum1'
                    if 'nonneg' in m.facts:
                        facts.add(nm)
                    facts.add('abs' + nm)
    if facts != set(c.facts):
        return c.rep(facts=frozenset(facts))
    return c


def unary(eng, st, op, v, node):
    c = content(eng, st, v)
    if c.items is not None and isinstance(v, Arr) and fold.is_const(c) and op == 'USub':
        return fold.fold_bin(eng, st, 'Mult', v, -1, mkarr(c.rep(roots=frozenset())))
    if c.kind == 'obj' and c.items is not None:
        if op == 'USub':
            return mkarr(c.rep(items=tuple(eng.binop('Mult', x, -1, st, node) if not isinstance(x, Arr) else unary(eng, st, op, x, node) for x in c.items), roots=frozenset()))
    if op == 'UAdd':
        return mkarr(c.rep(roots=frozenset()))
    if op == 'Invert':
        if fold.REAL and isinstance(v, Arr) and fold.is_const(c):
            return fold.fold(eng, st, (lambda x: ~x) if c.dtype != 'bool' else fold.np.logical_not, [v], {}, mkarr(c.rep(roots=frozenset(), term=opterm('invert', [c]), facts=frozenset(), items=None)))
        return mkarr(c.rep(roots=frozenset(), term=opterm('invert', [c]), facts=frozenset(), items=None,
                           deg=0 if c.deg in (0, ANY) else c.deg, lin=lin_non(c.lin)))
    tr = c.tr
    if isinstance(tr, (int, Fraction)):
        tr = -tr
    f = set(c.facts) & {'zero', 'absrowsum1', 'pyscalar'}
    return mkarr(c.rep(roots=frozenset(), term=opterm('neg', [c]), tr=tr, facts=frozenset(f), items=None))


def compare(eng, st, op, a, b, node):
    ca, cb = content(eng, st, a), content(eng, st, b)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return eng.ubool(a, b, st, op)
    sh = broadcast(eng, st, [ca.shape, cb.shape], node, 'comparison')
    unit_add(eng, ca, cb, node, 'comparison')
    tr = None
    if ca.tr is not None and cb.tr is not None:
        d = tr_add(ca.tr, cb.tr, -1)
        tr = 0 if d in (0, ANY) else ('N' if d is not None else None)
    lin = lin_non(lin_join(ca.lin, cb.lin)) if ca.lin is not None and cb.lin is not None else None
    return fold.fold_bin(eng, st, op, a, b, mkarr(C(shape=sh, dtype='bool', deg=0, tr=tr, lin=lin, term=TERMS.mk(op, ca.term, cb.term),
                   taint=ca.taint | cb.taint, facts=frozenset(['nonneg']), kind='sp' if 'sp' in (ca.kind, cb.kind) and sh != () else 'nd')))


# -------------------------------------------------------------------------------------------- indexing
def index_dims(eng, st, c, idx, node):
    """returns (new shape, is_view, idx terms)"""
    shape = c.shape
    items = list(eng.lst(st, idx).items or [idx]) if isinstance(idx, ListV) and idx.kind == 'tuple' and eng.lst(st, idx).items is not None else [idx]
    view = True
    terms = []
    n_consume = 0
    for i in items:
        if i is None or i is Ellipsis or isinstance(i, SliceV) or isinstance(i, (int, Poly)) and not isinstance(i, bool):
            n_consume += 0 if i is None or i is Ellipsis else 1
        else:
            ic = content(eng, st, i)
            if ic.shape == () and ic.dtype not in ('bool',):
                n_consume += 1
            else:
                view = False
                if ic.dtype == 'bool' and ic.shape is not None:
                    n_consume += max(len(ic.shape), 1)
                elif ic.shape is None:
                    n_consume = None
                    break
                else:
                    n_consume += 1
        terms.append(eng.term_of(i, st))
    if shape is None or n_consume is None:
        for i in items:
            if isinstance(i, (Arr, ListV)) and content(eng, st, i).shape != ():
                view = False
        return None, view, [eng.term_of(i, st) for i in items], None
    if n_consume > len(shape):
        eng.event('index-rank', node, 'too many indices (%d) for an array of rank %d' % (n_consume, len(shape)))
        return None, view, terms, None
    if Ellipsis not in [i for i in items if not isinstance(i, (Arr, ListV, SliceV, Poly))]:
        items = items + [Ellipsis]
    out = []
    fancy = []
    fancy_pos = None
    ax = 0
    dropped = []
    for i in items:
        if i is Ellipsis:
            k = len(shape) - n_consume
            out += list(shape[ax:ax + k])
            ax += k
        elif i is None:
            out.append(1)
        elif isinstance(i, SliceV):
            d = shape[ax]
            out.append(slice_dim(eng, st, d, i, node))
            if isinstance(d, Poly) and is_batch(d) and not (i.lo is None and i.hi is None):
                eng.event('batch-index', node, 'a slice along the batch axis %s' % d)
            ax += 1
        elif isinstance(i, int) and not isinstance(i, bool) or isinstance(i, Poly):
            d = shape[ax]
            if isinstance(d, int) and isinstance(i, int) and not -d <= i < d:
                eng.event('index-range', node, 'index %d is out of range for axis of size %d' % (i, d))
            if isinstance(d, Poly) and is_batch(d):
                eng.event('batch-index', node, 'fixed index along the batch axis %s' % d)
            dropped.append(ax)
            ax += 1
        else:
            ic = content(eng, st, i)
            if ic.shape == () and ic.dtype != 'bool':
                dropped.append(ax)
                ax += 1
                continue
            if ic.dtype == 'bool':
                k = max(len(ic.shape), 1)
                for j in range(k):
                    d, e = shape[ax + j], ic.shape[j] if j < len(ic.shape) else None
                    if d is not None and e is not None and d != e:
                        eng.event('shape', node, 'boolean mask of size %s applied to an axis of size %s' % (e, d), shapes=(shape, ic.shape))
                fancy.append((dims.sym('#%s' % nnz_name(ic.term)),))
                ax += k
            else:
                if isinstance(shape[ax], Poly) and is_batch(shape[ax]) and not any(isinstance(x, Poly) and is_batch(x) for x in ic.shape):
                    eng.event('batch-index', node, 'fixed selection along the batch axis %s' % shape[ax])
                fancy.append(ic.shape)
                check_index_space(eng, node, ic, shape[ax])
                ax += 1
            if fancy_pos is None:
                fancy_pos = len(out)
            elif fancy_pos != len(out):
                fancy_pos = 'split' if fancy_pos != len(out) else fancy_pos
    if fancy:
        fs = fancy[0] if len(fancy) == 1 else broadcast(eng, st, fancy, node, 'index arrays')
        if fs is None:
            return None, False, terms, None
        if fancy_pos == 'split' or len(fancy) > 1 and fancy_pos == 'split':
            out = list(fs) + out
        else:
            out = out[:fancy_pos] + list(fs) + out[fancy_pos:]
    return tuple(out), view, terms, dropped


def check_index_space(eng, node, ic, axis_dim):
    """indices of element kind X used on an axis of element kind Y"""
    for f in ic.facts:
        if isinstance(f, tuple) and f[0] == 'into':
            if axis_dim is not None and f[1] is not None and isinstance(axis_dim, Poly) and isinstance(f[1], Poly) and f[1] != axis_dim and not subspace(f[1], axis_dim):
                eng.event('index-space', node, 'indices into %s used on an axis of size %s' % (f[1], axis_dim))


def subspace(a, b):
    """size a is a proper part of the concatenated size b"""
    d = dims.sub(b, a)
    return isinstance(d, Poly) and len(b.terms) > 1 and all(v > 0 for v in d.terms.values())


def fact_of(c, name):
    for f in c.facts:
        if isinstance(f, tuple) and f[0] == name:
            return f[1]
    return None


def last_int(eng, st, c, idx):
    """position on the last axis if idx is [..., k] (or [:, ..., k]) with a constant k"""
    if c.shape is None or not c.shape or not isinstance(c.shape[-1], int):
        return None
    if isinstance(idx, ListV) and idx.kind == 'tuple':
        its = eng.lst(st, idx).items
        if its is None or not its or not isinstance(its[-1], int) or isinstance(its[-1], bool):
            return None
        if not (any(x is Ellipsis for x in its[:-1] if not isinstance(x, (Arr, ListV))) or len(its) == len(c.shape)):
            return None
        return its[-1] % c.shape[-1], its[:-1]
    return None


def col_facts(eng, st, c, idx, sh):
    """per-column index spaces: which element kind the k-th entry along the last (first) axis refers to"""
    out = set()
    for f in c.facts:
        if not isinstance(f, tuple):
            continue
        if f[0] == 'cols':
            d = dict(f[1])
            k = last_int(eng, st, c, idx)
            if k is not None:
                if k[0] in d:
                    out.add(('into', d[k[0]]))
            elif sh and c.shape and sh[-1] == c.shape[-1] and not (isinstance(idx, ListV) and idx.kind == 'tuple' and len(eng.lst(st, idx).items or ()) == len(c.shape)):
                out.add(f)
        elif f[0] == 'rows':
            d = dict(f[1])
            i0 = idx
            if isinstance(idx, ListV) and idx.kind == 'tuple' and eng.lst(st, idx).items:
                i0 = eng.lst(st, idx).items[0]
            if isinstance(i0, int) and not isinstance(i0, bool) and c.shape and isinstance(c.shape[0], int):
                if i0 % c.shape[0] in d:
                    out.add(('into', d[i0 % c.shape[0]]))
    return frozenset(out)


def fill_fact(v):
    k = const_of(v)
    if k is not None and k in (0, 1):
        return frozenset([('fill', int(k))])
    return frozenset()


def into_of(c):
    for f in c.facts:
        if isinstance(f, tuple) and f[0] == 'into':
            return f[1]
    return None


def nnz_name(t):
    return 't%d' % t.i


def is_batch(d):
    return isinstance(d, Poly) and any(s.startswith('B:') for m in d.terms for s in m)


def slice_dim(eng, st, d, s, node):
    lo, hi, step = s.lo, s.hi, s.step
    if lo is None and hi is None and step in (None, -1):
        return d
    if step is not None and step != 1:
        if isinstance(d, int) and all(isinstance(x, (int, type(None))) for x in (lo, hi, step)):
            return len(range(*slice(lo, hi, step).indices(d)))
        return None
    if d is None:
        # known lengths
        if isinstance(hi, int) and lo is None and hi >= 0:
            return None
        return None
    if isinstance(d, int) and all(isinstance(x, (int, type(None))) for x in (lo, hi)):
        return len(range(*slice(lo, hi, None).indices(d)))
    if not all(isinstance(x, (int, Poly, type(None))) for x in (lo, hi)):
        return None

    def pos(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, int) and x < 0:
            return dims.add(d, x)
        return x
    a, b = pos(lo, 0), pos(hi, d)
    if isinstance(b, int) and isinstance(d, Poly) and not (hi is not None and isinstance(hi, int) and hi < 0):
        if b == 0:
            return 0
        if not is_batch(d):
            return None if False else dims.sub(b, a) if isinstance(a, int) else None
    return dims.sub(b, a)


def getitem(eng, st, v, idx, node):
    c = content(eng, st, v)
    if isinstance(idx, Union):
        return eng.mapu(idx, lambda x: getitem(eng, st, v, x, node), st, node)
    if isinstance(idx, str):
        return top_arr(eng, st, [v])
    if c.kind == 'obj' and c.items is not None and c.shape is not None:
        r = obj_getitem(eng, st, c, idx)
        if r is not None:
            return r[0]
        el = None
        for x in c.items:
            el = x if el is None else eng.join(el, x, st, st, st)
        return el if el is not None else Top('obj item')
    if c.dtype == 'object' or c.kind == 'obj':
        return Top('item of an object array')
    if c.items is not None and isinstance(idx, int) and c.shape and len(c.shape) == 1 and -len(c.items) <= idx < len(c.items):
        x = c.items[idx]
        if isinstance(x, PYS) or isinstance(x, Poly):
            return x
    if c.shape == () and idx is not None and idx is not Ellipsis and c.kind == 'nd' and not (isinstance(idx, ListV)):
        ic = content(eng, st, idx) if isinstance(idx, Arr) else None
        if ic is None or ic.dtype != 'bool':
            eng.event('type-error', node, 'a scalar is indexed')
            raise AbsRaise(ExcV('builtins.IndexError'), node, True)
    if c.kind == 'sp' and c.shape is not None and isinstance(idx, (int, Arr, SliceV, ListV)):
        sh, view, terms, dropped = index_dims(eng, st, c, idx, node)
        if sh is not None and dropped:
            full = list(sh)
            for ax in dropped:
                full.insert(ax, 1)
            sh = tuple(full) if len(dropped) < 2 else ()
        f = c.facts & frozenset(['nonneg', 'zero'])
        r = mkarr(c.rep(shape=sh, roots=frozenset(), items=None, term=TERMS.mk('getitem', c.term, *terms), facts=f))
        return fold.fold_getitem(eng, st, v, idx, r) if fold.REAL and c.items is not None else r
    sh, view, terms, dropped = index_dims(eng, st, c, idx, node)
    lin = c.lin
    t = c.taint
    its = eng.lst(st, idx).items if isinstance(idx, ListV) and eng.lst(st, idx).items is not None else (idx,)
    for i in its:
        if isinstance(i, Arr):
            ic = eng.content(i, st)
            t = t | ic.taint
            if lin is not None and lin_any(ic.lin):
                lin = lin_non(lin_join(lin, ic.lin))
    facts = frozenset(f for f in c.facts if f in ('nonneg', 'zero') or isinstance(f, tuple) and f[0] in ('into',))
    # selecting rows keeps row properties of last axis
    if 'bary' in c.facts and sh is not None and c.shape is not None and sh and sh[-1:] == c.shape[-1:]:
        facts = facts | frozenset(['bary'])
    facts = facts | col_facts(eng, st, c, idx, sh)
    nc = C(shape=sh, dtype=c.dtype, deg=c.deg, tr=c.tr, lin=lin, taint=t, term=TERMS.mk('getitem', c.term, *terms),
           roots=c.roots if view else frozenset(), kind='nd' if c.kind in ('npmatrix', 'obj') else c.kind, facts=facts)
    if c.items is not None and isinstance(idx, SliceV) and all(isinstance(x, (int, type(None))) for x in (idx.lo, idx.hi, idx.step)) and len(c.shape or ()) == 1:
        nc = nc.rep(items=tuple(c.items[slice(idx.lo, idx.hi, idx.step)]))
    r = mkarr(nc, (v,) if view and isinstance(v, Arr) else ())
    if c.items is not None and isinstance(v, Arr):
        return fold.fold_getitem(eng, st, v, idx, r)
    return r


PYS = (int, float, complex, str, bool, type(None))


def obj_index_list(shape, idx):
    """positions (flattened) and resulting shape for constant indices into an object array"""
    import numpy as np
    n = 1
    for d in shape:
        n *= d
    try:
        r = np.arange(n).reshape(shape)[idx]
    except (IndexError, ValueError, TypeError):
        return None
    return [int(x) for x in np.ravel(r)], tuple(r.shape)


def const_index(eng, st, idx):
    def one(i):
        if i is None or i is Ellipsis or isinstance(i, int):
            return i
        if isinstance(i, SliceV) and all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi, i.step)):
            return slice(i.lo, i.hi, i.step)
        if isinstance(i, ListV) and i.kind == 'list':
            ks = eng.lst(st, i).items
            if ks and all(isinstance(k, int) for k in ks):
                return list(ks)
        return NotImplemented
    if isinstance(idx, ListV):
        its = eng.lst(st, idx).items
        if its is None or idx.kind != 'tuple' and not any(isinstance(i, SliceV) for i in its):
            return NotImplemented      # (a list holding slices is read as a tuple)
        r = tuple(one(i) for i in its)
        return NotImplemented if NotImplemented in r else r
    return one(idx)


def obj_getitem(eng, st, c, idx):
    ci = const_index(eng, st, idx)
    if ci is NotImplemented:
        return None
    r = obj_index_list(c.shape, ci)
    if r is None:
        return None
    pos, sh = r
    if sh == ():
        return (c.items[pos[0]],)
    return (mkarr(C(shape=sh, kind='obj', dtype='object', items=tuple(c.items[p] for p in pos), roots=c.roots)),)


def setitem(eng, st, arr, idx, v, node):
    c = eng.content(arr, st)
    if isinstance(idx, Union):
        idx = idx.alts[0]
    if c.kind == 'obj' and c.items is not None and c.shape is not None:
        ci = const_index(eng, st, idx)
        r = obj_index_list(c.shape, ci) if ci is not NotImplemented else None
        items = list(c.items)
        if r is not None:
            pos, sh = r
            if sh == ():
                items[pos[0]] = v
            else:
                its = eng.lst(st, v).items if isinstance(v, ListV) else None
                vc = content(eng, st, v) if its is None else None
                for j, p in enumerate(pos):
                    if its is not None:
                        items[p] = its[j] if len(its) == len(pos) else v
                        continue
                    items[p] = vc.items[j] if vc.items is not None and len(vc.items) == len(pos) else v
        else:
            items = [eng.join(x, v, st, st, st) for x in items]
        st.store[arr.loc] = c.rep(items=tuple(items))
        return
    vc = content(eng, st, v)
    sh, view, terms, dropped = index_dims(eng, st, c, idx, node)
    if sh is not None and vc.shape is not None and c.kind != 'sp' and c.dtype != 'object':
        # value must broadcast into the target
        a, b = sh, vc.shape
        while len(b) > len(a) and b and b[0] == 1:
            b = b[1:]
        if len(b) > len(a):
            eng.event('shape', node, 'value of shape %s is stored into a slot of shape %s' % (vc.shape, sh), shapes=(sh, vc.shape))
        else:
            for x, y in zip(a[len(a) - len(b):], b):
                if x is not None and y is not None and y != 1 and x != y:
                    eng.event('shape', node, 'value of shape %s is stored into a slot of shape %s' % (vc.shape, sh), shapes=(sh, vc.shape))
                    break
    if c.dtype in INTS and vc.dtype in ('float', 'float32', 'complex'):
        eng.event('int-truncation', node, 'a %s value is stored into an integer (%s) array' % (vc.dtype, c.dtype), roots=c.roots)
    if c.dtype == 'copyof' and vc.dtype in ('float', 'float32', 'complex'):
        eng.event('int-truncation', node, 'a %s value is stored into an array that inherits a possibly integer element type' % vc.dtype)
    if c.dtype == 'float16' and vc.dtype == 'float' and vc.shape != () and 'pyscalar' not in vc.facts:
        eng.event('narrowing', node, 'a %s value is stored into a narrower %s array' % (vc.dtype, c.dtype))
    if c.dtype in ('sign', 'uint8', 'int16', 'uint16') and vc.dtype in ('index', 'int', 'int32', 'int64') and 'pyscalar' not in vc.facts:
        eng.event('narrowing', node, 'a %s value is stored into a narrow %s array' % (vc.dtype, c.dtype))
    if c.dtype in ('index',) and vc.dtype in ('float', 'float32'):
        pass
    uninit = 'uninit' in c.facts
    prealloc = 'prealloc' in c.facts
    guard = vc.shape == () and const_of(vc) is not None and is_mask(eng, st, idx)
    if c.deg not in (ANY, None) and vc.deg not in (ANY, None) and c.deg != vc.deg and not uninit and not prealloc and not guard:
        eng.event('unit', node, 'a quantity of length-exponent %s is stored among quantities of exponent %s' % (vc.deg, c.deg))
    tr = join_deg(c.tr, vc.tr)
    if uninit and not full_index(idx, eng, st):
        lin = lin_add(c.lin, vc.lin, True, 'zero' in vc.facts)
    else:
        lin = lin_add(c.lin, vc.lin, 'zero' in c.facts, 'zero' in vc.facts)
    facts = set(c.facts) & set(vc.facts)
    if uninit and full_index(idx, eng, st):
        facts = set(vc.facts)
    elif uninit:
        facts = (set(vc.facts) | {'uninit'}) if c.term is not None and TERMS.get(c.term)[0] != 'set' else (set(c.facts) & set(vc.facts)) | {'uninit'}
    facts -= {'pyscalar'}
    if 'zero' in c.facts and 'nonneg' in vc.facts:
        facts.add('nonneg')
    into = into_of(c), into_of(vc)
    tset = TERMS.mk('set', c.term, vc.term, *terms) if not full_index(idx, eng, st) else vc.term
    it = eng.lst(st, idx).items if isinstance(idx, ListV) and eng.lst(st, idx).items is not None else (idx,)
    t = c.taint | vc.taint
    for i in it:
        if isinstance(i, Arr):
            t = t | eng.content(i, st).taint
            if lin is not None and lin_any(eng.content(i, st).lin):
                lin = lin_non(lin_join(lin, eng.content(i, st).lin))
    if 'uninit' in c.taint:
        # elements are picked by the data: others stay unassigned for some inputs
        if 'uninit' not in vc.taint and (full_index(idx, eng, st) or 'picked' in c.facts or not data_index(eng, st, c, it)):
            t = t - frozenset(['uninit'])
        else:
            facts.add('picked')
    facts = set(f for f in facts if not (isinstance(f, tuple) and f[0] in ('fill', 'nnz')))
    fl, k = fact_of(c, 'fill'), const_of(vc) if vc.shape == () else None
    if full_index(idx, eng, st):
        facts |= fill_fact(vc) if vc.shape == () else set()
    elif fl is not None and k in (0, 1) and c.shape is not None and len(c.shape) == 1:
        ic = content(eng, st, idx) if isinstance(idx, Arr) else None
        if ic is not None and 'unique' in ic.facts and ic.shape is not None and len(ic.shape) == 1 and ic.dtype != 'bool':
            L = ic.shape[0]
            if k == fl:
                facts.add(('fill', fl))
            elif L is not None and c.shape[0] is not None:
                facts.add(('nnz', L if k == 1 else dims.sub(c.shape[0], L)))
    k = last_int(eng, st, c, idx)
    old = dict(fact_of(c, 'cols') or ())
    facts = set(f for f in facts if not (isinstance(f, tuple) and f[0] in ('cols', 'rows')))
    if k is not None:
        whole = all(x is Ellipsis or full_index(x, eng, st) for x in k[1])
        p = into_of(vc)
        if whole and p is not None:
            old[k[0]] = p
        elif old.get(k[0]) != p:
            old.pop(k[0], None)
        facts = set(f for f in facts if not (isinstance(f, tuple) and f[0] == 'into'))
        if old:
            facts.add(('cols', tuple(sorted(old.items()))))
    facts = set(f for f in facts if not (isinstance(f, tuple) and f[0] in ('cov', 'relcov')))
    deg = join_deg(c.deg, vc.deg)
    if guard:
        # replacing flagged entries by a constant: the guard idiom against division by zero
        deg, tr = c.deg, c.tr
    if prealloc:
        facts.add('prealloc')
        if full_index(idx, eng, st):
            deg, tr = vc.deg, vc.tr
        else:
            cov = coverage(eng, st, c, idx)
            old_cov = fact_of(c, 'cov')
            if cov is not None:
                axes, ks = cov
                seen, cdeg, ctr = frozenset(), ANY, ANY
                if old_cov is not None and old_cov[0] == axes:
                    seen, cdeg, ctr = old_cov[1:]
                seen, cdeg, ctr = seen | frozenset([ks]), join_deg(cdeg, vc.deg), join_deg(ctr, vc.tr)
                facts.add(('cov', (axes, seen, cdeg, ctr)))
                if len(seen) == dims.prod([c.shape[a] for a in axes]):
                    deg, tr = cdeg, ctr
                    facts.discard('uninit')
            elif old_cov is not None:
                pass
            rel = None if cov is not None else relative_coverage(eng, st, c, idx)
            seen = fact_of(c, 'relcov')
            if rel is not None:
                base, p, ks = rel
                seen = (seen[1] if seen is not None and seen[0] == base else frozenset()) | frozenset([ks])
                facts.add(('relcov', (base, seen)))
                if len(seen) == p ** len(ks):
                    facts.discard('uninit')
                    facts.discard('picked')
                    t = t - frozenset(['uninit'])
                else:
                    facts.add('uninit')
                    t = t | (c.taint & frozenset(['uninit']))
    newc = C(shape=c.shape, dtype=c.dtype, deg=deg, tr=tr, lin=lin, taint=t, term=tset,
             roots=c.roots, kind=c.kind, facts=frozenset(facts))
    if c.items is not None:
        its = fold.fold_setitem(eng, st, arr, c, idx, v)
        if its is not None:
            newc = newc.rep(items=its, term=TERMS.mk('constarr', c.shape, its))
            if not any(x is fold.UNSET or x is fold.UNSET_REAL for x in its):
                newc = newc.rep(facts=newc.facts - frozenset(['uninit']))
    eng.write_arr(st, arr, newc, strong=True)


def data_index(eng, st, c, its):
    """the index certainly leaves some elements out for some inputs"""
    for j, i in enumerate(its):
        d = c.shape[j] if c.shape is not None and j < len(c.shape) and not any(x is Ellipsis or x is None for x in its) else None
        if isinstance(i, SliceV):
            if isinstance(i.lo, int) and i.lo > 0 and i.hi is None and i.step in (None, 1) or isinstance(i.hi, int) and i.hi < 0 and i.lo is None and i.step in (None, 1):
                return True
            if isinstance(i.step, int) and i.step > 1:
                return True
        if isinstance(i, int) and not isinstance(i, bool) and isinstance(d, Poly):
            return True
        if isinstance(i, Arr):
            ic = eng.content(i, st)
            if ic.dtype == 'bool':
                return True
            if ic.shape is not None and len(ic.shape) == 1 and isinstance(ic.shape[0], Poly) and 'unique' in ic.facts and str(ic.shape[0]).startswith('#') and c.shape is not None and ic.shape[0] not in c.shape:
                return True
    return False


def is_mask(eng, st, idx):
    its = eng.lst(st, idx).items if isinstance(idx, ListV) and idx.kind == 'tuple' else (idx,)
    return bool(its) and any(isinstance(i, Arr) and eng.content(i, st).dtype == 'bool' for i in its)


def coverage(eng, st, c, idx):
    """(axes, positions) if idx fixes some axes at constant positions and takes all of the others"""
    if c.shape is None:
        return None
    its = list(eng.lst(st, idx).items or ()) if isinstance(idx, ListV) and idx.kind == 'tuple' else [idx]
    n = len(c.shape)
    if not any(x is Ellipsis for x in its):
        its.append(Ellipsis)
    if sum(1 for x in its if x is Ellipsis) != 1 or len(its) - 1 > n:
        return None
    e = [i for i, x in enumerate(its) if x is Ellipsis][0]
    its = its[:e] + [SliceV(None, None, None)] * (n - len(its) + 1) + its[e + 1:]
    axes, ks = [], []
    for a, i in enumerate(its):
        if isinstance(i, SliceV) and i.lo is None and i.hi is None:
            continue
        if isinstance(i, Arr):
            i = const_of(eng.content(i, st)) if eng.content(i, st).shape == () else None
        if isinstance(i, bool) or not isinstance(i, int) or not isinstance(c.shape[a], int):
            return None
        axes.append(a)
        ks.append(i % c.shape[a] if c.shape[a] else i)
    return (tuple(axes), tuple(ks)) if axes else None


def offset_of(t):
    """term as a base and a constant offset"""
    off = 0
    for _ in range(10):
        k = TERMS.get(t) if t is not None else ('?',)
        if str(k[0]).lower() in ('add', 'sub') and len(k) == 3:
            x, y = TERMS.get(k[1]), TERMS.get(k[2])
            if y[0] == 'const' and isinstance(y[1], float) and y[1] == int(y[1]):
                t, off = k[1], off + (int(y[1]) if str(k[0]).lower() == 'add' else -int(y[1]))
                continue
            if x[0] == 'const' and isinstance(x[1], float) and x[1] == int(x[1]) and str(k[0]).lower() == 'add':
                t, off = k[2], off + int(x[1])
                continue
        break
    return t, off


def relative_coverage(eng, st, c, idx):
    """(base, p, offsets) of an index [rows, m + i, m + j, ..] into axes of the same small size p, by index arrays that
    differ from one another by constants: positions are known up to the (cyclic) position of m"""
    its = list(eng.lst(st, idx).items or ()) if isinstance(idx, ListV) and idx.kind == 'tuple' else ()
    if c.shape is None or len(its) != len(c.shape) or len(its) < 2 or not all(isinstance(i, Arr) for i in its):
        return None
    cs = [eng.content(i, st) for i in its]
    p = c.shape[1]
    if any(i.dtype == 'bool' or i.shape is None or len(i.shape) != 1 for i in cs) or not isinstance(p, int) or p > 4 or any(d != p for d in c.shape[1:]):
        return None
    if isinstance(c.shape[0], int) or cs[0].shape != (c.shape[0],):
        return None
    rel = [offset_of(i.term) for i in cs[1:]]
    if any(b != rel[0][0] for b, o in rel):
        return None
    return (cs[0].term, rel[0][0]), p, tuple(o % p for b, o in rel)


def full_index(idx, eng, st):
    if idx is Ellipsis:
        return True
    if isinstance(idx, SliceV):
        return idx.lo is None and idx.hi is None and (idx.step is None or idx.step in (1, -1))
    if isinstance(idx, ListV) and idx.kind == 'tuple':
        its = eng.lst(st, idx).items
        return its is not None and all(i is Ellipsis or isinstance(i, SliceV) and full_index(i, eng, st) for i in its)
    return False


# -------------------------------------------------------------------------------------------- shapes from arguments
def shape_arg(eng, st, v):
    """tuple of dims from a shape argument, or None"""
    if isinstance(v, (int, Poly)):
        return (v,)
    if isinstance(v, ListV):
        its = eng.lst(st, v).items
        if its is None:
            return None
        return tuple(dim_of(eng, st, x) for x in its)
    if isinstance(v, Arr):
        c = eng.content(v, st)
        if c.items is not None:
            return tuple(dim_of(eng, st, x) for x in c.items)
        if c.shape == ():
            return (dim_of(eng, st, v),)
        if c.shape is not None and len(c.shape) == 1 and isinstance(c.shape[0], int):
            return tuple([None] * c.shape[0])
    return None


def dim_of(eng, st, x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Poly)):
        return x
    if isinstance(x, Arr):
        c = eng.content(x, st)
        if c.shape == () and c.term is not None:
            k = TERMS.get(c.term)
            if k[0] in ('fresh', 'phi'):
                return None
            return dims.sym('#%s' % nnz_name(c.term))
    return None


def scalar_dim(d):
    """value for a dimension"""
    if d is None:
        return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'pyscalar'])))
    return d


def reshape_shape(eng, st, c, new, node):
    if new is None:
        return None
    new = list(new)
    if c.shape is None:
        return tuple(None if x == -1 else x for x in new)
    tot = dims.prod(c.shape)
    if -1 in [x for x in new if isinstance(x, int)]:
        k = new.index(-1)
        rest = dims.prod([x for i, x in enumerate(new) if i != k])
        new[k] = dims.div(tot, rest)
        if tot is not None and rest is not None and new[k] is None and isinstance(tot, int) and isinstance(rest, int):
            eng.event('shape', node, 'cannot reshape %s elements into %s' % (tot, tuple(new)), shapes=(c.shape, tuple(new)))
    else:
        t2 = dims.prod(new)
        if tot is not None and t2 is not None and tot != t2:
            eng.event('shape', node, 'cannot reshape %s elements into %s' % (tot, tuple(new)), shapes=(c.shape, tuple(new)))
            return None
    return tuple(new)


def norm_axis(ax, n):
    if isinstance(ax, int) and n is not None:
        return ax % n if -n <= ax < n else None
    return ax


def axes_of(eng, st, axis):
    if axis is None:
        return None
    if isinstance(axis, int):
        return [axis]
    if isinstance(axis, ListV):
        its = eng.lst(st, axis).items
        if its is not None and all(isinstance(i, int) for i in its):
            return list(its)
    return 'unknown'


def reduce_(eng, st, name, v, axis, keepdims, node):
    c = content(eng, st, v)
    if c.kind == 'obj' and c.items is not None:
        if name == 'sum' and axis is None and c.items:
            r = c.items[0]
            for x in c.items[1:]:
                r = eng.binop('Add', r, x, st, node)
            return r
        if name == 'sum' and isinstance(axis, int) and len(c.shape) == 2:
            ax = axis % 2
            n, m = c.shape
            out = []
            for i in range(m if ax == 0 else n):
                its = [c.items[j * m + i] for j in range(n)] if ax == 0 else [c.items[i * m + j] for j in range(m)]
                r = its[0]
                for x in its[1:]:
                    r = eng.binop('Add', r, x, st, node)
                out.append(r)
            return mkarr(C(shape=(len(out),), kind='obj', dtype='object', items=tuple(out)))
        return Top('object reduction')
    axs = axes_of(eng, st, axis)
    sh = None
    red = []
    if c.shape is not None:
        if c.shape == () and c.kind == 'nd' and axs not in (None, 'unknown') and axs:
            eng.event('index-rank', node, 'reduction over axis %s of a scalar' % axs)
        n = len(c.shape)
        if axs is None:
            red = list(range(n))
            sh = ()
            if keepdims is True:
                sh = tuple([1] * n)
        elif axs != 'unknown':
            red = [norm_axis(a, n) for a in axs]
            if None in red and n:
                eng.event('index-rank', node, 'axis %s is out of range for rank %d' % (axs, n))
                red = [r for r in red if r is not None]
            if keepdims is True:
                sh = tuple(1 if i in red else d for i, d in enumerate(c.shape))
            else:
                sh = tuple(d for i, d in enumerate(c.shape) if i not in red)
            if c.kind in ('sp', 'npmatrix') and n == 2:
                sh = tuple(1 if i in red else d for i, d in enumerate(c.shape)) if axs is not None else ()
        bad = [c.shape[i] for i in red if is_batch(c.shape[i])]
        if bad:
            eng.event('batch-reduce', node, '%s runs over the batch axis %s' % (name, bad[0]))
    cnt = dims.prod([c.shape[i] for i in red]) if c.shape is not None and (axs != 'unknown') else None
    deg, tr, lin, dt = c.deg, c.tr, c.lin, c.dtype
    facts = set()
    axp = axs if axs is None or axs == 'unknown' else (axs[0] if len(axs) == 1 else tuple(axs))
    if isinstance(axp, int) and c.shape is not None:
        axp = norm_axis(axp, len(c.shape))
    if name in ('sum', 'nansum'):
        name = 'sum'
        dt = 'int' if dt in INTS else dt
        if c.kind == 'sp' and c.dtype in INTS:
            dt = c.dtype if c.dtype in ('sign', 'index') else 'int'
            dt = 'int'
        if isinstance(tr, (int, Fraction)) and tr != 0:
            tr = tr * cnt if isinstance(cnt, int) else None
        elif tr == 'N' and 'nonneg' not in c.facts:
            tr = None
        if 'nonneg' in c.facts:
            facts.add('nonneg')
        if 'zero' in c.facts:
            facts.add('zero')
    elif name in ('mean', 'nanmean', 'average'):
        name = 'mean'
        dt = 'float' if dt in INTS else dt
        if tr == 'N' and 'nonneg' not in c.facts:
            tr = None
        if 'nonneg' in c.facts:
            facts.add('nonneg')
    elif name in ('max', 'min', 'amax', 'amin', 'median', 'nanmax', 'nanmin'):
        lin = lin_non(lin)
        if 'nonneg' in c.facts:
            facts.add('nonneg')
    elif name == 'ptp':
        lin = lin_non(lin)
        tr = 0 if isinstance(tr, (int, Fraction)) or tr == ANY else tr
    elif name == 'prod':
        deg = (deg if deg in (None, ANY, 0) else (deg * cnt if isinstance(cnt, int) else None))
        tr = tr_nonlin(tr)
        lin = lin_non(lin)
        dt = 'int' if dt in INTS else dt
        if 'nonneg' in c.facts:
            facts.add('nonneg')
    elif name in ('any', 'all', 'alltrue', 'sometrue'):
        deg, dt = 0, 'bool'
        tr = tr_nonlin(tr)
        lin = lin_non(lin)
    elif name in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
        deg, dt = 0, 'int'
        tr = 0 if isinstance(tr, (int, Fraction)) or tr == ANY else tr
        lin = lin_non(lin)
        if len(red) == 1 and c.shape is not None and isinstance(c.shape[red[0]], Poly):
            facts.add(('into', c.shape[red[0]]))
        facts.add('nonneg')
    elif name in ('std',):
        dt = 'float' if dt in INTS else dt
        tr = 0 if isinstance(tr, (int, Fraction)) or tr == ANY else tr
        lin = lin_non(lin)
        facts.add('nonneg')
    elif name in ('var',):
        deg = deg if deg in (None, ANY) else 2 * deg
        tr = 0 if isinstance(tr, (int, Fraction)) or tr == ANY else tr
        lin = lin_non(lin)
    elif name == 'norm':
        tr = tr_nonlin(tr)
        lin = lin_non(lin)
        dt = 'float'
        facts.add('nonneg')
    kind = 'npmatrix' if c.kind in ('sp', 'npmatrix') and sh not in ((), None) else 'nd'
    return mkarr(C(shape=sh, dtype=dt, deg=deg, tr=tr, lin=lin, taint=c.taint, kind=kind, facts=frozenset(facts),
                   term=TERMS.mk(name, c.term, axp)))


def structural(eng, st, name, v, shape, view, params=(), keep=('nonneg', 'zero', 'bary'), kind=None):
    """rearrangement of the entries of v"""
    c = content(eng, st, v)
    facts = frozenset(f for f in c.facts if f in keep or isinstance(f, tuple) and f[0] == 'into')
    r = c.rep(shape=shape, term=TERMS.mk(name, c.term, *params), facts=facts, items=None,
              roots=c.roots if view else frozenset(), kind=kind or ('nd' if c.kind == 'npmatrix' else c.kind))
    return mkarr(r, (v,) if view and isinstance(v, Arr) else ())


def transpose(eng, st, v, axes=None, node=None):
    c = content(eng, st, v)
    if c.kind == 'obj' and c.items is not None and len(c.shape) == 2 and axes is None:
        n, m = c.shape
        return mkarr(C(shape=(m, n), kind='obj', dtype='object', items=tuple(c.items[i * m + j] for j in range(m) for i in range(n)), roots=c.roots))
    sh = None
    if c.shape is not None:
        if axes is None:
            sh = tuple(reversed(c.shape))
        else:
            ax = [norm_axis(a, len(c.shape)) for a in axes] if all(isinstance(a, int) for a in axes) else None
            if ax is not None and sorted(x for x in ax if x is not None) == list(range(len(c.shape))):
                sh = tuple(c.shape[a] for a in ax)
            elif ax is not None:
                eng.event('index-rank', node, 'transpose axes %s do not fit rank %d' % (axes, len(c.shape)))
    r = structural(eng, st, 'T' if axes is None else 'transpose', v, sh, True, () if axes is None else (tuple(axes),))
    k = TERMS.get(c.term)
    if axes is None and k[0] == 'T' and isinstance(k[1], T):
        r.c0 = r.c0.rep(term=k[1])
    f = set(r.c0.facts)
    if axes is None and (c.shape is None or len(c.shape) == 2):
        if 'rowsum1' in c.facts:
            f.add('colsum1')
        if 'colsum1' in c.facts:
            f.add('rowsum1')
        if 'bary' in f:
            f.discard('bary')
    elif 'bary' in f:
        f.discard('bary')
    if axes is None:
        for x in c.facts:
            if isinstance(x, tuple) and x[0] in ('cols', 'rows'):
                f.add(({'cols': 'rows', 'rows': 'cols'}[x[0]], x[1]))
    r.c0 = r.c0.rep(facts=frozenset(f), kind=c.kind)
    return r


def moveaxis_shape(shape, src, dst):
    if shape is None:
        return None
    n = len(shape)
    srcs = [s % n for s in src]
    dsts = [d % n for d in dst]
    order = [i for i in range(n) if i not in srcs]
    for d, s in sorted(zip(dsts, srcs)):
        order.insert(d, s)
    return tuple(shape[i] for i in order)


def concat(eng, st, parts, axis, node, name='concatenate'):
    """parts: list of values"""
    cs = [content(eng, st, p) for p in parts]
    if not cs:
        return top_arr(eng, st, [])
    sh = None
    if all(c.shape is not None for c in cs) and isinstance(axis, int):
        ranks = set(len(c.shape) for c in cs)
        if len(ranks) > 1:
            eng.event('shape', node, 'concatenation of arrays of different rank', shapes=[c.shape for c in cs])
        else:
            n = ranks.pop()
            ax = norm_axis(axis, n) if n else None
            if ax is None:
                eng.event('index-rank', node, 'concatenation along axis %s of rank %d arrays' % (axis, n))
            else:
                out = []
                for i in range(n):
                    ds = [c.shape[i] for c in cs]
                    if i == ax:
                        out.append(dims.total(ds))
                    else:
                        known = [d for d in ds if d is not None]
                        if known and any(d != known[0] for d in known):
                            eng.event('shape', node, 'concatenated arrays disagree on axis %d: %s' % (i, ', '.join(map(str, ds))), shapes=[c.shape for c in cs])
                            out.append(None)
                        else:
                            out.append(known[0] if known else None)
                sh = tuple(out)
    degs = [c.deg for c in cs]
    known = set(d for d in degs if d not in (None, ANY))
    # homogeneous coordinates: a column of ones next to positions
    homog = set(c.deg for c in cs if c.deg not in (None, ANY) and not ('one' in c.facts or fact_of(c, 'fill') == 1))
    if len(homog) > 1:
        eng.event('unit', node, 'concatenation of quantities with length-exponents %s' % sorted(known))
    r = combine(cs)
    lin = cs[0].lin
    z = 'zero' in cs[0].facts
    for c in cs[1:]:
        lin = lin_add(lin, c.lin, z, 'zero' in c.facts)
        z = z and 'zero' in c.facts
    return mkarr(C(shape=sh, dtype=r.dtype, deg=r.deg, tr=r.tr, lin=lin, taint=taints(cs), facts=r.facts - frozenset(['pyscalar']),
                   term=TERMS.mk(name, axis if isinstance(axis, int) else '?', *[c.term for c in cs]), kind='nd'))


# -------------------------------------------------------------------------------------------- einsum
def einsum(eng, st, args, kw, node):
    if not args or not isinstance(args[0], str):
        return top_arr(eng, st, args)
    spec = args[0].replace(' ', '')
    ops = args[1:]
    cs = [content(eng, st, o) for o in ops]
    ins, arrow, out = spec.partition('->')
    ins = ins.split(',')
    if len(ins) != len(cs):
        eng.event('type-error', node, 'einsum has %d operands for %d subscripts' % (len(cs), len(ins)))
        return top_arr(eng, st, args)
    sizes = {}
    batch = []
    unknown = False
    for s, c in zip(ins, cs):
        letters = s.replace('...', '')
        if c.shape is None:
            unknown = unknown or '...' in s
            continue
        if '...' in s:
            pre, post = s.split('...')
            if len(c.shape) < len(letters):
                eng.event('index-rank', node, 'einsum operand of rank %d for subscripts %s' % (len(c.shape), s))
                unknown = True
                continue
            named = list(zip(pre, c.shape[:len(pre)])) + (list(zip(post, c.shape[len(c.shape) - len(post):])) if post else [])
            batch.append(c.shape[len(pre):len(c.shape) - len(post)])
        else:
            if len(c.shape) != len(letters):
                eng.event('index-rank', node, 'einsum operand of rank %d for subscripts %s' % (len(c.shape), s))
                continue
            named = list(zip(letters, c.shape))
        for l, d in named:
            if l in sizes and sizes[l] is not None and d is not None and sizes[l] != d and 1 not in (sizes[l], d):
                eng.event('shape', node, 'einsum index %s runs over sizes %s and %s' % (l, sizes[l], d), shapes=[c.shape for c in cs])
            if sizes.get(l) in (None, 1):
                sizes[l] = d
    if not arrow:
        from collections import Counter
        cnt = Counter(''.join(ins).replace('.', ''))
        out = ('...' if '...' in spec else '') + ''.join(sorted(l for l in cnt if cnt[l] == 1))
    b = broadcast(eng, st, batch, node, 'einsum batch') if batch else ()
    if unknown:
        b = None
    sh = None
    if b is not None:
        sh = []
        o = out
        if '...' in o:
            pre, post = o.split('...')
            sh = [sizes.get(l) for l in pre] + list(b) + [sizes.get(l) for l in post]
        else:
            if b:
                for d in b:
                    if is_batch(d):
                        eng.event('batch-reduce', node, 'einsum sums over the batch axis %s' % d)
            sh = [sizes.get(l) for l in o]
        sh = tuple(sh)
    contracted = set(''.join(ins).replace('.', '')) - set(out.replace('.', ''))
    for l in contracted:
        if is_batch(sizes.get(l)):
            eng.event('batch-reduce', node, 'einsum sums over the batch axis %s' % sizes[l])
    deg = 0
    for c in cs:
        if c.deg == ANY:
            deg = ANY
            break
        if c.deg is None:
            deg = None
        elif deg is not None:
            deg += c.deg
    if any(c.deg == ANY for c in cs):
        deg = ANY
    lin = ()
    for c in cs:
        lin = lin_mul(lin, c.lin)
    trs = [c.tr for c in cs]
    if ANY in trs:
        tr = ANY
    elif None in trs:
        tr = None
    elif all(t == 0 for t in trs):
        tr = 0
    elif len([t for t in trs if t != 0]) > 1:
        tr = 'N'
        if trs.count('N') > 1 and not same_svd(cs):
            tr = None
    elif len(cs) == 1:
        ds = [sizes.get(l) for l in contracted]
        p = dims.prod(ds)
        tr = trs[0] if trs[0] == 'N' else (trs[0] * p if isinstance(p, int) else None)
    else:
        tr = None
        # weights that sum to one over the contracted axis
        for i, c in enumerate(cs):
            if trs[i] == 0 and 'bary' in c.facts and len(cs) == 2 and len(contracted) == 1:
                l = list(contracted)[0]
                if ins[i].endswith(l):
                    tr = trs[1 - i]
    dt = cs[0].dtype
    for c in cs[1:]:
        dt = promote(dt, c.dtype)
    facts = set()
    if all('nonneg' in c.facts for c in cs):
        facts.add('nonneg')
    if len(cs) == 2 and cs[0].term == cs[1].term and ins[0] == ins[1]:
        facts.add('nonneg')
    return mkarr(C(shape=sh, dtype=dt, deg=deg, tr=tr, lin=lin, taint=taints(cs), facts=frozenset(facts),
                   term=TERMS.mk('einsum', spec, *[c.term for c in cs])))


def weighted_mean(t, u):
    """t / u is a mean weighted by what u sums up (which is nonnegative and depends on the origin: signed sums are undecided)"""
    a, b = TERMS.get(t), TERMS.get(u)
    if not a or not b or a[0] != 'sum' or b[0] != 'sum':
        return False
    m = TERMS.get(a[1])
    if not m or m[0] != 'mul':
        return False

    def base(x):
        k = TERMS.get(x) if isinstance(x, T) else None
        return base(k[1]) if k and k[0] in ('index', 'getitem', 'newaxis', 'reshape', 'idx', 'expand') and len(k) > 1 else x
    return any(base(x) == base(b[1]) for x in m[1:] if isinstance(x, T))


def within(t, u, depth=0):
    if t == u:
        return True
    k = TERMS.get(u) if isinstance(u, T) else None
    return k is not None and depth < 6 and any(within(t, x, depth + 1) for x in k[1:] if isinstance(x, T))


def same_svd(cs):
    """the operands contain both factors of one singular value decomposition (a spectral function of that matrix)"""
    def roots(t, want, depth, out):
        k = TERMS.get(t) if t is not None else None
        if k is None or depth > 8:
            return
        if k[0] in want:
            out.add((k[0], k[1]))
            return
        for x in k[1:]:
            if isinstance(x, T):
                roots(x, want, depth + 1, out)
    out = set()
    for c in cs:
        roots(c.term, ('svd_u', 'svd_v', 'eig_v'), 0, out)
    return any(('svd_u', a) in out and ('svd_v', a) in out for _, a in out)


def arr_copy(eng, st, v, name='copy'):
    c = content(eng, st, v)
    if c.kind == 'obj':
        return mkarr(c.rep(roots=frozenset()))
    return mkarr(c.rep(roots=frozenset(), facts=c.facts - frozenset(['uninit', 'picked'])))


from .extmodel import (ext_attr, arr_attr, ext_subscript, call_ext, call_method, call_extobj, extobj_attr)  # noqa
