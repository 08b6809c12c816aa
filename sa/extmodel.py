"""Models of the external functions and methods the repository calls."""
import math
import re
from fractions import Fraction

from . import dims
from . import fold
from .dims import Poly
from .values import *
from . import values as V

F = {}          # dotted name -> fn(E, eng, st, args, kw, node)
M = {}          # array method name -> fn


def N():
    from . import npmodel
    return npmodel


def reg(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f
    return deco


CONST = {'numpy.pi': math.pi, 'numpy.inf': float('inf'), 'numpy.nan': float('nan'), 'numpy.newaxis': None, 'numpy.e': math.e,
         'math.pi': math.pi, 'math.inf': float('inf'), 'builtins.Ellipsis': Ellipsis}


# what a program can read that is not among its arguments
HIDDEN = ('random.', 'time.', 'datetime.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'os.times', 'os.getcwd',
          'os.cpu_count', 'platform.', 'socket.', 'getpass.', 'builtins.id', 'builtins.hash', 'builtins.input', 'threading.get_ident',
          'sys.argv', 'sys.getrefcount', 'gc.', 'tempfile.')
HIDDENT = frozenset(['random'])


def ext_attr(eng, st, o, name, node):
    p = o.path + '.' + name
    if p in ('os.environ', 'sys.argv'):
        return Top(p, taint=HIDDENT)
    if p in CONST:
        return CONST[p]
    if o.path == 'builtins.object':
        return Ext(p)
    return Ext(p)


def ext_subscript(eng, st, o, k, node):
    if o.path.startswith('numpy.'):
        last = o.path.split('.')[-1]
        if o.path in ('numpy.r_', 'numpy.c_', 'numpy.s_', 'numpy.index_exp', 'numpy.ogrid', 'numpy.mgrid'):
            r = extmore.r_(eng, st, last, k, node)
            return r if r is not None else Top('np.' + last, taint=eng.taint_of(k, st))
        if o.path in F or last in ('ones_like', 'zeros_like', 'asarray', 'array'):
            eng.event('type-error', node, 'function %s is subscripted' % o.path)
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
    return Top('ext item')


EXC = ('Exception', 'Error', 'Warning', 'StopIteration', 'KeyboardInterrupt')


def argmap(args, kw, names, st=None, eng=None):
    d = {}
    for n, a in zip(names, args):
        d[n] = a
    for k, v in kw.items():
        d[k] = v
    return d


MAYRAISE = ('numpy.linalg.', 'scipy.', 'numpy_indexed.', 'builtins.open', 'builtins.int', 'builtins.float', 'numpy.testing', 'matplotlib', 'numpy.load')


def known_value(eng, st, v):
    if isinstance(v, (int, float, bool)):
        return True
    if isinstance(v, Arr):
        return fold.is_const(eng.content(v, st))
    if isinstance(v, ListV):
        its = eng.lst(st, v).items
        return its is not None and all(known_value(eng, st, x) for x in its)
    if isinstance(v, ExtObj) and v.type in ('npindex', 'groupby'):
        return bool(v.args) and all(known_value(eng, st, x) for x in v.args)
    return False


def call_ext(eng, st, f, args, kw, node, fr=None):
    if not fold.REAL:
        return call_ext_(eng, st, f, args, kw, node, fr)
    n = eng.raisectr
    r = call_ext_(eng, st, f, args, kw, node, fr)
    if eng.raisectr == n + 1 and known_value(eng, st, r):
        eng.raisectr = n            # it was evaluated
    return r


ARITH = {'numpy.' + n for n in (
    'abs absolute fabs sqrt square sin cos tan arcsin arccos arctan arctan2 exp log sign add subtract multiply divide power '
    'maximum minimum sum prod mean cumsum linspace arange floor ceil clip dot einsum cross linalg.norm linalg.inv linalg.det linalg.svd').split()} | {
    'builtins.abs', 'builtins.sum', 'builtins.round', 'builtins.int', 'builtins.float', 'builtins.range', 'scipy.sparse.diags',
    'builtins.enumerate', 'builtins.zip', 'builtins.sorted', 'builtins.reversed', 'builtins.list', 'builtins.tuple', 'builtins.set'}


def call_ext_(eng, st, f, args, kw, node, fr=None):
    p = f.path
    if p.startswith('scipy.sparse.csr.') or p.startswith('scipy.sparse.coo.'):
        p = 'scipy.sparse.' + p.split('.')[-1]
    h = eng.hooks.get('ext:' + p)
    if h is not None:
        r = h(eng, st, args, kw, node)
        if r is not NotImplemented:
            return r
    eng.event('ext-call', node, p)
    last = p.split('.')[-1]
    if p in ARITH and any(isinstance(a, (FuncV, BoundV)) for a in args):
        eng.event('type-error', node, 'arithmetic with a function')
        raise AbsRaise(ExcV('builtins.TypeError'), node, True)
    fn = F.get(p)
    if fn is None or p.startswith(MAYRAISE):
        eng.raisectr += 1
    if any(type(a).__name__ == 'StarArg' for a in args):
        a0 = [a for a in args if type(a).__name__ == 'StarArg'][0]
        if fn is not None and p in STAROK:
            return fn(eng, st, args, kw, node)
        t = frozenset()
        for a in args:
            t |= eng.taint_of(getattr(a, 'elem', a), st)
        return Top('star call', taint=t)
    if p.startswith('scipy.ndimage.') and last in NDI_ARGS and len(args) > 2:
        kw = dict(kw, **dict(zip(NDI_ARGS[last], args[2:])))
        args = args[:2]
    if p in fold.PURE and p not in fold.FN and p not in fold.REALFN and (fold.REAL or fn is None or p in MORE):
        r = fold.pure(eng, st, p, list(args), dict(kw), None)
        if r is not None:
            return r
    if fn is not None:
        r = fn(eng, st, list(args), dict(kw), node)
        if p in fold.FN or fold.REAL and (p in fold.REALFN or p in fold.spm.FN):
            r = fold.fold_ext(eng, st, p, list(args), dict(kw), r)
        if p.startswith('scipy.') and kw:
            t = frozenset()
            for x in kw:
                t |= eng.taint_of(kw[x], st) if x not in ('out', 'output') else frozenset()
            if t:
                r = with_taint(eng, st, r, t)
        out = kw.get('out') if kw.get('out') is not None else kw.get('output') if p.startswith('scipy.ndimage') else args[2] if len(args) == 3 and p in UFUNC2 else None
        if isinstance(out, ListV) and out.kind == 'tuple' and eng.lst(st, out).items and len(eng.lst(st, out).items) == 1:
            out = eng.lst(st, out).items[0]
        if isinstance(out, Arr) and isinstance(r, Arr):
            return into_out(eng, st, out, r, kw, node)
        return r
    if p.startswith('builtins.') and (last.endswith(('Exception', 'Error', 'Warning', 'Iteration', 'Interrupt'))):
        return ExcV(p, args)
    t = frozenset()
    for a in list(args) + list(kw.values()):
        t |= eng.taint_of(a, st)
        eng.assigned(st, a)
        if fold.REAL and isinstance(a, Arr):
            eng.real_write(st, a, None)
    t -= UNSET
    if 'random' in p or p.startswith(HIDDEN):
        t = t | HIDDENT
    # in-place output arguments
    if 'out' in kw and kw['out'] is not None:
        eng.mutate(st, kw['out'], node, 'out= argument')
    key = 'ext ' + p
    eng.unknown_calls[key] = eng.unknown_calls.get(key, 0) + 1
    return Top('ext ' + p, taint=t)


UNSET = frozenset(['uninit'])
NDI_ARGS = dict([(f, ('output', 'mode', 'cval', 'origin')) for f in ('convolve', 'correlate')] +
                [(f, ('axis', 'output', 'mode', 'cval', 'origin')) for f in ('convolve1d', 'correlate1d')])
STAROK = ('builtins.zip', 'builtins.print')
UFUNC2 = set()


def with_taint(eng, st, r, t):
    if isinstance(r, Arr):
        c = eng.content(r, st)
        if not t <= c.taint:
            if r.loc in st.store:
                st.store[r.loc] = c.rep(taint=c.taint | t)
            else:
                r.c0 = c.rep(taint=c.taint | t)
    elif isinstance(r, (Top, ExtObj)):
        r.taint = r.taint | t
    elif isinstance(r, ListV) and eng.lst(st, r).items is not None:
        for x in eng.lst(st, r).items:
            with_taint(eng, st, x, t)
    return r


def into_out(eng, st, out, r, kw, node):
    """the result r of a call is stored into the array out (which the call also returns)"""
    oc, rc = eng.content(out, st), eng.content(r, st)
    if oc.shape is not None and rc.shape is not None and oc.shape != rc.shape and all(d is not None for d in oc.shape + rc.shape):
        a = N().broadcast(eng, st, [oc.shape, rc.shape], node, 'out=')
        if a is not None and a != oc.shape and len(rc.shape) > len(oc.shape):
            eng.event('shape', node, 'a result of shape %s is stored into an array of shape %s' % (rc.shape, oc.shape), shapes=(oc.shape, rc.shape))
    eng.inplace_checks(st, out, rc, node)
    if kw.get('where', True) is not True:
        eng.write_arr(st, out, rc.rep(shape=oc.shape, dtype=oc.dtype, kind=oc.kind), strong=False)
    else:
        eng.write_arr(st, out, rc.rep(shape=oc.shape if oc.shape is not None else rc.shape, dtype=oc.dtype or rc.dtype, kind=oc.kind), strong=True)
    return out


# ------------------------------------------------------------------------------------------------ builtins
@reg('builtins.range', 'numpy.ndindex_')
def _range(eng, st, a, kw, node):
    if all(isinstance(x, int) for x in a):
        return eng.mklist(st, list(range(*a))) if len(range(*a)) <= 400 else V.Range(len(range(*a)))
    for x in a:
        if isinstance(x, float) or x is None or isinstance(x, str) or isinstance(x, ListV):
            eng.event('type-error', node, 'range() of a %s' % type(x).__name__)
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
    n = None
    if len(a) == 1 and isinstance(a[0], Poly):
        n = a[0]
    elif len(a) == 1 and isinstance(a[0], Arr):
        n = N().dim_of(eng, st, a[0])
    return V.Range(n)


@reg('builtins.len')
def _len(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, Union):
        return eng.mapu(v, lambda x: _len(eng, st, [x], kw, node), st, node)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Inst):
        f, _ = v.cls.lookup('__len__')
        if isinstance(f, FuncV):
            return eng.call(BoundV(f, v), [], {}, st, node)
        if not v.cls.has_ext_base() and not eng.inst(st, v).open:
            eng.event('type-error', node, '%s has no len()' % v.cls.name)
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
    if v is None or isinstance(v, (int, float, FuncV, BoundV)):
        eng.event('type-error', node, 'len() of %s' % ('None' if v is None else type(v).__name__))
        raise AbsRaise(ExcV('builtins.TypeError'), node, True)
    if isinstance(v, DictV):
        d = eng.lst(st, v)
        if d.summary is None:
            return len(d.items)
    if isinstance(v, Arr):
        c = eng.content(v, st)
        if c.shape == ():
            eng.event('type-error', node, 'len() of a scalar')
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if c.shape is not None:
            return N().scalar_dim(c.shape[0])
        return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), term=TERMS.mk('len', c.term), facts=frozenset(['nonneg', 'pyscalar'])))
    n = eng.seqlen(st, v)
    if n is not None:
        return n
    return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), taint=frozenset(), facts=frozenset(['nonneg', 'pyscalar'])))


@reg('builtins.zip', 'itertools.zip_longest')
def _zip(eng, st, a, kw, node):
    seqs = [eng.iterate(x, st, node) if not hasattr(x, 'elem') else None for x in a]
    if all(s is not None for s in seqs):
        return eng.mklist(st, [eng.mklist(st, t, 'tuple') for t in zip(*seqs)])
    els = [eng.iter_elem(st, x, node) if not hasattr(x, 'elem') else x.elem for x in a]
    lens = [eng.seqlen(st, x) if not hasattr(x, 'elem') else None for x in a]
    n = None
    for l in lens:
        if l is not None:
            n = l
            break
    if len(a) == 1 and hasattr(a[0], 'elem'):
        return eng.mkulist(st, Top('zip'))
    return eng.mkulist(st, eng.mklist(st, els, 'tuple'), n=n)


@reg('builtins.enumerate')
def _enum(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    start = kw.get('start', a[1] if len(a) > 1 else 0)
    if it is not None and isinstance(start, int):
        return eng.mklist(st, [eng.mklist(st, [i + start, x], 'tuple') for i, x in enumerate(it)])
    return eng.mkulist(st, eng.mklist(st, [Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=())), eng.iter_elem(st, a[0], node)], 'tuple'))


def _seq(kind):
    def f(eng, st, a, kw, node):
        if not a:
            return eng.mklist(st, [], kind)
        if isinstance(a[0], Union):
            return eng.mapu(a[0], lambda x: f(eng, st, [x], kw, node), st, node)
        it = eng.iterate(a[0], st, node)
        if it is not None:
            return eng.mklist(st, it, kind)
        if isinstance(a[0], (Top,)):
            return Top(kind, taint=a[0].taint)
        return eng.mkulist(st, eng.iter_elem(st, a[0], node), kind, eng.seqlen(st, a[0]))
    return f


F['builtins.list'] = _seq('list')
F['builtins.tuple'] = _seq('tuple')
F['builtins.set'] = _seq('set')
F['builtins.frozenset'] = _seq('set')


@reg('builtins.reversed')
def _rev(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    if it is not None:
        return eng.mklist(st, it[::-1])
    return eng.mkulist(st, eng.iter_elem(st, a[0], node))


@reg('builtins.sorted')
def _sorted(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    if it is not None and all(isinstance(x, (int, float, str)) for x in it) and not kw:
        return eng.mklist(st, sorted(it))
    if fold.REAL and it is not None and set(kw) <= {'key', 'reverse'} and isinstance(kw.get('reverse', False), bool):
        try:
            ks = [eng.call(kw['key'], [x], {}, st, node) if kw.get('key') is not None else x for x in it]
            ks = [fold.Conv(eng, st)(k) for k in ks]
            ks = [k.item() if isinstance(k, fold.np.ndarray) and k.shape == () else k for k in ks]
            if all(isinstance(k, (int, float)) or isinstance(k, tuple) and all(isinstance(q, (int, float)) for q in k) for k in ks):
                return eng.mklist(st, [it[i] for i in sorted(range(len(it)), key=lambda i: ks[i], reverse=kw.get('reverse', False))])
        except (fold.NoFold, TypeError):
            pass
    if kw.get('key') is not None:
        eng.call(kw['key'], [eng.iter_elem(st, a[0], node)], {}, st, node)
    n = len(it) if it is not None else None
    return eng.mkulist(st, eng.iter_elem(st, a[0], node), n=n)


@reg('builtins.iter')
def _iter(eng, st, a, kw, node):
    if isinstance(a[0], ListV) and a[0].kind == 'iter':
        return a[0]
    it = eng.iterate(a[0], st, node)
    if it is not None:
        return eng.mklist(st, it, 'iter')
    return eng.mkulist(st, eng.iter_elem(st, a[0], node), 'iter')


@reg('builtins.next')
def _next(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, ListV):
        l = eng.lst(st, v)
        if l.items is not None:
            if not l.items:
                if len(a) > 1:
                    return a[1]
                raise AbsRaise(ExcV('builtins.StopIteration'), node)
            st.store[v.loc] = LC(l.items[1:], None, l.roots)
            return l.items[0]
        eng.maybe_stop += 1
        eng.raisectr += 1
        return l.summary if len(a) < 2 else eng.join(l.summary, a[1])
    eng.maybe_stop += 1
    eng.raisectr += 1
    return Top('next')


@reg('builtins.isinstance')
def _isinstance(eng, st, a, kw, node):
    r = eng.isinst(a[0], a[1], st)
    if r is None:
        return eng.ubool(a[0], a[1], st, 'isinstance')
    return r


@reg('builtins.issubclass')
def _issub(eng, st, a, kw, node):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return a[0].is_sub(a[1])
    return eng.ubool(a[0], a[1], st, 'issubclass')


@reg('builtins.type')
def _type(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, Union):
        return eng.mapu(v, lambda x: _type(eng, st, [x], kw, node), st, node)
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, ListV):
        return Ext('builtins.' + v.kind)
    return Top('type')


@reg('builtins.getattr')
def _getattr(eng, st, a, kw, node):
    if isinstance(a[1], str):
        return eng.getattr(a[0], a[1], st, node, a[2] if len(a) > 2 else KeyError)
    return Top('getattr')


@reg('builtins.hasattr')
def _hasattr(eng, st, a, kw, node):
    if isinstance(a[1], str) and isinstance(a[0], Inst):
        ic = eng.inst(st, a[0])
        if a[1] in ic.attrs:
            return True if ic.attrs[a[1]] is not UNBOUND and not (isinstance(ic.attrs[a[1]], Union) and UNBOUND in ic.attrs[a[1]].alts) else eng.ubool(a[0], a[1], st, 'hasattr')
        if a[0].cls.lookup(a[1])[1] is not None:
            return True
        if not ic.open and not a[0].cls.has_ext_base():
            return False
    if isinstance(a[0], (int, float, type(None))) and isinstance(a[1], str):
        return hasattr(a[0], a[1])
    return eng.ubool(a[0], a[1], st, 'hasattr')


@reg('builtins.setattr')
def _setattr(eng, st, a, kw, node):
    if isinstance(a[1], str):
        eng.setattr(a[0], a[1], a[2], st, node)
    return None


@reg('builtins.print')
def _print(eng, st, a, kw, node):
    return None


@reg('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def _abs(eng, st, a, kw, node):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Union):
        return eng.mapu(v, lambda x: _abs(eng, st, [x], kw, node), st, node)
    if isinstance(v, Inst):
        f, _ = v.cls.lookup('__abs__')
        return eng.call(BoundV(f, v), [], {}, st, node) if isinstance(f, FuncV) else Top('abs')
    n = N()
    c = n.content(eng, st, v)
    if c.kind == 'obj':
        return Top('abs')
    f = {'nonneg'} | (set(c.facts) & {'zero'})
    if 'absrowsum1' in c.facts:
        f.add('rowsum1')
    if 'abscolsum1' in c.facts:
        f.add('colsum1')
    t = c.term if 'nonneg' in c.facts else TERMS.mk('abs', c.term)
    return Arr(c.rep(roots=frozenset(), items=None, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin) if 'nonneg' not in c.facts else n.lin_non(c.lin),
                     facts=frozenset(f), term=t))


@reg('builtins.sum')
def _bsum(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    acc = a[1] if len(a) > 1 else kw.get('start', 0)
    if it is not None:
        for x in it:
            acc = eng.binop('Add', acc, x, st, node) if not (isinstance(acc, int) and acc == 0) else (x if not isinstance(x, (bool,)) else int(x))
        return acc
    e = eng.iter_elem(st, a[0], node)
    if isinstance(e, (int, float, Poly)):
        return Arr(C(shape=(), dtype='int' if isinstance(e, int) else None, deg=0, tr=0, lin=()))
    if isinstance(e, Arr):
        c = eng.content(e, st)
        return Arr(c.rep(roots=frozenset(), term=TERMS.mk('seqsum', c.term), tr=c.tr if c.tr in (0, ANY, 'N') else None, items=None, facts=c.facts & frozenset(['nonneg', 'zero'])))
    return Top('sum', taint=eng.taint_of(e, st))


def _minmax(which):
    def f(eng, st, a, kw, node):
        vals = a
        if len(a) == 1:
            it = eng.iterate(a[0], st, node)
            if it is None:
                if kw.get('key') is not None:
                    eng.call(kw['key'], [eng.iter_elem(st, a[0], node)], {}, st, node)
                e = eng.iter_elem(st, a[0], node)
                return e if not isinstance(e, (int, float)) else Arr(C(shape=(), deg=0, tr=0, lin=()))
            vals = list(it)
        if vals and all(isinstance(x, (int, float)) for x in vals) and not kw:
            return max(vals) if which == 'max' else min(vals)
        if not vals:
            return Top('minmax')
        r = vals[0]
        for x in vals[1:]:
            r = eng.join(r, x, st, st, st)
        return r
    return f


F['builtins.max'] = _minmax('max')
F['builtins.min'] = _minmax('min')


def _anyall(which):
    def f(eng, st, a, kw, node):
        it = eng.iterate(a[0], st, node)
        if it is not None:
            ts = [eng.truth(x, st) for x in it]
            if which == 'any':
                if True in ts:
                    return True
                if None not in ts:
                    return False
            else:
                if False in ts:
                    return False
                if None not in ts:
                    return True
        t = eng.taint_of(a[0], st)
        return Arr(C(shape=(), dtype='bool', deg=0, tr=0, lin=(), taint=t))
    return f


F['builtins.any'] = _anyall('any')
F['builtins.all'] = _anyall('all')


@reg('builtins.int')
def _int(eng, st, a, kw, node):
    if not a:
        return 0
    if isinstance(a[0], (int, float)) and a[0] == a[0] and abs(a[0]) != float('inf'):
        return int(a[0])
    if isinstance(a[0], Poly):
        return a[0]
    c = N().content(eng, st, a[0])
    if isinstance(a[0], Arr) and c.items is not None and len(c.items) == 1 and isinstance(c.items[0], Poly):
        return c.items[0]
    return Arr(C(shape=(), dtype='int', deg=c.deg, tr=c.tr, lin=N().lin_non(c.lin), taint=c.taint, term=TERMS.mk('int', c.term)))


@reg('builtins.float')
def _float(eng, st, a, kw, node):
    if a and isinstance(a[0], (int, float)):
        return float(a[0])
    c = N().content(eng, st, a[0]) if a else C()
    return Arr(c.rep(dtype='float', shape=(), roots=frozenset(), items=None, term=TERMS.mk('nocopy', c.term)))


@reg('builtins.bool')
def _bool(eng, st, a, kw, node):
    t = eng.truth(a[0], st) if a else False
    return t if t is not None else eng.ubool(a[0], None, st, 'bool')


@reg('builtins.str', 'builtins.repr', 'builtins.format', 'builtins.bin', 'builtins.chr', 'builtins.hex')
def _str(eng, st, a, kw, node):
    if a and isinstance(a[0], str):
        return a[0]
    if a and isinstance(a[0], int):
        return str(a[0])
    return Top('str')


@reg('builtins.dict')
def _dict(eng, st, a, kw, node):
    z = DictV()
    items, summ = {}, None
    if a:
        if isinstance(a[0], DictV):
            d = eng.lst(st, a[0])
            items, summ = dict(d.items), d.summary
        else:
            it = eng.iterate(a[0], st, node)
            if it is not None:
                for p in it:
                    q = eng.iterate(p, st, node)
                    k = eng.ckey(q[0], st) if q is not None and len(q) == 2 else None
                    if k is not None:
                        items[k[0]] = q[1]
                    else:
                        summ = Top('dict value')
            else:
                summ = Top('dict value')
    items.update({k: v for k, v in kw.items() if k != '**'})
    st.store[z.loc] = DC(items, summ)
    return z


@reg('builtins.map')
def _map(eng, st, a, kw, node):
    seqs = [eng.iterate(x, st, node) for x in a[1:]]
    if all(s is not None for s in seqs):
        return eng.mklist(st, [eng.call(a[0], list(t), {}, st, node) for t in zip(*seqs)])
    return eng.mkulist(st, eng.call(a[0], [eng.iter_elem(st, x, node) for x in a[1:]], {}, st, node))


@reg('builtins.filter')
def _filter(eng, st, a, kw, node):
    return eng.mkulist(st, eng.iter_elem(st, a[1], node))


@reg('builtins.slice')
def _slice(eng, st, a, kw, node):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@reg('builtins.callable')
def _callable(eng, st, a, kw, node):
    if isinstance(a[0], (FuncV, BoundV, ClassV, Ext, Partial)):
        return True
    if isinstance(a[0], (Arr, ListV, int, float, str, type(None))):
        return False
    return eng.ubool(a[0], None, st, 'callable')


@reg('builtins.divmod')
def _divmod(eng, st, a, kw, node):
    return eng.mklist(st, [eng.binop('FloorDiv', a[0], a[1], st, node), eng.binop('Mod', a[0], a[1], st, node)], 'tuple')


@reg('builtins.round')
def _round(eng, st, a, kw, node):
    if isinstance(a[0], (int, float)) and all(isinstance(x, int) for x in a[1:]):
        return round(*a)
    return ufunc_nonlin('round', keepdeg=True)(eng, st, a, {}, node)


@reg('builtins.pow')
def _pow(eng, st, a, kw, node):
    return eng.binop('Pow', a[0], a[1], st, node)


@reg('builtins.object')
def _object(eng, st, a, kw, node):
    return Top('object')


@reg('functools.reduce')
def _reduce(eng, st, a, kw, node):
    it = eng.iterate(a[1], st, node)
    if it is not None:
        it = list(it)
        acc = a[2] if len(a) > 2 else (it.pop(0) if it else Top('reduce'))
        for x in it:
            acc = eng.call(a[0], [acc, x], {}, st, node)
        return acc
    e = eng.iter_elem(st, a[1], node)
    return eng.call(a[0], [a[2] if len(a) > 2 else e, e], {}, st, node)


@reg('itertools.accumulate')
def _accumulate(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    fn = a[1] if len(a) > 1 else kw.get('func', Ext('operator.add'))
    if it is not None:
        out = []
        acc = None
        for i, x in enumerate(it):
            acc = x if i == 0 else eng.call(fn, [acc, x], {}, st, node)
            out.append(acc)
        return eng.mklist(st, out)
    e = eng.iter_elem(st, a[0], node)
    return eng.mkulist(st, eng.join(e, eng.call(fn, [e, e], {}, st, node), st, st, st))


@reg('functools.partial')
def _partial(eng, st, a, kw, node):
    f0, a0, k0 = a[0], list(a[1:]), dict(kw)
    return Partial('partial', lambda e, s, aa, kk, n: e.call(f0, a0 + list(aa), dict(k0, **kk), s, n))


@reg('itertools.combinations', 'itertools.permutations', 'itertools.product', 'itertools.chain', 'itertools.combinations_with_replacement')
def _itert(eng, st, a, kw, node):
    import itertools
    name = None
    return _itertools(eng, st, a, kw, node, 'product')


def _itertools(eng, st, a, kw, node, name):
    import itertools
    seqs = []
    ints = {}
    if name in ('combinations', 'permutations', 'combinations_with_replacement'):
        s = eng.iterate(a[0], st, node)
        k = a[1] if len(a) > 1 else kw.get('r')
        if s is not None and (isinstance(k, int) or k is None and name == 'permutations'):
            r = list(getattr(itertools, name)(s, *([k] if k is not None else [])))
            if len(r) <= 400:
                return eng.mklist(st, [eng.mklist(st, t, 'tuple') for t in r])
        e = eng.iter_elem(st, a[0], node)
        return eng.mkulist(st, eng.mklist(st, [e] * k, 'tuple') if isinstance(k, int) else eng.mkulist(st, e, 'tuple'))
    seqs = [eng.iterate(x, st, node) for x in a]
    rep = kw.get('repeat', 1)
    if all(s is not None for s in seqs) and isinstance(rep, int):
        if name == 'product':
            tot = 1
            for s in seqs * rep:
                tot *= max(len(s), 1)
            if tot <= 400:
                return eng.mklist(st, [eng.mklist(st, t, 'tuple') for t in itertools.product(*seqs, repeat=rep)])
        else:
            return eng.mklist(st, list(itertools.chain(*seqs)))
    if name == 'chain':
        r = None
        for x in a:
            e = eng.iter_elem(st, x, node)
            r = e if r is None else eng.join(r, e, st, st, st)
        return eng.mkulist(st, r if r is not None else Top('chain'))
    els = [eng.iter_elem(st, x, node) for x in a]
    return eng.mkulist(st, eng.mklist(st, els * rep, 'tuple') if isinstance(rep, int) else eng.mkulist(st, els[0] if els else Top(''), 'tuple'))


for _n in ('combinations', 'permutations', 'product', 'chain', 'combinations_with_replacement'):
    F['itertools.' + _n] = (lambda nm: lambda eng, st, a, kw, node: _itertools(eng, st, a, kw, node, nm))(_n)


@reg('itertools.chain.from_iterable')
def _chainfi(eng, st, a, kw, node):
    it = eng.iterate(a[0], st, node)
    if it is not None:
        seqs = [eng.iterate(x, st, node) for x in it]
        if all(s is not None for s in seqs):
            return eng.mklist(st, [x for s in seqs for x in s])
    return eng.mkulist(st, Top('chain'))


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('matmul', 'MatMult'), ('floordiv', 'FloorDiv'), ('pow', 'Pow'), ('mod', 'Mod')):
    F['operator.' + _n] = (lambda o: lambda eng, st, a, kw, node: eng.binop(o, a[0], a[1], st, node))(_o)
F['operator.neg'] = lambda eng, st, a, kw, node: eng.binop('Mult', a[0], -1, st, node)


@reg('fastcache.clru_cache', 'functools.lru_cache')
def _memo(eng, st, a, kw, node):
    if a and isinstance(a[0], FuncV):
        a[0].cached = True
        return a[0]
    return ExtObj('memoizer')


@reg('functools.wraps')
def _wraps(eng, st, a, kw, node):
    return ExtObj('functools.wraps')


# ------------------------------------------------------------------------------------------------ numpy: creation
def dtype_of(eng, st, kw, args, pos, default):
    v = kw.get('dtype', args[pos] if len(args) > pos else KeyError)
    if v is KeyError:
        return default
    if v is None:
        return default
    return N().canon_dtype(eng, st, v)


def mk_filled(fill):
    def f(eng, st, a, kw, node):
        n = N()
        v = a[0] if a else kw.get('shape')
        sh = n.shape_arg(eng, st, v)
        if isinstance(v, (Arr, Top)) and sh is None:
            sh = None
        dpos = 2 if fill == 'full' else 1
        dt = dtype_of(eng, st, kw, a, dpos, 'float')
        if dt == 'object' and sh is not None and all(isinstance(d, int) for d in sh) and dims.prod(sh) <= 400:
            return Arr(C(shape=sh, kind='obj', dtype='object', items=tuple([0 if fill == 'zeros' else None] * dims.prod(sh))))
        if fill == 'zeros':
            return Arr(C(shape=sh, dtype=dt, deg=ANY, tr=ANY, lin=(), facts=frozenset(['zero', 'nonneg', 'prealloc', ('fill', 0)]), term=TERMS.mk('zeros', str(sh))))
        if fill == 'ones':
            return Arr(C(shape=sh, dtype=dt, deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'one', 'prealloc', ('fill', 1)]), term=TERMS.mk('ones', str(sh))))
        if fill == 'empty':
            return Arr(C(shape=sh, dtype=dt, deg=ANY, tr=ANY, lin=(), taint=UNSET, facts=frozenset(['uninit', 'prealloc']), term=TERMS.fresh('empty'), items=fold.unset(sh, dt)))
        c = n.content(eng, st, a[1] if len(a) > 1 else kw.get('fill_value'))
        return Arr(c.rep(shape=sh, dtype=dt or c.dtype, roots=frozenset(), items=None, term=TERMS.mk('full', str(sh), c.term), facts=(c.facts - frozenset(['pyscalar'])) | n.fill_fact(c) | frozenset(['prealloc'])))
    return f


for _n in ('zeros', 'ones', 'empty', 'full'):
    F['numpy.' + _n] = mk_filled(_n)


def mk_like(fill):
    def f(eng, st, a, kw, node):
        n = N()
        c = n.content(eng, st, a[0])
        dt = kw.get('dtype', a[1] if len(a) > 1 and fill != 'full' else None)
        dt = n.canon_dtype(eng, st, dt) if dt is not None else (c.dtype if c.dtype is not None else None)
        if fill == 'zeros':
            return Arr(C(shape=c.shape, dtype=dt, deg=ANY, tr=ANY, lin=(), facts=frozenset(['zero', 'nonneg', 'prealloc', ('fill', 0)]), term=TERMS.mk('zeros', str(c.shape))))
        if fill == 'ones':
            return Arr(C(shape=c.shape, dtype=dt, deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'one', 'prealloc', ('fill', 1)]), term=TERMS.mk('ones', str(c.shape))))
        if fill == 'empty':
            return Arr(C(shape=c.shape, dtype=dt, deg=ANY, tr=ANY, lin=(), taint=UNSET, facts=frozenset(['uninit', 'prealloc']), term=TERMS.fresh('empty'), items=fold.unset(c.shape, dt)))
        v = n.content(eng, st, a[1] if len(a) > 1 else kw.get('fill_value'))
        return Arr(v.rep(shape=c.shape, dtype=dt, roots=frozenset(), items=None, term=TERMS.mk('full', str(c.shape), v.term)))
    return f


for _n in ('zeros', 'ones', 'empty', 'full'):
    F['numpy.' + _n + '_like'] = mk_like(_n)


@reg('numpy.eye', 'numpy.identity')
def _eye(eng, st, a, kw, node):
    n = N()
    r = a[0] if a else kw.get('N')
    m = a[1] if len(a) > 1 and a[1] is not None else kw.get('M', r)
    dt = n.canon_dtype(eng, st, kw['dtype']) if 'dtype' in kw else 'float'
    dr, dm = n.dim_of(eng, st, r), n.dim_of(eng, st, m)
    return Arr(C(shape=(dr, dm), dtype=dt, deg=0, tr=0, lin=(), term=TERMS.mk('eye', str(dr), str(dm)),
                 facts=frozenset(['nonneg'] + (['rowsum1', 'colsum1'] if dr == dm and dr is not None else []))))


@reg('numpy.arange')
def _arange(eng, st, a, kw, node):
    n = N()
    dt = n.canon_dtype(eng, st, kw['dtype']) if 'dtype' in kw else None
    cs = [n.content(eng, st, x) for x in a]
    if dt is None:
        dt = 'float' if any(c.dtype in ('float', 'float32') for c in cs) else ('int' if all(c.dtype in n.INTS for c in cs) else None)
    L = None
    items = None
    if len(a) == 1:
        L = n.dim_of(eng, st, a[0])
        if isinstance(L, int) and L <= 64:
            items = tuple(range(L))
    elif len(a) == 2:
        L = dims.sub(n.dim_of(eng, st, a[1]), n.dim_of(eng, st, a[0])) if n.dim_of(eng, st, a[0]) is not None else None
    elif all(isinstance(x, int) for x in a):
        L = len(range(*a))
    facts = {'nonneg', 'unique'}
    if isinstance(L, Poly) and dt in ('sign', 'uint8', 'int16', 'uint16', 'bool', 'float16'):
        eng.event('narrow-cast', node, 'a range of unbounded length is numbered with %s' % {'sign': 'int8'}.get(dt, dt))
    if len(a) == 1 and isinstance(L, Poly):
        facts.add(('into', L))
    deg = 0
    for c in cs:
        if c.deg not in (ANY, 0):
            deg = c.deg
    return Arr(C(shape=(L,), dtype=dt, deg=deg, tr=0, lin=(), taint=n.taints(cs), facts=frozenset(facts), items=items,
                 term=TERMS.mk('arange', *[c.term for c in cs])))


@reg('numpy.linspace', 'numpy.logspace', 'numpy.geomspace')
def _linspace(eng, st, a, kw, node):
    n = N()
    cs = [n.content(eng, st, x) for x in a[:2]]
    r = n.combine(cs) if cs else C()
    k = a[2] if len(a) > 2 else kw.get('num', 50)
    return Arr(C(shape=(n.dim_of(eng, st, k),), dtype='float', deg=r.deg, tr=r.tr, lin=r.lin, taint=r.taint,
                 term=TERMS.mk('linspace', *[c.term for c in cs] + [eng.term_of(k, st)])))


@reg('numpy.indices')
def _indices(eng, st, a, kw, node):
    n = N()
    sh = n.shape_arg(eng, st, a[0])
    dt = n.canon_dtype(eng, st, kw.get('dtype', a[1] if len(a) > 1 else None)) or 'int'
    return Arr(C(shape=(len(sh),) + tuple(sh) if sh is not None else None, dtype=dt, deg=0, tr=0, lin=(), facts=frozenset(['nonneg']),
                 term=TERMS.mk('indices', str(sh)) if sh is not None and None not in sh else None))


ITEM = dims.sym('?itemsize#')


def strided(eng, st, c, sh, strides):
    l = eng.lst(st, strides) if isinstance(strides, ListV) else None
    if not fold.is_const(c) or l is None or l.items is None or sh is None or not all(isinstance(d, int) for d in sh) or len(l.items) != len(sh):
        return None
    ks = []
    for s in l.items:
        s = next((k for k in range(len(c.items) + 1) if s == ITEM * k or (k == 0 and isinstance(s, int) and s == 0)), None)
        if s is None:
            return None
        ks.append(s)
    flat = fold.to_np(c).ravel()
    try:
        r = fold.np.array([flat[sum(i * k for i, k in zip(ix, ks))] for ix in fold.np.ndindex(*sh)], dtype=flat.dtype).reshape(sh)
    except IndexError:
        return None
    return r if 0 < r.size <= fold.LIMIT else None


@reg('numpy.ndarray')
def _ndarray(eng, st, a, kw, node):
    n = N()
    sh = n.shape_arg(eng, st, kw.get('shape', a[0] if a else None))
    buf = kw.get('buffer')
    c = n.content(eng, st, buf) if buf is not None else C(facts=frozenset(['uninit']), deg=ANY, taint=UNSET)
    if buf is not None and 'strides' in kw:
        r = strided(eng, st, c, sh, kw['strides'])
        if r is not None:
            return const_arr(eng, st, r, c)
    return Arr(c.rep(shape=sh, dtype=n.canon_dtype(eng, st, kw.get('dtype')) or c.dtype, items=None, term=TERMS.fresh('strided'), facts=c.facts & frozenset(['nonneg', 'uninit'])))


def as_array(copy):
    def f(eng, st, a, kw, node):
        n = N()
        v = a[0] if a else kw.get('object', kw.get('a'))
        if isinstance(v, Union):
            return eng.mapu(v, lambda x: f(eng, st, [x] + a[1:], kw, node), st, node)
        dtv = kw.get('dtype', a[1] if len(a) > 1 else None)
        dt = n.canon_dtype(eng, st, dtv) if dtv is not None else None
        if dt == 'object' or isinstance(v, ListV) and has_objects(eng, st, v):
            return obj_array(eng, st, v, node)
        if isinstance(v, Arr):
            c = eng.content(v, st)
            docopy = copy and kw.get('copy', True) is not False
            if c.kind in ('sp',):
                return Arr(c.rep(kind='obj', items=None, shape=()))
            keep = not docopy and (dt is None or dt == c.dtype)
            if keep and c.kind == 'nd':
                return v
            nc = c.rep(dtype=dt if dt is not None else (None if dtv is not None else c.dtype), kind='nd' if c.kind == 'npmatrix' else c.kind,
                       roots=c.roots if keep or (not docopy and c.dtype is None and dt is not None) else frozenset(),
                       facts=c.facts - frozenset(['pyscalar']))
            return Arr(nc, (v,) if keep else ())
        c = n.content(eng, st, v)
        if isinstance(v, ListV):
            l = eng.lst(st, v)
            if l.items is not None:
                degs = set()
                for x in l.items:
                    d = n.content(eng, st, x).deg
                    if d not in (None, ANY):
                        degs.add(d)
                if len(degs) > 1:
                    pass
        return Arr(c.rep(dtype=dt if dt is not None else (None if dtv is not None else c.dtype),
                         roots=c.roots if isinstance(v, Top) and not copy else frozenset(), facts=(c.facts - frozenset(['pyscalar'])) | n.fill_fact(c) | frozenset(['prealloc'])))
    return f


def has_objects(eng, st, v, d=0):
    if isinstance(v, ListV) and d < 3:
        its = eng.lst(st, v).items
        return its is not None and any(has_objects(eng, st, x, d + 1) for x in its)
    return isinstance(v, (Inst, FuncV, BoundV)) or isinstance(v, Arr) and eng.content(v, st).kind == 'sp'


def obj_array(eng, st, v, node):
    """nested list -> object array; descends while elements are sequences"""
    def shape_of(x):
        if isinstance(x, ListV):
            its = eng.lst(st, x).items
            if its is None:
                return None
            if not its:
                return (0,)
            shs = [shape_of(y) for y in its]
            if any(s is None for s in shs):
                return None
            common = ()
            for t in zip(*shs):
                if len(set(t)) == 1:
                    common = common + (t[0],)
                else:
                    break
            return (len(its),) + common
        if isinstance(x, Inst):
            f, _ = x.cls.lookup('__len__')
            return ()
        if isinstance(x, Arr):
            c = eng.content(x, st)
            if c.kind == 'obj' and c.items is not None:
                return c.shape
            return ()
        return ()

    def flat(x, depth):
        if depth == 0:
            return [x]
        if isinstance(x, ListV):
            return [z for y in eng.lst(st, x).items for z in flat(y, depth - 1)]
        if isinstance(x, Arr):
            c = eng.content(x, st)
            return list(c.items)
        return [x]
    if isinstance(v, Arr):
        c = eng.content(v, st)
        if c.kind == 'obj':
            return v
        return Arr(c.rep(kind='obj', dtype='object', items=None, roots=c.roots))
    sh = shape_of(v)
    if sh is None:
        return Top('object array', taint=eng.taint_of(v, st))
    items = flat(v, len(sh))
    if len(items) != dims.prod(sh):
        return Top('ragged')
    return Arr(C(shape=sh, kind='obj', dtype='object', items=tuple(items)))


F['numpy.asarray'] = F['numpy.asanyarray'] = F['numpy.ascontiguousarray'] = F['numpy.require'] = as_array(False)
F['numpy.array'] = as_array(True)


@reg('numpy.copy')
def _npcopy(eng, st, a, kw, node):
    return N().arr_copy(eng, st, a[0])


@reg('numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d')
def _atleast(eng, st, a, kw, node):
    c = N().content(eng, st, a[0])
    return Arr(c.rep(shape=c.shape if c.shape is not None and len(c.shape) >= 2 else None, items=None), (a[0],) if isinstance(a[0], Arr) else ())


# ------------------------------------------------------------------------------------------------ ufuncs
def binary(op):
    def f(eng, st, a, kw, node):
        n = N()
        if kw.get('out') is not None:
            eng.mutate(st, kw['out'], node, 'out= argument')
        if len(a) > 2:
            eng.mutate(st, a[2], node, 'out argument')
        return n.binop(eng, st, op, a[0], a[1], node) if not (isinstance(a[0], (int, float)) and isinstance(a[1], (int, float))) else eng.binop(op, a[0], a[1], st, node)
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'), ('floor_divide', 'FloorDiv'),
               ('remainder', 'Mod'), ('mod', 'Mod'), ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr'), ('bitwise_xor', 'BitXor'), ('matmul', 'MatMult')):
    F['numpy.' + _n] = binary(_o)
    UFUNC2.add('numpy.' + _n)


def ufunc_nonlin(name, keepdeg=False, scale=None, inv=False, unitless=False, out_deg=None, dt='float', facts=()):
    def f(eng, st, a, kw, node):
        n = N()
        v = a[0]
        if isinstance(v, Union):
            return eng.mapu(v, lambda x: f(eng, st, [x] + a[1:], kw, node), st, node)
        if kw.get('out') is not None:
            eng.mutate(st, kw['out'], node, 'out= argument')
        if isinstance(v, (int, float)) and name in ('sqrt', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'exp', 'log', 'floor', 'ceil', 'arctan'):
            try:
                return float(getattr(math, {'arccos': 'acos', 'arcsin': 'asin', 'arctan': 'atan'}.get(name, name))(v))
            except ValueError:
                return float('nan')
        c = n.content(eng, st, v)
        deg = c.deg
        if unitless:
            if deg not in (0, ANY, None):
                eng.event('unit', node, '%s of a quantity with length-exponent %s' % (name, deg))
            deg = 0
        elif scale is not None:
            deg = deg if deg in (None, ANY) else Fraction(deg) * scale
            if deg is not None and deg != ANY and deg.denominator == 1:
                deg = int(deg)
        elif out_deg is not None:
            deg = out_deg
        return Arr(C(shape=c.shape, dtype=dt or c.dtype, deg=deg, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint,
                     term=TERMS.mk(name, c.term), facts=frozenset(facts), kind=c.kind))
    return f


for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'log2', 'log10', 'sinh', 'cosh', 'tanh', 'arctanh', 'expm1', 'log1p', 'deg2rad', 'radians'):
    F['numpy.' + _n] = F['math.' + _n] = ufunc_nonlin(_n, unitless=True)
F['numpy.sqrt'] = F['math.sqrt'] = F['scipy.sqrt'] = ufunc_nonlin('sqrt', scale=Fraction(1, 2), facts=('nonneg',))
F['numpy.cbrt'] = ufunc_nonlin('cbrt', scale=Fraction(1, 3))
F['numpy.square'] = ufunc_nonlin('square', scale=2, dt=None, facts=('nonneg',))
F['numpy.reciprocal'] = ufunc_nonlin('reciprocal', scale=-1)
F['numpy.sign'] = ufunc_nonlin('sign', out_deg=0, dt=None)
for _n in ('floor', 'ceil', 'rint', 'round', 'around', 'trunc', 'fix'):
    F['numpy.' + _n] = ufunc_nonlin(_n, keepdeg=True)
for _n in ('isnan', 'isfinite', 'isinf', 'logical_not', 'signbit'):
    F['numpy.' + _n] = ufunc_nonlin(_n, out_deg=0, dt='bool')
F['numpy.real'] = F['numpy.real_if_close'] = lambda eng, st, a, kw, node: arr_attr(eng, st, a[0], 'real', node) if isinstance(a[0], Arr) else Top('real')
F['scipy.special.factorial'] = F['math.factorial'] = F['scipy.special.gamma'] = ufunc_nonlin('factorial', unitless=True)


def _fact(eng, st, a, kw, node):
    if isinstance(a[0], int) and 0 <= a[0] < 20:
        return float(math.factorial(a[0]))
    return ufunc_nonlin('factorial', unitless=True)(eng, st, a, {}, node)


F['scipy.special.factorial'] = F['math.factorial'] = _fact


@reg('scipy.special.comb', 'scipy.special.binom')
def _comb(eng, st, a, kw, node):
    return Arr(C(shape=(), dtype='float', deg=0, tr=0, lin=()))


@reg('numpy.arctan2', 'numpy.hypot', 'numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin', 'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_xor', 'numpy.copysign')
def _bin_generic(eng, st, a, kw, node):
    return _bin2(eng, st, a, kw, node, 'maximum')


def _bin2(eng, st, a, kw, node, name):
    n = N()
    if kw.get('out') is not None:
        eng.mutate(st, kw['out'], node, 'out= argument')
    cs = [n.content(eng, st, x) for x in a[:2]]
    sh = n.broadcast(eng, st, [c.shape for c in cs], node, name)
    if name.startswith('logical'):
        deg, dt = 0, 'bool'
    else:
        deg, dt = n.unit_add(eng, cs[0], cs[1], node, name), n.promote(cs[0].dtype, cs[1].dtype)
        if name in ('arctan2',):
            deg, dt = 0, 'float'
    lin = n.lin_non(n.lin_join(cs[0].lin, cs[1].lin)) if cs[0].lin is not None and cs[1].lin is not None else None
    tr = n.tr_nonlin(cs[0].tr) if cs[0].tr == cs[1].tr else (0 if {cs[0].tr, cs[1].tr} <= {0, ANY} else None)
    if name in ('maximum', 'minimum') and cs[0].tr == cs[1].tr:
        tr = cs[0].tr
    f = set()
    if name in ('hypot',) or all('nonneg' in c.facts for c in cs) or name == 'maximum' and any('nonneg' in c.facts for c in cs):
        f.add('nonneg')
    t1, t2 = cs[0].term, cs[1].term
    if name != 'arctan2' and name != 'copysign':
        t1, t2 = sorted((t1, t2), key=lambda t: t.i)
    return Arr(C(shape=sh, dtype=dt, deg=deg, tr=tr, lin=lin, taint=n.taints(cs), term=TERMS.mk(name, t1, t2), facts=frozenset(f)))


for _n in ('arctan2', 'hypot', 'maximum', 'minimum', 'fmax', 'fmin', 'logical_and', 'logical_or', 'logical_xor', 'copysign'):
    F['numpy.' + _n] = (lambda nm: lambda eng, st, a, kw, node: _bin2(eng, st, a, kw, node, nm))(_n)
F['math.atan2'] = F['numpy.arctan2']
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
    F['numpy.' + _n] = (lambda o: lambda eng, st, a, kw, node: N().compare(eng, st, o, a[0], a[1], node))(_o)


@reg('numpy.clip')
def _clip(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    for x in list(a[1:3]) + [kw.get('a_min'), kw.get('a_max')]:
        if x is not None:
            n.unit_add(eng, c, n.content(eng, st, x), node, 'clipping')
    t = n.taints([n.content(eng, st, x) for x in a])
    f = set(c.facts) & {'nonneg'}
    if len(a) > 1 and isinstance(a[1], (int, float)) and a[1] >= 0:
        f.add('nonneg')
    return Arr(c.rep(roots=frozenset(), lin=n.lin_non(c.lin), tr=c.tr if c.tr in (0, ANY) else None, taint=t, items=None, facts=frozenset(f),
                     term=TERMS.mk('clip', *[n.content(eng, st, x).term for x in a])))


@reg('numpy.where')
def _where(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    if len(a) == 1:
        k = len(c.shape) if c.shape is not None else 1
        d = dims.sym('#%s' % n.nnz_name(c.term))
        out = []
        for i in range(k):
            f = frozenset([('into', c.shape[i])]) if c.shape is not None and isinstance(c.shape[i], Poly) else frozenset()
            out.append(Arr(C(shape=(d,), dtype='int', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, facts=f | {'nonneg'},
                             term=TERMS.mk('nonzero', c.term, i))))
        return eng.mklist(st, out, 'tuple')
    x, y = n.content(eng, st, a[1]), n.content(eng, st, a[2])
    sh = n.broadcast(eng, st, [c.shape, x.shape, y.shape], node, 'where')
    if ('pyscalar' in x.facts) != ('pyscalar' in y.facts):      # literal placeholder for the elements not selected
        deg = x.deg if 'pyscalar' in y.facts else y.deg
    else:
        deg = n.unit_add(eng, x, y, node, 'selection between')
    lin = n.lin_add(x.lin, y.lin, 'zero' in x.facts, 'zero' in y.facts)
    if n.lin_any(c.lin) and lin is not None:
        lin = n.lin_non(n.lin_join(lin, c.lin))
    elif c.lin is None:
        lin = None
    return Arr(C(shape=sh, dtype=n.promote(x.dtype, y.dtype), deg=deg, tr=join_deg(x.tr, y.tr), lin=lin, taint=n.taints([c, x, y]),
                 term=TERMS.mk('where', c.term, x.term, y.term), facts=x.facts & y.facts & frozenset(['nonneg'])))


@reg('numpy.flatnonzero')
def _flatnonzero(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    d = dims.sym('#%s' % n.nnz_name(c.term))
    f = {'nonneg'}
    if c.shape is not None and len(c.shape) == 1 and isinstance(c.shape[0], Poly):
        f.add(('into', c.shape[0]))
    f.add('unique')
    fl, nz = n.fact_of(c, 'fill'), n.fact_of(c, 'nnz')
    if nz is not None:
        d = nz
    elif fl == 0:
        d = 0
    elif fl and c.shape is not None and len(c.shape) == 1 and c.shape[0] is not None:
        d = c.shape[0]
    if c.shape is None or d not in c.shape:
        f.add('subset')
    return Arr(C(shape=(d,), dtype='int', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, facts=frozenset(f),
                 term=TERMS.mk('flatnonzero', c.term)))


@reg('numpy.nonzero', 'numpy.argwhere_')
def _nonzero(eng, st, a, kw, node):
    return _where(eng, st, a[:1], {}, node)


@reg('numpy.select', 'numpy.choose')
def _select(eng, st, a, kw, node):
    return N().top_arr(eng, st, a)


# ------------------------------------------------------------------------------------------------ reductions
def reduction(name):
    def f(eng, st, a, kw, node):
        n = N()
        if kw.get('out') is not None:
            eng.mutate(st, kw['out'], node, 'out= argument')
        v = a[0]
        if isinstance(v, Union):
            return eng.mapu(v, lambda x: f(eng, st, [x] + a[1:], kw, node), st, node)
        ax = kw.get('axis', a[1] if len(a) > 1 else None)
        if isinstance(v, ListV) and ax is None:
            its = eng.lst(st, v).items
            if its is not None and all(isinstance(x, (int, Poly)) for x in its) and name in ('sum', 'prod'):
                r = 0 if name == 'sum' else 1
                for x in its:
                    r = eng.binop('Add' if name == 'sum' else 'Mult', r, x, st, node)
                return r
        if name in ('any', 'all', 'alltrue') and isinstance(v, bool):
            return v
        if name in ('sum', 'max', 'min', 'prod') and isinstance(v, (int, float)):
            return v
        if isinstance(v, Inst):
            g, _ = v.cls.lookup(name)
            if isinstance(g, FuncV):
                return eng.call(BoundV(g, v), [], {}, st, node)
            return Top('reduce')
        r = n.reduce_(eng, st, name, v, ax, kw.get('keepdims', a[3] if len(a) > 3 and name in ('sum',) else False), node)
        if 'dtype' in kw and isinstance(r, Arr):
            r.c0 = r.c0.rep(dtype=n.canon_dtype(eng, st, kw['dtype']))
        return r
    return f


for _n in ('sum', 'mean', 'prod', 'max', 'min', 'amax', 'amin', 'any', 'all', 'alltrue', 'sometrue', 'argmax', 'argmin', 'std', 'var', 'median', 'average', 'nansum', 'nanmean', 'nanmax', 'nanmin', 'ptp', 'product'):
    F['numpy.' + _n] = reduction('prod' if _n == 'product' else ({'amax': 'max', 'amin': 'min'}.get(_n, _n)))


@reg('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(eng, st, a, kw, node):
    n = N()
    ax = kw.get('axis', a[2] if len(a) > 2 else None)
    kd = kw.get('keepdims', a[3] if len(a) > 3 else False)
    return n.reduce_(eng, st, 'norm', a[0], ax, kd, node)


@reg('numpy.cumsum', 'numpy.cumprod')
def _cumsum(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else None)
    if isinstance(ax, int) and c.shape is not None and n.norm_axis(ax, len(c.shape)) is not None and n.is_batch(c.shape[n.norm_axis(ax, len(c.shape))]):
        eng.event('batch-reduce', node, 'cumulative sum over the batch axis')
    items = None
    if c.items is not None and all(isinstance(x, (int, Poly)) for x in c.items):
        acc, out = 0, []
        for x in c.items:
            acc = dims.add(acc, x)
            out.append(acc)
        items = tuple(out)
    sh = c.shape
    if ax is None and sh is not None and len(sh) > 1:
        sh = (dims.prod(sh),)
    return Arr(C(shape=sh, dtype='int' if c.dtype in n.INTS else c.dtype, deg=c.deg, tr=c.tr if c.tr in (0, ANY) else None, lin=c.lin, taint=c.taint,
                 term=TERMS.mk('cumsum', c.term, ax if isinstance(ax, int) else '?'), items=items, facts=c.facts & frozenset(['nonneg', 'zero'])))


@reg('numpy.diff')
def _diff(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[2] if len(a) > 2 else -1)
    k = kw.get('n', a[1] if len(a) > 1 else 1)
    sh = None
    if c.shape is not None and isinstance(ax, int) and n.norm_axis(ax, len(c.shape)) is not None and isinstance(k, int):
        i = n.norm_axis(ax, len(c.shape))
        if n.is_batch(c.shape[i]):
            eng.event('batch-reduce', node, 'difference over the batch axis')
        sh = tuple(dims.sub(d, k) if j == i else d for j, d in enumerate(c.shape))
    tr = 0 if isinstance(c.tr, (int, Fraction)) or c.tr == ANY else c.tr
    if c.tr == 'N':
        tr = None
    return Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=tr, lin=c.lin, taint=c.taint, term=TERMS.mk('diff', c.term, ax if isinstance(ax, int) else '?')))


# ------------------------------------------------------------------------------------------------ rearrangement
def sort_like(name):
    def f(eng, st, a, kw, node):
        n = N()
        c = n.content(eng, st, a[0])
        ax = kw.get('axis', a[1] if len(a) > 1 else -1)
        if c.shape is not None and isinstance(ax, int) and c.shape and n.norm_axis(ax, len(c.shape)) is not None and n.is_batch(c.shape[n.norm_axis(ax, len(c.shape))]):
            eng.event('batch-reduce', node, '%s along the batch axis' % name)
        if name == 'argsort':
            fs = {'nonneg'}
            if isinstance(ax, int) and c.shape and n.norm_axis(ax, len(c.shape)) is not None:
                d = c.shape[n.norm_axis(ax, len(c.shape))]
                if isinstance(d, Poly) and '#' not in str(d):
                    fs.add(('into', d))
            return Arr(C(shape=c.shape, dtype='int', deg=0, tr=0 if c.tr in (0, ANY) else None, lin=n.lin_non(c.lin), taint=c.taint, facts=frozenset(fs),
                         term=TERMS.mk('argsort', c.term, ax if isinstance(ax, int) else '?')))
        return Arr(c.rep(roots=frozenset(), lin=n.lin_non(c.lin), items=None, term=TERMS.mk('sort', c.term, ax if isinstance(ax, int) else '?')))
    return f


F['numpy.sort'] = sort_like('sort')
F['numpy.argsort'] = sort_like('argsort')


@reg('numpy.unique')
def _unique(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    t = TERMS.mk('unique', c.term)
    ax = kw.get('axis')
    d = uniq_dim(c.rep(shape=(dims.prod(c.shape),)) if ax is None and c.shape is not None else c)
    sh = (d,) if ax is None else ((d,) + tuple(c.shape[1:]) if c.shape is not None and ax == 0 else None)
    out = [Arr(c.rep(shape=sh, roots=frozenset(), items=None, lin=n.lin_non(c.lin), term=t))]
    tot = dims.prod(c.shape) if c.shape is not None else None
    out[0].c0 = out[0].c0.rep(facts=frozenset(f for f in c.facts if isinstance(f, tuple) and f[0] == 'into' or f == 'nonneg') | {'unique'})
    if kw.get('return_index') is True:
        out.append(Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset([('into', tot)] if isinstance(tot, Poly) else []), term=TERMS.mk('unique_index', c.term))))
    if kw.get('return_inverse') is True:
        out.append(Arr(C(shape=(tot,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset([('into', d)]), term=TERMS.mk('unique_inverse', c.term))))
    if kw.get('return_counts') is True:
        out.append(Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset(['nonneg']), term=TERMS.mk('unique_counts', c.term))))
    return out[0] if len(out) == 1 else eng.mklist(st, out, 'tuple')


@reg('numpy.reshape')
def _reshape(eng, st, a, kw, node):
    return m_reshape(eng, st, a[0], [a[1] if len(a) > 1 else kw.get('newshape')], {}, node)


@reg('numpy.ravel')
def _ravel(eng, st, a, kw, node):
    return m_flatten(eng, st, a[0], [], {}, node, True)


@reg('numpy.transpose')
def _transpose(eng, st, a, kw, node):
    ax = kw.get('axes', a[1] if len(a) > 1 else None)
    return N().transpose(eng, st, a[0], seq_items(eng, st, ax), node)


def seq_items(eng, st, v):
    if v is None:
        return None
    if isinstance(v, ListV):
        its = eng.lst(st, v).items
        return list(its) if its is not None else ['?']
    if isinstance(v, Arr):
        c = eng.content(v, st)
        if c.items is not None:
            return list(c.items)
    if isinstance(v, int):
        return [v]
    return ['?']


@reg('numpy.swapaxes')
def _swapaxes(eng, st, a, kw, node):
    n = N()
    v = a[0]
    c = n.content(eng, st, v)
    i, j = a[1], a[2]
    sh = None
    params = (i, j) if isinstance(i, int) and isinstance(j, int) else ('?',)
    if c.shape is not None and isinstance(i, int) and isinstance(j, int):
        r = len(c.shape)
        p, q = n.norm_axis(i, r), n.norm_axis(j, r)
        if p is None or q is None:
            eng.event('index-rank', node, 'swapaxes(%s, %s) on rank %d' % (i, j, r))
        else:
            l = list(c.shape)
            l[p], l[q] = l[q], l[p]
            sh = tuple(l)
            if r == 2 and p != q:
                return n.transpose(eng, st, v, None, node)
            params = tuple(sorted((p - r, q - r)))
    r = n.structural(eng, st, 'swapaxes', v, sh, True, params)
    r.c0 = r.c0.rep(facts=r.c0.facts - frozenset(['bary', 'rowsum1', 'colsum1']))
    return r


@reg('numpy.moveaxis')
def _moveaxis(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    src, dst = seq_items(eng, st, kw.get('source', a[1] if len(a) > 1 else None)), seq_items(eng, st, kw.get('destination', a[2] if len(a) > 2 else None))
    sh = None
    try:
        if c.shape is not None:
            r = len(c.shape)
            if all(isinstance(x, int) for x in src + dst):
                if any(n.norm_axis(x, r) is None for x in src + dst):
                    eng.event('index-rank', node, 'moveaxis(%s, %s) on rank %d' % (src, dst, r))
                else:
                    sh = n.moveaxis_shape(c.shape, src, dst)
    except Exception:
        sh = None
    r = n.structural(eng, st, 'moveaxis', a[0], sh, True, (str(src), str(dst)))
    r.c0 = r.c0.rep(facts=r.c0.facts - frozenset(['bary']))
    return r


@reg('numpy.rollaxis')
def _rollaxis(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = a[1] if len(a) > 1 else kw.get('axis')
    start = a[2] if len(a) > 2 else kw.get('start', 0)
    sh = None
    if c.shape is not None and isinstance(ax, int) and isinstance(start, int):
        l = list(c.shape)
        ax, start = ax % len(l), start
        d = l.pop(ax)
        if start > ax:
            start -= 1
        l.insert(start, d)
        sh = tuple(l)
    return n.structural(eng, st, 'rollaxis', a[0], sh, True, (str(ax), str(start)))


@reg('numpy.expand_dims')
def _expand(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else None)
    sh = None
    if c.shape is not None and isinstance(ax, int):
        l = list(c.shape)
        r = len(l) + 1
        if -r <= ax < r:
            l.insert(ax % r, 1)
            sh = tuple(l)
        else:
            eng.event('index-rank', node, 'expand_dims axis %s on rank %d' % (ax, r - 1))
    elif c.shape is not None and isinstance(ax, ListV):
        axs = seq_items(eng, st, ax)
        if all(isinstance(x, int) for x in axs):
            r = len(c.shape) + len(axs)
            pos = sorted(x % r for x in axs)
            l = list(c.shape)
            for p in pos:
                l.insert(p, 1)
            sh = tuple(l)
    return n.structural(eng, st, 'expand_dims', a[0], sh, True, (str(ax),))


@reg('numpy.squeeze')
def _squeeze(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else None)
    sh = None
    if c.shape is not None:
        if ax is None:
            sh = tuple(d for d in c.shape if d != 1) if None not in c.shape else None
        elif isinstance(ax, int):
            i = n.norm_axis(ax, len(c.shape))
            sh = tuple(d for j, d in enumerate(c.shape) if j != i)
    return n.structural(eng, st, 'squeeze', a[0], sh, True)


@reg('numpy.broadcast_to')
def _broadcast_to(eng, st, a, kw, node):
    n = N()
    sh = n.shape_arg(eng, st, a[1] if len(a) > 1 else kw.get('shape'))
    return n.structural(eng, st, 'broadcast_to', a[0], sh, True, (str(sh),))


@reg('numpy.broadcast_arrays')
def _broadcast_arrays(eng, st, a, kw, node):
    n = N()
    cs = [n.content(eng, st, x) for x in a]
    sh = n.broadcast(eng, st, [c.shape for c in cs], node)
    if any(c.kind == 'obj' and c.items is not None for c in cs) and sh is not None and all(isinstance(d, int) for d in sh):
        out = []
        for x, c in zip(a, cs):
            if c.kind == 'obj' and c.items is not None and c.shape == sh:
                out.append(x)
            elif c.kind == 'obj' and c.items is not None and fold.np is not None and all(isinstance(d, int) for d in c.shape):
                pos = fold.np.broadcast_to(fold.np.arange(len(c.items)).reshape(c.shape), sh).ravel().tolist()
                out.append(Arr(c.rep(shape=sh, items=tuple(c.items[p] for p in pos))))
            elif c.shape == ():
                out.append(Arr(C(shape=sh, kind='obj', dtype='object', items=(x,) * dims.prod(sh), taint=c.taint)))
            else:
                out.append(n.structural(eng, st, 'broadcast_to', x, sh, True, (str(sh),)))
        return eng.mklist(st, out)
    return eng.mklist(st, [n.structural(eng, st, 'broadcast_to', x, sh, True, (str(sh),)) for x in a])


@reg('numpy.flip', 'numpy.fliplr', 'numpy.flipud')
def _flip(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else None)
    if isinstance(ax, int) and c.shape is not None and c.shape and n.norm_axis(ax, len(c.shape)) is not None and n.is_batch(c.shape[n.norm_axis(ax, len(c.shape))]):
        eng.event('batch-reduce', node, 'flip along the batch axis')
    return n.structural(eng, st, 'flip', a[0], c.shape, True, (ax if isinstance(ax, int) else '?',), keep=('nonneg', 'zero'))


@reg('numpy.roll')
def _roll(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[2] if len(a) > 2 else None)
    sh = kw.get('shift', a[1] if len(a) > 1 else None)
    if isinstance(ax, int) and c.shape is not None and c.shape and n.norm_axis(ax, len(c.shape)) is not None and n.is_batch(c.shape[n.norm_axis(ax, len(c.shape))]):
        eng.event('batch-reduce', node, 'roll along the batch axis')
    return n.structural(eng, st, 'roll', a[0], c.shape, False, (eng.term_of(sh, st), ax if isinstance(ax, int) else '?'))


@reg('numpy.take')
def _take(eng, st, a, kw, node):
    n = N()
    ax = kw.get('axis', a[2] if len(a) > 2 else None)
    c = n.content(eng, st, a[0])
    if c.kind == 'obj' and c.items is not None and isinstance(ax, int) and isinstance(a[1], int):
        idx = eng.mklist(st, [SliceV(None, None, None)] * ax + [a[1]], 'tuple')
        return eng.getitem(a[0], idx, st, node)
    ic = n.content(eng, st, a[1])
    sh = None
    if c.shape is not None and ic.shape is not None and isinstance(ax, int):
        i = n.norm_axis(ax, len(c.shape))
        if i is None:
            eng.event('index-rank', node, 'take axis %s on rank %d' % (ax, len(c.shape)))
        else:
            if n.is_batch(c.shape[i]) and not any(n.is_batch(d) for d in ic.shape):
                eng.event('batch-index', node, 'fixed selection along the batch axis')
            n.check_index_space(eng, node, ic, c.shape[i])
            sh = tuple(c.shape[:i]) + tuple(ic.shape) + tuple(c.shape[i + 1:])
    lin = c.lin if not n.lin_any(ic.lin) else n.lin_non(n.lin_join(c.lin, ic.lin))
    return Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=c.tr, lin=lin, taint=c.taint | ic.taint,
                 facts=frozenset(f for f in c.facts if f in ('nonneg', 'zero') or isinstance(f, tuple)),
                 term=TERMS.mk('take', c.term, ic.term, ax if isinstance(ax, int) else '?')))


@reg('numpy.delete')
def _delete(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = kw.get('axis', a[2] if len(a) > 2 else None)
    sh = None
    if c.shape is not None and isinstance(ax, int) and isinstance(a[1], int):
        i = n.norm_axis(ax, len(c.shape))
        if i is not None:
            sh = tuple(dims.sub(d, 1) if j == i else d for j, d in enumerate(c.shape))
    elif c.shape is not None and len(c.shape) == 1 and isinstance(a[1], int):
        sh = (dims.sub(c.shape[0], 1),)
    elif c.shape is not None and len(c.shape) >= 1:
        i = n.norm_axis(ax, len(c.shape)) if isinstance(ax, int) else 0
        sh = tuple(None if j == i else d for j, d in enumerate(c.shape))
    items = None
    if c.items is not None and isinstance(a[1], int) and len(c.shape or ()) == 1:
        l = list(c.items)
        del l[a[1]]
        items = tuple(l)
    return Arr(c.rep(shape=sh, roots=frozenset(), items=items, term=TERMS.mk('delete', c.term, eng.term_of(a[1], st), str(ax)), facts=frozenset(f for f in c.facts if f in ('nonneg', 'zero') or isinstance(f, tuple))))


@reg('numpy.repeat', 'numpy.tile')
def _repeat(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    k = a[1] if len(a) > 1 else kw.get('repeats')
    ax = kw.get('axis', a[2] if len(a) > 2 else None)
    sh = None
    kd = n.dim_of(eng, st, k)
    if c.shape is not None:
        if isinstance(ax, int) and n.norm_axis(ax, len(c.shape)) is not None:
            i = n.norm_axis(ax, len(c.shape))
            sh = tuple(dims.mul(d, kd) if j == i else d for j, d in enumerate(c.shape))
        elif ax is None:
            kc = n.content(eng, st, k)
            sh = (dims.mul(dims.prod(c.shape), kd),) if kd is not None else (None,)
    return Arr(c.rep(shape=sh, roots=frozenset(), items=None, term=TERMS.mk('repeat', c.term, eng.term_of(k, st), str(ax)), facts=frozenset(f for f in c.facts if f in ('nonneg', 'zero', 'bary') or isinstance(f, tuple))))


F['numpy.tile'] = lambda eng, st, a, kw, node: Arr(N().content(eng, st, a[0]).rep(shape=None, roots=frozenset(), items=None, term=TERMS.fresh('tile')))


@reg('numpy.pad')
def _pad(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    lin = c.lin
    return Arr(c.rep(shape=tuple([None] * len(c.shape)) if c.shape is not None else None, roots=frozenset(), items=None, lin=lin,
                     term=TERMS.fresh('pad'), facts=frozenset()))


def parts_of(eng, st, v):
    if isinstance(v, ListV):
        l = eng.lst(st, v)
        return list(l.items) if l.items is not None else None
    if isinstance(v, Arr):
        its = eng.items(st, v)
        return list(its) if its is not None else None
    return None


def unknown_parts(eng, st, v, axis, node, stack=False):
    n = N()
    e = eng.iter_elem(st, v, node)
    if isinstance(e, (Top,)):
        return Arr(C(taint=e.taint))
    c = n.content(eng, st, e)
    sh = None
    if c.shape is not None and isinstance(axis, int):
        l = eng.seqlen(st, v)
        if stack:
            s = list(c.shape)
            r = len(s) + 1
            if -r <= axis < r:
                s.insert(axis % r, l)
                sh = tuple(s)
        elif c.shape:
            i = n.norm_axis(axis, len(c.shape))
            if i is not None:
                sh = tuple((dims.mul(d, l) if j == i else d) for j, d in enumerate(c.shape))
    return Arr(c.rep(shape=sh, roots=frozenset(), items=None, term=TERMS.mk('cat', c.term), facts=frozenset(f for f in c.facts if f in ('nonneg', 'zero') or isinstance(f, tuple))))


@reg('numpy.concatenate')
def _concatenate(eng, st, a, kw, node):
    ax = kw.get('axis', a[1] if len(a) > 1 else 0)
    p = parts_of(eng, st, a[0])
    if p is None:
        return unknown_parts(eng, st, a[0], ax, node)
    if ax is None:
        p = [m_flatten(eng, st, x, [], {}, node, True) if isinstance(x, Arr) else x for x in p]
        ax = 0
    return N().concat(eng, st, p, ax, node)


@reg('numpy.vstack', 'numpy.row_stack')
def _vstack(eng, st, a, kw, node):
    p = parts_of(eng, st, a[0])
    if p is None:
        return unknown_parts(eng, st, a[0], 0, node)
    n = N()
    q = []
    for x in p:
        c = n.content(eng, st, x)
        q.append(Arr(c.rep(shape=(1,) + tuple(c.shape) if c.shape is not None and len(c.shape) == 1 else c.shape)))
    return n.concat(eng, st, q, 0, node, 'vstack')


@reg('numpy.hstack')
def _hstack(eng, st, a, kw, node):
    p = parts_of(eng, st, a[0])
    if p is None:
        return unknown_parts(eng, st, a[0], 0, node)
    n = N()
    cs = [n.content(eng, st, x) for x in p]
    ax = 0 if all(c.shape is not None and len(c.shape) <= 1 for c in cs) else 1
    return n.concat(eng, st, p, ax, node, 'hstack')


@reg('numpy.stack')
def _stack(eng, st, a, kw, node):
    n = N()
    ax = kw.get('axis', a[1] if len(a) > 1 else 0)
    p = parts_of(eng, st, a[0])
    if p is None:
        return unknown_parts(eng, st, a[0], ax, node, True)
    q = []
    for x in p:
        c = n.content(eng, st, x)
        sh = None
        if c.shape is not None and isinstance(ax, int):
            l = list(c.shape)
            r = len(l) + 1
            if -r <= ax < r:
                l.insert(ax % r, 1)
                sh = tuple(l)
        q.append(Arr(c.rep(shape=sh, items=None)))
    return n.concat(eng, st, q, ax, node, 'stack')


@reg('numpy.column_stack', 'numpy.dstack')
def _colstack(eng, st, a, kw, node):
    return N().top_arr(eng, st, a)


@reg('numpy.block')
def _block(eng, st, a, kw, node):
    n = N()
    rows = parts_of(eng, st, a[0])
    if rows is None:
        return n.top_arr(eng, st, a)
    if all(isinstance(r, ListV) and eng.lst(st, r).items is not None for r in rows):
        rs = []
        for r in rows:
            its = list(eng.lst(st, r).items)
            cs = [n.content(eng, st, x) for x in its]
            if all(c.shape is not None and len(c.shape) == 2 for c in cs):
                rs.append(n.concat(eng, st, its, 1, node, 'hstack'))
            else:
                cs2 = [Arr(c.rep(shape=(1,) * (2 - len(c.shape)) + tuple(c.shape) if c.shape is not None and len(c.shape) < 2 else c.shape)) for c in cs]
                if any(n.content(eng, st, x).shape is None for x in cs2):
                    return n.top_arr(eng, st, a)
                rk = set(len(x.c0.shape) for x in cs2)
                if len(rk) != 1:
                    return n.top_arr(eng, st, a)
                rs.append(n.concat(eng, st, cs2, rk.pop() - 1, node, 'hstack'))
        return n.concat(eng, st, rs, 0 if len(rs[0].c0.shape or (1, 1)) == 2 else -2, node, 'vstack')
    return n.top_arr(eng, st, a)


@reg('numpy.array_split')
def _array_split(eng, st, a, kw, node):
    k = a[1] if len(a) > 1 else kw.get('indices_or_sections')
    if fold.REAL and isinstance(k, int):
        return Top('array_split')
    return _split(eng, st, a, kw, node)


@reg('numpy.split')
def _split(eng, st, a, kw, node):
    n = N()
    v = a[0]
    c = n.content(eng, st, v)
    k = a[1] if len(a) > 1 else kw.get('indices_or_sections')
    ax = kw.get('axis', a[2] if len(a) > 2 else 0)
    if fold.REAL and c.shape is not None and isinstance(ax, int) and n.norm_axis(ax, len(c.shape)) is not None and isinstance(c.shape[n.norm_axis(ax, len(c.shape))], int):
        j0 = n.norm_axis(ax, len(c.shape))
        size = c.shape[j0]
        if isinstance(k, int) and k > 0 and size % k:
            e = AbsRaise(ExcV('builtins.ValueError'), node)
            e.definite = True
            raise e
        cuts = seq_items(eng, st, k) if not isinstance(k, int) else [size // k * i for i in range(1, k)] if k > 0 and size % k == 0 else ['?']
        if cuts is not None and all(isinstance(x, int) for x in cuts):
            return eng.mklist(st, [n.getitem(eng, st, v, eng.mklist(st, [SliceV(None, None, None)] * j0 + [SliceV(x, y, None)], 'tuple'), node)
                                   for x, y in zip([0] + cuts, cuts + [size])])
    if isinstance(k, int):
        ln = k
        d = dims.div(c.shape[ax], k) if c.shape is not None and isinstance(ax, int) and -len(c.shape) <= ax < len(c.shape) else None
        its = []
        for i in range(min(k, 64)):
            sh = None
            if c.shape is not None and isinstance(ax, int) and n.norm_axis(ax, len(c.shape)) is not None:
                j0 = n.norm_axis(ax, len(c.shape))
                sh = tuple(d if j == j0 else e for j, e in enumerate(c.shape))
            its.append(n.structural(eng, st, 'split', v, sh, True, (i, k)))
        return eng.mklist(st, its)
    its = seq_items(eng, st, k)
    if its is not None and '?' not in its and all(isinstance(x, (int, Poly)) for x in its):
        out = []
        prev = 0
        j0 = n.norm_axis(ax, len(c.shape)) if c.shape is not None and isinstance(ax, int) else None
        for i, x in enumerate(list(its) + [c.shape[j0] if j0 is not None else None]):
            sh = None
            if j0 is not None:
                sh = tuple(dims.sub(x, prev) if j == j0 else e for j, e in enumerate(c.shape))
            out.append(n.structural(eng, st, 'split', v, sh, True, (i, str(its))))
            prev = x
        return eng.mklist(st, out)
    ic = n.content(eng, st, k)
    if ic.shape is not None and len(ic.shape) == 1 and isinstance(ic.shape[0], int) and ic.shape[0] < 32:
        sh = None
        if c.shape is not None and isinstance(ax, int) and n.norm_axis(ax, len(c.shape)) is not None:
            j0 = n.norm_axis(ax, len(c.shape))
            sh = tuple(None if j == j0 else e for j, e in enumerate(c.shape))
        return eng.mklist(st, [n.structural(eng, st, 'split', v, sh, True, (i, eng.term_of(k, st))) for i in range(ic.shape[0] + 1)])
    e = n.structural(eng, st, 'split', v, tuple([None] + list(c.shape[1:])) if c.shape else None, True, ('?',))
    return eng.mkulist(st, e)


@reg('numpy.unravel_index')
def _unravel(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    sh = n.shape_arg(eng, st, a[1] if len(a) > 1 else kw.get('shape', kw.get('dims')))
    if sh is None:
        return eng.mkulist(st, Arr(c.rep(roots=frozenset(), facts=frozenset())), 'tuple')
    return eng.mklist(st, [Arr(c.rep(roots=frozenset(), items=None, dtype='int', term=TERMS.mk('unravel', c.term, i, str(sh)), facts=frozenset(['nonneg']))) for i in range(len(sh))], 'tuple')


@reg('numpy.ravel_multi_index')
def _ravelmi(eng, st, a, kw, node):
    n = N()
    e = eng.iter_elem(st, a[0], node)
    c = n.content(eng, st, e)
    return Arr(c.rep(roots=frozenset(), items=None, dtype='int', term=TERMS.mk('ravelmi', eng.term_of(a[0], st), eng.term_of(a[1], st)), facts=frozenset(['nonneg'])))


@reg('numpy.ix_', 'numpy.meshgrid')
def _ix(eng, st, a, kw, node):
    n = N()
    k = len(a)
    out = []
    for i, x in enumerate(a):
        c = n.content(eng, st, x)
        d = c.shape[0] if c.shape else None
        out.append(Arr(c.rep(shape=tuple(d if j == i else 1 for j in range(k)), roots=frozenset(), items=None)))
    return eng.mklist(st, out, 'tuple')


@reg('numpy.isclose')
def _isclose(eng, st, a, kw, node):
    return fold.fold_ext(eng, st, 'numpy.isclose', a, kw, _allclose(eng, st, a, kw, node, True)) if fold.REAL else _allclose(eng, st, a, kw, node)


@reg('numpy_indexed.all_equal')
def _npi_all_equal(eng, st, a, kw, node):
    if fold.REAL:
        try:
            x = fold.Conv(eng, st)(a[0])
            if isinstance(x, fold.np.ndarray) and x.dtype != object:
                return fold.spm.all_equal(x, kw.get('axis', 0))
        except (fold.NoFold, TypeError, ValueError):
            pass
    return _allclose(eng, st, a, kw, node)


@reg('numpy.allclose', 'numpy.array_equal', 'numpy.array_equiv', 'numpy.all_equal')
def _allclose(eng, st, a, kw, node, each=False):
    n = N()
    cs = [n.content(eng, st, x) for x in a[:2]]
    for c in cs[:1]:
        pass
    if len(cs) > 1:
        n.broadcast(eng, st, [c.shape for c in cs], node, 'comparison')
        if cs[0].term == cs[1].term:
            pass
        ks = [n.const_of(c) for c in cs]
        if not any(k is not None and c.shape == () for k, c in zip(ks, cs)):
            n.unit_add(eng, cs[0], cs[1], node, 'comparison')
        if ks[0] is not None and ks[1] is not None:
            return abs(ks[0] - ks[1]) <= 1e-8 + 1e-5 * abs(ks[1])
        if fold.REAL and not each:
            try:
                x, y = [fold.Conv(eng, st)(v) for v in a[:2]]
                if not any(isinstance(v, fold.Lin) for z in (x, y) for v in fold.np.ravel(z)):
                    return bool(fold.np.allclose(fold.np.asarray(x, float), fold.np.asarray(y, float)))
            except (fold.NoFold, TypeError, ValueError):
                pass
        if eng.generic_allclose and (ks[0] is None) != (ks[1] is None):
            return False
    return Arr(C(shape=(), dtype='bool', deg=0, tr=n.tr_nonlin(cs[0].tr) if cs else None, lin=None if any(c.lin is None for c in cs) else n.lin_non(cs[0].lin), taint=n.taints(cs),
                 term=TERMS.mk('allclose', *[c.term for c in cs])))


@reg('numpy.finfo', 'numpy.iinfo')
def _finfo(eng, st, a, kw, node):
    return ExtObj('finfo')


@reg('numpy.errstate', 'numpy.printoptions')
def _errstate(eng, st, a, kw, node):
    return ExtObj('ctx')


@reg('numpy.dtype')
def _dtype(eng, st, a, kw, node):
    n = N()
    d = n.canon_dtype(eng, st, a[0]) if a else None
    return n.DtypeV(d) if d else Top('dtype')


for _n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'float32', 'float64', 'float', 'int', 'bool', 'bool_', 'intp'):
    def _cast(eng, st, a, kw, node, nm=_n):
        n = N()
        if not a:
            return Top(nm)
        c = n.content(eng, st, a[0])
        return Arr(c.rep(dtype=n.canon_dtype(eng, st, Ext('numpy.' + nm)), roots=frozenset(), items=None))
    F['numpy.' + _n] = _cast


@reg('numpy.einsum')
def _einsum(eng, st, a, kw, node):
    return N().einsum(eng, st, a, kw, node)


@reg('numpy.dot')
def _dot(eng, st, a, kw, node):
    n = N()
    x, y = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    if x.shape == () or y.shape == ():
        return n.binop(eng, st, 'Mult', a[0], a[1], node)
    return dot_content(eng, st, x, y, node)


def dot_content(eng, st, x, y, node):
    n = N()
    r = n.matmul(eng, st, x, y, node)
    if x.kind == 'nd' and y.kind == 'nd' and x.shape is not None and y.shape is not None and len(y.shape) > 2:
        r.c0 = r.c0.rep(shape=tuple(x.shape[:-1]) + tuple(y.shape[:-2]) + tuple(y.shape[-1:]))
    return r


@reg('numpy.inner')
def _inner(eng, st, a, kw, node):
    n = N()
    x, y = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    sh = None
    if x.shape is not None and y.shape is not None and x.shape and y.shape:
        if x.shape[-1] is not None and y.shape[-1] is not None and x.shape[-1] != y.shape[-1]:
            eng.event('shape', node, 'inner product over sizes %s and %s' % (x.shape[-1], y.shape[-1]))
        sh = tuple(x.shape[:-1]) + tuple(y.shape[:-1])
    elif x.shape == ():
        sh = y.shape
    elif y.shape == ():
        sh = x.shape
    c = n.arith(eng, st, 'Mult', x.rep(shape=None), y.rep(shape=None), node)
    if x.shape is not None and len(x.shape) == 1 and n.is_batch(x.shape[-1]):
        eng.event('batch-reduce', node, 'inner product over the batch axis')
    return Arr(c.rep(shape=sh, term=TERMS.mk('inner', *sorted((x.term, y.term), key=lambda t: t.i)), kind='nd'))


@reg('numpy.vdot')
def _vdot(eng, st, a, kw, node):
    r = _inner(eng, st, a, kw, node)
    r.c0 = r.c0.rep(shape=())
    return r


@reg('numpy.outer')
def _outer(eng, st, a, kw, node):
    n = N()
    x, y = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    c = n.arith(eng, st, 'Mult', x.rep(shape=None), y.rep(shape=None), node)
    sh = (dims.prod(x.shape), dims.prod(y.shape)) if x.shape is not None and y.shape is not None else None
    return Arr(c.rep(shape=sh, term=TERMS.mk('outer', x.term, y.term)))


@reg('numpy.cross')
def _cross(eng, st, a, kw, node):
    n = N()
    x, y = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    sh = None
    if x.shape is not None and y.shape is not None and x.shape and y.shape:
        b = n.broadcast(eng, st, [x.shape[:-1], y.shape[:-1]], node, 'cross product')
        if b is not None:
            if x.shape[-1] == 3 or y.shape[-1] == 3:
                sh = tuple(b) + (3,)
            elif x.shape[-1] == 2 and y.shape[-1] == 2:
                sh = tuple(b)
            elif isinstance(x.shape[-1], int) and x.shape[-1] not in (2, 3):
                eng.event('shape', node, 'cross product of vectors of length %s' % x.shape[-1])
    deg = ANY if ANY in (x.deg, y.deg) else (None if x.deg is None or y.deg is None else x.deg + y.deg)
    return Arr(C(shape=sh, dtype=n.promote(x.dtype, y.dtype), deg=deg, tr=n.tr_mul(x.tr, y.tr), lin=n.lin_mul(x.lin, y.lin), taint=x.taint | y.taint,
                 term=TERMS.mk('cross', x.term, y.term)))


@reg('numpy.linalg.det', 'scipy.linalg.det')
def _det(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    k = c.shape[-1] if c.shape else None
    if c.shape is not None and len(c.shape) >= 2 and c.shape[-1] is not None and c.shape[-2] is not None and c.shape[-1] != c.shape[-2]:
        eng.event('shape', node, 'determinant of a %s x %s matrix' % (c.shape[-2], c.shape[-1]))
    deg = c.deg if c.deg in (None, ANY, 0) else (c.deg * k if isinstance(k, int) else None)
    return Arr(C(shape=tuple(c.shape[:-2]) if c.shape is not None and len(c.shape) >= 2 else None, dtype='float', deg=deg, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint,
                 term=TERMS.mk('det', c.term)))


@reg('numpy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.inv')
def _inv(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    sh = None
    if c.shape is not None and len(c.shape) >= 2:
        sh = tuple(c.shape[:-2]) + (c.shape[-1], c.shape[-2])
    return Arr(C(shape=sh, dtype='float', deg=c.deg if c.deg in (None,) else (None if c.deg == ANY else -c.deg), tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint,
                 term=TERMS.mk('inv', c.term)))


@reg('numpy.linalg.solve', 'numpy.linalg.lstsq', 'scipy.linalg.solve')
def _solve(eng, st, a, kw, node):
    n = N()
    x, y = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    deg = None if None in (x.deg, y.deg) or ANY in (x.deg, y.deg) else y.deg - x.deg
    return Arr(C(shape=y.shape, dtype='float', deg=deg, tr=None, lin=n.lin_mul(n.lin_non(x.lin), y.lin), taint=x.taint | y.taint, term=TERMS.mk('solve', x.term, y.term)))


@reg('numpy.linalg.svd', 'scipy.linalg.svd')
def _svd(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    b = tuple(c.shape[:-2]) if c.shape is not None and len(c.shape) >= 2 else None
    m, k = (c.shape[-2], c.shape[-1]) if b is not None else (None, None)
    mn = min(m, k) if isinstance(m, int) and isinstance(k, int) else None
    full = kw.get('full_matrices', True)
    u = Arr(C(shape=b + ((m, m) if full is True else (m, mn)) if b is not None else None, dtype='float', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, term=TERMS.mk('svd_u', c.term)))
    s = Arr(C(shape=b + (mn,) if b is not None else None, dtype='float', deg=c.deg, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, term=TERMS.mk('svd_s', c.term), facts=frozenset(['nonneg'])))
    v = Arr(C(shape=b + ((k, k) if full is True else (mn, k)) if b is not None else None, dtype='float', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, term=TERMS.mk('svd_v', c.term)))
    if kw.get('compute_uv') is False:
        return s
    return eng.mklist(st, [u, s, v], 'tuple')


@reg('numpy.linalg.eig', 'numpy.linalg.eigh', 'scipy.linalg.eigh')
def _eig(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    sh = c.shape
    w = Arr(C(shape=tuple(sh[:-1]) if sh else None, dtype='float', deg=c.deg, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, term=TERMS.mk('eig_w', c.term)))
    v = Arr(C(shape=sh, dtype='float', deg=0, tr=n.tr_nonlin(c.tr), lin=n.lin_non(c.lin), taint=c.taint, term=TERMS.mk('eig_v', c.term)))
    return eng.mklist(st, [w, v], 'tuple')


@reg('numpy.trace')
def _trace(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    ax = [kw.get('axis1', a[2] if len(a) > 2 else 0), kw.get('axis2', a[3] if len(a) > 3 else 1)]
    sh = None
    if c.shape is not None and all(isinstance(x, int) and not isinstance(x, bool) and -len(c.shape) <= x < len(c.shape) for x in ax):
        ax = [x % len(c.shape) for x in ax]
        bad = [c.shape[x] for x in ax if n.is_batch(c.shape[x])]
        if bad:
            eng.event('batch-reduce', node, 'trace over the batch axis %s' % bad[0])
        sh = tuple(d for i, d in enumerate(c.shape) if i not in ax)
    return Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=c.tr, lin=c.lin, taint=c.taint, term=TERMS.mk('trace', c.term, *map(str, ax))))


@reg('numpy.diag', 'numpy.diagonal')
def _npdiag(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    sh = None
    if c.shape is not None:
        sh = (c.shape[0], c.shape[0]) if len(c.shape) == 1 else (c.shape[0],)
    return Arr(c.rep(shape=sh, roots=frozenset(), items=None, term=TERMS.mk('diag', c.term)))


@reg('numpy.random.uniform', 'numpy.random.normal', 'numpy.random.randn', 'numpy.random.rand', 'numpy.random.random', 'numpy.random.randint', 'numpy.random.permutation', 'numpy.random.choice', 'numpy.random.shuffle', 'numpy.random.seed', 'numpy.random.random_sample')
def _random(eng, st, a, kw, node):
    n = N()
    sh = None
    size = kw.get('size')
    if size is not None:
        sh = n.shape_arg(eng, st, size)
    return Arr(C(shape=sh, dtype='float', deg=None, taint=frozenset(['random'])))


# ------------------------------------------------------------------------------------------------ scipy.sparse
def sp_shape(eng, st, kw, default=None):
    v = kw.get('shape')
    return N().shape_arg(eng, st, v) if v is not None else default


def sparse_ctor(fmt):
    def f(eng, st, a, kw, node):
        n = N()
        v = a[0]
        if 'shape' not in kw and len(a) > 1:
            kw = dict(kw, shape=a[1])
        sh = sp_shape(eng, st, kw)
        dt = n.canon_dtype(eng, st, kw['dtype']) if 'dtype' in kw else None
        if isinstance(v, ListV) and v.kind == 'tuple':
            its = eng.lst(st, v).items
            if its is not None and len(its) == 2:
                if all(isinstance(x, (int, Poly)) for x in its):
                    return Arr(C(shape=tuple(its), dtype=dt or 'float', deg=ANY, tr=ANY, lin=(), kind='sp', facts=frozenset(['zero', 'nonneg', 'prealloc', ('fill', 0)]), term=TERMS.mk('spzeros', str(its))))
                data, ij = its
                dc = n.content(eng, st, data)
                ijs = eng.items(st, ij) if isinstance(ij, (ListV, Arr)) else None
                ics = [n.content(eng, st, x) for x in ijs] if ijs is not None else []
                if len(ics) == 2:
                    n.broadcast(eng, st, [c.shape for c in ics + [dc]], node, 'sparse triplets')
                    for k, c in enumerate(ics):
                        d = sh[k] if sh is not None and len(sh) == 2 else None
                        n.check_index_space(eng, node, c, d)
                    if sh is None:
                        sh = tuple(n.into_of(c) for c in ics)
                        for k, c in enumerate(ics):
                            if 'subset' in c.facts and sh[k] is not None and not isinstance(sh[k], int):
                                eng.event('shape', node, 'axis %d of the matrix is sized by the largest selected index, not by the %s elements that were selected from' % (k, sh[k]))
                                sh = sh[:k] + (dims.sym('#last'),) + sh[k + 1:]
                z = {'nonneg'} if 'nonneg' in dc.facts else set()
                if dc.shape == (0,):
                    z |= {'zero'}
                lin = dc.lin
                return Arr(C(shape=sh, dtype=dt or dc.dtype, deg=ANY if 'zero' in z else dc.deg, tr=ANY if 'zero' in z else dc.tr, lin=lin, kind='sp', taint=n.taints([dc] + ics), facts=frozenset(z),
                             term=TERMS.mk('coo', dc.term, *[c.term for c in ics] + [str(sh)])))
            if its is not None and len(its) == 3:
                return Arr(C(shape=sh, dtype=dt, kind='sp', taint=n.taints([n.content(eng, st, x) for x in its])))
            return Arr(C(shape=sh, dtype=dt, kind='sp', taint=eng.taint_of(v, st)))
        c = n.content(eng, st, v)
        return Arr(c.rep(kind='sp', shape=sh or c.shape, items=None, dtype=dt or c.dtype))
    return f


for _n in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'lil_matrix', 'dok_matrix', 'bsr_matrix', 'coo_array', 'csr_array'):
    F['scipy.sparse.' + _n] = sparse_ctor(_n)


@reg('scipy.sparse.eye', 'scipy.sparse.identity', 'scipy.sparse.speye')
def _speye(eng, st, a, kw, node):
    n = N()
    r = n.dim_of(eng, st, a[0] if a else kw.get('m', kw.get('n')))
    mv = a[1] if len(a) > 1 and a[1] is not None else kw.get('n', None)
    m = n.dim_of(eng, st, mv) if mv is not None else r
    if isinstance(mv, (Ext, str)):
        m = r
    dt = n.canon_dtype(eng, st, kw['dtype']) if 'dtype' in kw else 'float'
    k = kw.get('k', 0)
    f = ['nonneg']
    if r == m and r is not None and k == 0:
        f += ['rowsum1', 'colsum1']
    return Arr(C(shape=(r, m), dtype=dt, deg=0, tr=0, lin=(), kind='sp', facts=frozenset(f), term=TERMS.mk('eye', str(r), str(m), r, m) if k == 0 else TERMS.fresh('eyek')))


@reg('scipy.sparse.diags', 'scipy.sparse.dia_matrix', 'scipy.sparse.spdiags', 'scipy.sparse.diags_array')
def _diags(eng, st, a, kw, node):
    n = N()
    v = a[0]
    if isinstance(v, ListV) and v.kind == 'tuple' or isinstance(v, ListV) and len(a) > 1:
        its = eng.lst(st, v).items
        cs = [n.content(eng, st, x) for x in its or ()]
        if len(a) > 1 and its is not None and len(its) == 1 and a[1] in (0,) or v.kind == 'tuple' and its is not None and len(its) == 2 and its[1] == 0:
            v = its[0]
        else:
            return Arr(C(kind='sp', taint=n.taints(cs), shape=sp_shape(eng, st, kw)))
    c = n.content(eng, st, v)
    d = c.shape[-1] if c.shape else None
    sh = sp_shape(eng, st, kw, (d, d))
    if c.shape is not None and len(c.shape) == 2 and c.shape[0] == 1:
        d = c.shape[1]
        sh = sp_shape(eng, st, kw, (d, d))
    if c.shape is not None and len(c.shape) == 2 and c.shape[0] != 1:
        # a 2-d array is read as a list of diagonals
        return Arr(c.rep(kind='sp', shape=None, roots=frozenset(), items=None, term=TERMS.fresh('diags')))
    offs = a[1] if len(a) > 1 else kw.get('offsets', 0)
    if offs != 0 and not (isinstance(offs, ListV)):
        return Arr(C(kind='sp', taint=c.taint, deg=c.deg, lin=c.lin))
    return Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=c.tr, lin=c.lin, taint=c.taint, kind='sp', facts=c.facts & frozenset(['nonneg', 'zero']),
                 term=TERMS.mk('diag', c.term)))


@reg('scipy.sparse.bmat', 'scipy.sparse.block_array')
def _bmat(eng, st, a, kw, node):
    n = N()
    rows = parts_of(eng, st, a[0])
    if rows is None:
        e = eng.iter_elem(st, a[0], node)
        return Arr(C(kind='sp', taint=eng.taint_of(a[0], st)))
    grid = []
    for r in rows:
        p = parts_of(eng, st, r)
        if p is None:
            return Arr(C(kind='sp', taint=eng.taint_of(a[0], st)))
        grid.append(p)
    return bmat_grid(eng, st, grid, node)


def bmat_grid(eng, st, grid, node):
    n = N()
    nr, nc = len(grid), max(len(g) for g in grid) if grid else 0
    rh, cw = [None] * nr, [None] * nc
    cs = []
    blocks = []
    for i, g in enumerate(grid):
        row = []
        for j, b in enumerate(g):
            if b is None or isinstance(b, int) and b == 0:
                row.append(None)
                continue
            c = n.content(eng, st, b)
            cs.append(c)
            row.append(c.term)
            if c.shape is not None and len(c.shape) == 2:
                for arr_, k, d, what in ((rh, i, c.shape[0], 'row'), (cw, j, c.shape[1], 'column')):
                    if d is None:
                        continue
                    if arr_[k] is not None and arr_[k] != d:
                        eng.event('shape', node, 'blocks of %s %d disagree: %s and %s' % (what, k, arr_[k], d), shapes=[c.shape])
                    arr_[k] = d
        blocks.append(tuple('0' if x is None else x for x in row))
    dt = cs[0].dtype if cs else None
    for c in cs[1:]:
        dt = n.promote(dt, c.dtype)
    lin = cs[0].lin if cs else ()
    for c in cs[1:]:
        lin = n.lin_add(lin, c.lin, False, False) if lin != c.lin else lin
    tr = 0 if all(c.tr in (0, ANY) for c in cs) else None
    deg = None
    ds = set(c.deg for c in cs) - {ANY}
    if len(ds) == 1:
        deg = ds.pop()
    return Arr(C(shape=(dims.total(rh), dims.total(cw)) if None not in rh and None not in cw else (dims.total(rh) if None not in rh else None, dims.total(cw) if None not in cw else None),
                 dtype=dt, deg=deg, tr=tr, lin=lin, taint=n.taints(cs), kind='sp', facts=frozenset(['nonneg']) if cs and all('nonneg' in c.facts for c in cs) else frozenset(),
                 term=TERMS.mk('bmat', *[TERMS.mk('brow', *r) for r in blocks])))


@reg('scipy.sparse.vstack', 'scipy.sparse.hstack')
def _spvstack(eng, st, a, kw, node):
    return _spstack(eng, st, a, kw, node, True)


def _spstack(eng, st, a, kw, node, vert):
    p = parts_of(eng, st, a[0])
    n = N()
    if p is None:
        e = eng.iter_elem(st, a[0], node)
        c = n.content(eng, st, e)
        k = 1 if vert else 0
        sh = None
        if c.shape is not None and len(c.shape) == 2:
            L = eng.seqlen(st, a[0])
            sh = (dims.mul(c.shape[0], L), c.shape[1]) if vert else (c.shape[0], dims.mul(c.shape[1], L))
        return Arr(c.rep(kind='sp', shape=sh, roots=frozenset(), items=None, term=TERMS.mk('cat', c.term), facts=c.facts & frozenset(['nonneg', 'zero', 'rowsum1'] if vert else ['nonneg', 'zero', 'colsum1'])))
    r = bmat_grid(eng, st, [[x] for x in p] if vert else [p], node)
    cs = [n.content(eng, st, x) for x in p]
    nm = 'rowsum1' if vert else 'colsum1'
    if cs and all(nm in c.facts for c in cs):
        r.c0 = r.c0.rep(facts=r.c0.facts | {nm})
    return r


F['scipy.sparse.vstack'] = lambda eng, st, a, kw, node: _spstack(eng, st, a, kw, node, True)
F['scipy.sparse.hstack'] = lambda eng, st, a, kw, node: _spstack(eng, st, a, kw, node, False)


@reg('scipy.sparse.block_diag')
def _spblockdiag(eng, st, a, kw, node):
    p = parts_of(eng, st, a[0])
    if p is None:
        return Arr(C(kind='sp', taint=eng.taint_of(a[0], st)))
    return bmat_grid(eng, st, [[x if i == j else None for j in range(len(p))] for i, x in enumerate(p)], node)


@reg('scipy.sparse.kron', 'scipy.sparse.triu', 'scipy.sparse.tril')
def _spmisc(eng, st, a, kw, node):
    return Arr(C(kind='sp', taint=eng.taint_of(a[0], st)))


@reg('scipy.sparse.issparse', 'scipy.sparse.isspmatrix')
def _issp(eng, st, a, kw, node):
    if isinstance(a[0], Arr):
        k = eng.content(a[0], st).kind
        return k == 'sp'
    return eng.ubool(a[0], None, st, 'issparse')


@reg('scipy.sparse.csgraph.connected_components')
def _cc(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    k = Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, term=TERMS.mk('ncomp', c.term)))
    if kw.get('return_labels', True) is False:
        return k
    return eng.mklist(st, [k, Arr(C(shape=(c.shape[0] if c.shape else None,), dtype='index', deg=0, tr=0, lin=(), taint=c.taint, term=TERMS.mk('labels', c.term)))], 'tuple')


@reg('scipy.sparse.linalg.eigsh', 'scipy.sparse.linalg.eigs', 'scipy.sparse.linalg.lobpcg')
def _eigsh(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    k = n.dim_of(eng, st, kw.get('k', a[1] if len(a) > 1 else 6))
    vals = Arr(C(shape=(k,), dtype='float', deg=c.deg, tr=c.tr, lin=(), taint=c.taint))
    if kw.get('return_eigenvectors', True) is False:
        return vals
    return eng.mklist(st, [vals, Arr(C(shape=(c.shape[0] if c.shape else None, k), dtype='float', deg=None, lin=(), taint=c.taint))], 'tuple')


@reg('scipy.sparse.linalg.minres', 'scipy.sparse.linalg.qmr', 'scipy.sparse.linalg.cg', 'scipy.sparse.linalg.gmres', 'scipy.sparse.linalg.bicg', 'scipy.sparse.linalg.bicgstab', 'scipy.sparse.linalg.lgmres')
def _krylov(eng, st, a, kw, node):
    n = N()
    A = a[0] if a else kw.get('A')
    b = a[1] if len(a) > 1 else kw.get('b')
    c = n.content(eng, st, b)
    if isinstance(A, Arr):
        ac = eng.content(A, st)
        if ac.shape is not None and len(ac.shape) == 2 and c.shape is not None and len(c.shape) >= 1:
            if ac.shape[0] is not None and c.shape[0] is not None and ac.shape[0] != c.shape[0]:
                eng.event('shape', node, 'system matrix with %s rows, right hand side of size %s' % (ac.shape[0], c.shape[0]))
    at = eng.content(A, st).term if isinstance(A, Arr) else eng.term_of(A, st)
    x = Arr(C(shape=c.shape, dtype='float', deg=None, lin=c.lin, taint=c.taint, term=TERMS.mk('krylov', at, c.term)))
    return eng.mklist(st, [x, Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))], 'tuple')


@reg('scipy.sparse.linalg.spsolve')
def _spsolve(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[1])
    at = n.content(eng, st, a[0]).term
    return Arr(C(shape=c.shape, dtype='float', deg=None, lin=c.lin, taint=c.taint, term=TERMS.mk('krylov', at, c.term)))


@reg('scipy.sparse.linalg.LinearOperator', 'scipy.sparse.linalg.aslinearoperator')
def _linop(eng, st, a, kw, node):
    names = ['shape', 'matvec', 'rmatvec', 'matmat', 'dtype']
    d = argmap(a, kw, names)
    return ExtObj('linop', (), d)


# ------------------------------------------------------------------------------------------------ scipy.spatial, ndimage, npi
@reg('scipy.spatial.cKDTree', 'scipy.spatial.KDTree')
def _kdtree(eng, st, a, kw, node):
    return ExtObj('kdtree', [a[0]], taint=eng.taint_of(a[0], st))


@reg('scipy.spatial.ConvexHull', 'scipy.spatial.Delaunay')
def _hull(eng, st, a, kw, node):
    return ExtObj('hull', [a[0]], taint=eng.taint_of(a[0], st))


def ndi(name, linear=True):
    def f(eng, st, a, kw, node):
        n = N()
        c = n.content(eng, st, a[0])
        w = n.content(eng, st, a[1]) if len(a) > 1 else C()
        out = kw.get('output')
        if out is not None and isinstance(out, Arr):
            eng.mutate(st, out, node, 'output= argument')
        p = tuple(sorted((k, eng.term_of(v, st)) for k, v in kw.items()))
        eng.event('filter', node, name, kw={k: v for k, v in kw.items()}, nargs=len(a), args=a)
        deg = None if c.deg is None or w.deg is None else (ANY if ANY in (c.deg, w.deg) else c.deg + w.deg)
        r = Arr(C(shape=c.shape, dtype=c.dtype, deg=deg, tr=None, lin=n.lin_mul(c.lin, w.lin), taint=c.taint | w.taint,
                     term=TERMS.mk(name, c.term, w.term, *[TERMS.mk('kw', k, v) for k, v in p])))
        if fold.REAL and name in FILTERS:
            m = kw.get('mode', 'reflect')
            k = {x: v for x, v in kw.items() if x not in ('output', 'mode')}
            r = fold.fold(eng, st, lambda *x, **y: FILTERS[name](*x, mode=m, **y), list(a), k, r)
        return r
    return f


def correlate_items(x, w, origin, mode, cval=0):
    """correlation of the array x (of constants or linear forms) in the convention of scipy.ndimage"""
    np = fold.np
    lo = [s // 2 + o for s, o in zip(w.shape, origin)]
    hi = [s - s // 2 - 1 - o for s, o in zip(w.shape, origin)]
    pad = [(max(l, 0), max(h, 0)) for l, h in zip(lo, hi)]
    mode = {'wrap': 'wrap', 'grid-wrap': 'wrap', 'reflect': 'symmetric', 'grid-mirror': 'symmetric', 'mirror': 'reflect', 'nearest': 'edge', 'constant': 'constant', 'grid-constant': 'constant'}[mode]
    y = np.pad(x.astype(object), pad, mode=mode, **({'constant_values': cval} if mode == 'constant' else {}))
    r = None
    for i, c in np.ndenumerate(w):
        if c == 0:
            continue
        t = y[tuple(slice(p[0] - l + k, p[0] - l + k + n) for p, l, k, n in zip(pad, lo, i, x.shape))] * c
        r = t if r is None else r + t
    return r if r is not None else x * 0


def _conv_items(x, weights, flip, axes, origin, mode, cval=0):
    np = fold.np
    w = np.asarray(weights)
    o = list(origin)
    if flip:
        w = w[tuple([slice(None, None, -1)] * w.ndim)]
        o = [-v - (0 if s & 1 else 1) for v, s in zip(o, w.shape)]
    if axes is not None:
        sh = [1] * x.ndim
        sh[axes] = len(w)
        w, o2 = w.reshape(sh), [0] * x.ndim
        o2[axes] = o[0]
        o = o2
    return correlate_items(x, w, o, mode, cval)


FILTERS = {
    'convolve1d': lambda x, weights, axis=-1, mode='reflect', cval=0.0, origin=0: _conv_items(x, weights, True, axis, [origin], mode, cval),
    'correlate1d': lambda x, weights, axis=-1, mode='reflect', cval=0.0, origin=0: _conv_items(x, weights, False, axis, [origin], mode, cval),
    'convolve': lambda x, weights, mode='reflect', cval=0.0, origin=0: _conv_items(x, weights, True, None, [origin] * x.ndim, mode, cval),
    'correlate': lambda x, weights, mode='reflect', cval=0.0, origin=0: _conv_items(x, weights, False, None, [origin] * x.ndim, mode, cval),
}


for _n in ('convolve', 'correlate', 'convolve1d', 'correlate1d', 'gaussian_filter', 'gaussian_filter1d', 'uniform_filter', 'uniform_filter1d'):
    for _p in ('scipy.ndimage.', 'scipy.ndimage.filters.'):
        F[_p + _n] = ndi(_n)


@reg('scipy.ndimage.map_coordinates')
def _mapc(eng, st, a, kw, node):
    n = N()
    c = n.content(eng, st, a[0])
    k = n.content(eng, st, a[1])
    eng.event('filter', node, 'map_coordinates', kw={q: v for q, v in kw.items()}, nargs=len(a), args=a)
    sh = tuple(k.shape[1:]) if k.shape is not None else None
    r = Arr(C(shape=sh, dtype=c.dtype, deg=c.deg, tr=None, lin=c.lin if not n.lin_any(k.lin) else n.lin_non(n.lin_join(c.lin, k.lin)), taint=c.taint | k.taint,
                 term=TERMS.mk('map_coordinates', c.term, k.term, *[TERMS.mk('kw', q, eng.term_of(v, st)) for q, v in sorted(kw.items())])))
    if fold.REAL:
        r = fold.fold(eng, st, lambda *x, **y: interpolate_items(*x, **y), list(a), dict(kw), r)
    return r


def interpolate_items(x, p, order=3, mode='constant', cval=0.0):
    """multilinear interpolation of constants or linear forms inside of the array"""
    np = fold.np
    if order != 1:
        raise ValueError('order')
    import itertools
    p = np.asarray(p, float)
    out = np.empty(p.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        q = p[(slice(None),) + i]
        if np.any(q < -1e-9) or np.any(q > np.array(x.shape) - 1 + 1e-9):
            raise ValueError('outside')
        b = np.clip(np.floor(q), 0, np.maximum(np.array(x.shape) - 2, 0)).astype(int)
        f = q - b
        t = 0
        for o in itertools.product((0, 1), repeat=len(q)):
            w = 1.
            for k, y in zip(o, f):
                w *= float(y) if k else 1 - float(y)
            if abs(w) > 1e-12:
                t = x[tuple(int(a + k) for a, k in zip(b, o))] * w + t
        out[i] = t
    return out


def npkey(eng, st, v):
    """constant key array behind a value, or None"""
    if isinstance(v, ExtObj) and v.type in ('npindex', 'groupby') and v.args:
        return npkey(eng, st, v.args[0])
    if isinstance(v, Arr):
        c = eng.content(v, st)
        if fold.np is not None and fold.is_const(c) and c.shape and not any(isinstance(x, Poly) for x in c.items):
            return fold.to_np(c)
    if isinstance(v, ListV) and v.kind in ('list', 'tuple') and fold.np is not None:
        try:
            a = fold.Conv(eng, st)(v)
            a = fold.np.stack(a, axis=-1) if v.kind == 'tuple' and not all(isinstance(x, int) for x in a) else fold.np.array(a)
        except Exception:
            return None
        if a.dtype.kind in 'iub' and a.ndim:
            return a
    return None


def rows(a):
    return [tuple(r.ravel().tolist()) if hasattr(r, 'ravel') else r for r in a] if a.ndim > 1 else a.tolist()


def const_group(a):
    """sorted unique keys (row-wise), positions of the first occurrences, group members"""
    g = {}
    for i, r in enumerate(rows(a)):
        g.setdefault(r, []).append(i)
    ks = sorted(g)
    return [g[k][0] for k in ks], [g[k] for k in ks]


def const_arr(eng, st, a, like=None):
    c = C(shape=tuple(a.shape), dtype='int' if a.dtype.kind in 'iu' else ('bool' if a.dtype.kind == 'b' else 'float'), deg=0, tr=0, lin=())
    if like is not None:
        c = like.rep(shape=tuple(a.shape), items=None, roots=frozenset())
    its = tuple(fold.plain(x) for x in a.ravel())
    return Arr(c.rep(items=its, term=TERMS.mk('constarr', tuple(a.shape), its)))


@reg('numpy_indexed.indices')
def _npi_indices(eng, st, a, kw, node):
    n = N()
    this, that = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    k0, k1 = npkey(eng, st, a[0]), npkey(eng, st, a[1])
    if k0 is not None and k1 is not None and k0.shape[1:] == k1.shape[1:]:
        d = {}
        for i, r in enumerate(rows(k0)):
            d.setdefault(r, i)
        if fold.REAL and isinstance(kw.get('missing'), int):
            return const_arr(eng, st, fold.np.array([d.get(r, kw['missing']) for r in rows(k1)], dtype=int))
        if all(r in d for r in rows(k1)):
            return const_arr(eng, st, fold.np.array([d[r] for r in rows(k1)], dtype=int))
        raise AbsRaise(ExcV('builtins.KeyError'), node, True)
    f = set(['nonneg'])
    if this.shape and isinstance(this.shape[0], Poly):
        f.add(('into', this.shape[0]))
    if this.shape is not None and that.shape is not None and len(this.shape) == len(that.shape) and len(this.shape) > 1:
        for x, y in zip(this.shape[1:], that.shape[1:]):
            if x is not None and y is not None and x != y:
                eng.event('shape', node, 'key lookup between rows of width %s and %s' % (x, y))
    return Arr(C(shape=(that.shape[0],) if that.shape else None, dtype='int', deg=0, tr=0 if this.tr in (0, ANY) and that.tr in (0, ANY) else None, lin=(), taint=this.taint | that.taint, facts=frozenset(f),
                 term=TERMS.mk('npi_indices', this.term, that.term)))


@reg('numpy_indexed.contains', 'numpy_indexed.in_')
def _npi_contains(eng, st, a, kw, node):
    n = N()
    this, that = n.content(eng, st, a[0]), n.content(eng, st, a[1])
    if fold.REAL:
        k0, k1 = npkey(eng, st, a[0]), npkey(eng, st, a[1])
        if k0 is not None and k1 is not None:
            s0 = set(rows(k0))
            return const_arr(eng, st, fold.np.array([r in s0 for r in rows(k1)], dtype=bool))
    return Arr(C(shape=(that.shape[0],) if that.shape else None, dtype='bool', deg=0, tr=0, lin=(), taint=this.taint | that.taint, term=TERMS.mk('npi_contains', this.term, that.term)))


def key_content(eng, st, v):
    n = N()
    if isinstance(v, ExtObj) and v.args:
        return key_content(eng, st, v.args[0])
    if isinstance(v, ListV) and v.kind == 'tuple':
        its = eng.lst(st, v).items
        if its:
            cs = [n.content(eng, st, x) for x in its]
            return C(shape=cs[0].shape, taint=n.taints(cs), dtype=cs[0].dtype, deg=0, tr=0, lin=(), term=TERMS.mk('seq', *[c.term for c in cs]))
    return n.content(eng, st, v)


def families(p):
    return set(re.sub(r'N\d+$', '', x) if re.search(r'N\d+$', x) else '?' + x for m in p.terms for x in m)


def uniq_dim(c):
    p = N().into_of(c)
    if isinstance(p, Poly) and c.shape is not None and len(c.shape) == 1 and isinstance(c.shape[0], Poly):
        # covering assumption: an incidence array of the complete mesh mentions every element
        if families(c.shape[0]) == families(p) and len(families(p)) == 1:
            return p
    return dims.sym('#u%s' % N().nnz_name(c.term))


@reg('numpy_indexed.unique')
def _npi_unique(eng, st, a, kw, node):
    n = N()
    c = key_content(eng, st, a[0])
    k = npkey(eng, st, a[0])
    if k is not None and not kw:
        return const_arr(eng, st, k[const_group(k)[0]], c)
    d = uniq_dim(c)
    u = Arr(c.rep(shape=(d,) + tuple(c.shape[1:]) if c.shape is not None else None, roots=frozenset(), items=None, term=TERMS.mk('unique', c.term)))
    out = [u]
    if kw.get('return_index') is True:
        out.append(Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, term=TERMS.mk('unique_index', c.term))))
    if kw.get('return_inverse') is True:
        out.append(Arr(C(shape=(c.shape[0] if c.shape else None,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset([('into', d)]), term=TERMS.mk('unique_inverse', c.term))))
    return out[0] if len(out) == 1 else eng.mklist(st, out, 'tuple')


@reg('numpy_indexed.count')
def _npi_count(eng, st, a, kw, node):
    n = N()
    c = key_content(eng, st, a[0])
    k = npkey(eng, st, a[0]) if fold.REAL else None
    if k is not None:
        first, groups = const_group(k)
        return eng.mklist(st, [const_arr(eng, st, k[first], c), const_arr(eng, st, fold.np.array([len(g) for g in groups], dtype=int))], 'tuple')
    d = uniq_dim(c)
    u = Arr(c.rep(shape=(d,) + tuple(c.shape[1:]) if c.shape is not None else None, roots=frozenset(), items=None, term=TERMS.mk('unique', c.term)))
    return eng.mklist(st, [u, Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset(['nonneg']), term=TERMS.mk('unique_counts', c.term)))], 'tuple')


@reg('numpy_indexed.as_index')
def _npi_as_index(eng, st, a, kw, node):
    return ExtObj('npindex', [a[0]], taint=eng.taint_of(a[0], st))


@reg('numpy_indexed.group_by')
def _npi_group_by(eng, st, a, kw, node):
    g = ExtObj('groupby', [a[0]], taint=eng.taint_of(a[0], st))
    if len(a) > 1 or 'values' in kw:
        v = a[1] if len(a) > 1 else kw['values']
        n = N()
        c = key_content(eng, st, a[0])
        d = uniq_dim(c)
        vc = n.content(eng, st, v)
        k, kv = (npkey(eng, st, a[0]), npkey(eng, st, v)) if fold.REAL else (None, None)
        if k is not None and kv is not None and len(k) == len(kv):
            first, groups = const_group(k)
            return eng.mklist(st, [const_arr(eng, st, k[first], c), eng.mklist(st, [const_arr(eng, st, kv[g], vc) for g in groups])], 'tuple')
        u = Arr(c.rep(shape=(d,) + tuple(c.shape[1:]) if c.shape is not None else None, roots=frozenset(), items=None, term=TERMS.mk('unique', c.term)))
        parts = eng.mkulist(st, Arr(vc.rep(shape=(None,) + tuple(vc.shape[1:]) if vc.shape else None, roots=frozenset(), items=None, term=TERMS.fresh('group'))), n=d)
        return eng.mklist(st, [u, parts], 'tuple')
    return g


def constraints(eng, st, v):
    """solution of constant clauses that is unique up to a global sign (its first literal is positive); None if unknown"""
    try:
        cl = fold.Conv(eng, st)(v)
        cl = [[int(x) for x in c] for c in cl]
    except Exception:
        return None
    nv = max([abs(x) for c in cl for x in c] or [0])
    if not nv:
        return None

    def close(s):
        s = dict(s)
        todo = True
        while todo:
            todo = False
            for c in cl:
                free = [x for x in c if abs(x) not in s]
                if any(s.get(abs(x)) == (x > 0) for x in c if abs(x) in s):
                    continue
                if not free:
                    return None
                if len(set(free)) == 1:
                    s[abs(free[0])] = free[0] > 0
                    todo = True
        return s
    r = {}
    for i in range(1, nv + 1):
        if i in r:
            continue
        p, q = close({**r, i: True}), close({**r, i: False})
        if p is None and q is None:
            return 'UNSAT'
        if p is None or q is None:
            r = p or q
        elif any(p[k] == q[k] for k in p if k in q and k not in r):
            return None
        else:
            r = p if eng.phase else q
    return [i if r[i] else -i for i in range(1, nv + 1)]


@reg('pycosat.solve')
def _pycosat(eng, st, a, kw, node):
    t = eng.taint_of(a[0], st)
    r = constraints(eng, st, a[0]) if fold.REAL else None
    if r is not None:
        return r if isinstance(r, str) else eng.mklist(st, r)
    # one literal per boolean variable (one variable per top-dimensional element), or the string 'UNSAT'
    return Top('sat', taint=t)


def extobj_attr(eng, st, o, name, node):
    n = N()
    if o.type == 'hull':
        c = n.content(eng, st, o.args[0])
        if name in ('simplices', 'vertices', 'neighbors'):
            k = c.shape[-1] if c.shape else None
            return Arr(C(shape=(dims.sym('#h%s' % n.nnz_name(c.term)), None), dtype='index', deg=0, tr=0, lin=(), taint=c.taint, term=TERMS.mk('hull_' + name, c.term),
                         facts=frozenset(['nonneg'] + ([('into', c.shape[0])] if c.shape and isinstance(c.shape[0], Poly) else []))))
        return ExtM(o, name)
    if o.type == 'signature':
        if name == 'parameters':
            d = DictV()
            st.store[d.loc] = DC({x: Top('parameter') for x in o.args})
            return d
        return ExtM(o, name)
    if o.type == 'finfo':
        return Arr(C(shape=(), dtype='float', deg=0, tr=0, lin=(), term=TERMS.mk('eps')))
    if o.type in ('groupby', 'npindex'):
        c = key_content(eng, st, o.args[0])
        d = uniq_dim(c)
        k = npkey(eng, st, o)
        if k is not None and name in ('inverse', 'index') and not (o.type == 'groupby' and name == 'index'):
            first, groups = const_group(k)
            r = fold.np.zeros(len(k), dtype=int)
            for j, g in enumerate(groups):
                r[g] = j
            return const_arr(eng, st, r if name == 'inverse' else fold.np.array(first, dtype=int))
        if k is not None and name in ('unique', 'count'):
            first, groups = const_group(k)
            return const_arr(eng, st, k[first], c) if name == 'unique' else const_arr(eng, st, fold.np.array([len(g) for g in groups], dtype=int))
        if name == 'unique':
            return Arr(c.rep(shape=(d,) + tuple(c.shape[1:]) if c.shape is not None else None, roots=frozenset(), items=None, term=TERMS.mk('unique', c.term)))
        if name == 'count':
            return Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset(['nonneg']), term=TERMS.mk('unique_counts', c.term)))
        if name in ('inverse',):
            return Arr(C(shape=(c.shape[0] if c.shape else None,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset([('into', d)]), term=TERMS.mk('unique_inverse', c.term)))
        if name in ('index', 'groups', 'n_groups', 'size', 'sorter', 'slices', 'start'):
            if name == 'index' and o.type == 'groupby':
                return ExtObj('npindex', o.args, taint=o.taint)
            n0 = c.shape[0] if c.shape else None
            into = frozenset([('into', n0)] if isinstance(n0, Poly) else [])
            if name == 'index':
                return Arr(C(shape=(d,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=into | {'nonneg', 'unique'}, term=TERMS.mk('unique_index', c.term)))
            if name == 'sorter':
                return Arr(C(shape=(n0,), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, facts=into | {'nonneg', 'unique'}, term=TERMS.mk('sorter', c.term)))
            if name in ('groups', 'n_groups'):
                return n.scalar_dim(d) if d is not None else Top(name, taint=o.taint)
            if name == 'size':
                return n.scalar_dim(n0) if n0 is not None else Top(name, taint=o.taint)
            return Top(name, taint=o.taint)
        return ExtM(o, name)
    if o.type == 'linop':
        if name == 'shape':
            return o.kw.get('shape', Top('shape'))
        return ExtM(o, name)
    return ExtM(o, name)


def call_extobj(eng, st, f, args, kw, node):
    if f.type == 'linop' and args:
        mv = f.kw.get('matvec')
        if mv is not None:
            return eng.call(mv, args, {}, st, node)
    if f.type == 'memoizer' and args:
        if isinstance(args[0], FuncV):
            args[0].cached = True
        return args[0]
    t = f.taint
    for a in args:
        t = t | eng.taint_of(a, st)
    return Top('extobj call', taint=t)


# ------------------------------------------------------------------------------------------------ array attributes
def arr_attr(eng, st, o, name, node):
    r = arr_attr_(eng, st, o, name, node)
    return fold.sparse_attr(eng, st, o, name, r) if fold.REAL else r


def arr_attr_(eng, st, o, name, node):
    n = N()
    c = eng.content(o, st)
    if name == 'shape':
        if c.shape is None:
            return eng.mkulist(st, Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'pyscalar']))), 'tuple')
        return eng.mklist(st, [n.scalar_dim(d) for d in c.shape], 'tuple')
    if name == 'ndim':
        if c.shape is None:
            return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'pyscalar'])))
        return len(c.shape)
    if name == 'size':
        if c.shape is None:
            return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), facts=frozenset(['nonneg', 'pyscalar'])))
        return n.scalar_dim(dims.prod(c.shape))
    if name == 'dtype':
        return n.DtypeV(c.dtype) if c.dtype and c.dtype != 'copyof' else Top('dtype')
    if name == 'T':
        r = n.transpose(eng, st, o, None, node)
        return fold.fold_method(eng, st, 'transpose', o, [], {}, r) if c.items is not None and (c.kind in ('nd', 'npmatrix') or fold.REAL) else r
    if name in ('real', 'imag'):
        return Arr(c.rep(dtype='float' if c.dtype == 'complex' else c.dtype, term=TERMS.mk(name, c.term) if name == 'imag' or c.dtype != 'float' else c.term, items=None), (o,))
    if name == 'flat':
        return m_flatten(eng, st, o, [], {}, node, True)
    if name == 'nnz':
        return n.scalar_dim(dims.sym('#%s' % n.nnz_name(TERMS.mk('nz', c.term)))) if False else Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), taint=c.taint, term=TERMS.mk('nnz', c.term), facts=frozenset(['nonneg', 'pyscalar'])))
    if c.kind == 'sp' and name in ('data', 'row', 'col', 'indices', 'indptr', 'offsets'):
        k = TERMS.get(c.term)
        d = dims.sym('#z%s' % n.nnz_name(c.term))
        if name == 'data':
            if k[0] == 'diag':
                pass
            return Arr(c.rep(kind='nd', shape=(d,) if k[0] != 'diag' else None, items=None, term=TERMS.mk('spdata', c.term), facts=c.facts & frozenset(['nonneg', 'zero'])), (o,))
        f = set(['nonneg'])
        if c.shape is not None and len(c.shape) == 2:
            dd = c.shape[0] if name == 'row' else c.shape[1]
            if name in ('row', 'col', 'indices') and isinstance(dd, Poly):
                f.add(('into', dd))
        return Arr(C(shape=(d,) if name != 'indptr' else (None,), dtype='index', deg=0, tr=0, lin=(), taint=c.taint, roots=c.roots, facts=frozenset(f), term=TERMS.mk('sp' + name, c.term)))
    if name in ('strides', 'itemsize') and fold.is_const(c):
        # in units of the size of one item
        if name == 'itemsize':
            return ITEM
        k, out = ITEM, []
        for d in reversed(c.shape):
            out.append(k)
            k = k * d
        return eng.mklist(st, out[::-1], 'tuple')
    if name in ('data', 'base'):
        return o if name == 'base' or fold.REAL else Arr(c, (o,))
    if name in ('strides', 'itemsize', 'nbytes', 'flags'):
        return Top(name)
    if name == 'A':
        return m_todense(eng, st, o, [], {}, node)
    if c.kind == 'npmatrix' and name == 'A1':
        return m_flatten(eng, st, o, [], {}, node)
    if name in ARRAY_ATTRS or c.kind in ('linop', 'obj') or name in M:
        return ExtM(o, name)
    if c.kind in ('nd', 'sp') and c.shape is not None and not name.startswith('_'):
        known = ARRAY_ATTRS if c.kind == 'nd' else ARRAY_ATTRS | SP_ATTRS
        if name not in known:
            eng.event('attr-error', node, 'an array has no attribute %s' % name, attr=name, cls='ndarray' if c.kind == 'nd' else 'sparse')
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
    return ExtM(o, name)


ARRAY_ATTRS = frozenset('all any argmax argmin argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data diagonal dot dtype '
                        'dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp '
                        'put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes '
                        'tofile tolist tostring trace transpose var view T argpartition ctypes'.split())
SP_ATTRS = frozenset('A H arcsin asfptype asformat count_nonzero eliminate_zeros format getH getcol get_shape getformat getmaxprint getnnz getrow has_canonical_format '
                     'has_sorted_indices indices indptr row col offsets maximum minimum multiply nnz power prune rint set_shape setdiag sign sort_indices sorted_indices sqrt '
                     'sum_duplicates toarray tobsr tocoo tocsc tocsr todense todia todok tolil trunc floor ceil expm1 log1p tan sin arctan keys items values get rows tanh sinh nonzero'.split())


def call_method(eng, st, m, args, kw, node):
    for k, x in kw.items():
        if k == 'axis' and isinstance(x, Union) and all(isinstance(u, int) for u in x.alts):
            return eng.mapu(x, lambda u: call_method(eng, st, m, args, dict(kw, axis=u), node), st, node)
    r = call_method_(eng, st, m, args, kw, node)
    for a in list(args) + list(kw.values()):
        if isinstance(a, (Top, Arr)) and 'random' in eng.taint_of(a, st):
            r = with_taint(eng, st, r, HIDDENT)
    return r


def call_method_(eng, st, m, args, kw, node):
    o, name = m.obj, m.name
    if isinstance(o, Arr):
        c = eng.content(o, st)
        fn = M.get(name)
        if any(type(a).__name__ == 'StarArg' for a in args):
            if name == 'reshape':
                return Arr(c.rep(shape=None, items=None, term=TERMS.fresh('reshape')), (o,))
            return N().top_arr(eng, st, [o])
        if fn is not None:
            if c.items is None or not fold.is_const(c):
                return fn(eng, st, o, list(args), dict(kw), node)
            o2 = Arr(c)
            r = fn(eng, st, o, list(args), dict(kw), node)
            return fold.fold_method(eng, st, name, o if fold.REAL else o2, list(args), dict(kw), r, o)
        t = c.taint
        for a in list(args) + list(kw.values()):
            t = t | eng.taint_of(a, st)
        eng.unknown_calls['method ' + name] = eng.unknown_calls.get('method ' + name, 0) + 1
        return Top('method ' + name, taint=t)
    if isinstance(o, ListV):
        return list_method(eng, st, o, name, args, kw, node)
    if isinstance(o, DictV):
        return dict_method(eng, st, o, name, args, kw, node)
    if isinstance(o, str):
        if all(isinstance(a, (str, int)) for a in args) and not kw and name in ('format', 'join', 'replace', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'index', 'find'):
            try:
                r = getattr(o, name)(*args)
                return r if isinstance(r, (str, int, bool)) else eng.mklist(st, r)
            except Exception:
                return Top('str')
        if name == 'join' and len(args) == 1:
            its = eng.iterate(args[0], st, node)
            if its is not None and all(isinstance(x, str) for x in its):
                return o.join(its)
        return Top('str')
    if isinstance(o, ExtObj):
        return extobj_method(eng, st, o, name, args, kw, node)
    t = eng.taint_of(o, st)
    for a in args:
        t |= eng.taint_of(a, st)
    return Top('method ' + name, taint=t)


def extobj_method(eng, st, o, name, args, kw, node):
    n = N()
    if o.type == 'kdtree':
        c = n.content(eng, st, o.args[0])
        if name == 'query':
            q = n.content(eng, st, args[0])
            n.unit_add(eng, c, q, node, 'nearest-neighbour query between')
            if c.shape is not None and q.shape is not None and c.shape and q.shape and c.shape[-1] is not None and q.shape[-1] is not None and c.shape[-1] != q.shape[-1]:
                eng.event('shape', node, 'nearest-neighbour query of %s-vectors among %s-vectors' % (q.shape[-1], c.shape[-1]))
            k = kw.get('k', args[1] if len(args) > 1 else 1)
            sh = tuple(q.shape[:-1]) if q.shape is not None else None
            if not (isinstance(k, int) and k == 1) and sh is not None:
                sh = sh + (k if isinstance(k, int) else None,)
            tr = 0 if c.tr == q.tr and isinstance(c.tr, (int, Fraction)) else (0 if {c.tr, q.tr} <= {0, ANY} else ('N' if None not in (c.tr, q.tr) and c.tr != q.tr else None))
            d = Arr(C(shape=sh, dtype='float', deg=c.deg, tr=tr, lin=n.lin_non(n.lin_join(c.lin, q.lin)) if c.lin is not None and q.lin is not None else None, taint=c.taint | q.taint, facts=frozenset(['nonneg']), term=TERMS.mk('kd_d', c.term, q.term)))
            i = Arr(C(shape=sh, dtype='int', deg=0, tr=tr, lin=(), taint=c.taint | q.taint, facts=frozenset(['nonneg'] + ([('into', c.shape[0])] if c.shape and isinstance(c.shape[0], Poly) else [])), term=TERMS.mk('kd_i', c.term, q.term)))
            return eng.mklist(st, [d, i], 'tuple')
        if name in ('query_pairs', 'query_ball_point'):
            return Top('pairs', taint=o.taint)
        return Top('kdtree')
    if o.type in ('groupby', 'npindex'):
        c = key_content(eng, st, o.args[0])
        d = uniq_dim(c)
        u = Arr(c.rep(shape=(d,) + tuple(c.shape[1:]) if c.shape is not None else None, roots=frozenset(), items=None, term=TERMS.mk('unique', c.term)))
        if name in ('sum', 'mean', 'min', 'max', 'prod', 'first', 'last', 'median', 'std', 'var'):
            v = n.content(eng, st, args[0])
            if v.shape and c.shape and v.shape[0] is not None and c.shape[0] is not None and v.shape[0] != c.shape[0]:
                eng.event('shape', node, 'grouping %s values by %s keys' % (v.shape[0], c.shape[0]))
            k = npkey(eng, st, o) if fold.REAL else None
            if k is not None and fold.is_const(v) and v.kind == 'nd' and v.shape and v.shape[0] == len(k) and name in ('sum', 'mean', 'min', 'max', 'prod', 'first', 'last'):
                first, groups = const_group(k)
                x = fold.to_np(v)
                try:
                    f = {'first': lambda y, axis: y[0], 'last': lambda y, axis: y[-1], 'mean': lambda y, axis: fold.np.sum(y, axis=0) / len(y)}.get(name) or getattr(fold.np, name)
                    x = fold.np.stack([fold.np.asarray(f(x[g], axis=0)) for g in groups]) if groups else x[:0]
                    return eng.mklist(st, [const_arr(eng, st, k[first], c), const_arr(eng, st, x, v.rep(dtype='float') if name == 'mean' else v)], 'tuple')
                except Exception:
                    pass
            lin = v.lin if name in ('sum', 'mean', 'first', 'last') else n.lin_non(v.lin)
            tr = v.tr if name in ('mean', 'first', 'last', 'min', 'max') or v.tr in (0, ANY, 'N', None) else None
            r = Arr(C(shape=(d,) + tuple(v.shape[1:]) if v.shape is not None else None, dtype='float' if name == 'mean' and v.dtype in n.INTS else v.dtype, deg=v.deg if name != 'prod' else (0 if v.deg == 0 else None),
                      tr=tr, lin=lin, taint=v.taint | c.taint, facts=v.facts & frozenset(['nonneg', 'zero']), term=TERMS.mk('group_' + name, c.term, v.term)))
            return eng.mklist(st, [u, r], 'tuple')
        if name in ('split', 'split_sequence_as_iterable', 'split_array_as_list', 'split_iterable_as_iterable', 'split_array_as_array'):
            v = n.content(eng, st, args[0])
            if v.shape and c.shape and v.shape[0] is not None and c.shape[0] is not None and v.shape[0] != c.shape[0]:
                eng.event('shape', node, 'grouping %s values by %s keys' % (v.shape[0], c.shape[0]))
            k, kv = npkey(eng, st, o), npkey(eng, st, args[0])
            if k is not None and kv is not None and len(k) == len(kv):
                groups = const_group(k)[1]
                if len(set(len(g) for g in groups)) == 1:
                    return const_arr(eng, st, fold.np.array([kv[g] for g in groups]), v)
                return eng.mklist(st, [const_arr(eng, st, kv[g], v) for g in groups])
            if name == 'split_array_as_array':
                w = dims.div(c.shape[0], d) if c.shape and c.shape[0] is not None else None
                return Arr(v.rep(shape=(d, w) + tuple(v.shape[1:]) if v.shape is not None else None, roots=frozenset(), items=None, taint=v.taint | c.taint, term=TERMS.mk('group_split', c.term, v.term)))
            return eng.mkulist(st, Arr(v.rep(shape=(None,) + tuple(v.shape[1:]) if v.shape is not None else None, roots=frozenset(), items=None, taint=v.taint | c.taint, term=TERMS.fresh('group'))), n=d)
        return Top('groupby', taint=o.taint)
    if o.type == 'linop':
        fn = {'matvec': 'matvec', 'rmatvec': 'rmatvec', 'dot': 'matvec', '__call__': 'matvec'}.get(name)
        if fn and fn in o.kw and args:
            return eng.call(o.kw[fn], list(args), {}, st, node)
        return Top('linop')
    t = o.taint
    for a in args:
        t = t | eng.taint_of(a, st)
    return Top('extobj', taint=t)


def list_method(eng, st, o, name, args, kw, node):
    l = eng.lst(st, o)
    if name == 'append':
        eng.mutate(st, o, node, 'append')
        if l.items is not None and len(l.items) < 400:
            st.store[o.loc] = LC(l.items + (args[0],), None, l.roots)
        else:
            st.store[o.loc] = LC(None, eng.join(eng.iter_elem(st, o), args[0], st, st, st), l.roots)
        return None
    if name in ('extend',):
        eng.mutate(st, o, node, 'extend')
        it = eng.iterate(args[0], st, node)
        if l.items is not None and it is not None:
            st.store[o.loc] = LC(l.items + tuple(it), None, l.roots)
        else:
            e = eng.iter_elem(st, args[0], node)
            if l.items or l.summary is not None:
                e = eng.join(e, eng.iter_elem(st, o), st, st, st)
            st.store[o.loc] = LC(None, e, l.roots)
        return None
    if name == 'insert':
        eng.mutate(st, o, node, 'insert')
        if l.items is not None and isinstance(args[0], int):
            it = list(l.items)
            it.insert(args[0], args[1])
            st.store[o.loc] = LC(tuple(it), None, l.roots)
        else:
            st.store[o.loc] = LC(None, eng.join(eng.iter_elem(st, o), args[1], st, st, st), l.roots)
        return None
    if name == 'pop':
        eng.mutate(st, o, node, 'pop')
        i = args[0] if args else -1
        if l.items is not None and isinstance(i, int):
            it = list(l.items)
            if not it or not -len(it) <= i < len(it):
                raise AbsRaise(ExcV('builtins.IndexError'), node)
            v = it.pop(i)
            st.store[o.loc] = LC(tuple(it), None, l.roots)
            return v
        return eng.iter_elem(st, o)
    if name in ('sort', 'reverse', 'remove', 'clear', 'add', 'update', 'discard'):
        eng.mutate(st, o, node, name)
        if name == 'reverse' and l.items is not None:
            st.store[o.loc] = LC(l.items[::-1], None, l.roots)
        elif name == 'clear':
            st.store[o.loc] = LC((), None, l.roots)
        elif name == 'sort' and l.items is not None and all(isinstance(x, (int, float)) for x in l.items) and not kw:
            st.store[o.loc] = LC(tuple(sorted(l.items)), None, l.roots)
        elif name == 'add' and args:
            e = args[0] if not l.items and l.summary is None else eng.join(eng.iter_elem(st, o), args[0], st, st, st)
            st.store[o.loc] = LC(None, e, l.roots)
        else:
            st.store[o.loc] = LC(None, eng.iter_elem(st, o), l.roots, len(l.items) if l.items is not None and name == 'sort' else None)
        return None
    if name == 'copy':
        z = ListV(o.kind)
        st.store[z.loc] = LC(l.items, l.summary, frozenset(), l.n)
        return z
    if name == 'index':
        if l.items is not None and args and isinstance(args[0], (int, str)):
            if all(isinstance(x, (int, str, float)) for x in l.items):
                if args[0] in l.items:
                    return l.items.index(args[0])
                raise AbsRaise(ExcV('builtins.ValueError'), node)
        if l.items is not None and args:
            ks = [eng.ckey(x, st) for x in l.items]
            k = eng.ckey(args[0], st)
            if k is not None and all(x is not None for x in ks):
                if k in ks:
                    return ks.index(k)
                raise AbsRaise(ExcV('builtins.ValueError'), node)
        return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))
    if name == 'count':
        return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))
    if name == '__getitem__':
        return eng.getitem(o, args[0], st, node)
    if name == '__len__':
        return F['builtins.len'](eng, st, [o], {}, node)
    return Top('list method')


def dict_method(eng, st, o, name, args, kw, node):
    d = eng.lst(st, o)

    def key(k):
        return eng.mklist(st, [key(x) for x in k], 'tuple') if isinstance(k, tuple) else k
    if name in ('keys', '__iter__'):
        if d.summary is None:
            return eng.mklist(st, [key(k) for k in d.items])
        return eng.mkulist(st, Top('key'))
    if name == 'values':
        if d.summary is None:
            return eng.mklist(st, list(d.items.values()))
        r = d.summary
        for v in d.items.values():
            r = eng.join(r, v, st, st, st)
        return eng.mkulist(st, r)
    if name == 'items':
        if d.summary is None:
            return eng.mklist(st, [eng.mklist(st, [key(k), v], 'tuple') for k, v in d.items.items()])
        r = d.summary
        for v in d.items.values():
            r = eng.join(r, v, st, st, st)
        return eng.mkulist(st, eng.mklist(st, [Top('key'), r], 'tuple'))
    if name == 'get':
        k = eng.ckey(args[0], st)
        if k is not None and k[0] in d.items:
            return d.items[k[0]]
        if d.summary is None and k is not None:
            return args[1] if len(args) > 1 else None
        return Top('dict.get')
    if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
        eng.mutate(st, o, node, name)
        if name == 'update':
            items = dict(d.items)
            summ = d.summary
            if args and isinstance(args[0], DictV):
                e = eng.lst(st, args[0])
                items.update(e.items)
                summ = e.summary if summ is None else summ
            elif args:
                summ = Top('update')
            items.update(kw)
            st.store[o.loc] = DC(items, summ, d.roots)
            return None
        k = eng.ckey(args[0], st) if args else None
        if name == 'pop' and k is not None and k[0] in d.items:
            items = dict(d.items)
            v = items.pop(k[0])
            st.store[o.loc] = DC(items, d.summary, d.roots)
            return v
        if name == 'setdefault' and k is not None:
            if k[0] in d.items:
                return d.items[k[0]]
            items = dict(d.items)
            items[k[0]] = args[1] if len(args) > 1 else None
            st.store[o.loc] = DC(items, d.summary, d.roots)
            return items[k[0]]
        return Top('dict.' + name)
    if name == 'copy':
        z = DictV()
        st.store[z.loc] = DC(d.items, d.summary)
        return z
    return Top('dict method')


# ------------------------------------------------------------------------------------------------ array methods
def meth(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


for _n in ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all', 'argmax', 'argmin', 'std', 'var', 'ptp'):
    M[_n] = (lambda nm: lambda eng, st, o, a, kw, node: F['numpy.' + nm](eng, st, [o] + a, kw, node))(_n)


@meth('reshape')
def m_reshape(eng, st, o, a, kw, node):
    n = N()
    c = n.content(eng, st, o)
    v = a[0] if len(a) == 1 else (eng.mklist(st, a, 'tuple') if a else kw.get('shape'))
    new = n.shape_arg(eng, st, v)
    if c.kind == 'obj' and c.items is not None and new is not None:
        sh = n.reshape_shape(eng, st, c, new, node)
        if sh is not None and all(isinstance(d, int) for d in sh) and dims.prod(sh) == len(c.items):
            return Arr(c.rep(shape=sh))
    sh = n.reshape_shape(eng, st, c, new, node)
    if isinstance(o, Arr) and sh is not None and sh == c.shape and None not in sh:
        return o
    if sh is not None and c.shape is not None and any(n.is_batch(d) for d in c.shape):
        # merging a batch axis with others is fine only as a pure regrouping
        pass
    r = n.structural(eng, st, 'reshape', o, sh, True, (str(sh),), keep=('nonneg', 'zero'))
    if sh and c.shape and sh[-1] == c.shape[-1]:
        r.c0 = r.c0.rep(facts=r.c0.facts | frozenset(f for f in c.facts if isinstance(f, tuple) and f[0] == 'cols'))
    # a regrouping of leading axes keeps the last-axis properties
    if 'bary' in c.facts and sh and c.shape and sh[-1] == c.shape[-1]:
        r.c0 = r.c0.rep(facts=r.c0.facts | {'bary'})
    if c.items is not None and c.kind == 'nd' and sh is not None and len(sh) == 1:
        r.c0 = r.c0.rep(items=c.items)
    return r


def m_flatten(eng, st, o, a, kw, node, view=False):
    n = N()
    c = n.content(eng, st, o)
    if c.kind == 'obj' and c.items is not None:
        return Arr(c.rep(shape=(len(c.items),), roots=c.roots if view else frozenset()))
    d = dims.prod(c.shape) if c.shape is not None else None
    if c.shape is not None and len(c.shape) == 1 and isinstance(o, Arr):
        if view:
            return o
        return Arr(c.rep(roots=frozenset()))
    return n.structural(eng, st, 'flatten', o, (d,), view, (), keep=('nonneg', 'zero'))


M['flatten'] = m_flatten
M['ravel'] = lambda eng, st, o, a, kw, node: m_flatten(eng, st, o, a, kw, node, True)


@meth('transpose')
def m_transpose(eng, st, o, a, kw, node):
    ax = None
    if len(a) == 1:
        ax = seq_items(eng, st, a[0])
    elif len(a) > 1:
        ax = a
    return N().transpose(eng, st, o, ax, node)


M['swapaxes'] = lambda eng, st, o, a, kw, node: _swapaxes(eng, st, [o] + a, kw, node)
M['squeeze'] = lambda eng, st, o, a, kw, node: _squeeze(eng, st, [o] + a, kw, node)
M['__getitem__'] = lambda eng, st, o, a, kw, node: eng.getitem(o, a[0], st, node)
M['take'] = lambda eng, st, o, a, kw, node: _take(eng, st, [o] + a, kw, node)
M['repeat'] = lambda eng, st, o, a, kw, node: _repeat(eng, st, [o] + a, kw, node)
M['clip'] = lambda eng, st, o, a, kw, node: _clip(eng, st, [o] + a, kw, node)
M['cumsum'] = lambda eng, st, o, a, kw, node: _cumsum(eng, st, [o] + a, kw, node)
M['argsort'] = lambda eng, st, o, a, kw, node: F['numpy.argsort'](eng, st, [o] + a, kw, node)
M['nonzero'] = lambda eng, st, o, a, kw, node: _where(eng, st, [o], kw, node)
M['round'] = lambda eng, st, o, a, kw, node: F['numpy.round'](eng, st, [o] + a, kw, node)
M['trace'] = lambda eng, st, o, a, kw, node: _trace(eng, st, [o], kw, node)


@meth('dot')
def m_dot(eng, st, o, a, kw, node):
    n = N()
    x, y = n.content(eng, st, o), n.content(eng, st, a[0])
    if y.shape == () or x.shape == ():
        return n.binop(eng, st, 'Mult', o, a[0], node)
    return dot_content(eng, st, x, y, node)


@meth('multiply')
def m_multiply(eng, st, o, a, kw, node):
    n = N()
    x, y = n.content(eng, st, o), n.content(eng, st, a[0])
    c = n.arith(eng, st, 'Mult', x.rep(kind='nd'), y.rep(kind='nd'), node)
    return Arr(c.rep(kind=x.kind))


@meth('astype')
def m_astype(eng, st, o, a, kw, node):
    n = N()
    c = n.content(eng, st, o)
    v = a[0] if a else kw.get('dtype')
    dt = n.canon_dtype(eng, st, v)
    if c.dtype in ('float', 'float32') and dt in n.INTS and dt != 'bool':
        eng.event('float-to-int', node, 'astype(%s) of a float array' % dt)
    if c.dtype in ('int', 'index') and dt in ('sign', 'uint8', 'int16', 'uint16', 'float16') and n.into_of(c) is not None:
        eng.event('narrow-cast', node, 'astype(%s) of a %s array' % (dt, c.dtype))
    keep = kw.get('copy') is False
    f = c.facts - frozenset(['pyscalar'])
    lossy = dt in n.INTS and c.dtype not in n.INTS
    return Arr(c.rep(dtype=dt, roots=c.roots if keep else frozenset(), facts=f, items=c.items if not lossy else None,
                     lin=n.lin_non(c.lin) if lossy and c.dtype in ('float', 'float32') else c.lin))


@meth('copy', '__copy__')
def m_copy(eng, st, o, a, kw, node):
    return N().arr_copy(eng, st, o)


@meth('fill')
def m_fill(eng, st, o, a, kw, node):
    n = N()
    eng.mutate(st, o, node, 'fill')
    c, v = eng.content(o, st), n.content(eng, st, a[0])
    if c.dtype in n.INTS and v.dtype in ('float', 'float32'):
        eng.event('int-truncation', node, 'float fill of an integer array', roots=c.roots)
    eng.write_arr(st, o, v.rep(shape=c.shape, dtype=c.dtype, term=TERMS.mk('full', str(c.shape), v.term), facts=(v.facts - frozenset(['pyscalar'])) | n.fill_fact(v), items=None), strong=True)
    if fold.REAL and isinstance(a[0], (int, float)) and c.shape is not None and all(isinstance(d, int) for d in c.shape) and dims.prod(c.shape) <= fold.LIMIT:
        x = float(a[0]) if 'float' in str(c.dtype) else a[0] if isinstance(a[0], int) else None
        if x is not None:
            nc = eng.content(o, st)
            eng.write_arr(st, o, nc.rep(items=(int(x) if isinstance(x, bool) else x,) * dims.prod(c.shape)), strong=True)
    return None


@meth('sort', 'partition')
def m_sort(eng, st, o, a, kw, node):
    eng.mutate(st, o, node, 'sort')
    c = eng.content(o, st)
    ax = kw.get('axis', a[0] if a else -1)
    its = None
    if fold.is_const(c) and isinstance(ax, int) and not any(isinstance(x, Poly) for x in c.items) and -len(c.shape) <= ax < len(c.shape):
        its = tuple(fold.plain(x) for x in fold.np.sort(fold.to_np(c), axis=ax).ravel())
    eng.write_arr(st, o, c.rep(lin=N().lin_non(c.lin), term=TERMS.mk('sort', c.term, ax if isinstance(ax, int) else '?'), items=its), strong=True)
    return None


@meth('resize', 'put', 'itemset', 'setflags', 'byteswap', 'setdiag', 'eliminate_zeros', 'sum_duplicates', 'sort_indices', 'prune')
def m_inplace(eng, st, o, a, kw, node):
    if kw.get('write') is False or (node is not None and getattr(node.func, 'attr', '') in ('eliminate_zeros', 'sum_duplicates', 'sort_indices', 'prune', 'setflags')):
        # canonicalisation of the storage: does not change the matrix that is represented
        return None
    overwritten(eng, st, o, 'in-place method', list(a), node)
    return None


def overwritten(eng, st, o, how, vals, node, linear=False):
    """some elements of o are replaced by (or accumulate) the last of vals"""
    eng.mutate(st, o, node, how)
    if not isinstance(o, Arr):
        return
    n = N()
    c = eng.content(o, st)
    cs = [n.content(eng, st, v) for v in vals if isinstance(v, (Arr, int, float, bool, Poly))]
    v = cs[-1] if cs else C()
    eng.inplace_checks(st, o, v, node)
    lin = n.lin_join(c.lin, v.lin)
    for x in cs[:-1]:
        if x.lin is None:
            lin = None
        elif x.lin:
            lin = n.lin_non(n.lin_join(lin, x.lin)) if lin is not None else None
    if not linear:
        lin = n.lin_non(lin)
    c = c.rep(deg=join_deg(c.deg, v.deg), tr=c.tr if c.tr == v.tr else None, lin=lin, items=None, facts=frozenset(),
              taint=n.taints([c] + cs), term=TERMS.mk(how, c.term, *[x.term for x in cs]))
    eng.write_arr(st, o, c, strong=True)


def ufunc_at(name):
    def f(eng, st, a, kw, node):
        overwritten(eng, st, a[0], '%s.at' % name, a[1:], node, linear=name in ('add', 'subtract'))
        return None
    return f


for _u in ('add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'logical_or', 'logical_and', 'bitwise_or', 'bitwise_and', 'power', 'floor_divide', 'mod', 'bitwise_xor', 'logical_xor', 'negative'):
    F['numpy.%s.at' % _u] = ufunc_at(_u)
@reg('numpy.copyto')
def _copyto(eng, st, a, kw, node):
    if kw.get('where', True) is True and len(a) >= 2:
        eng.setitem(a[0], Ellipsis, a[1], st, node)
    else:
        overwritten(eng, st, a[0], 'copyto', list(a[1:]), node, linear=True)


for _u in ('put', 'place', 'putmask', 'put_along_axis', 'fill_diagonal'):
    F['numpy.' + _u] = (lambda _u: lambda eng, st, a, kw, node: overwritten(eng, st, a[0], _u, a[1:], node, linear=True))(_u)


@meth('tolist')
def m_tolist(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    if c.items is not None:
        if fold.is_const(c) and len(c.shape) > 1:
            def nest(its, sh):
                if len(sh) == 1:
                    return eng.mklist(st, its)
                k = len(its) // sh[0] if sh[0] else 0
                return eng.mklist(st, [nest(its[i * k:i * k + k], sh[1:]) for i in range(sh[0])])
            return nest(c.items, c.shape)
        if fold.is_const(c) and c.shape == ():
            return c.items[0]
        return eng.mklist(st, c.items)
    n = N()
    if c.shape is not None and len(c.shape) >= 1:
        def build(sh):
            if len(sh) == 1:
                e = Arr(c.rep(shape=(), roots=frozenset(), items=None, term=TERMS.mk('elem', c.term)))
            else:
                e = build(sh[1:])
            if isinstance(sh[0], int) and sh[0] <= 64:
                return eng.mklist(st, [e] * sh[0])
            return eng.mkulist(st, e, n=sh[0])
        return build(c.shape)
    return Top('tolist', taint=c.taint)


@meth('item')
def m_item(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    return Arr(c.rep(shape=(), roots=frozenset(), items=None, term=TERMS.mk('item', c.term)))


@meth('tofile', 'dump', 'tobytes', 'tostring')
def m_tofile(eng, st, o, a, kw, node):
    eng.event('io-call', node, 'array method writing bytes')
    return None


@meth('view')
def m_view(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    return Arr(c.rep(dtype=N().canon_dtype(eng, st, a[0]) if a else c.dtype, term=TERMS.mk('view', c.term), items=None), (o,))


def conv(name):
    def f(eng, st, o, a, kw, node):
        c = eng.content(o, st)
        return Arr(c.rep(kind='sp'), (o,))
    return f


for _n in ('tocsr', 'tocsc', 'tocoo', 'tolil', 'todok', 'todia', 'tobsr', 'asformat'):
    M[_n] = conv(_n)


@meth('todense', 'toarray')
def m_todense(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    return Arr(c.rep(kind='nd', roots=frozenset()))


@meth('diagonal')
def m_diagonal(eng, st, o, a, kw, node):
    n = N()
    c = eng.content(o, st)
    k = TERMS.get(c.term)
    t = k[1] if k[0] == 'diag' else TERMS.mk('diagonal', c.term)
    return Arr(c.rep(kind='nd', shape=(c.shape[0],) if c.shape else None, roots=frozenset(), items=None, term=t, facts=c.facts & frozenset(['nonneg', 'zero'])))


@meth('getnnz', 'count_nonzero')
def m_getnnz(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    ax = kw.get('axis', a[0] if a else None)
    sh = ()
    if ax in (0, 1, -1, -2) and ax is not None and c.shape is not None and len(c.shape) == 2:
        sh = (c.shape[1 - (ax % 2)],)
    return Arr(C(shape=sh, dtype='index', deg=0, tr=0, lin=(), taint=c.taint, facts=frozenset(['nonneg']), term=TERMS.mk('getnnz', c.term, ax if isinstance(ax, int) else '?')))


@meth('getrow', 'getcol')
def m_getrow(eng, st, o, a, kw, node):
    c = eng.content(o, st)
    return Arr(c.rep(shape=None, roots=frozenset(), items=None, term=TERMS.fresh('row')))


@meth('power', 'sqrt')
def m_power(eng, st, o, a, kw, node):
    return N().top_arr(eng, st, [o])


@meth('conj', 'conjugate')
def m_conj(eng, st, o, a, kw, node):
    return o


@reg('funcsigs.signature', 'inspect.signature')
def _signature(eng, st, a, kw, node):
    f = a[0]
    skip = 0
    if isinstance(f, ClassV):
        f, _ = f.lookup('__init__')
        skip = 1
    if isinstance(f, BoundV):
        f, skip = f.func, 1
    if not isinstance(f, FuncV):
        return Top('signature')
    ar = f.node.args
    names = [x.arg for x in (getattr(ar, 'posonlyargs', []) + ar.args)[skip:]]
    if ar.vararg:
        names.append(ar.vararg.arg)
    names += [x.arg for x in ar.kwonlyargs]
    if ar.kwarg:
        names.append(ar.kwarg.arg)
    return ExtObj('signature', names)


MORE = set(F)
from . import extmore    # noqa  (registers further models)
MORE = set(F) - MORE
