"""Abstract values of the interpreter."""
import itertools

ANY = 'any'         # degree / weight of an identically zero (or not yet written) quantity
_ctr = itertools.count(1)


def newloc(prefix='o'):
    return '%s%d' % (prefix, next(_ctr))


class Terms(object):
    """hash-consed symbolic expressions (global value numbering)"""
    def __init__(self):
        self.ids = {}
        self.rev = {}

    def mk(self, op, *args):
        k = (op,) + args
        i = self.ids.get(k)
        if i is None:
            i = len(self.ids) + 1
            self.ids[k] = i
            self.rev[i] = k
        return T(i)

    def fresh(self, label='?'):
        return self.mk('fresh', label, next(_ctr))

    def get(self, t):
        return self.rev[t.i]


class T(object):
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash(('T', self.i))

    def __eq__(self, o):
        return isinstance(o, T) and o.i == self.i

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 't%d' % self.i


TERMS = Terms()


def show(t, depth=4):
    if isinstance(t, T):
        k = TERMS.get(t)
        if depth == 0:
            return '..'
        if k[0] == 'sym':
            return str(k[1])
        if k[0] == 'fresh':
            return '?%s%d' % (k[1], k[2])
        return '%s(%s)' % (k[0], ', '.join(show(a, depth - 1) for a in k[1:]))
    return str(t)


class C(object):
    """content of an abstract array"""
    __slots__ = ('shape', 'dtype', 'deg', 'tr', 'lin', 'term', 'taint', 'roots', 'kind', 'facts', 'items')
    DEFAULT = dict(shape=None, dtype=None, deg=None, tr=None, lin=None, term=None,
                   taint=frozenset(), roots=frozenset(), kind='nd', facts=frozenset(), items=None)

    def __init__(self, **kw):
        for k, v in self.DEFAULT.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw
        if self.term is None:
            self.term = TERMS.fresh('v')

    def rep(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return C(**d)

    def __repr__(self):
        return 'C(shape=%s, dtype=%s, deg=%s, tr=%s, lin=%s, kind=%s, facts=%s, roots=%s, taint=%s)' % (
            self.shape, self.dtype, self.deg, self.tr, self.lin, self.kind, sorted(map(str, self.facts)), sorted(self.roots), sorted(self.taint))


def join_deg(a, b):
    if a == b:
        return a
    if a == ANY:
        return b
    if b == ANY:
        return a
    return None


_LO = {'0': 0, 'L': 1, 'A': 2, 'N': 3}


def lin_max(a, b):
    return a if _LO[a] >= _LO[b] else b


def lin_join(a, b):
    """join of two alternatives / componentwise combination"""
    if a is None or b is None:
        return None
    d = dict(a)
    e = dict(b)
    r = {}
    for k in set(d) | set(e):
        x, y = d.get(k, '0'), e.get(k, '0')
        if x != y and '0' in (x, y) and 'L' in (x, y):
            # an entry that does not depend on the input next to a linear one: affine,
            # unless the independent part is identically zero (handled by caller)
            r[k] = 'A'
        else:
            r[k] = lin_max(x, y)
    return tuple(sorted(r.items()))


def taint_join(a, b):
    """alternatives: values that were never assigned count only if they were not assigned in either"""
    t = a | b
    return t - frozenset(['uninit']) if 'uninit' in t and not ('uninit' in a and 'uninit' in b) else t


def join_c(a, b):
    if a is b:
        return a
    shape = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        shape = tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
    if ('zero' in a.facts) != ('zero' in b.facts):
        lin = b.lin if 'zero' in a.facts else a.lin
    else:
        lin = lin_join(a.lin, b.lin)
    return C(shape=shape, dtype=a.dtype if a.dtype == b.dtype else None,
             deg=join_deg(a.deg, b.deg), tr=join_deg(a.tr, b.tr), lin=lin,
             term=a.term if a.term == b.term else TERMS.mk('phi', *sorted((a.term, b.term), key=lambda t: t.i)),
             taint=taint_join(a.taint, b.taint), roots=a.roots | b.roots,
             kind=a.kind if a.kind == b.kind else 'nd', facts=a.facts & b.facts,
             items=a.items if a.items == b.items else None)


class Arr(object):
    """an array, sparse matrix, or scalar with unknown value"""
    __slots__ = ('loc', 'c0', 'parents')

    def __init__(self, c, parents=(), loc=None):
        self.c0 = c
        self.loc = loc or newloc('a')
        self.parents = tuple(parents)


class ListV(object):
    __slots__ = ('loc', 'kind')

    def __init__(self, kind='list', loc=None):
        self.loc = loc or newloc('l')
        self.kind = kind


class LC(object):
    """list content: items (tuple) if the length is known, else a summary element; n: symbolic length"""
    __slots__ = ('items', 'summary', 'roots', 'n', 'term')

    def __init__(self, items=None, summary=None, roots=frozenset(), n=None, term=None):
        self.items, self.summary, self.roots, self.n = items, summary, roots, n
        self.term = term


class DictV(object):
    __slots__ = ('loc',)

    def __init__(self, loc=None):
        self.loc = loc or newloc('d')


class DC(object):
    __slots__ = ('items', 'summary', 'roots')

    def __init__(self, items=None, summary=None, roots=frozenset()):
        self.items, self.summary, self.roots = dict(items or {}), summary, roots


class Inst(object):
    __slots__ = ('loc', 'cls')

    def __init__(self, cls, loc=None):
        self.cls = cls
        self.loc = loc or newloc('i')

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.loc)


class IC(object):
    """instance content; fresh: created during this run; open: may have further unknown attributes"""
    __slots__ = ('attrs', 'label', 'open', 'computed')

    def __init__(self, attrs=None, label=None, open=False, computed=frozenset()):
        self.attrs, self.label, self.open = dict(attrs or {}), label, open
        self.computed = computed


class Range(object):
    """range with symbolic bounds"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class SliceV(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FuncV(object):
    __slots__ = ('node', 'mod', 'scopes', 'cls', 'defaults', 'kwdefaults', 'name', 'abstract', 'cached', 'qual')

    def __init__(self, node, mod, scopes, defaults, kwdefaults, name, qual):
        self.node, self.mod, self.scopes = node, mod, scopes
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.cls, self.abstract, self.cached, self.qual = None, False, False, qual

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundV(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Prop(object):
    __slots__ = ('func', 'cached', 'setter')

    def __init__(self, func, cached=False, setter=None):
        self.func, self.cached, self.setter = func, cached, setter


class StaticM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class ClassM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class ClassV(object):
    def __init__(self, name, node, mod, bases):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases
        self.ns = {}
        self.scope = None
        self.mro = None
        self.qual = '%s.%s' % (mod.name, name) if mod else name

    def __repr__(self):
        return '<class %s>' % self.name

    def lookup(self, name):
        for k in self.mro:
            if isinstance(k, ClassV) and name in k.ns:
                return k.ns[name], k
        return None, None

    def has_ext_base(self):
        return any(isinstance(k, Ext) and k.path not in ('builtins.object',) for k in self.mro)

    def is_sub(self, other):
        return any(k is other or (isinstance(k, Ext) and isinstance(other, Ext) and k.path == other.path) for k in self.mro)


class ModV(object):
    def __init__(self, name, module=None, scope=None):
        self.name, self.module, self.scope = name, module, scope


class Ext(object):
    """something outside the repository, by dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.path)


class ExtM(object):
    """bound method/attribute of a built-in abstract object"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExtObj(object):
    """instance of an external type, e.g. npi.GroupBy, cKDTree, LinearOperator"""
    __slots__ = ('type', 'args', 'kw', 'taint')

    def __init__(self, type, args=(), kw=None, taint=frozenset()):
        self.type, self.args, self.kw = type, tuple(args), dict(kw or {})
        self.taint = taint


class Partial(object):
    __slots__ = ('fn', 'name')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Top(object):
    __slots__ = ('roots', 'taint', 'why')

    def __init__(self, why='', roots=frozenset(), taint=frozenset()):
        self.why, self.roots, self.taint = why, roots, taint

    def __repr__(self):
        return 'Top(%s)' % self.why


class Union(object):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Union(%s)' % (', '.join(map(repr, self.alts)))


class Unbound(object):
    """variable not assigned on some path"""
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = Unbound()


class ExcV(object):
    __slots__ = ('path', 'args')

    def __init__(self, path, args=()):
        self.path, self.args = path, args


class AbsRaise(Exception):
    """the abstract program definitely raises here"""
    def __init__(self, exc, node=None, internal=False):
        Exception.__init__(self, str(getattr(exc, 'path', exc)))
        self.exc, self.node, self.internal = exc, node, internal


class State(object):
    __slots__ = ('store', 'flags')

    def __init__(self, store=None, flags=frozenset()):
        self.store = store if store is not None else {}
        self.flags = flags

    def fork(self):
        return State(dict(self.store), self.flags)
