"""Rules decided by constant propagation over finite tables.

Some parts of the library are tables in disguise: their result is a fixed arrangement of the columns of
their input, the same for every row (every element of a mesh).  The analysis propagates constants (the
corner positions of a canonical element) through the source of those functions and compares the resulting
table with its mathematical definition.  The rows of real meshes do not interact in these functions, so the
table decides the property for all meshes; where a pair of elements interacts (a shared face), the template
has two elements.  A table that cannot be derived from the source is counted as undecided and never reported."""
import ast
import itertools
from fractions import Fraction
from . import scenarios, sweep, fold, interp
from .sig import sig
from .values import Arr, C, AbsRaise, ListV
import numpy as np


# ------------------------------------------------------------------------------------------------ mathematics
def parity(p):
    """parity of the permutation that sorts the sequence p"""
    p = list(p)
    return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2


def relative_parity(a, b):
    """parity of the permutation between two arrangements of the same labels, or None"""
    if sorted(a) != sorted(b):
        return None
    return parity([list(b).index(x) for x in a])


def cube_parity(a, b):
    """parity (of the determinant) of the cube symmetry that takes arrangement b to arrangement a, or None"""
    a, b = np.asarray(a), np.asarray(b)
    d = a.ndim
    if a.shape != b.shape or sorted(a.ravel().tolist()) != sorted(b.ravel().tolist()):
        return None
    at = {int(x): np.array(i) for i, x in np.ndenumerate(b)}
    if len(at) != a.size:
        return None
    o = at[int(a[(0,) * d])]
    cols = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        cols.append(at[int(a[tuple(e)])] - o)
    M = np.array(cols).T if d else np.zeros((0, 0), int)
    for i, x in np.ndenumerate(a):
        if list(at[int(x)]) != list(o + (M.dot(np.array(i)) if d else 0)):
            return None
    return 0 if d == 0 or det(M.tolist()) > 0 else 1


def det(M):
    M = [[Fraction(x) for x in r] for r in M]
    n = len(M)
    s = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            s = -s
        s *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return s


# ------------------------------------------------------------------------------------------------ templates
class Template(object):
    """All sub-elements of a few oriented top elements, in the conventions of the library's constructors."""

    def __init__(self, kind, tops, pos):
        self.kind = kind
        self.tops = [np.asarray(t) for t in tops]
        self.n = n = self.tops[0].ndim if kind == 'cubical' else len(self.tops[0]) - 1
        self.pos = [tuple(Fraction(x) for x in p) for p in pos]
        E = [None] * (n + 1)
        E[n] = self.tops
        B, O = [None] * n, [None] * n
        for k in range(n, 0, -1):
            bs, os, low, index = [], [], [], {}
            for e in E[k]:
                fs = self.faces(e)
                b, o = [], []
                for f in fs:
                    key = frozenset(f.ravel().tolist())
                    if k == 1:
                        b.append(int(f.ravel()[0]))
                        continue
                    if key not in index:
                        index[key] = len(low)
                        low.append(f)
                    b.append(index[key])
                    o.append(-1 if self.rel(f, low[index[key]]) == 0 else 1)
                if k == 1:
                    # edges list their end points in order
                    b = [int(x) for x in e.ravel()]
                    o = [-1, 1]
                bs.append(b)
                os.append(o)
            if k == 1:
                low = [np.array(i) if kind == 'cubical' else np.array([i]) for i in range(len(self.pos))]
            E[k - 1] = low
            sh = (len(E[k]), k, 2) if kind == 'cubical' else (len(E[k]), k + 1)
            B[k - 1] = np.array(bs).reshape(sh)
            O[k - 1] = np.array(os).reshape(sh)
        self.E, self.B, self.O = [np.array(e) for e in E], B, O
        self.corners = [[tuple(x.ravel().tolist()) for x in e] for e in self.E]

    def rel(self, a, b):
        return relative_parity(a.tolist(), b.tolist()) if self.kind == 'simplicial' else cube_parity(a, b)

    def faces(self, e):
        """oriented boundary of one element (in the column order of the incidence arrays)"""
        if self.kind == 'simplicial':
            out = []
            for c in range(len(e)):
                f = [x for i, x in enumerate(e.tolist()) if i != c]
                if c % 2 and len(f) > 1:
                    f[0], f[1] = f[1], f[0]
                out.append(np.array(f))
            return out
        out = []
        for ax in range(e.ndim):
            for s in (0, 1):
                f = np.take(e, s, axis=ax)
                if (ax + s) % 2 and f.ndim:
                    f = np.flip(f, axis=-1)
                out.append(f)
        return out

    def center(self, k, i):
        c = self.corners[k][i]
        return tuple(sum(self.pos[j][d] for j in c) / len(c) for d in range(len(self.pos[0])))

    def support(self, k, i):
        return frozenset(self.corners[k][i])


def simplicial(n, two=True):
    pos = [tuple(0 for _ in range(n))] + [tuple(int(i == j) for j in range(n)) for i in range(n)]
    tops = [list(range(n + 1))]
    if two:
        # a second simplex on the other side of the face opposite of vertex 0, oriented likewise
        pos.append(tuple(1 for _ in range(n)) if n > 1 else (2,))
        t = [n + 1] + list(range(1, n + 1))
        t[0], t[1] = t[1], t[0]
        if n == 1:
            t = [1, 2]
        tops.append(t)
    return Template('simplicial', tops, pos)


def cubical(n, two=True):
    m = [3 if two and i == 0 else 2 for i in range(n)]
    ids = np.arange(int(np.prod(m))).reshape(m)
    pos = [i for i, _ in np.ndenumerate(ids)]
    tops = [ids[tuple(slice(a, a + 2) if i == 0 else slice(0, 2) for i in range(n))] for a in range(m[0] - 1)]
    return Template('cubical', tops, pos)


# ------------------------------------------------------------------------------------------------ propagation
class Undecided(Exception):
    pass


class Unset(Exception):
    """a definite read of memory that was allocated but never written"""


class Prop(object):
    """runs the constant propagation"""

    def __init__(self, repo, extra=None):
        self.eng = sweep.load(repo, extra) if extra else sweep.load(repo)
        self.w = scenarios.W(self.eng)
        self.base = self.w.st
        self.calls = set()

    def const(self, a, dtype='index'):
        a = np.asarray(a)
        return Arr(C(shape=a.shape, dtype=dtype, deg=0, tr=0, lin=(), items=tuple(int(x) for x in a.ravel())))

    def topology(self, t, cls=None):
        cls = cls or ('topology.simplicial.' + ('TopologyTriangular' if t.n == 2 else 'TopologySimplicial') if t.kind == 'simplicial'
                      else 'topology.cubical.' + ('TopologyCubical2' if t.n == 2 else 'TopologyCubical'))
        w = self.w
        return w.make(cls, elements=w.lst([self.const(e) for e in t.E]), boundary=w.lst([self.const(b) for b in t.B]),
                      orientation=w.lst([self.const(o, 'sign') for o in t.O]))

    def run(self, f):
        """the (abstract) value of f(w); Undecided if the analysis cannot follow"""
        self.w.st = self.base.fork()
        self.eng.reset_events()
        self.eng.called = set()
        self.eng.steps = 0
        limit, fold.LIMIT = fold.LIMIT, 6000
        try:
            return f(self.w)
        except AbsRaise as e:
            if fold.REAL and (isinstance(e.node, (ast.Raise, ast.Assert)) or getattr(e, 'definite', False)):
                # every path ends in an explicit raise or failing assert, decided by constants
                raise Unset('raises %s at %s:%s' % (e, getattr(getattr(e.node, '_mod', None), 'name', '?'), getattr(e.node, 'lineno', '?')))
            raise Undecided(repr(e)[:100])
        except (scenarios.Missing, interp.Budget, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            raise Undecided(repr(e)[:100])
        finally:
            fold.LIMIT = limit
            self.calls |= set(self.eng.called)

    def value(self, v):
        """plain constants of an abstract value"""
        limit, fold.LIMIT = fold.LIMIT, 6000
        try:
            return self._value(v)
        finally:
            fold.LIMIT = limit

    def _value(self, v):
        eng, st = self.eng, self.w.st
        if isinstance(v, Arr):
            c = eng.content(v, st)
            if c.kind == 'obj' and c.items is not None:
                return [self._value(x) for x in c.items]
            if not fold.is_const(c) or any(not isinstance(x, (int, float)) for x in c.items):
                raise Undecided('not a constant')
            a = np.array([x for x in c.items])
            if a.dtype.kind == 'f':
                if (a != np.round(a)).any():
                    return a.reshape(c.shape)
                a = a.astype(np.int64)
            return a.reshape(c.shape)
        if isinstance(v, ListV):
            l = eng.lst(st, v)
            if l.items is None:
                raise Undecided('list of unknown length')
            return [self._value(x) for x in l.items]
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        raise Undecided('unknown value')

    def table(self, f):
        return self.value(self.run(f))

    def item(self, w, o, name, i=None):
        v = w.get(o, name)
        return v if i is None else self.eng.getitem(v, i, w.st, None)


class Report(object):
    def __init__(self):
        self.bad, self.ok, self.undecided = [], [], []

    def check(self, name, where, thunk):
        """thunk returns None (the table is right) or a message"""
        try:
            m = thunk()
        except Undecided as e:
            self.undecided.append('%s (%s)' % (name, e))
            return
        except Unset as e:
            m = str(e)
        if m is None:
            self.ok.append(name)
        else:
            self.bad.append((name, where, m))


def findings(prop, rule, rep):
    from .checks import Finding
    return [Finding(prop, rule, where, name, m) for name, where, m in rep.bad]
