"""C13, C18: averaging operators; boundaries, selections and components (constant propagation over small meshes).

The topologies of a few small meshes (pairs, fans, grids, closed surfaces, disjoint and pinched meshes) are propagated
as constants through the constructors and through the operation; the resulting tables are compared with their
definition in terms of the vertex sets of the elements."""
import itertools
import numpy as np
from . import fold
from .grid import LinProp
from .templates import Report, Undecided, Template, simplicial, cubical
from .values import Arr, ListV, Inst, IC, Ext
from .linear import Lin

TB, TP, TD = 'topology.base.BaseTopology.', 'topology.primal.PrimalTopology.', 'topology.dual.Dual.'
CB = 'complex.base.BaseComplex.'


# ------------------------------------------------------------------------------------------------ meshes
class Mesh(object):
    def __init__(self, name, kind, tops, oriented=True):
        self.name, self.kind = name, kind
        self.tops = np.asarray(tops)
        self.n = self.tops[0].ndim if kind == 'cubical' else self.tops.shape[1] - 1
        self.oriented = oriented
        d = {'simplicial': {2: 'TopologyTriangular'}, 'cubical': {2: 'TopologyCubical2'}}[kind]
        self.cls = 'topology.%s.%s' % (kind, d.get(self.n, 'TopologySimplicial' if kind == 'simplicial' else 'TopologyCubical'))
        # vertex sets of the elements of every dimension
        self.top = [frozenset(int(v) for v in t.ravel()) for t in self.tops]
        self.sets = [set() for _ in range(self.n + 1)]
        for t in self.tops:
            for k in range(self.n + 1):
                self.sets[k] |= set(subsets(kind, t, k))
        self.nv = len(self.sets[0])

    def faces_of(self, i):
        return set(subsets(self.kind, self.tops[i], self.n - 1))

    def bounding(self):
        """faces of exactly one top element"""
        c = {}
        for i in range(len(self.tops)):
            for f in self.faces_of(i):
                c[f] = c.get(f, 0) + 1
        return {f for f, k in c.items() if k == 1}

    def components(self, among=None, within=None):
        """sets of top elements connected by shared faces"""
        left = list(range(len(self.tops))) if among is None else list(among)
        out = []
        while left:
            comp, todo = set(), [left[0]]
            while todo:
                i = todo.pop()
                if i in comp:
                    continue
                comp.add(i)
                todo += [j for j in left if j not in comp and any(within is None or within <= f for f in self.faces_of(i) & self.faces_of(j))]
            out.append(frozenset(comp))
            left = [i for i in left if i not in comp]
        return out

    def build(self, P, w, tops=None):
        return w.meth(w.klass(self.cls), 'from_elements', P.const(self.tops if tops is None else tops))


def subsets(kind, t, k):
    if kind == 'simplicial':
        return [frozenset(int(x) for x in s) for s in itertools.combinations(t.ravel().tolist(), k + 1)]
    out = []
    for free in itertools.combinations(range(t.ndim), k):
        for fix in itertools.product((0, 1), repeat=t.ndim - k):
            it = iter(fix)
            out.append(frozenset(int(x) for x in np.ravel(t[tuple(slice(None) if a in free else next(it) for a in range(t.ndim))])))
    return out


def closed(kind, n):
    """surface of one element of dimension n+1"""
    T = simplicial(n + 1, False) if kind == 'simplicial' else cubical(n + 1, False)
    fs = T.faces(T.tops[0])
    if kind == 'simplicial' or n > 1:
        return np.array(fs)
    return np.array(fs)


def gridmesh(n, m):
    ids = np.arange(int(np.prod([k + 1 for k in m]))).reshape([k + 1 for k in m])
    return np.array([ids[tuple(slice(a, a + 2) for a in i)] for i in np.ndindex(*m)])


def relabel(tops, seed):
    """another numbering of the vertices and order of the elements"""
    tops = np.asarray(tops)
    rng = np.random.RandomState(seed)
    p = rng.permutation(int(tops.max()) + 1)
    return p[tops][rng.permutation(len(tops))]


def apart(tops, seed):
    """another numbering of the vertices; elements next to one another are apart in the list"""
    tops = np.asarray(tops)
    p = np.random.RandomState(seed).permutation(int(tops.max()) + 1)
    return p[np.concatenate([tops[::2], tops[1::2]])]


def flip(kind, t):
    t = np.array(t)
    if kind == 'simplicial':
        t[[0, 1]] = t[[1, 0]]
        return t
    return t[::-1]


def meshes(tier):
    S, C = 'simplicial', 'cubical'
    out = [Mesh('path', S, [[0, 1], [1, 2], [2, 3]]), Mesh('loop', S, [[0, 1], [1, 2], [2, 0]]), Mesh('two paths', S, [[3, 4], [0, 1], [1, 2]])]
    out += [Mesh('pair', S, simplicial(n).tops) for n in (2, 3)]
    out += [Mesh('surface', S, closed(S, n)) for n in (2, 3)]
    fan = np.array([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]])
    strip = np.array([[0, 1, 2], [2, 1, 3], [2, 3, 4], [4, 3, 5]])
    out += [Mesh('fan', S, relabel(fan, 1)), Mesh('strip', S, relabel(strip, 2)), Mesh('bow tie', S, [[0, 1, 2], [2, 3, 4]]),
            Mesh('two pieces', S, relabel([[0, 1, 2], [2, 1, 3], [4, 5, 6], [6, 5, 7], [6, 7, 8]], 3)),
            Mesh('wheel', S, apart([[0, 1 + i, 1 + (i + 1) % 9] for i in range(9)], 7)),
            Mesh('surface and strip', S, relabel(np.concatenate([closed(S, 2), [[4, 5, 6], [6, 5, 7], [6, 7, 8]]]), 8))]
    out += [Mesh('path', C, [[0, 1], [1, 2], [2, 3]]), Mesh('loop', C, [[0, 1], [1, 2], [2, 3], [3, 0]])]
    out += [Mesh('pair', C, cubical(n).tops) for n in (2, 3)]
    out += [Mesh('grid', C, relabel(gridmesh(2, (3, 3)), 4)), Mesh('surface', C, relabel(closed(C, 2), 5)),
            Mesh('two pieces', C, relabel(np.concatenate([gridmesh(2, (2, 1)), gridmesh(2, (3, 1)) + 6]), 6)),
            Mesh('bow tie', C, [[[0, 1], [2, 3]], [[3, 4], [5, 6]]])]
    if tier == 'thorough':
        out += [Mesh('row', C, gridmesh(3, (3, 1, 1))), Mesh('block', C, gridmesh(3, (2, 2, 1)))]
    return out


# ------------------------------------------------------------------------------------------------ values
def plain(P, v):
    """python value of an abstract value (arrays and sparse matrices become numpy arrays)"""
    if isinstance(v, Arr):
        c = P.eng.content(v, P.w.st)
        if c.kind == 'obj' and c.items is not None:
            return [plain(P, x) for x in c.items]
        return P.numbers(v)
    if isinstance(v, ListV):
        its = P.eng.lst(P.w.st, v).items
        if its is None:
            raise Undecided('list of unknown length')
        return [plain(P, x) for x in its]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Undecided('unknown value')


def instance(v, P):
    if v is not None and not isinstance(v, Inst):
        raise Undecided('not an object')
    return v


class Table(object):
    """the derived tables of one mesh"""

    def __init__(self, P, M):
        self.P, self.M = P, M

    def get(self, f):
        P = self.P
        v = P.run(f)
        real, fold.REAL = fold.REAL, True
        try:
            return plain(P, v)
        finally:
            fold.REAL = real

    def top(self, w, tops=None):
        return self.M.build(self.P, w, tops)

    def path(self, *names):
        return lambda w: chain(self.P, w, self.top(w), names)


def chain(P, w, o, names):
    for a in names:
        if isinstance(a, tuple):
            o = w.meth(o, a[0], *[x(w) if callable(x) else x for x in a[1:]])
        elif isinstance(a, int):
            o = P.eng.getitem(o, a, w.st, None)
        else:
            o = w.get(o, a)
    return o


def sets(c):
    return [frozenset(int(x) for x in r.ravel()) for r in c]


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s has shape %s instead of %s' % (what, a.shape, b.shape)
    if a.dtype == object:
        raise Undecided('not numbers')
    d = np.argwhere(np.abs(a.astype(float) - b) > tol)
    if len(d):
        i = tuple(int(x) for x in d[0])
        return '%s: entry %s is %.4g instead of %.4g (%d entries differ)' % (what, i, a[i], b[i], len(d))
    return None


def matrices_ok(ms, what, n):
    if not isinstance(ms, list) or len(ms) != n:
        return '%s: %s matrices instead of %d' % (what, len(ms) if isinstance(ms, list) else '?', n)
    return None


# ------------------------------------------------------------------------------------------------ topology
def elements(t):
    """vertex sets per dimension, in the order of the derived topology"""
    return [sets(c) for c in t.get(t.path('corners'))]


def topology_rules(P, R, M, prop):
    t = Table(P, M)
    n = M.n
    nm = '[%s %dd %s]' % (M.kind, n, M.name)
    memo = {}

    def el():
        if 'el' not in memo:
            memo['el'] = elements(t)
            if len(memo['el']) != n + 1:
                raise Undecided('elements')
        return memo['el']

    def el_ok():
        e = el()
        return all(set(e[k]) == M.sets[k] and len(e[k]) == len(M.sets[k]) for k in range(n + 1)) and e[0] == [frozenset([i]) for i in range(M.nv)]

    def ob(name, where, f):
        def g():
            if not el_ok():
                if name == 'elements':
                    return 'the elements are not the faces of the top elements, each once'
                raise Undecided('elements')
            return f()
        R.check('%s %s' % (name, nm), where, g)

    def inc(k, j):
        """which k-elements are part of which j-elements"""
        e = el()
        a = np.array([[1 if x <= y else 0 for y in e[j]] for x in e[k]])
        return a if k <= j else np.array([[1 if y <= x else 0 for y in e[j]] for x in e[k]])
    if prop == 'C13':
        average_rules(P, R, M, t, ob, inc, el)
        return
    ob('elements', TP + 'corners', lambda: None)

    def flat():
        c, e = t.get(t.path('corners')), t.get(t.path('elements'))
        for k, (a, b) in enumerate(zip(c, e)):
            b = np.asarray(b)
            r = same(np.asarray(a), b.reshape(len(b), -1), 'corners[%d]' % k)
            if r:
                return r
    ob('corners in the order of the elements', TP + 'corners', flat)

    def listed():
        e = el()
        for k in range(1, n + 1):
            def f(w, k=k):
                m = w.meth(t.top(w), 'matrix', k, 0)
                return w.eng.call(w.func('topology.util.sparse_to_elements'), [w.get(m, 'T')], {}, w.st, None)
            q = np.asarray(t.get(f))
            if [frozenset(int(v) for v in r) for r in q] != e[k]:
                return 'sparse_to_elements of the incidence of %d-elements and vertices does not list the vertices of each element' % k
        return None
    ob('elements of an incidence matrix', 'topology.util.sparse_to_elements', listed)
    chain_rules(P, R, M, t, ob, inc, el)


def average_rules(P, R, M, t, ob, inc, el):
    n = M.n

    def rows(A):
        A = A.astype(float)
        return A / A.sum(axis=1, keepdims=True)

    def listed(names, what, expect, count=n + 1):
        def f():
            ms = t.get(t.path(*names))
            r = matrices_ok(ms, what, count)
            if r:
                return r
            for k, m in enumerate(ms):
                r = same(m, expect(k), '%s[%d]' % (what, k))
                if r:
                    return r
        return f
    ob('averaging over vertices', TB + 'averaging_operators_0', listed(['averaging_operators_0'], 'averaging_operators_0', lambda k: rows(inc(k, 0))))
    ob('averaging over top elements', TB + 'averaging_operators_N', listed(['averaging_operators_N'], 'averaging_operators_N', lambda k: rows(inc(k, n))))
    ob('degree', TB + 'degree', listed(['degree'], 'degree', lambda k: inc(k, n).sum(axis=1)))
    pattern = lambda names, what, e: (lambda: next((r for r in (same(np.asarray(m) != 0, e(k) != 0, '%s[%d]' % (what, k)) for k, m in enumerate(t.get(t.path(*names)))) if r), None))
    ob('accumulation from vertices', TB + 'accumulated_operators_0', pattern([('accumulated_operators_0',)], 'accumulated_operators_0', lambda k: inc(0, k)))
    ob('accumulation from top elements', TB + 'accumulated_operators_N', pattern([('accumulated_operators_N',)], 'accumulated_operators_N', lambda k: inc(n, k)))
    if not M.components() or M.name in ('bow tie',):
        return

    def dual_expect(k):
        e = el()
        bd = M.bounding()
        top = e[n]
        p = t.get(t.path('boundary', 'parent_idx')) if bd else None
        cols = [('t', x) for x in top] + ([('b', e[n - 1][int(i)]) for i in p[n - 1]] if bd else [])
        rws = [('i', x) for x in e[n - k]] + ([('o', e[n - k - 1][int(i)]) for i in p[n - k - 1]] if bd and k < n else [])
        A = np.zeros((len(rws), len(cols)))
        for r, (a, x) in enumerate(rws):
            for c, (b, y) in enumerate(cols):
                # interior cells touch the centres of the top elements around them and of the boundary faces around them;
                # cells of the boundary touch the centres of the boundary faces only
                A[r, c] = x <= y and not (a == 'o' and b == 't')
        return A

    def dual_average():
        ms = t.get(t.path('dual', 'averaging_operators_0'))
        r = matrices_ok(ms, 'dual averaging_operators_0', n + 1)
        if r:
            return r
        for k, m in enumerate(ms):
            X = dual_expect(k)
            m = np.asarray(m)
            if m.shape != X.shape:
                return 'dual averaging_operators_0[%d] has shape %s instead of %s' % (k, m.shape, X.shape)
            r = same(m, rows(X), 'dual averaging_operators_0[%d]' % k)
            if r:
                return r
    ob('averaging over dual vertices', TB + 'averaging_operators_0', dual_average)


def chain_rules(P, R, M, t, ob, inc, el):
    n = M.n

    def is_closed():
        v = t.get(t.path('is_closed'))
        return None if v == (not M.bounding()) else 'is_closed is %s' % v
    ob('closedness', TP + 'is_closed', is_closed)

    def bset(k):
        b = M.bounding()
        return {x for x in M.sets[k] if any(x <= f for f in b)}

    def boundary():
        b = instance(P.run(t.path('boundary')), P)
        if b is None or not M.bounding():
            return None if (b is None) == (not M.bounding()) else ('no boundary' if b is None else 'a closed mesh has a boundary')
        cs, idx = t.get(t.path('boundary', 'corners')), t.get(t.path('boundary', 'parent_idx'))
        e = el()
        if len(cs) != n or len(idx) != n:
            return 'boundary of %d dimensions with %d index lists' % (len(cs) - 1, len(idx))
        for k in range(n):
            i = [int(x) for x in idx[k]]
            if len(i) != len(cs[k]):
                return '%d indices of %d boundary elements of dimension %d' % (len(i), len(cs[k]), k)
            if {e[k][x] for x in i} != bset(k) or len(set(i)) != len(i):
                return 'the boundary elements of dimension %d are not the parts of the faces that belong to one element' % k
            up = [frozenset(int(idx[0][v]) for v in s) for s in sets(cs[k])]
            bad = [x for x, y in zip(i, up) if e[k][x] != y]
            if bad:
                return 'parent_idx[%d] names an element with other vertices' % k
    ob('boundary', TP + 'boundary', boundary)

    def boundary_boundary():
        if n < 2 or not M.bounding() or M.name == 'bow tie':
            return None
        v = P.run(t.path('boundary', 'boundary'))
        return None if v is None else 'the boundary has a boundary'
    ob('the boundary is closed', TP + 'boundary', boundary_boundary)

    def selectors(what, member):
        def f():
            ms = t.get(t.path(what))
            r = matrices_ok(ms, what, n + 1)
            if r:
                return r
            e = el()
            for k, m in enumerate(ms):
                b = bset(k) if k < n else set()
                X = np.array([[int(i == j) for j in range(len(e[k]))] for i in range(len(e[k])) if (e[k][i] in b) == member]).reshape(-1, len(e[k]))
                r = same(m, X, '%s[%d]' % (what, k))
                if r:
                    return r
        return f
    ob('interior selectors', TP + 'selector_interior', selectors('selector_interior', False))
    ob('boundary selectors', TP + 'selector_boundary', selectors('selector_boundary', True))

    # selections
    N = len(M.tops)
    chosen = [c for c in itertools.product((0, 1), repeat=N) if any(c)] if N <= 3 else \
        [tuple(int(i == j) for j in range(N)) for i in range(N)] + [tuple(int(i != j) for j in range(N)) for i in range(0, N, 2)] + [tuple(1 for _ in range(N)), tuple(i % 2 for i in range(N))]

    def subset(c):
        def f():
            a = lambda w: w.meth(t.top(w), 'select_subset', P.const(c, 'sign'))
            cs, idx = t.get(lambda w: w.get(a(w), 'corners')), t.get(lambda w: w.get(a(w), 'parent_idx'))
            arr = t.get(lambda w: w.get(a(w), 'elements'))[-1]
            e = el()
            pick = [i for i in range(N) if c[i] != 0]
            return derived(cs, idx, arr, [M.tops[i] for i in pick], pick, e)
        return f

    def derived(cs, idx, arr, tops, pick, e):
        if len(idx) != n + 1 or len(cs) != n + 1:
            return 'indices for %d dimensions' % len(idx)
        if [int(i) for i in idx[n]] != pick:
            return 'the selected elements are %s instead of %s' % ([int(i) for i in idx[n]], pick)
        for k in range(n + 1):
            i = [int(x) for x in idx[k]]
            want = {y for tt in tops for y in subsets(M.kind, np.asarray(tt), k)}
            if len(i) != len(cs[k]) or len(set(i)) != len(i) or {e[k][x] for x in i} != want:
                return 'the elements of dimension %d are not the faces of the selected elements' % k
            up = [frozenset(int(idx[0][v]) for v in s) for s in sets(cs[k])]
            if any(e[k][x] != y for x, y in zip(i, up)):
                return 'parent_idx[%d] names an element with other vertices' % k
        for a, b in zip(np.asarray(arr), tops):
            if [int(idx[0][v]) for v in np.ravel(a)] != [int(v) for v in np.ravel(b)]:
                return 'the vertices of a selected element change order'
    signed = [tuple(-x for x in chosen[0]), tuple((1, -1, 0)[i % 3] for i in range(N)), tuple(-1 for _ in range(N))]
    for c in chosen[:16] + [c for c in signed if any(c)]:
        ob('selection %s' % ''.join(map(str, c)), TP + 'select_subset', subset(c))

    # components
    comps = M.components()

    def label():
        k, l = t.get(t.path(('label_connections',)))
        l = [int(x) for x in l]
        if int(k) != len(comps) or len(l) != N:
            return '%s components instead of %d' % (k, len(comps))
        if {frozenset(i for i in range(N) if l[i] == j) for j in set(l)} != set(comps):
            return 'labels %s do not separate the components' % l
    ob('components', TB + 'label_connections', label)

    def connected():
        v = t.get(t.path('is_connected'))
        return None if bool(v) == (len(comps) == 1) else 'is_connected is %s' % v
    ob('connectedness', TB + 'is_connected', connected)

    def split():
        def f(w):
            r = w.meth(t.top(w), 'split_connected_components')
            its = P.eng.lst(w.st, r).items
            if its is None:
                raise Undecided('list of unknown length')
            return w.lst([w.tup(w.get(x, 'corners'), w.get(x, 'parent_idx'), w.get(x, 'elements')) for x in its])
        r = t.get(f)
        e = el()
        if len(r) != len(comps):
            return '%d components instead of %d' % (len(r), len(comps))
        if [len(x[1][n]) for x in r] != sorted((len(c) for c in comps), reverse=True):
            return 'sizes %s' % [len(x[1][n]) for x in r]
        if {frozenset(int(i) for i in x[1][n]) for x in r} != set(comps):
            return 'the components are not the connected pieces'
        for cs, idx, arr in r:
            pick = [int(i) for i in idx[n]]
            m = derived(cs, idx, arr[-1], [M.tops[i] for i in pick], pick, e)
            if m:
                return m
    if len(comps) > 1:
        ob('splitting in components', TP + 'split_connected_components', split)

    # neighbourhoods
    def regions():
        v = t.get(t.path('regions_per_vertex'))
        X = [len(M.components([i for i in range(N) if j in M.top[i]])) for j in range(M.nv)]
        Y = [len(M.components([i for i in range(N) if j in M.top[i]], frozenset([j]))) for j in range(M.nv)]
        if X != Y:
            raise Undecided('template')
        return same(np.asarray(v), np.array(X), 'regions_per_vertex')
    ob('regions around vertices', TB + 'regions_per_vertex', regions)

    def manifold():
        v = t.get(t.path('is_manifold'))
        X = all(len(M.components([i for i in range(N) if j in M.top[i]], frozenset([j]))) == 1 for j in range(M.nv))
        return None if bool(v) == X else 'is_manifold is %s' % v
    ob('manifoldness', TB + 'is_manifold', manifold)

    # orientation
    if n >= 1:
        flips = [None, 0, N - 1] + ([N // 2] if N > 2 else [])
        for i in flips:
            if i is not None and (len(comps) > 1 or N < 2):
                continue

            def oriented(i=i):
                tops = np.array([flip(M.kind, x) if j == i else x for j, x in enumerate(M.tops)])
                v = t.get(lambda w: w.get(t.top(w, tops), 'is_oriented'))
                want = i is None
                return None if bool(v) == want else 'is_oriented is %s' % v

            def fixed(i=i):
                tops = np.array([flip(M.kind, x) if j == i else x for j, x in enumerate(M.tops)])
                r = t.get(lambda w: (lambda x: w.tup(w.get(x, 'is_oriented'), w.get(x, 'elements'), w.get(x, 'matrices')))(w.meth(t.top(w, tops), 'fix_orientation')))
                if not bool(r[0]):
                    return 'the result is not oriented'
                if sets(r[1][-1]) != M.top:
                    return 'the elements change'
                c = np.asarray(r[2][-1]).astype(int).sum(axis=1)
                b = np.abs(np.asarray(r[2][-1]).astype(int)).sum(axis=1)
                if any(x != 0 for x, y in zip(c, b) if y == 2):
                    return 'neighbouring elements traverse their common face in the same direction'
                for x, y in zip(np.asarray(r[1][-1]), M.tops):
                    if i is None and [int(q) for q in np.ravel(x)] != [int(q) for q in np.ravel(y)] and [int(q) for q in np.ravel(x)] != [int(q) for q in np.ravel(flip(M.kind, y))]:
                        return 'an element is neither kept nor flipped'
            ob('orientedness%s' % ('' if i is None else ' with element %d flipped' % i), TB + 'is_oriented', oriented)
            if n == 1 and M.kind == 'simplicial' or n == 2 or n == 3 and M.kind == 'simplicial':
                ob('orienting%s' % ('' if i is None else ' with element %d flipped' % i), TP + 'fix_orientation', fixed)

    # numbers and forms
    def counts():
        v = [int(x) for x in t.get(t.path('n_elements'))]
        return None if v == [len(s) for s in M.sets] else 'n_elements is %s instead of %s' % (v, [len(s) for s in M.sets])
    ob('numbers of elements', TP + 'n_elements', counts)
    for k in range(-1, n + 1):
        size = len(M.sets[k])

        def forms(k=k, size=size):
            a = t.get(t.path(('chain', k)))
            b = t.get(lambda w: w.meth(t.top(w), 'chain', k, fill=1))
            c = t.get(t.path(('range', k)))
            d = t.get(lambda w: w.meth(t.top(w), 'form', k, fill=3))
            s = [0, size - 1] if size > 1 else [0]
            e = t.get(lambda w: w.meth(t.top(w), 'chain', k, fill=P.const(s)))
            ind = np.zeros(size)
            ind[s] = 1
            return same(a, np.zeros(size), 'chain(%d)' % k) or same(b, np.ones(size), 'chain(%d, fill=1)' % k) or same(c, np.arange(size), 'range(%d)' % k) or \
                same(d, 3 * np.ones(size), 'form(%d, fill=3)' % k) or same(e, ind, 'chain(%d, fill=indices)' % k)
        ob('constant chains of dimension %d' % k, TB + 'chain', forms)

    def zero_matrices():
        e = el()
        for k in range(n + 1):
            m = t.get(t.path(('matrix', k, 0)))
            if k == 0:
                r = same(m, np.eye(M.nv), 'matrix(0, 0)')
            else:
                if k == 1:
                    pass
                r = same(np.asarray(m).T if np.asarray(m).shape == (M.nv, len(e[k])) else m, inc(k, 0), 'matrix(%d, 0)' % k)
            if r:
                return r
    # dual
    if M.name != 'bow tie' and len(comps) == 1:
        dual_rules(P, R, M, t, ob, inc, el, bset)


def dual_rules(P, R, M, t, ob, inc, el, bset):
    n = M.n

    def parts():
        e = el()
        bd = bool(M.bounding())
        idx = t.get(t.path('boundary', 'parent_idx')) if bd else [[] for _ in range(n)]
        return e, idx, bd

    def counts():
        e, idx, bd = parts()
        X = [len(e[n - k]) + (len(idx[n - k - 1]) if k < n else 0) for k in range(n + 1)]
        v = [int(x) for x in t.get(t.path('dual', 'n_elements'))]
        return None if v == X else 'dual n_elements is %s instead of %s' % (v, X)
    ob('numbers of dual elements', TD + 'n_elements', counts)

    def transposed():
        T = [np.asarray(m).astype(int) for m in t.get(t.path('matrices'))]
        v = t.get(t.path('dual', 'matrices_2'))
        for k in range(n):
            X = T[n - 1 - k].T
            m = np.asarray(v[k])
            if m.shape != X.shape and m.shape[0] == X.shape[0]:
                m = m[:, :X.shape[1]]
            if m.shape != X.shape and m.shape[1] == X.shape[1]:
                m = m[:X.shape[0]]
            r = same(m, X, 'dual matrices_2[%d]' % k)
            if r:
                return r
    ob('dual derivatives', TD + 'matrices_2', transposed)

    def sel(what, pick):
        def f():
            e, idx, bd = parts()
            v = t.get(t.path('dual', what))
            r = matrices_ok(v, 'dual ' + what, n + 1)
            if r:
                return r
            for k in range(n + 1):
                p = len(e[k])
                b = len(idx[k - 1]) if k else 0
                X = pick(p, b)
                r = same(v[k], X, 'dual %s[%d]' % (what, k))
                if r:
                    return r
        return f
    ob('dual interior selectors', TD + 'selector_interior', sel('selector_interior', lambda p, b: np.eye(p, p + b)))
    ob('dual boundary selectors', TD + 'selector_boundary', sel('selector_boundary', lambda p, b: np.eye(p + b)[p:]))

    def whole():
        T = [np.asarray(m).astype(int) for m in t.get(t.path('matrices'))]
        ms = [np.asarray(m).astype(int) for m in t.get(t.path('dual', 'matrices'))]
        e, idx, bd = parts()
        if len(ms) != n:
            return '%d dual matrices' % len(ms)
        for k in range(n):
            X = T[n - 1 - k].T
            r = same(ms[k][:X.shape[0], :X.shape[1]], X, 'interior block of dual matrices[%d]' % k)
            if r:
                return r
        for a, b in zip(ms[:-1], ms[1:]):
            if a.shape[1] != b.shape[0]:
                return 'shapes %s and %s' % (a.shape, b.shape)
            if (b.T.dot(a.T) if False else a.dot(b)).any():
                return 'the boundary of a boundary does not vanish in the dual'
        # every dual edge has two end points
        m = ms[0]
        if not all(sorted(c) == [-1, 1] for c in [[x for x in col if x] for col in m.T]):
            return 'a dual edge does not run from one dual vertex to another'
    ob('dual chain', TD + 'matrices', whole)

    # subdivided topologies: the transfers of the dual are those of the interior and of the boundary
    how = 'subdivide_cubical' if M.kind == 'cubical' and n < 3 else 'subdivide_loop' if n == 2 else None
    if how is None or not M.bounding() or len(M.tops) > 4:
        return

    def transfer():
        fine = lambda w: w.meth(t.top(w), how)
        T = [np.asarray(m) for m in t.get(lambda w: w.get(fine(w), 'transfer_matrices'))]
        fi = t.get(lambda w: chain(t.P, w, fine(w), ('boundary', 'parent_idx')))
        ci = t.get(t.path('boundary', 'parent_idx'))

        def dual(w):
            f = fine(w)
            w.st.store[f.loc] = IC(dict(w.st.store[f.loc].attrs, parent=t.top(w)))
            return chain(t.P, w, f, ('dual', 'transfer_matrices'))
        v = t.get(dual)
        r = matrices_ok(v, 'dual transfer_matrices', n + 1)
        if r:
            return r
        for k in range(n + 1):
            X = T[k]
            if k:
                Tb = T[k - 1][[int(i) for i in fi[k - 1]]][:, [int(i) for i in ci[k - 1]]]
                X = np.block([[T[k], np.zeros((T[k].shape[0], Tb.shape[1]))], [np.zeros((Tb.shape[0], T[k].shape[1])), Tb]])
            r = same(v[n - k], X, 'dual transfer_matrices[%d]' % (n - k))
            if r:
                return r
    ob('dual transfers', TD + 'transfer_matrices', transfer)


# ------------------------------------------------------------------------------------------------ complexes
CCUB, CSIM, CTRI = 'complex.cubical.ComplexCubical', 'complex.simplicial.euclidian.ComplexSimplicialEuclidian', 'complex.simplicial.euclidian.ComplexTriangularEuclidian'


def complex_rules(P, R, M):
    """C13 on complexes: positions and smoothing are averages of the vertices"""
    t = Table(P, M)
    n = M.n
    d = 3
    nm = '[%s %dd %s]' % (M.kind, n, M.name)
    cls = CCUB if M.kind == 'cubical' else CTRI if n == 2 else CSIM
    memo = {}

    def build(w):
        return w.make(cls, vertices=P.field((M.nv, d), 'x', 'float'), topology=t.top(w))

    def el():
        if 'el' not in memo:
            e = elements(t)
            if not all(set(e[k]) == M.sets[k] and len(e[k]) == len(M.sets[k]) for k in range(n + 1)) or e[0] != [frozenset([i]) for i in range(M.nv)]:
                raise Undecided('elements')
            memo['el'] = e
        return memo['el']

    def rel(rows, cols):
        """which of the sets of vertices rows are part of, or contain, those of cols"""
        return np.array([[float(x <= y or y <= x) for y in cols] for x in rows]).reshape(len(rows), len(cols))

    def rows(A):
        return A / A.sum(axis=1, keepdims=True)

    def linear(v, what, X, field='x', width=d):
        """v are positions: X @ vertices"""
        m = P.rows(v, [(field, M.nv * width)])
        a = P.numbers(v)
        if a.shape != (X.shape[0], width):
            return '%s has shape %s instead of %s' % (what, a.shape, (X.shape[0], width))
        return same(m, np.kron(X, np.eye(width)), what)

    def pos(k):
        return rows(rel(el()[k], el()[0]))
    where = cls + '.'

    def tops():
        return el()[n]

    def some():
        """a chain of some of the top elements that leaves no vertex out, or None"""
        e = el()
        c = [1] * len(e[n])
        for i in range(len(c)):
            if all(any(c[j] and j != i and x <= f for j, f in enumerate(e[n])) for x in e[0]):
                c[i] = 0
        return None if all(c) else c

    # creases: chains per dimension
    def chains_of(kind):
        e = el()
        b = M.bounding()
        if kind == 'none':
            return {}
        out = {}
        if kind in ('faces', 'both'):
            out[n - 1] = [int(x in b) for x in e[n - 1]]
        if kind in ('points', 'both', 'negative'):
            out[0] = [int(x in (e[0][0], e[0][-1])) for x in e[0]]
        if kind == 'negative':
            out = {k: [-x for x in c] for k, c in out.items()}
            if n > 1:
                out[n - 1] = [(-1 if i % 2 else 1) * int(x in b) for i, x in enumerate(e[n - 1])]
        if kind == 'edges' and n > 1:
            out[1] = [int(i % 3 == 0) for i in range(len(e[1]))]
        if kind == 'some':
            out[n] = some()
        return {k: c for k, c in out.items() if any(c)}
    kinds = ['none'] + (['faces'] if M.bounding() and n > 1 else []) + ['points'] + (['both', 'negative'] if M.bounding() and n > 1 else []) + (['edges'] if n > 1 else [])
    try:
        kinds += ['some'] if some() else []
    except Exception:
        pass

    def smoothing(e, creases):
        """every vertex is the mean over the incident crease elements of lowest dimension of the means of their vertices"""
        C = [np.zeros(len(x)) for x in e]
        C[n][:] = 1
        for k, c in creases.items():
            C[k] = (np.array(c) != 0) * 1.0
        S = np.zeros((len(e[0]), len(e[0])))
        for v, x in enumerate(e[0]):
            for k in range(n + 1):
                inc = [f for f, c in zip(e[k], C[k]) if c and x <= f]
                if inc:
                    S[v] = np.mean([[float(y <= f) / len(f) for y in e[0]] for f in inc], axis=0)
                    break
        return S

    def crease(w, creases):
        return w.dict({k: P.const(c, 'sign') for k, c in creases.items()}) if creases else None

    def operator(kind):
        def f():
            cr = chains_of(kind)
            m = t.get(lambda w: w.meth(build(w), 'smooth_operator', crease(w, cr)))
            return same(m, smoothing(el(), cr), 'smooth_operator')
        return f
    for k in kinds:
        R.check('smoothing operator with creases: %s %s' % (k, nm), CB + 'smooth_operator', operator(k))
    if M.kind == 'cubical':
        for k in range(n + 1):
            R.check('positions of %d-elements %s' % (k, nm), where + 'primal_position',
                    lambda k=k: linear(P.run(lambda w: P.eng.getitem(w.get(build(w), 'primal_position'), k, w.st, None)), 'primal_position[%d]' % k, pos(k)))

        def dual(k):
            e = el()
            X = pos(n - k)
            if M.bounding() and k < n:
                # cells of the boundary sit at their primal counterparts
                idx = t.get(t.path('boundary', 'parent_idx'))
                X = np.concatenate([X, pos(n - k - 1)[[int(i) for i in idx[n - k - 1]]]])
            return linear(P.run(lambda w: P.eng.getitem(w.get(build(w), 'dual_position'), k, w.st, None)), 'dual_position[%d]' % k, X)
        for k in range(n + 1):
            R.check('positions of dual %d-elements %s' % (k, nm), CB + 'dual_position', lambda k=k: dual(k))

        def smooth(kind):
            def f():
                cr = chains_of(kind)
                return linear(P.run(lambda w: w.get(w.meth(build(w), 'smooth', crease(w, cr)), 'vertices')), 'vertices of smooth', smoothing(el(), cr))
            return f
        for k in kinds:
            R.check('smoothing with creases: %s %s' % (k, nm), CB + 'smooth', smooth(k))

    # subdivision: the operator is the construction
    def fine_of(w, how, **k):
        return w.meth(build(w), how, **k)

    def subdivide(how, op, kind, smoothed, direct):
        def f():
            e = el()
            cr = chains_of(kind)
            A = np.concatenate([pos(k) for k in range(n + 1 if how == 'subdivide_cubical' else 2)])
            X = A
            if smoothed:
                fe = t.get(lambda w: w.get(w.get(fine_of(w, how), 'topology'), 'corners'))
                fe = [sets(c) for c in fe]
                tr = [np.asarray(x) for x in t.get(lambda w: w.get(w.get(fine_of(w, how), 'topology'), 'transfer_matrices'))]
                if fe[0] != [frozenset([i]) for i in range(len(A))]:
                    raise Undecided('vertices')
                X = smoothing(fe, {k: (tr[k].dot(np.array(c)) != 0) * 1 for k, c in cr.items()}).dot(A)
            if direct:
                return linear(P.run(lambda w: w.get(fine_of(w, how, smooth=smoothed, creases=crease(w, cr)), 'vertices')), 'vertices of ' + how, X)
            return same(t.get(lambda w: w.meth(build(w), op, smooth=smoothed, creases=crease(w, cr))), X, op)
        return f
    big = len(M.tops) > 5 or n == 3
    if M.kind == 'cubical':
        runs = [('subdivide_cubical', 'subdivide_operator')]
    elif n == 2:
        runs = [('subdivide_loop', 'subdivide_loop_operator')]
    else:
        runs = []
    for how, op in runs:
        for kind in kinds:
            for smoothed in (False, True):
                if kind == 'some' or smoothed and (big or n == 2 and M.name not in ('pair', 'grid', 'strip')) or not smoothed and kind not in ('none', 'both'):
                    continue
                x = '%s%s' % ('smoothed ' if smoothed else '', 'creases: %s ' % kind)
                R.check('%s operator %s%s' % (how, x, nm), where + op, subdivide(how, op, kind, smoothed, False))
                if M.kind == 'cubical':
                    R.check('%s %s%s' % (how, x, nm), where + how, subdivide(how, op, kind, smoothed, True))

    # sums around boundary elements and vertices
    if M.kind == 'simplicial':
        N = len(M.tops)

        def field(w):
            return P.field((N, n + 1), 'g', 'float')

        def around(name, oriented, k):
            def f():
                e = el()
                top = t.get(t.path('elements'))[-1]
                b = t.get(t.path('_boundary'))[-1]
                o = t.get(t.path('_orientation'))[-1]
                X = np.zeros((len(e[k]), N * (n + 1)))
                for i in range(N):
                    for c in range(n + 1):
                        j = int(b[i][c]) if k else int(top[i][c])
                        X[j, i * (n + 1) + c] += (int(o[i][c]) if oriented else 1)
                kw = {} if not k else {'oriented': oriented}
                v = P.run(lambda w: w.meth(build(w), name, field(w), **kw))
                a = P.numbers(v)
                if a.shape != (len(e[k]),):
                    return '%s has shape %s instead of %s' % (name, a.shape, (len(e[k]),))
                return same(P.rows(v, [('g', N * (n + 1))]), X, name)
            return f
        BS = 'complex.simplicial.base.BaseComplexSimplicial.'
        R.check('sum around vertices %s' % nm, BS + 'remap_boundary_0', around('remap_boundary_0', False, 0))
        if n > 1:
            R.check('sum around boundary elements %s' % nm, BS + 'remap_boundary_N', around('remap_boundary_N', False, n - 1))
            R.check('oriented sum around boundary elements %s' % nm, BS + 'remap_boundary_N', around('remap_boundary_N', True, n - 1))

        # vertex areas: a third of the areas of the triangles around
        def areas(attr):
            def f():
                def g(w):
                    c = build(w)
                    w.st.store[c.loc] = IC(dict(w.st.store[c.loc].attrs, compute_triangle_areas=P.field((N,), 'g', 'float')))
                    return w.ev(c, attr)
                v = P.run(g)
                X = np.array([[float(x <= y) / 3 for y in tops()] for x in el()[0]])
                a = P.numbers(v)
                if a.shape != (M.nv,):
                    return '%s has shape %s instead of %s' % (attr, a.shape, (M.nv,))
                return same(P.rows(v, [('g', N)]), X, attr)
            return f
        if n == 2:
            R.check('areas of vertices %s' % nm, CTRI + '.compute_vertex_areas', areas('compute_vertex_areas'))


# ------------------------------------------------------------------------------------------------ sparse helpers
def sparse_rules(P, R):
    A = np.array([[1., -3., 0., 0.], [0., 2., 2., 0.], [-5., 0., 0., 1.]])
    B = np.array([[1., 1., 0., 2.], [0., 0., 0.5, 0.], [4., 0., 0., 1.]])

    class T(Table):
        def __init__(self):
            self.P = P
    t = T()
    mk = lambda w, A, fmt='csr_matrix': P.eng.call(Ext('scipy.sparse.' + fmt), [P.arr(A)], {}, w.st, None)

    def ob(what, f, X):
        R.check(what.split()[0] + ' ' + what, 'sparse.' + what.split()[0], lambda: same(t.get(f), X, what))
    for nm, M in (('mixed signs', A), ('positive', B), ('square', np.array([[1., -3., 0.], [0., 2., 2.], [5., 0., 1.]]))):
        for fmt in ('csr_matrix', 'csc_matrix', 'coo_matrix'):
            ob('normalize_l1 rows (%s, %s)' % (nm, fmt), lambda w, M=M, fmt=fmt: w.fn('sparse.normalize_l1', mk(w, M, fmt), axis=1), M / np.abs(M).sum(axis=1, keepdims=True))
            ob('normalize_l1 columns (%s, %s)' % (nm, fmt), lambda w, M=M, fmt=fmt: w.fn('sparse.normalize_l1', mk(w, M, fmt), axis=0), M / np.abs(M).sum(axis=0, keepdims=True))
        ob('normalize_l1 default (%s)' % nm, lambda w, M=M: w.fn('sparse.normalize_l1', mk(w, M)), M / np.abs(M).sum(axis=1, keepdims=True))
        ob('ones_like (%s)' % nm, lambda w, M=M: w.fn('sparse.ones_like', mk(w, M)), (M != 0) * 1.0)

    def keeps(w):
        m = mk(w, A)
        w.fn('sparse.ones_like', m)
        return m
    ob('ones_like keeps its argument', keeps, A)
    ob('sparse_zeros', lambda w: w.fn('sparse.sparse_zeros', w.tup(2, 3)), np.zeros((2, 3)))
    ob('zeros_like', lambda w: w.fn('sparse.zeros_like', mk(w, A)), np.zeros((3, 4)))
    d = np.array([2., -4., 0.5])
    for k in (1, 3):
        ob('inv_diag %d' % k, lambda w, k=k: w.fn('sparse.inv_diag', P.eng.call(Ext('scipy.sparse.diags'), [P.arr(np.full(k, 4.))], {}, w.st, None)), np.eye(k) / 4)
    ob('inv_diag', lambda w: w.fn('sparse.inv_diag', P.eng.call(Ext('scipy.sparse.diags'), [P.arr(d)], {}, w.st, None)), np.diag(1 / d))


# ------------------------------------------------------------------------------------------------ runs
def run_for(prop, repo, tier):
    P, R = LinProp(repo), Report()
    if prop == 'C13':
        sparse_rules(P, R)
    for M in meshes(tier):
        topology_rules(P, R, M, prop)
        if prop == 'C13':
            complex_rules(P, R, M)
    return P, R
