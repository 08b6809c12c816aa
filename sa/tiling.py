"""C17: every subdivision tiles its parent (constant propagation over oriented templates)."""
import itertools
import math
from fractions import Fraction
import numpy as np
from .templates import Prop, Report, Undecided, simplicial, cubical, det, parity
from .orient import chain_check, whole
from .values import Union

TS, TC, TU = 'topology.simplicial.', 'topology.cubical.', 'topology.util.'


def run(repo, tier):
    P, R = Prop(repo), Report()
    top = 4 if tier == 'thorough' else 3
    for n in range(1, top + 1):
        for two in (True, False):
            one(P, R, simplicial(n, two), two)
            if n <= 3:
                one(P, R, cubical(n, two), two)
    product(P, R)
    return P, R


class Fine(object):
    """the coarse elements at whose centers the fine vertices lie"""

    def __init__(self, T, dims):
        self.at = [(k, i) for k in dims for i in range(len(T.E[k]))]
        self.pos = [T.center(k, i) for k, i in self.at]
        self.sup = [T.support(k, i) for k, i in self.at]


METHODS = {
    # method: (vertices are the centers of the coarse elements of these dimensions, shape, elements per parent, keyword)
    'subdivide_fundamental': (lambda n: range(n + 1), 'simplex', {}),
    'subdivide_simplicial': (lambda n: (0, n), 'simplex', {}),
    'subdivide_loop': (lambda n: (0, 1), 'simplex', {}),
    'subdivide_loop_direct': (lambda n: (0, 1), 'simplex', {}),
    'subdivide_cubical': (lambda n: range(n + 1), 'cube', {}),
}


def jobs(T):
    if T.kind == 'simplicial':
        yield 'subdivide_fundamental', {}
        yield 'subdivide_fundamental', {'oriented': False}
        if T.n >= 2:
            yield 'subdivide_simplicial', {}
        if T.n == 2:
            yield 'subdivide_loop', {}
            yield 'subdivide_loop_direct', {}
        if T.n in (2, 3):
            yield 'subdivide_cubical', {}
    else:
        yield 'subdivide_cubical', {}
        yield 'subdivide_fundamental', {}
        if T.n == 2:
            yield 'subdivide_simplicial', {}


def count(T, name):
    n = T.n
    if name == 'subdivide_fundamental':
        return math.factorial(n + 1) if T.kind == 'simplicial' else math.factorial(n) * 2 ** n
    if name == 'subdivide_simplicial':
        return n + 1 if T.kind == 'simplicial' else 4
    if name == 'subdivide_cubical':
        return n + 1 if T.kind == 'simplicial' else 2 ** n
    return 4


def one(P, R, T, two):
    for name, kw in jobs(T):
        dims, shape, _ = METHODS[name]
        label = '%s %dd%s %s%s' % (T.kind, T.n, ' pair' if two else '', name, '(oriented=False)' if kw else '')
        where = (TS if T.kind == 'simplicial' else TC) + name
        F = Fine(T, list(dims(T.n)))
        log = []

        def hook(eng, st, args, kwargs, node):
            log.append((list(args), dict(kwargs), st.fork()))
            return NotImplemented

        def go(name=name, kw=kw):
            P.eng.hooks['pycomplex.topology.util:transfer_matrix'] = hook
            del log[:]
            try:
                return P.run(lambda w: w.meth(P.topology(T), name, **kw))
            finally:
                P.eng.hooks.pop('pycomplex.topology.util:transfer_matrix', None)

        def t(T=T, F=F, shape=shape, kw=kw, name=name, go=go):
            s = go()
            E = P.value(P.w.get(s, 'elements'))
            top = np.asarray(E[-1])
            if T.n > 1 or shape == 'simplex':
                m = chain_check(E, *whole(P, P.w, s)[1:])
                if m:
                    return m
            return (simplices if shape == 'simplex' else cubes)(T, F, top, not kw, count(T, name), name)
        R.check(label, where, t)
        if name in ('subdivide_loop', 'subdivide_loop_direct') or (name == 'subdivide_cubical' and T.kind == 'cubical'):
            def t(T=T, F=F, go=go):
                s = go()
                E = P.value(P.w.get(s, 'elements'))
                ts = []
                for a, k, st in list(log):
                    v = P.w.st
                    P.w.st = st
                    try:
                        ts.append([P.value(x) for x in a] + [P.value(k['shape'])] * ('shape' in k))
                    finally:
                        P.w.st = v
                return transfers(T, F, E, ts)
            R.check(label + ' transfers', where, t)
        elif name == 'subdivide_simplicial' and T.kind == 'cubical':
            def t(T=T, F=F, go=go):
                s = go()
                E = P.value(P.w.get(s, 'elements'))
                ts = []
                for a, k, st in list(log):
                    v = P.w.st
                    P.w.st = st
                    try:
                        ts.append([P.value(x) for x in a] + [P.value(k['shape'])] * ('shape' in k))
                    finally:
                        P.w.st = v
                if not ts:
                    raise Undecided('no transfer operator seen')
                return transfer(T, F, E, 2, ts[-1])
            R.check(label + ' transfers', where, t)


def owner(T, sups):
    """the coarse element of top dimension that contains the fine element"""
    u = frozenset().union(*sups)
    o = [i for i in range(len(T.E[T.n])) if u <= T.support(T.n, i)]
    return o[0] if len(o) == 1 else None


def volume(pts):
    o = pts[0]
    return det([[x - y for x, y in zip(p, o)] for p in pts[1:]])


def parent_volume(T, i):
    e = np.asarray(T.E[T.n][i])
    if T.kind == 'simplicial':
        return volume([T.pos[j] for j in e])
    n = T.n
    c = [T.pos[e[(0,) * n]]] + [T.pos[e[tuple(int(a == b) for b in range(n))]] for a in range(n)]
    return volume(c) * math.factorial(n)


def simplices(T, F, top, oriented, per, name=None):
    n, nt = T.n, len(T.E[T.n])
    if top.ndim != 2 or top.shape[1] != n + 1:
        return 'the fine elements are not %d-simplices' % n
    if top.min() < 0 or top.max() >= len(F.pos):
        return 'a fine element refers to a vertex that does not exist'
    if len(top) != per * nt:
        return '%d fine elements per coarse element, expected %d' % (len(top) // nt, per)
    signs, total = {}, {}
    facets = {}
    for r, e in enumerate(top.tolist()):
        o = owner(T, [F.sup[v] for v in e])
        if o is None:
            return 'a fine element is not contained in a coarse element'
        if o != r // per:
            return 'the fine elements are not listed parent by parent'
        v = volume([F.pos[x] for x in e])
        if v == 0:
            return 'a fine element is degenerate (its corners are the centers of %s)' % (sorted(sorted(F.sup[x]) for x in e),)
        pv = parent_volume(T, o)
        signs.setdefault(o, set()).add((v > 0) == (pv > 0))
        total[o] = total.get(o, 0) + abs(v)
        for c in range(n + 1):
            f = e[:c] + e[c + 1:]
            facets.setdefault(frozenset(f), []).append((parity(f) + c) % 2)
    for o in range(nt):
        if total.get(o) != abs(parent_volume(T, o)):
            return 'the volumes of the fine elements add up to %s of the coarse element' % (Fraction(total.get(o, 0)) / abs(parent_volume(T, o)))
    if oriented:
        if len(set().union(*signs.values())) > 1:
            return 'the fine elements are not oriented alike'
        if T.kind == 'simplicial' and signs[0] != {True} and n <= 2:
            return 'the fine elements are oriented opposite to the coarse element'
    for f, ps in facets.items():
        inner = not any_face(T, [F.sup[v] for v in f])
        if len(ps) != (2 if inner else 1):
            return 'fine elements overlap or do not meet: a facet belongs to %d fine elements' % len(ps)
        if inner and (ps[0] == ps[1]) == oriented and n > 0 and (oriented or len({owner(T, [F.sup[v] for v in f])}) == 1):
            if oriented or n > 1:
                return 'neighbouring fine elements are not oriented %s' % ('alike' if oriented else 'oppositely')


def any_face(T, sups):
    """does the element lie on the boundary of the template"""
    u = frozenset().union(*sups)
    use = {}
    for i, b in enumerate(np.asarray(T.B[T.n - 1])):
        for f in np.ravel(b):
            use.setdefault(int(f), []).append(i)
    return any(len(o) == 1 and u <= frozenset(np.ravel(T.E[T.n - 1][f]).tolist()) for f, o in use.items())


def cubes(T, F, top, oriented, per, name=None):
    n, nt = T.n, len(T.E[T.n])
    if top.shape[1:] != (2,) * n:
        return 'the fine elements are not %d-cubes' % n
    if top.min() < 0 or top.max() >= len(F.pos):
        return 'a fine element refers to a vertex that does not exist'
    if len(top) != per * nt:
        return '%d fine elements per coarse element, expected %d' % (len(top) // nt, per)
    facets, signs = {}, set()
    seen = set()
    for r, e in enumerate(top):
        o = owner(T, [F.sup[v] for v in e.ravel().tolist()])
        if o is None:
            return 'a fine element is not contained in a coarse element'
        if o != r // per:
            return 'the fine elements are not listed parent by parent'
        pv = parent_volume(T, o)
        key = frozenset(e.ravel().tolist())
        if len(key) != 2 ** n or key in seen:
            return 'a fine element is listed twice or degenerate'
        seen.add(key)
        if not {T.n, 0} <= {F.at[x][0] for x in key}:
            return 'a fine element does not join a coarse vertex and a coarse center'
        for c in itertools.product((0, 1), repeat=n):
            s = 1
            M = []
            for a in range(n):
                d = list(c)
                d[a] = 1 - c[a]
                s *= -1 if c[a] else 1
                M.append([x - y for x, y in zip(F.pos[e[tuple(d)]], F.pos[e[c]])])
            v = s * det(M)
            if v == 0:
                return 'a fine element is degenerate'
            signs.add((v > 0) == (pv > 0))
        for a in range(n):
            for s in (0, 1):
                f = frozenset(np.take(e, s, axis=a).ravel().tolist())
                facets.setdefault(f, []).append(r)
    # (the cubes of a tetrahedron are not oriented alike; fix_orientation has to follow)
    if signs != {True} and (T.kind == 'cubical' or n <= 2):
        return 'the fine elements are oriented opposite to the coarse element'
    for f, rs in facets.items():
        inner = not any_face(T, [F.sup[v] for v in f])
        if len(rs) != (2 if inner else 1):
            return 'fine elements overlap or do not meet: a facet belongs to %d fine elements' % len(rs)


def transfers(T, F, E, ts):
    if len(ts) != T.n + 1:
        raise Undecided('%d transfer operators seen' % len(ts))
    for n, t in enumerate(ts):
        m = transfer(T, F, E, n, t)
        if m:
            return m


def transfer(T, F, E, n, t):
    if len(t) != 3:
        raise Undecided('transfer operator')
    f, c, shape = t
    f, c = np.ravel(f).tolist(), np.ravel(c).tolist()
    fine = np.asarray(E[n]).reshape(len(E[n]), -1)
    if [int(x) for x in np.ravel(shape)] != [len(fine), len(T.E[n])]:
        return 'the transfer operator of dimension %d has the wrong shape' % n
    want = set()
    for i, e in enumerate(fine.tolist()):
        u = frozenset().union(*[F.sup[v] for v in e])
        for j in range(len(T.E[n])):
            if u <= T.support(n, j) and (n or F.at[e[0]][0] == 0):
                want.add((i, j))
    if len(f) != len(c) or len(set(zip(f, c))) != len(f) or set(zip(f, c)) != want:
        return 'the transfer operator of dimension %d does not relate each fine element to the coarse element that contains it' % n


def product(P, R):
    for a, b in ((1, 1), (1, 2), (2, 1)):
        def t(a=a, b=b):
            A, B = cubical(a), cubical(b)
            s = P.run(lambda w: w.meth(P.topology(A), 'product', P.topology(B)))
            E = P.value(P.w.get(s, 'elements'))
            m = chain_check(E, *whole(P, P.w, s)[1:])
            if m:
                return m
            top = np.asarray(E[-1])
            if len(top) != len(A.E[a]) * len(B.E[b]):
                return 'the number of elements is not the product'
            na = len(A.pos)
            seen = set()
            for e in top:
                base = [e[(0,) * (a + b)] % na, e[(0,) * (a + b)] // na]
                ia = np.array(e % na)
                ib = np.array(e // na)
                ea = ia[(slice(None),) * a + (0,) * b]
                eb = ib[(0,) * a]
                fa = [i for i, x in enumerate(A.E[a]) if np.array_equal(x, ea)]
                fb = [i for i, x in enumerate(B.E[b]) if np.array_equal(x, eb)]
                if not fa or not fb:
                    return 'an element is not the product of two elements'
                if not (ia == ea.reshape(ea.shape + (1,) * b)).all() or not (ib == eb).all():
                    return 'an element is not the product of two elements'
                seen.add((fa[0], fb[0]))
            if len(seen) != len(top):
                return 'a pair of elements is listed twice'
        R.check('product %dx%d' % (a, b), TC + 'TopologyCubical.product', t)
