"""C04: orientation tables, boundary operators and their composition."""
import itertools
import numpy as np
from .templates import Prop, Report, Undecided, Template, simplicial, cubical, parity, relative_parity, cube_parity, findings
from .values import Arr, C, TERMS
from .algebra import Alg, Unknown

TS, TC, TU, MC = 'topology.simplicial.', 'topology.cubical.', 'topology.util.', 'math.combinatorial.'


def run(repo, tier):
    P, R = Prop(repo), Report()
    big = tier == 'thorough'
    permutation_tables(P, R, 5 if big else 4)
    boundary_tables(P, R, 7 if big else 6)
    constructors(P, R)
    subdivided_orientation(P, R)
    chains(P, R)
    signs(P, R)
    boundary_selection(P, R)
    return P, R


# ------------------------------------------------------------------------------------------------ permutations
def permutation_tables(P, R, top):
    for n in range(1, top + 1):
        def t(n=n):
            v = P.table(lambda w: w.fn(MC + 'permutations', w.lst(list(range(n)), 'list')))
            v = [(int(p), [int(x) for x in q]) for p, q in v]
            if sorted(tuple(q) for _, q in v) != sorted(itertools.permutations(range(n))):
                return 'the %d arrangements listed are not the %d permutations' % (len(v), len(list(itertools.permutations(range(n)))))
            b = [q for p, q in v if p != parity(q)]
            return 'wrong parity for the permutation %s' % b[0] if b else None
        R.check('permutations(%d)' % n, MC + 'permutations', t)
        for d in (0, 1):
            # the parity is documented for the choice of one axis only (the boundary operators use no other)
            def t(n=n, d=d):
                v = P.table(lambda w: w.fn(MC + 'combinations', w.lst(list(range(n)), 'list'), d))
                v = [(int(p), [int(x) for x in q]) for p, q in v]
                if sorted(tuple(q) for _, q in v) != sorted(itertools.combinations(range(n), d)):
                    return 'the %d selections listed are not the combinations' % len(v)
                b = [q for p, q in v if p != parity(q + [x for x in range(n) if x not in q])]
                return 'wrong parity for the combination %s' % b[0] if b else None
            R.check('combinations(%d,%d)' % (n, d), MC + 'combinations', t)
    for n in range(0, top):
        def t(n=n):
            par, perm = P.table(lambda w: w.fn(TS + 'permutation_map', n))
            if sorted(map(tuple, perm.tolist())) != sorted(itertools.permutations(range(n + 1))):
                return 'the table does not list every permutation of the corners once'
            b = [q for p, q in zip(par.tolist(), perm.tolist()) if p != parity(q)]
            return 'wrong parity for the corner permutation %s' % b[0] if b else None
        R.check('simplex permutation_map(%d)' % n, TS + 'permutation_map', t)

        def t(n=n):
            q = list(itertools.permutations(range(n + 1)))
            par = P.table(lambda w: w.fn(TS + 'relative_simplex_parity', P.const(q, 'sign')))
            b = [x for p, x in zip(par.tolist(), q) if p != parity(x)]
            return 'wrong parity for the corner permutation %s' % (b[0],) if b else None
        R.check('relative_simplex_parity(%d)' % n, TS + 'relative_simplex_parity', t)
    for n in range(1, 4):
        ref = np.arange(2 ** n).reshape((2,) * n)
        for rot in (True, False):
            def t(n=n, ref=ref, rot=rot):
                par, perm = P.table(lambda w: w.fn(TC + 'permutation_map', n, rotations=rot))
                want = len(list(itertools.permutations(range(n)))) * 2 ** n if rot else 2 ** n
                if len(set(map(tuple, perm.tolist()))) != want or len(perm) != want:
                    return 'the table has %d different entries, the cube has %d symmetries' % (len(set(map(tuple, perm.tolist()))), want)
                for p, q in zip(par.tolist(), perm.tolist()):
                    s = cube_parity(np.array(q).reshape(ref.shape), ref)
                    if s is None:
                        return '%s is not a symmetry of the cube' % q
                    if s != p:
                        return 'wrong parity for the cube symmetry %s' % q
            R.check('cube permutation_map(%d,%s)' % (n, rot), TC + 'permutation_map', t)

        def t(n=n, ref=ref):
            qs = []
            for ax in itertools.permutations(range(n)):
                for fl in itertools.product((0, 1), repeat=n):
                    a = np.transpose(ref, ax)
                    for i, f in enumerate(fl):
                        a = np.flip(a, axis=i) if f else a
                    qs.append(a)
            par = P.table(lambda w: w.fn(TC + 'relative_cube_parity', P.const(np.array(qs), 'sign')))
            b = [q for p, q in zip(par.tolist(), qs) if p != cube_parity(q, ref)]
            return 'wrong parity for the cube symmetry %s' % b[0].ravel().tolist() if b else None
        R.check('relative_cube_parity(%d)' % n, TC + 'relative_cube_parity', t)

    def t():
        v = P.table(lambda w: w.fn(TU + 'parity_to_orientation', P.const([0, 1, 1, 0], 'sign'))).tolist()
        return None if sorted(set(v)) == [-1, 1] and v[0] == v[3] != v[1] == v[2] else 'parities 0,1 become the signs %s' % v[:2]
    R.check('parity_to_orientation', TU + 'parity_to_orientation', t)

    def t():
        v = P.table(lambda w: w.fn(TU + 'orientation_to_parity', P.const([-1, 1, 7, -9], 'int'))).tolist()
        return None if bool(v[0]) != bool(v[1]) and bool(v[2]) == bool(v[1]) and bool(v[3]) == bool(v[0]) else 'signs -,+,+,- become the parities %s' % v
    R.check('orientation_to_parity', TU + 'orientation_to_parity', t)


# ------------------------------------------------------------------------------------------------ boundaries
def boundary_tables(P, R, top):
    for n in range(2, top + 1):
        def t(n=n):
            lab = [list(range(n + 1)), [7, 3, 9, 1, 5, 12, 4, 8][:n + 1]]
            b = P.table(lambda w: w.fn(TS + 'generate_simplex_boundary', P.const(lab)))
            if b.shape != (2, n + 1, n):
                return 'the table has shape %s' % (b.shape,)
            for l, fs in zip(lab, b.tolist()):
                signs = set()
                for c, f in enumerate(fs):
                    want = [x for i, x in enumerate(l) if i != c]
                    s = relative_parity(f, want)
                    if s is None:
                        return 'face %d of a %d-simplex is not the face opposite of corner %d' % (c, n, c)
                    signs.add((s + c) % 2)
                if n > 1 and len(signs) > 1:
                    return 'the faces of a %d-simplex are not oriented consistently (the boundary of the boundary does not vanish)' % n
        R.check('simplex boundary(%d)' % n, TS + 'generate_simplex_boundary', t)
    for n in range(1, min(top, 4) + 1):
        lab = np.stack([np.arange(2 ** n), 40 - np.arange(2 ** n)]).reshape((2,) + (2,) * n)

        def t(n=n, lab=lab):
            b = P.table(lambda w: w.fn(TC + 'generate_cube_boundary', P.const(lab)))
            if b.shape != (2, n, 2) + (2,) * (n - 1):
                return 'the table has shape %s' % (b.shape,)
            for l, fs in zip(lab, b):
                signs = set()
                for i in range(n):
                    for s in (0, 1):
                        want = np.take(l, s, axis=i)
                        if n == 1:
                            if int(fs[i, s]) != int(want):
                                return 'the end points of an edge are swapped'
                            continue
                        p = cube_parity(fs[i, s], want)
                        if p is None:
                            return 'face (%d,%d) of a %d-cube is not the face of its axis and side' % (i, s, n)
                        signs.add((p + i + s) % 2)
                if len(signs) > 1:
                    return 'the faces of a %d-cube are not oriented consistently (the boundary of the boundary does not vanish)' % n
        R.check('cube boundary(%d)' % n, TC + 'generate_cube_boundary', t)
        for d in range(1, n):
            for mirror in (True, False):
                def t(n=n, d=d, lab=lab, mirror=mirror):
                    b, c = P.table(lambda w: w.fn(TC + 'generate_cube_boundary', P.const(lab), degree=d, return_corners=True, mirror=mirror))
                    cs = [tuple(x) for x in np.asarray(c).tolist()]
                    if sorted(cs) != sorted(x for x in itertools.product((0, 1), repeat=n) if sum(x) == d):
                        return 'the corner table does not list every choice of %d axes' % d
                    for l, fs in zip(lab, b):
                        for x, f in zip(cs, fs):
                            axes = [i for i in range(n) if x[i]]
                            for side in itertools.product((0, 1), repeat=d):
                                sl = [slice(None)] * n
                                for a, s in zip(axes, side):
                                    sl[a] = s
                                if sorted(f[side].ravel().tolist()) != sorted(l[tuple(sl)].ravel().tolist()):
                                    return 'sub-cube of axes %s, sides %s has the wrong corners' % (axes, side)
                                if cube_parity(f[side], l[tuple(sl)]) is None:
                                    return 'sub-cube of axes %s, sides %s is twisted' % (axes, side)
                R.check('cube boundary(%d,degree=%d,mirror=%s)' % (n, d, mirror), TC + 'generate_cube_boundary', t)


# ------------------------------------------------------------------------------------------------ constructors
def matrix_of(B, O, n_low):
    M = np.zeros((n_low, len(B)), int)
    for j, (b, o) in enumerate(zip(B, O)):
        for r, s in zip(np.ravel(b), np.ravel(o)):
            M[r, j] += s
    return M


def chain_check(E, B, O):
    n = len(B)
    if len(O) != n or len(E) != n + 1:
        return 'the lists of elements, boundaries and orientations do not match'
    Ms = []
    for k in range(n):
        b, o = np.asarray(B[k]), np.asarray(O[k])
        if b.shape != o.shape:
            return 'boundary and orientation of dimension %d have different shapes' % (k + 1)
        if not set(o.ravel().tolist()) <= {-1, 1}:
            return 'orientations other than -1 and 1'
        if b.min() < 0 or b.max() >= len(E[k]):
            return 'a boundary index outside the %d-elements' % k
        Ms.append(matrix_of(b, o, len(E[k])))
        if len(b) != len(E[k + 1]):
            return '%d boundaries for %d elements of dimension %d' % (len(b), len(E[k + 1]), k + 1)
        for e, fs in zip(np.asarray(E[k + 1]), b.reshape(len(b), -1)):
            u = set()
            for f in fs:
                v = set(np.ravel(np.asarray(E[k])[f]).tolist())
                if not v <= set(e.ravel().tolist()):
                    return 'an element of dimension %d is bounded by an element that does not share its vertices' % (k + 1)
                u |= v
            if u != set(e.ravel().tolist()):
                return 'the boundary of an element of dimension %d misses some of its vertices' % (k + 1)
    if n and (Ms[0].sum(axis=0) != 0).any():
        return 'the ends of an edge do not have opposite signs'
    for k in range(n - 1):
        if Ms[k].dot(Ms[k + 1]).any():
            return 'the boundary of the boundary of dimension %d does not vanish' % (k + 2)


def whole(P, w, s):
    return [P.value(w.get(s, a)) for a in ('elements', '_boundary', '_orientation')]


def constructors(P, R):
    for kind, make, ns in (('simplicial', simplicial, (1, 2, 3)), ('cubical', cubical, (1, 2, 3))):
        for n in ns:
            T = make(n)

            def t(T=T):
                m = chain_check(T.E, T.B, T.O)
                if m:
                    raise Undecided('template: ' + m)
                return None
            R.check('template %s %d' % (kind, n), '', t)

            def t(T=T, kind=kind, n=n):
                cls = P.w.klass((TS + 'TopologySimplicial') if kind == 'simplicial' else (TC + 'TopologyCubical'))
                f = P.eng.getattr(cls, 'from_simplices' if kind == 'simplicial' else 'from_cubes', P.w.st, None)
                s = P.run(lambda w: P.eng.call(f, [P.const(np.array(T.tops))], {}, w.st, None))
                return chain_check(*whole(P, P.w, s))
            R.check('from_elements %s %d' % (kind, n), (TS + 'TopologySimplicial.from_simplices') if kind == 'simplicial' else (TC + 'TopologyCubical.from_cubes'), t)


def variants(T):
    """the same triangle(s) with every choice of direction of the shared edges"""
    n1 = len(T.E[1])
    for flips in itertools.product((0, 1), repeat=n1):
        E = [e.copy() for e in T.E]
        O = [o.copy() for o in T.O]
        B = [b.copy() for b in T.B]
        for i, f in enumerate(flips):
            if f:
                E[1][i] = E[1][i][::-1]
                B[0][i] = B[0][i][::-1]
                O[1][B[1] == i] *= -1
        yield E, B, O


class Raw(object):
    def __init__(self, T, E, B, O):
        self.kind, self.n, self.E, self.B, self.O = T.kind, T.n, E, B, O


def subdivided_orientation(P, R):
    # direct loop subdivision assembles the signs itself
    T = simplicial(2, two=False)

    def t():
        for E, B, O in variants(T):
            s = P.run(lambda w: w.meth(P.topology(Raw(T, E, B, O)), 'subdivide_loop_direct'))
            m = chain_check(*whole(P, P.w, s))
            if m:
                return m
    R.check('subdivide_loop_direct', TS + 'TopologyTriangular.subdivide_loop_direct', t)


# ------------------------------------------------------------------------------------------------ chain complexes
def items_of(P, v):
    l = P.eng.lst(P.w.st, v) if not isinstance(v, Arr) else None
    if l is None or l.items is None:
        raise Undecided('list of operators')
    return list(l.items)


def words(m):
    return {w for x in m[2].values() for w in x}


def chains(P, R):
    for kind in ('simplicial', 'cubical'):
        for n in (1, 2, 3):
            state = {}

            def setup(w, kind=kind, n=n):
                t = w.topology(kind, n, 'T', False)
                eng = P.eng
                term = lambda x: eng.content(x, w.st).term
                Ts = [term(x) for x in items_of(P, w.get(t, 'matrices'))]
                Ss = [term(x) for x in items_of(P, w.get(t, 'selector_boundary'))]
                b = w.get(t, 'boundary')
                Bs = [term(x) for x in items_of(P, w.get(b, 'matrices'))] if n > 1 else []
                N = ['T.N%d' % k for k in range(n + 1)]
                names = {}
                for k, x in enumerate(Ts):
                    names[x] = ('T%d' % k, None, None)
                for k, x in enumerate(Bs):
                    names[x] = ('B%d' % k, None, None)
                for k, x in enumerate(Ss[:n]):
                    names[x] = ('S%d' % k, None, None)
                rules = []
                for a, q in (('T', n), ('B', n - 1)):
                    for k in range(q - 1):
                        rules.append((((a + str(k), False), (a + str(k + 1), False)), {}))
                        rules.append((((a + str(k + 1), True), (a + str(k), True)), {}))
                for k in range(n):
                    s0, s1 = 'S%d' % k, 'S%d' % (k + 1)
                    rules.append((((s0, False), (s0, True)), {(): 1}))
                    if k + 1 < n:
                        rules.append((((('T%d' % k), False), (s1, True)), {((s0, True), ('B%d' % k, False)): 1}))
                        rules.append(((((s1), False), ('T%d' % k, True)), {(('B%d' % k, True), (s0, False)): 1}))
                alg = Alg(names, rules)
                alg.positive = ('S',)
                return t, alg

            def known(alg, m):
                names = {v[0] for v in alg.names.values()}
                names |= {'|%s|' % x for x in names}
                return all(a in names for w in words(m) for a, _ in w)

            def t(n=n, setup=setup, known=known):
                def go(w):
                    t, alg = setup(w)
                    D = [alg.term(P.eng.content(x, w.st).term) for x in items_of(P, w.get(w.get(t, 'dual'), 'matrices'))]
                    if len(D) != n:
                        return 'the dual chain has %d operators' % len(D)
                    for k in range(n - 1):
                        m = alg.reduce(alg.mul(D[k], D[k + 1]))
                        if m[2]:
                            if not known(alg, m):
                                raise Undecided('unknown operator in the product')
                            return 'the boundary of the boundary does not vanish for dual elements of dimension %d' % (k + 2)
                    return None
                try:
                    return P.run(go)
                except Unknown as e:
                    raise Undecided(str(e))
            R.check('dual chain %s %d' % (kind, n), 'topology.dual.Dual.matrices', t)

            def t(n=n, setup=setup, known=known):
                def go(w):
                    t, alg = setup(w)
                    d = w.get(t, 'dual')
                    D = [alg.term(P.eng.content(x, w.st).term) for x in items_of(P, w.get(d, 'matrices_2'))]
                    for k, m in enumerate(D):
                        m = alg.reduce(m)
                        x = m[2].get((0, 0), {})
                        want = {(('T%d' % (n - 1 - k), True),): 1}
                        if x != want:
                            if not known(alg, m):
                                raise Undecided('unknown operator')
                            return 'the dual derivative %d is not the transpose of the primal one on interior elements' % k
                    return None
                try:
                    return P.run(go)
                except Unknown as e:
                    raise Undecided(str(e))
            R.check('dual derivative %s %d' % (kind, n), 'topology.dual.Dual.matrices_2', t)

            def t(kind=kind, n=n):
                def go(w):
                    t = w.topology(kind, n, 'T', True)
                    term = lambda x: P.eng.content(x, w.st).term
                    alg = Alg({term(x): ('T%d' % k, None, None) for k, x in enumerate(items_of(P, w.get(t, 'matrices')))})
                    for a in ('matrices', 'matrices_2'):
                        D = [alg.term(term(x)) for x in items_of(P, w.get(w.get(t, 'dual'), a))]
                        for k, m in enumerate(D):
                            x = m[2].get((0, 0), {})
                            if x != {(('T%d' % (n - 1 - k), True),): 1}:
                                if any(not v.strip('|').startswith('T') for y in words(m) for v, _ in y):
                                    raise Undecided('unknown operator')
                                return 'the dual operator %d of a closed topology is not the transpose of the primal one' % k
                    return None
                try:
                    return P.run(go)
                except Unknown as e:
                    raise Undecided(str(e))
            R.check('closed dual %s %d' % (kind, n), 'topology.dual.ClosedDual.matrices', t)


def signs(P, R):
    """the incidence matrices carry the orientation signs"""
    from .world import arr
    from . import dims
    S = dims.sym

    def t():
        def go(w):
            e = arr('elements', (S('M'), 3), 'index', facts=[('into', S('N'))])
            o = arr('orientations', (S('M'), 3), 'sign', lin=(('o', 'L'),))
            return w.fn(TU + 'topology_matrix', e, o)
        r = P.run(go)
        return sign_msg(P, r)
    R.check('topology_matrix', TU + 'topology_matrix', t)
    for kind in ('simplicial', 'cubical'):
        for n in (1, 2, 3):
            def t(kind=kind, n=n):
                def go(w):
                    t = w.topology(kind, n, 'T', True)
                    for x in items_of(P, w.eng.getattr(t, '_orientation', w.st, None)):
                        w.eng.write_arr(w.st, x, w.eng.content(x, w.st).rep(lin=(('o', 'L'),)), strong=True)
                    return items_of(P, w.get(t, 'matrices'))
                for x in P.run(go):
                    m = sign_msg(P, x)
                    if m:
                        return m
            R.check('matrices %s %d' % (kind, n), 'topology.primal.PrimalTopology.matrices', t)


def sign_msg(P, r):
    if not isinstance(r, Arr):
        raise Undecided('not an operator')
    c = P.eng.content(r, P.w.st)
    if c.lin is None:
        raise Undecided('dependence on the orientation unknown')
    d = dict(c.lin)
    if d.get('o') == 'L':
        return None
    if d.get('o') is None:
        return 'the orientation signs do not reach the incidence matrix'
    if d.get('o') == 'N':
        return 'the incidence matrix does not carry the orientation signs as they are'
    raise Undecided(str(d))


# ------------------------------------------------------------------------------------------------ which faces bound
class Rows(object):
    """evaluates an expression over the incidence matrix of the top dimension for one face with a given row of signs"""

    def __init__(self, coo, row):
        self.coo, self.row = coo, row

    def __call__(self, t):
        if t == self.coo:
            return list(self.row)
        k = TERMS.get(t)
        op = k[0]
        if op == 'full' and TERMS.get(k[-1])[0] == 'const':
            return ('all', TERMS.get(k[-1])[1])
        if op == 'const':
            return k[1]
        if op in ('flatten', 'array', 'asarray', 'astype', 'copy', 'dense', 'squeeze', 'csr', 'csc', 'coo') and len(k) == 2:
            return self(k[1])
        if op in ('abs', 'neg', 'sign', 'bool') and len(k) == 2:
            f = {'abs': abs, 'neg': lambda x: -x, 'sign': lambda x: (x > 0) - (x < 0), 'bool': bool}[op]
            v = self(k[1])
            return [f(x) for x in v] if isinstance(v, list) else f(v)
        if op == 'mm' and len(k) == 3:
            a, b = self(k[1]), self(k[2])
            if isinstance(a, list) and isinstance(b, tuple):
                return sum(a) * b[1]
        if op == 'sum' and k[2:] in ((1,), (-1,)):
            a = self(k[1])
            if isinstance(a, list):
                return sum(a)
        if op == 'getnnz' and k[2:] in ((1,), (-1,)):
            a = self(k[1])
            if isinstance(a, list):
                return len(a)
        if op in ('Eq', 'NotEq', 'Gt', 'Lt', 'GtE', 'LtE') and len(k) == 3:
            a, b = self(k[1]), self(k[2])
            if not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
                return {'Eq': a == b, 'NotEq': a != b, 'Gt': a > b, 'Lt': a < b, 'GtE': a >= b, 'LtE': a <= b}[op]
        raise Undecided('operator ' + str(op))


def boundary_selection(P, R):
    for kind in ('simplicial', 'cubical'):
        for n in (1, 2, 3):
            def t(kind=kind, n=n):
                seen = []

                def hook(eng, st, a, kw, node):
                    if len(a) == 1 and isinstance(a[0], Arr):
                        seen.append(eng.content(a[0], st).term)
                    return NotImplemented
                names = ('numpy.flatnonzero', 'numpy.nonzero', 'numpy.where', 'numpy.argwhere')
                for x in names:
                    P.eng.hooks['ext:' + x] = hook
                try:
                    def go(w):
                        t = w.topology(kind, n, 'T', 'raw')
                        coo = P.eng.content(items_of(P, w.get(t, 'matrices'))[-1], w.st).term
                        del seen[:]
                        w.get(t, 'boundary')
                        return coo
                    coo = P.run(go)
                finally:
                    for x in names:
                        P.eng.hooks.pop('ext:' + x, None)
                msg, why = None, 'selection not recognised'
                for x in seen:
                    try:
                        one = [bool(Rows(coo, [s])(x)) for s in (1, -1)]
                        two = [bool(Rows(coo, [s, -s])(x)) for s in (1, -1)]
                    except Undecided as e:
                        why = str(e)
                        continue
                    if all(one) and not any(two):
                        return None
                    msg = 'a face between two oppositely signed neighbours is selected as part of the boundary' if any(two) else 'a face with a single neighbour is not selected as part of the boundary'
                if msg:
                    return msg
                raise Undecided(why)
            R.check('boundary selection %s %d' % (kind, n), 'topology.primal.PrimalTopology.boundary', t)
