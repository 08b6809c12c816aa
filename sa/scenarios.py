"""The analysed entry points: every public operation of the library applied to symbolic inputs.

The table is fixed (it does not follow the private structure of the code): each scenario names a
public operation and the documented kinds of its arguments.  `groups()` yields independent groups;
`Group.scenarios(w)` yields (name, thunk) pairs sharing the symbolic objects of one world."""
import re
from . import dims
from .values import (Arr, C, ListV, Inst, DictV, BoundV, FuncV, ClassV, Prop, Top, ANY, AbsRaise, Union, TERMS)
from .world import World, arr
from .loader import AnalysisBroken

S = dims.sym
SP = 'complex.simplicial.'
GEO = ('geometry',)


class Missing(Exception):
    """the operation a scenario names does not exist in the source"""


class W(World):
    """world with short-hand calls"""

    def get(self, o, name):
        if isinstance(o, Inst) and not has_member(self.eng, o, name):
            raise Missing('%s.%s' % (o.cls.name, name))
        return self.eng.getattr(o, name, self.st, None)

    def some(self, v):
        """the result that is not None"""
        if isinstance(v, Union):
            vs = [x for x in v.alts if x is not None]
            if len(vs) == 1:
                return vs[0]
        return v

    def meth(self, o, name, *a, **k):
        f = self.get(o, name)
        return self.eng.call(f, list(a), k, self.st, None)

    def ev(self, o, name, *a, **k):
        """attribute value, or result of the zero-argument method"""
        f = self.get(o, name)
        if isinstance(f, (BoundV, FuncV)):
            return self.eng.call(f, list(a), k, self.st, None)
        return f

    def fn(self, qual, *a, **k):
        try:
            f = self.func(qual)
        except (AnalysisBroken, KeyError):
            raise Missing(qual)
        return self.eng.call(f, list(a), k, self.st, None)

    def klass(self, qual):
        try:
            return self.cls(qual)
        except (AnalysisBroken, KeyError):
            raise Missing(qual)

    def make(self, qual, *a, **k):
        return self.eng.instantiate(self.klass(qual), list(a), k, self.st, None)

    def ndim(self, o):
        return self.eng.getattr(o, 'n_dim', self.st, None)

    def N(self, t, k):
        return self.eng.getitem(self.eng.getattr(t, 'n_elements', self.st, None), k, self.st, None)

    def tup(self, *a):
        return self.eng.mklist(self.st, list(a), 'tuple')

    def dict(self, d):
        from .values import DC
        from .values import DictV as DV
        v = DV()
        self.st.store[v.loc] = DC(dict(d))
        return v


def has_member(eng, o, name):
    for k in o.cls.mro:
        if isinstance(k, ClassV) and name in k.ns:
            return True
    return True     # instance attributes: let the engine decide


def points(P, dim, name='points', dtype='float'):
    return arr(name, (P, dim), dtype, deg=1, tr=1, taint=GEO)


def form(name, n, lin=True, dtype='float', extra=()):
    return arr(name, (n,) + tuple(extra), dtype, deg=0, tr=0, lin=((name, 'L'),) if lin else ())


def idx(name, n, into, facts=()):
    return arr(name, (n,), 'index', facts=[('into', into), 'nonneg'] + list(facts))


class Group(object):
    def __init__(self, name, build):
        self.name = name
        self.build = build

    def scenarios(self, w):
        return self.build(w)


GROUPS = []

# operations a configuration does not offer (regular expressions on group and scenario name)
SKIP = [(re.compile(a + '$'), re.compile(b + '$'), why) for a, b, why in (
    (r'complex/ComplexCubical\d\d/.*', r'as_regular', 'only the typed cubical complexes cast to regular ones'),
    (r'.*', r'dual\.elements', 'abstract for the dual of a topology with boundary'),
    (r'topology/(cubical|simplicial).*', r'dual\.transfer_matrices', 'needs a topology that was obtained by subdivision'),
    (r'topology/simplicial[14]/.*', r'subdivide_cubical.*', 'cubical subdivision exists for triangles and tetrahedra'),
    (r'topology/simplicial\d/.*', r'subdivide_cubical\.parent', 'cubical subdivision of simplices keeps no parent'),
    (r'complex/Complex(SimplicialEuclidian1|Circular1).*', r'subdivide_cubical.*', 'cubical subdivision exists for triangles and tetrahedra'),
    (r'topology/cubical.*', r'subdivide_octohedral', 'declared as not implemented'),
    (r'complex/ComplexSpherical334/.*', r'unsigned_volume\(2\)', 'declared as not implemented on the 3-sphere'),
    (r'complex/(Complex(Circular|Spherical)|integer-vertices/spherical).*', r'translate', 'translation leaves the sphere'),
    (r'synthetic', r'n_cube_dual\(1\)', 'the dual of an interval boundary has no topology'),
)]


def skipped(group, name):
    return any(a.match(group) and b.match(name) for a, b, _ in SKIP)


def group(name):
    def d(f):
        GROUPS.append(Group(name, f))
        return f
    return d


def add_group(name, f):
    GROUPS.append(Group(name, f))


# ------------------------------------------------------------------------------------ topology
TOPO_ZERO = ('matrices corners n_elements dual averaging_operators_0 averaging_operators_N degree '
             'selector_interior selector_boundary is_oriented regions_per_vertex label_connections is_connected '
             'check_manifold is_manifold check_chain accumulated_operators_0 accumulated_operators_N elements '
             'incidence is_closed fix_orientation relative_parity split_connected_components '
             'subdivide_fundamental fundamental_domains subdivide_cubical').split()
SIMP_ZERO = ['subdivide_simplicial']
TRI_ZERO = ['subdivide_loop', 'subdivide_loop_direct', 'face_edge', 'edge_vertex', 'vertices', 'edges', 'triangles',
            'n_vertices', 'n_edges', 'n_triangles', 'as_2']
CUB_ZERO = ['cube_shape', 'cube_corners', 'cubical_domains', 'subdivide_octohedral']
DUAL_ZERO = ('n_dim n_elements matrices matrices_2 selector_interior selector_boundary transfer_matrices '
             'averaging_operators_0 averaging_operators_N accumulated_operators_0 accumulated_operators_N '
             'p_elements d_elements i_elements elements').split()
CDUAL_ZERO = ('n_dim n_elements matrices matrices_2 selector_interior selector_boundary '
              'averaging_operators_0 averaging_operators_N accumulated_operators_0 accumulated_operators_N').split()


def topo_scenarios(kind, n, closed):
    def f(w):
        t = w.topology(kind, n, 'T', closed)
        Ns = [S('T.N%d' % k) for k in range(n + 1)]
        zero = list(TOPO_ZERO)
        if kind == 'simplicial':
            zero += SIMP_ZERO + (TRI_ZERO if n == 2 else [])
            if n == 1:
                zero.remove('subdivide_cubical') if False else None
        else:
            zero += CUB_ZERO
        for a in zero:
            yield a, lambda w, a=a: w.ev(t, a)
        d = lambda w: w.get(t, 'dual')
        for a in (CDUAL_ZERO if closed else DUAL_ZERO):
            yield 'dual.' + a, lambda w, a=a: w.ev(d(w), a)
        for k in range(-1, n + 1):
            yield 'chain(%d)' % k, lambda w, k=k: w.meth(t, 'chain', k)
            yield 'chain(%d, fill)' % k, lambda w, k=k: w.meth(t, 'chain', k, fill=1)
            yield 'range(%d)' % k, lambda w, k=k: w.meth(t, 'range', k)
            yield 'form(%d)' % k, lambda w, k=k: w.meth(t, 'form', k)
            yield 'dual.form(%d)' % k, lambda w, k=k: w.meth(d(w), 'form', k)
            yield 'dual.chain(%d)' % k, lambda w, k=k: w.meth(d(w), 'chain', k)
        for k in range(n):
            yield 'matrix(%d)' % k, lambda w, k=k: w.meth(t, 'matrix', k)
            yield 'getitem(%d)' % k, lambda w, k=k: w.eng.getitem(t, k, w.st, None)
            yield 'dual.getitem(%d)' % k, lambda w, k=k: w.eng.getitem(d(w), k, w.st, None)
        yield 'matrix(-1)', lambda w: w.meth(t, 'matrix', -1)
        chain = arr('n_chain', (Ns[-1],), 'bool')
        yield 'select_subset', lambda w: w.meth(t, 'select_subset', chain)
        yield 'select_subset.parent_idx', lambda w: w.get(w.meth(t, 'select_subset', chain), 'parent_idx')
        if kind == 'cubical':
            yield 'find_correspondence', lambda w: w.meth(t, 'find_correspondence', w.topology(kind, n, 'O', closed), idx('mapping', S('O.N0'), Ns[0]))
        if not closed:
            yield 'boundary', lambda w: w.get(t, 'boundary')
            raw = w.topology(kind, n, 'R', 'raw')
            yield 'raw.boundary', lambda w: w.get(raw, 'boundary')
            yield 'raw.is_closed', lambda w: w.get(raw, 'is_closed')
            yield 'raw.dual', lambda w: w.get(raw, 'dual')
            yield 'raw.selector_boundary', lambda w: w.get(raw, 'selector_boundary')
            yield 'raw.selector_interior', lambda w: w.get(raw, 'selector_interior')
            for a in ('parent', 'parent_idx', 'n_elements', 'elements', 'n_dim', 'matrices'):
                yield 'raw.boundary.' + a, lambda w, a=a: w.get(w.some(w.get(raw, 'boundary')), a)
        for how, kids in (('subdivide_fundamental', None), ('subdivide_cubical', None)):
            for a in ('n_elements', 'elements', 'transfer_matrices', 'parent', 'matrices', 'transfer_operators', 'corners'):
                if a == 'transfer_matrices' and not (kind == 'cubical' and how == 'subdivide_cubical'):
                    continue
                if a == 'transfer_operators':
                    continue
                yield '%s.%s' % (how, a), lambda w, a=a, how=how: w.get(w.meth(t, how), a)
        if kind == 'simplicial':
            yield 'subdivide_fundamental(False)', lambda w: w.meth(t, 'subdivide_fundamental', oriented=False)
            if n == 2:
                for a in ('n_elements', 'transfer_matrices', 'parent'):
                    yield 'subdivide_loop.' + a, lambda w, a=a: w.get(w.meth(t, 'subdivide_loop'), a)
                yield 'subdivide_loop_direct.n_elements', lambda w: w.get(w.meth(t, 'subdivide_loop_direct'), 'n_elements')
                yield 'subdivide_loop_direct_transfer', lambda w: w.meth(t, 'subdivide_loop_direct_transfer', t, w.meth(t, 'subdivide_loop_direct'))
        else:
            yield 'product(1)', lambda w: w.meth(t, 'product', w.topology('cubical', 1, 'O', closed))
            yield 'product(1).n_elements', lambda w: w.get(w.meth(t, 'product', w.topology('cubical', 1, 'O', closed)), 'n_elements')
            yield 'subdivide_cubical_relations', lambda w: w.meth(t, 'subdivide_cubical_relations', w.meth(t, 'subdivide_cubical'))
            if n == 2:
                yield 'as_2', lambda w: w.meth(t, 'as_2')
                yield 'as_2.subdivide_simplicial', lambda w: w.meth(w.meth(t, 'as_2'), 'subdivide_simplicial')
                yield 'as_2.subdivide_simplicial.transfer_operators', lambda w: w.get(w.meth(w.meth(t, 'as_2'), 'subdivide_simplicial'), 'transfer_operators')
                yield 'as_2.subdivide_simplicial.n_elements', lambda w: w.get(w.meth(w.meth(t, 'as_2'), 'subdivide_simplicial'), 'n_elements')
    return f


for _k, _ns in (('simplicial', (1, 2, 3, 4)), ('cubical', (1, 2, 3, 4))):
    for _n in _ns:
        for _c in (True, False):
            add_group('topology/%s%d/%s' % (_k, _n, 'closed' if _c else 'open'), topo_scenarios(_k, _n, _c))


@group('topology/levels')
def _(w):
    for kind in ('simplicial', 'cubical'):
        for n in (1, 2, 3):
            for closed in (False,):
                T, F = '%s%d.T' % (kind, n), '%s%d.F' % (kind, n)
                t, f = w.topology(kind, n, T, closed), w.topology(kind, n, F, closed)
                ms = [arr('transfer%d' % k, (S('%s.N%d' % (F, k)), S('%s.N%d' % (T, k))), 'sign', kind='sp') for k in range(n + 1)]
                w.preset(f, parent=t, transfer_matrices=w.lst(ms, label='param:transfer'))
                yield 'dual.transfer_matrices(%s%d)' % (kind, n), lambda w, f=f: w.get(w.get(f, 'dual'), 'transfer_matrices')


@group('topology/constructors')
def _(w):
    M, V = S('M'), S('V')
    for n in (1, 2, 3):
        simp = arr('simplices', (M, n + 1), 'index', facts=[('into', V)])
        yield 'from_simplices(%d)' % n, lambda w, s=simp: w.meth(w.klass('topology.simplicial.TopologySimplicial'), 'from_simplices', s)
        yield 'from_elements.simplicial(%d)' % n, lambda w, s=simp: w.meth(w.klass('topology.simplicial.TopologySimplicial'), 'from_elements', s)
        cub = arr('cubes', (M,) + (2,) * n, 'index', facts=[('into', V)])
        flat = arr('cubes', (M, 2 ** n), 'index', facts=[('into', V)])
        yield 'from_cubes(%d)' % n, lambda w, s=cub: w.meth(w.klass('topology.cubical.TopologyCubical'), 'from_cubes', s)
        yield 'from_elements.cubical(%d)' % n, lambda w, s=cub: w.meth(w.klass('topology.cubical.TopologyCubical'), 'from_elements', s)
        yield 'generate_simplex_boundary(%d)' % n, lambda w, s=simp: w.fn('topology.simplicial.generate_simplex_boundary', s)
        yield 'relative_simplex_parity(%d)' % n, lambda w, s=arr('permutation', (M, n + 1), 'sign'): w.fn('topology.simplicial.relative_simplex_parity', s)
        for d in range(1, n + 1):
            yield 'generate_cube_boundary(%d,%d)' % (n, d), lambda w, s=cub, d=d: w.fn('topology.cubical.generate_cube_boundary', s, degree=d)
        yield 'relative_cube_parity(%d)' % n, lambda w, s=arr('permutation', (M,) + (2,) * n, 'sign'): w.fn('topology.cubical.relative_cube_parity', s)
    par = arr('parity', (M, 3), 'bool')
    yield 'parity_to_orientation', lambda w: w.fn('topology.util.parity_to_orientation', par)
    yield 'orientation_to_parity', lambda w: w.fn('topology.util.orientation_to_parity', arr('o', (M, 3), 'sign'))
    yield 'indices', lambda w: w.fn('topology.util.indices', w.tup(M, 3))
    yield 'sort_and_argsort', lambda w: w.fn('topology.util.sort_and_argsort', arr('a', (M, 3), 'index'), 1)
    yield 'relative_permutations', lambda w: w.fn('topology.util.relative_permutations', arr('a', (M, 3), 'sign'), arr('b', (M, 3), 'sign'))
    yield 'transfer_matrix', lambda w: w.fn('topology.util.transfer_matrix', idx('r', S('L'), M), idx('c', S('L'), V), w.tup(M, V))
    yield 'topology_matrix', lambda w: w.fn('topology.util.topology_matrix', arr('e', (M, 3), 'index', facts=[('into', V)]), arr('o', (M, 3), 'sign'))
    yield 'selection_matrix', lambda w: w.fn('topology.util.selection_matrix', arr('s', (M,), 'bool'))
    yield 'element_indices', lambda w: w.fn('topology.util.element_indices', arr('this', (M, 3), 'index'), arr('that', (S('K'), 3), 'index'))


# ------------------------------------------------------------------------------------ complexes
CX_ZERO = ('box boundary fix_orientation copy dual_position smooth smooth_operator primal_position '
           'subdivide_cubical subdivide_fundamental n_dim').split()
METRIC_ZERO = ('metric primal_metric dual_metric hodge_PD hodge_DP positive_dual_metric is_well_centered '
               'is_pairwise_delaunay weighted_average_operators').split()


def cx_common(w, c, kind, n, dim, vname, sph, weighted, closed, metric=True, fdomain=True):
    T = 'x.T'
    Ns = [S(T + '.N%d' % k) for k in range(n + 1)]
    P = S('P')
    pts = points(P, dim)
    if sph:
        pts.c0 = pts.c0.rep(deg=0, tr=None)
    zero = list(CX_ZERO)
    if kind == 'simplicial' and n == 1 and False:
        zero.remove('subdivide_cubical')
    if n < 1:
        zero = []
    for a in zero:
        yield a, lambda w, a=a: w.ev(c, a)
    for a in ((METRIC_ZERO + ['dual_metric_closed'] if closed or n > 1 else METRIC_ZERO) if metric else ()):
        yield a, lambda w, a=a: w.ev(c, a)
    if metric:
        def flux(w):
            f = w.get(c, 'dual_flux_to_dual_velocity')
            return w.eng.call(f, [form('flux_d1', S(T + '.N%d' % (n - 1)), dtype='int' if w.eng.content(w.get(c, 'vertices'), w.st).dtype == 'int' else 'float')], {}, w.st, None)
        if closed:
            yield 'dual_flux_to_dual_velocity', flux
    yield 'select_subset', lambda w: w.meth(c, 'select_subset', arr('n_chain', (Ns[-1],), 'bool'))
    yield 'translate', lambda w: w.meth(c, 'translate', arr('vector', (dim,), 'float', deg=1, tr=0, taint=GEO))
    yield 'transform', lambda w: w.meth(c, 'transform', arr('M', (dim, dim), 'float', deg=0, tr=0))
    if not sph:
        yield 'affine_transform', lambda w: w.meth(c, 'affine_transform', arr('A', (dim + 1, dim + 1), 'float', deg=None, tr=None))
    yield 'scale', lambda w: w.meth(c, 'scale', arr('s', (), 'float', deg=0, tr=0, facts=['pyscalar', 'nonneg']))
    for k in range(n + 1):
        cre = lambda w, k=k: w.dict({k: arr('crease', (Ns[k],), 'sign')})
        if k < n:
            yield 'smooth(creases=%d)' % k, lambda w, cre=cre: w.meth(c, 'smooth', creases=cre(w))
            yield 'smooth_operator(creases=%d)' % k, lambda w, cre=cre: w.meth(c, 'smooth_operator', creases=cre(w))
    for k in range(1, n + 1):
        sh = (S('E'), k + 1, dim) if kind == 'simplicial' else None
        if sh and (not sph or k < 3):
            yield 'unsigned_volume(%d)' % k, lambda w, sh=sh: w.meth(c, 'unsigned_volume', arr('pts', sh, 'float', deg=0 if sph else 1, tr=None if sph else 1, taint=GEO))


def simp_scenarios(cq, n, dim, closed, weighted, sph, dtype='float'):
    def f(w):
        kw = dict(radius=True, vdeg=0, vtr='none') if sph else {}
        c = w.complex(SP + cq, 'simplicial', n, dim, closed=closed, weighted=weighted, dtype=dtype, **kw)
        Ns = [S('x.T.N%d' % k) for k in range(n + 1)]
        P = S('P')
        pts = points(P, dim)
        if sph:
            pts.c0 = pts.c0.rep(deg=0, tr=None)
        metric = cq != 'spherical.ComplexSpherical3'
        for s in cx_common(w, c, 'simplicial', n, dim, 'x', sph, weighted, closed, metric):
            if sph and cq == 'spherical.ComplexSpherical2' and not closed and s[0] in ('boundary', 'dual_metric_closed'):
                pass
            yield s
        yield 'primal_barycentric', lambda w: w.get(c, 'primal_barycentric')
        yield 'dual_edge_excess', lambda w: w.meth(c, 'dual_edge_excess')
        yield 'dual_edge_excess(False)', lambda w: w.meth(c, 'dual_edge_excess', signed=False)
        yield 'subdivide_simplicial', lambda w: w.meth(c, 'subdivide_simplicial')
        yield 'subdivide_fundamental(False)', lambda w: w.meth(c, 'subdivide_fundamental', oriented=False)
        if n == 2 or n == 1:
            yield 'subdivide_cubical.n_elements', lambda w: w.get(w.get(w.meth(c, 'subdivide_cubical'), 'topology'), 'n_elements')
        fld = arr('field', (Ns[-1], n + 1), 'float', deg=1, tr=0, lin=(('field', 'L'),))
        yield 'remap_boundary_N', lambda w: w.meth(c, 'remap_boundary_N', fld)
        yield 'remap_boundary_N(False)', lambda w: w.meth(c, 'remap_boundary_N', fld, oriented=False)
        yield 'remap_boundary_0', lambda w: w.meth(c, 'remap_boundary_0', fld)
        wts = w.weights(Ns[0], 'q')
        yield 'weights_to_offsets', lambda w: w.meth(c, 'weights_to_offsets', wts)
        vp = points(Ns[0], dim, 'vpoints')
        if not sph:
            yield 'augment', lambda w: w.meth(c, 'augment', vp)
            yield 'augment(weights)', lambda w: w.meth(c, 'augment', vp, wts)
        yield 'homogenize', lambda w: w.meth(c, 'homogenize', pts)
        for wt in (True, False):
            yield 'pick_primal_precomp(%s)' % wt, lambda w, wt=wt: w.meth(c, 'pick_primal_precomp', wt)
            yield 'pick_primal(weighted=%s)' % wt, lambda w, wt=wt: w.meth(c, 'pick_primal', pts, weighted=wt)
            yield 'pick_primal(hint,weighted=%s)' % wt, lambda w, wt=wt: w.meth(c, 'pick_primal', pts, simplex_idx=idx('simplex_idx', P, Ns[-1]), weighted=wt)
        yield 'pick_precompute', lambda w: w.get(c, 'pick_precompute')
        yield 'pick_dual', lambda w: w.meth(c, 'pick_dual', pts)
        yield 'pick_fundamental_precomp', lambda w: w.get(c, 'pick_fundamental_precomp')
        yield 'pick_fundamental', lambda w: w.meth(c, 'pick_fundamental', pts)
        yield 'sample_primal_0', lambda w: w.meth(c, 'sample_primal_0', form('p0', Ns[0], dtype=dtype), pts)
        if metric:
            for wt in (True, False):
                yield 'sample_dual_0(weighted=%s)' % wt, lambda w, wt=wt: w.meth(c, 'sample_dual_0', form('d0', w.N(w.get(w.get(c, 'topology'), 'dual'), 0), dtype=dtype), pts, weighted=wt)
        if sph or n == dim:
            yield 'pick_primal_brute', lambda w: w.meth(c, 'pick_primal_brute', pts)
        if not weighted:
            yield 'optimize_weights', lambda w: w.meth(c, 'optimize_weights')
            if metric:
                yield 'optimize_weights_metric', lambda w: w.meth(c, 'optimize_weights_metric')
            yield 'subdivide_fundamental.optimize_weights_fundamental', lambda w: w.meth(w.meth(c, 'subdivide_fundamental'), 'optimize_weights_fundamental')
        if not sph:
            if n == 1 and dim == 2 and False:
                yield 'as_cube', lambda w: w.meth(c, 'as_cube')
            yield 'as_spherical', lambda w: w.meth(c, 'as_spherical') if not (cq.endswith('ComplexSimplicialEuclidian')) or n == 2 else w.meth(c, 'as_spherical')
            if n == 2 and cq.endswith('ComplexSimplicialEuclidian') and dim == 2:
                yield 'as_2', lambda w: w.meth(c, 'as_2')
            if 'Triangular' in cq and dim in (2, 3):
                yield 'as_%d' % dim, lambda w: w.meth(c, 'as_%d' % dim)
        else:
            yield 'as_euclidian', lambda w: w.meth(c, 'as_euclidian')
        if cq == 'spherical.ComplexCircular':
            yield 'subdivide', lambda w: w.meth(c, 'subdivide')
        if cq == 'spherical.ComplexSpherical2':
            for s in ('subdivide_loop', 'subdivide_loop_direct'):
                yield s, lambda w, s=s: w.meth(c, s)
            yield 'subdivide_loop.primal_metric', lambda w: w.get(w.meth(c, 'subdivide_loop'), 'primal_metric')
            if closed:
                yield 'multigrid_transfer_dual', lambda w: w.meth(c, 'multigrid_transfer_dual', c, w.meth(c, 'subdivide_loop'))
                for s in ('coarse_to_fine', 'fine_to_coarse'):
                    yield s, lambda w, s=s: w.get(c, s)
                fine = w.complex(SP + cq, 'simplicial', n, dim, closed=True, weighted=weighted, name='y', sizes={n: dims.mul(4, Ns[n])}, **kw)
                yield 'multigrid_transfer_dual(declared fine)', lambda w: w.meth(c, 'multigrid_transfer_dual', c, fine)
        if 'Triangular' in cq:
            for s in ('compute_triangle_angles', 'compute_vertex_areas', 'compute_triangle_areas', 'subdivide_loop', 'subdivide_loop_operator'):
                yield s, lambda w, s=s: w.ev(c, s)
            if not weighted:
                yield 'compute_edge_ratio', lambda w: w.get(c, 'compute_edge_ratio')
            for sm in (True, False):
                yield 'subdivide_loop(smooth=%s)' % sm, lambda w, sm=sm: w.meth(c, 'subdivide_loop', smooth=sm)
                yield 'subdivide_loop_operator(smooth=%s)' % sm, lambda w, sm=sm: w.meth(c, 'subdivide_loop_operator', smooth=sm)
                for k in (0, 1):
                    cre = lambda w, k=k: w.dict({k: arr('crease', (Ns[k],), 'sign')})
                    yield 'subdivide_loop(smooth=%s,creases=%d)' % (sm, k), lambda w, sm=sm, cre=cre: w.meth(c, 'subdivide_loop', smooth=sm, creases=cre(w))
                    yield 'subdivide_loop_operator(smooth=%s,creases=%d)' % (sm, k), lambda w, sm=sm, cre=cre: w.meth(c, 'subdivide_loop_operator', smooth=sm, creases=cre(w))
            yield 'subdivide_loop.primal_position', lambda w: w.get(w.meth(c, 'subdivide_loop'), 'primal_position')
        if cq.endswith('ComplexTriangularEuclidian2') and False:
            pass
        if cq.endswith('ComplexTriangularEuclidian3'):
            for s in ('triangle_normals', 'triangle_centroids', 'vertex_normals', 'vertex_areas', 'edge_lengths', 'area'):
                yield s, lambda w, s=s: w.ev(c, s)
            if closed:
                for s in ('volume', 'center_of_mass'):
                    yield s, lambda w, s=s: w.ev(c, s)
            else:
                oth = w.vertices(Ns[0], 3, 'other')
                yield 'extrude', lambda w: w.meth(c, 'extrude', w.meth(c, 'copy', vertices=oth))
            sup = arr('support', (3,), 'float', deg=1, tr=1, taint=GEO)
            dr = arr('direction', (3,), 'float', deg=0, tr=0, taint=GEO)
            for cl in (True, False):
                yield 'clip(%s)' % cl, lambda w, cl=cl: w.meth(c, 'clip', sup, dr, clip=cl)
            yield 'save_STL', lambda w: w.meth(c, 'save_STL', 'file.stl')
    return f


CONFS = []
for _q, _n, _d in (('euclidian.ComplexSimplicialEuclidian', 1, 2), ('euclidian.ComplexSimplicialEuclidian', 1, 1), ('euclidian.ComplexSimplicialEuclidian', 2, 2),
                   ('euclidian.ComplexSimplicialEuclidian', 3, 3), ('euclidian.ComplexSimplicialEuclidian', 2, 3),
                   ('euclidian.ComplexTriangularEuclidian2', 2, 2), ('euclidian.ComplexTriangularEuclidian3', 2, 3),
                   ('spherical.ComplexCircular', 1, 2), ('spherical.ComplexSpherical2', 2, 3), ('spherical.ComplexSpherical3', 3, 4)):
    for _c in (True, False):
        for _w in (False, True):
            nm = 'complex/%s%d%d/%s%s' % (_q.split('.')[-1], _n, _d, 'closed' if _c else 'open', '/weighted' if _w else '')
            add_group(nm, simp_scenarios(_q, _n, _d, _c, _w, _q.startswith('sph')))

add_group('complex/ComplexTriangularEuclidian23/open/weighted', simp_scenarios('euclidian.ComplexTriangularEuclidian', 2, 3, False, True, False))
add_group('complex/integer-vertices/spherical', simp_scenarios('spherical.ComplexSpherical2', 2, 3, True, False, True, dtype='int'))
add_group('complex/integer-vertices/tetrahedra', simp_scenarios('euclidian.ComplexSimplicialEuclidian', 3, 3, False, False, False, dtype='int'))
add_group('complex/integer-vertices/simplicial', simp_scenarios('euclidian.ComplexTriangularEuclidian3', 2, 3, True, False, False, dtype='int'))


@group('complex/STL')
def _(w):
    yield 'load_STL', lambda w: w.meth(w.klass(SP + 'euclidian.ComplexTriangularEuclidian3'), 'load_STL', 'file.stl')


def cub_scenarios(cq, n, dim, closed, dtype='float'):
    def f(w):
        c = w.complex('complex.' + cq, 'cubical', n, dim, closed=closed, dtype=dtype)
        Ns = [S('x.T.N%d' % k) for k in range(n + 1)]
        P = S('P')
        pts = points(P, dim)
        regular = cq.startswith('regular')
        for s in cx_common(w, c, 'cubical', n, dim, 'x', False, False, closed, regular):
            yield s
        for sm in (True, False):
            yield 'subdivide_cubical(smooth=%s)' % sm, lambda w, sm=sm: w.meth(c, 'subdivide_cubical', smooth=sm)
            yield 'subdivide_operator(smooth=%s)' % sm, lambda w, sm=sm: w.meth(c, 'subdivide_operator', smooth=sm)
            for k in range(n):
                cre = lambda w, k=k: w.dict({k: arr('crease', (Ns[k],), 'sign')})
                yield 'subdivide_cubical(smooth=%s,creases=%d)' % (sm, k), lambda w, sm=sm, cre=cre: w.meth(c, 'subdivide_cubical', smooth=sm, creases=cre(w))
                yield 'subdivide_operator(smooth=%s,creases=%d)' % (sm, k), lambda w, sm=sm, cre=cre: w.meth(c, 'subdivide_operator', smooth=sm, creases=cre(w))
        yield 'subdivide_cubical.primal_position', lambda w: w.get(w.meth(c, 'subdivide_cubical'), 'primal_position')
        yield 'subdivide_cubical.parent', lambda w: w.get(w.meth(c, 'subdivide_cubical'), 'parent')
        if n <= 2:
            yield 'subdivide_cubical.multigrid_transfers', lambda w: w.get(w.meth(c, 'subdivide_cubical'), 'multigrid_transfers')
        if n < 4:
            yield 'product', lambda w: w.meth(c, 'product', w.complex('complex.cubical.ComplexCubical', 'cubical', 1, 1, closed=closed, name='o'))
        cast = 'as_%d%d' % (n, dim)
        if cast in ('as_11', 'as_12', 'as_22', 'as_23', 'as_33', 'as_44'):
            yield cast, lambda w: w.meth(c, cast)
        if 'Cubical2' in cq or cq.endswith('Regular2'):
            yield 'subdivide_simplicial', lambda w: w.meth(c, 'subdivide_simplicial')
        if n == 1 and (cq.endswith('ComplexCubical1Euclidian1') or cq.endswith('Regular1')):
            yield 'to_simplicial', lambda w: w.meth(c, 'to_simplicial')
        if cq.endswith('ComplexCubical1Euclidian2') and closed:
            yield 'volume', lambda w: w.meth(c, 'volume')
        if n == dim:
            yield 'as_regular', lambda w: w.meth(c, 'as_regular')
        if regular:
            for a in ('pick_primal_precomp', 'pick_fundamental_precomp'):
                yield a, lambda w, a=a: w.get(c, a)
            yield 'fundamental_domain_postions', lambda w: w.meth(c, 'fundamental_domain_postions')
            yield 'pick_primal', lambda w: w.meth(c, 'pick_primal', pts)
            yield 'pick_primal(hint)', lambda w: w.meth(c, 'pick_primal', pts, cube=idx('cube', P, Ns[-1]))
            yield 'pick_fundamental', lambda w: w.meth(c, 'pick_fundamental', pts)
            yield 'pick_fundamental(hint)', lambda w: w.meth(c, 'pick_fundamental', pts, domain_idx=idx('domain_idx', P, w.eng.getitem(w.eng.getattr(w.eng.getitem(w.get(c, 'pick_fundamental_precomp'), 1, w.st, None), 'shape', w.st, None), 0, w.st, None)))
            yield 'pick_dual', lambda w: w.meth(c, 'pick_dual', pts)
            d0 = lambda w: form('d0', w.N(w.get(w.get(c, 'topology'), 'dual'), 0), dtype=dtype)
            yield 'average_dual', lambda w: w.meth(c, 'average_dual', d0(w))
            yield 'sample_dual_0', lambda w: w.meth(c, 'sample_dual_0', d0(w), pts)
            yield 'sample_primal_0', lambda w: w.meth(c, 'sample_primal_0', form('p0', Ns[0], dtype=dtype), pts)
    return f


for _q, _n, _d in (('cubical.ComplexCubical', 1, 1), ('cubical.ComplexCubical', 2, 2), ('cubical.ComplexCubical', 3, 3), ('cubical.ComplexCubical1Euclidian1', 1, 1), ('cubical.ComplexCubical1Euclidian2', 1, 2), ('cubical.ComplexCubical2Euclidian2', 2, 2),
                   ('cubical.ComplexCubical2Euclidian3', 2, 3), ('cubical.ComplexCubical3Euclidian3', 3, 3),
                   ('regular.ComplexRegular1', 1, 1), ('regular.ComplexRegular2', 2, 2), ('regular.ComplexRegular3', 3, 3)):
    for _c in (True, False):
        add_group('complex/%s%d%d/%s' % (_q.split('.')[-1], _n, _d, 'closed' if _c else 'open'), cub_scenarios(_q, _n, _d, _c))


@group('complex/cubical4')
def _(w):
    """four-dimensional cubes: the casts and what they hand over"""
    c = w.complex('complex.cubical.ComplexCubical', 'cubical', 4, 4, closed=False)
    yield 'as_44', lambda w: w.meth(c, 'as_44')
    yield 'as_44.as_regular', lambda w: w.meth(w.meth(c, 'as_44'), 'as_regular')
    yield 'primal_position', lambda w: w.get(c, 'primal_position')
    yield 'topology.n_elements', lambda w: w.get(w.get(c, 'topology'), 'n_elements')


add_group('complex/integer-vertices/cubical', cub_scenarios('regular.ComplexRegular2', 2, 2, False, dtype='int'))


# ------------------------------------------------------------------------------------ geometry / linear algebra
def batched(w_, name, tail, dtype='float', deg=1, tr=1, nb=2, facts=()):
    lead = tuple(S('B:%d' % i) for i in range(nb))
    return arr(name, lead + tuple(tail), dtype, deg=deg, tr=tr, taint=GEO, facts=facts)


def geom_scenarios(nb, dtype='float'):
    def f(w):
        G = 'geometry.euclidian.'
        b = lambda name, *tail, **k: batched(w, name, tail, nb=nb, dtype=k.pop('dtype', dtype), **k)
        for n, d in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
            pts = b('pts', n + 1, d)
            wts = b('weights', n + 1, deg=2, tr=0, dtype='float')
            tag = '(%d,%d)' % (n, d)
            for fn in ('circumcenter_construction', 'circumcenter_barycentric', 'circumcenter_barycentric_weighted', 'circumcenter',
                       'unsigned_volume') + (('signed_volume',) if n == d else ()):
                yield fn + tag, lambda w, fn=fn, pts=pts: w.fn(G + fn, pts)
            yield 'is_wellcentered' + tag, lambda w, pts=pts: w.fn(G + 'is_wellcentered', pts)
            for fn in ('circumcenter_construction', 'circumcenter_barycentric', 'circumcenter_barycentric_weighted'):
                yield fn + tag + '/weights', lambda w, fn=fn, pts=pts, wts=wts: w.fn(G + fn, pts, weights=wts)
        yield 'triangle_angles', lambda w: w.fn(G + 'triangle_angles', b('vertices', 3, 3))
        yield 'segment_normals', lambda w: w.fn(G + 'segment_normals', b('corners', 2, 2))
        for n in (2, 3):
            yield 'simplex_normals(%d)' % n, lambda w, n=n: w.fn(G + 'simplex_normals', b('corners', n, n))
            yield 'simplex_gradients(%d)' % n, lambda w, n=n: w.fn(G + 'simplex_gradients', b('corners', n + 1, n))
        R = 'geometry.regular.'
        for d in (1, 2, 3):
            s, e = b('s', d), b('e', d)
            yield 'regular.edge_length(%d)' % d, lambda w, s=s, e=e: w.fn(R + 'edge_length', s, e)
            for n in (None,) + tuple(range(1, d + 1)) if nb == 1 else ():
                yield 'regular.hypervolume(%d,%s)' % (d, n), lambda w, s=s, e=e, n=n: w.fn(R + 'hypervolume', s, e, **({} if n is None else {'n': n}))
        H = 'geometry.spherical.'
        u = lambda name, *tail: b(name, *tail, deg=0, tr=None)
        yield 'spherical.edge_length', lambda w: w.fn(H + 'edge_length', u('p', 3), u('q', 3))
        yield 'spherical.triangle_area_from_normals', lambda w: w.fn(H + 'triangle_area_from_normals', u('p', 3), u('q', 3), u('r', 3))
        yield 'spherical.triangle_area_from_corners', lambda w: w.fn(H + 'triangle_area_from_corners', u('p', 3), u('q', 3), u('r', 3))
        for n in (1, 2, 3):
            yield 'spherical.unsigned_volume(%d)' % n, lambda w, n=n: w.fn(H + 'unsigned_volume', u('pts', n, 3))
        yield 'spherical.triangle_areas_around_center', lambda w: w.fn(H + 'triangle_areas_around_center', u('center', 3), u('corners', 3, 3))
        yield 'spherical.intersect_edges', lambda w: w.fn(H + 'intersect_edges', u('p', 3), u('q', 3), u('r', 3), u('s', 3))
        for n in (1, 2, 3):
            yield 'spherical.circumcenter(%d)' % n, lambda w, n=n: w.fn(H + 'circumcenter', u('pts', n, 3))
        yield 'spherical.edge_circumcenter', lambda w: w.fn(H + 'edge_circumcenter', u('pts', 2, 3))
        yield 'spherical.triangle_circumcenter', lambda w: w.fn(H + 'triangle_circumcenter', u('pts', 3, 3))
        if nb == 2:
            # documented for one batch dimension only
            pass
        L = 'math.linalg.'
        m = lambda name, *tail: b(name, *tail, deg=0, tr=0)
        yield 'linalg.dot', lambda w: w.fn(L + 'dot', b('a', 3), b('b', 3))
        for ax in (-1, -2):
            yield 'linalg.normalized(%d)' % ax, lambda w, ax=ax: w.fn(L + 'normalized', b('a', 4, 3), axis=ax)
        yield 'linalg.normalized/return_norm', lambda w: w.fn(L + 'normalized', b('a', 4, 3), return_norm=True)
        yield 'linalg.normalized/ignore_zeros', lambda w: w.fn(L + 'normalized', b('a', 4, 3), ignore_zeros=True)
        for n in (2, 3):
            for fn in ('power', 'pinv') + (('adjoint', 'inverse', 'inverse_transpose', 'null') if n == 3 else ()):
                if fn == 'power':
                    yield 'linalg.power(%d)' % n, lambda w, n=n: w.fn(L + 'power', m('M', n, n), 0.5)
                    continue
                yield 'linalg.%s(%d)' % (fn, n), lambda w, n=n, fn=fn: w.fn(L + fn, b('A', n, n))
            yield 'linalg.orthonormalize(%d)' % n, lambda w, n=n: w.fn(L + 'orthonormalize', arr('axes', (n, n), 'float', deg=0, tr=0))
            yield 'linalg.rotation_from_plane(%d)' % n, lambda w, n=n: w.fn(L + 'rotation_from_plane', arr('u', (n,), 'float', deg=0, tr=0), arr('v', (n,), 'float', deg=0, tr=0))
        for p, q in ((3, 2), (3, 3)):
            yield 'linalg.pinv(%d,%d)' % (p, q), lambda w, p=p, q=q: w.fn(L + 'pinv', b('A', p, q))
        yield 'linalg.angle_from_rotation(stack)', lambda w: w.fn(L + 'angle_from_rotation', m('R', 3, 3))
        yield 'linalg.angle_from_rotation', lambda w: w.fn(L + 'angle_from_rotation', arr('R', (3, 3), 'float', deg=0, tr=0))
    return f


for _nb in (1, 2, 3):
    add_group('geometry/batch%d' % _nb, geom_scenarios(_nb))
add_group('geometry/integer-input', geom_scenarios(1, 'int'))


@group('combinatorial')
def _(w):
    M = 'math.combinatorial.'
    yield 'combinations', lambda w: w.fn(M + 'combinations', w.lst([0, 1, 2], 'list'), 2)
    yield 'permutations', lambda w: w.fn(M + 'permutations', w.lst([0, 1, 2], 'list'))


# ------------------------------------------------------------------------------------ sparse / solvers / block
@group('sparse')
def _(w):
    n, m = S('R'), S('K')
    A = lambda name='A', lin=True, r=n, c=m: Arr(C(shape=(r, c), dtype='float', deg=0, tr=0, kind='sp', roots=frozenset(['param:' + name]), term=TERMS.mk('sym', name)))
    sp = 'sparse.'
    yield 'ones_like', lambda w: w.fn(sp + 'ones_like', A())
    yield 'normalize_l1', lambda w: w.fn(sp + 'normalize_l1', A())
    for ax in (0, 1):
        yield 'normalize_l1(%d)' % ax, lambda w, ax=ax: w.fn(sp + 'normalize_l1', A(), axis=ax)
    yield 'inv_diag', lambda w: w.fn(sp + 'inv_diag', Arr(C(shape=(n, n), dtype='float', deg=1, tr=0, kind='sp', roots=frozenset(['param:d']), facts=frozenset(['diagonal']), term=TERMS.mk('sym', 'd'))))
    yield 'sparse_zeros', lambda w: w.fn(sp + 'sparse_zeros', w.tup(n, m))
    yield 'zeros_like', lambda w: w.fn(sp + 'zeros_like', A())
    yield 'zeros_like(dense)', lambda w: w.fn(sp + 'zeros_like', arr('d', (n, m), 'float'))


@group('solvers')
def _(w):
    n = S('R')
    A = Arr(C(shape=(n, n), dtype='float', deg=0, tr=0, kind='sp', roots=frozenset(['param:A']), term=TERMS.mk('sym', 'A')))
    b = arr('b', (n,), 'float', deg=0, tr=0)
    x0 = arr('x0', (n,), 'float', deg=0, tr=0)
    defl = arr('deflate', (n, 1), 'float', deg=0, tr=0)
    yield 'solve_minres(x0)', lambda w: w.fn('solvers.solve_minres', A, b, x0=x0)
    yield 'solve_minres', lambda w: w.fn('solvers.solve_minres', A, b)


@group('block')
def _(w):
    n, m = S('R'), S('K')
    a = lambda name, r: arr(name, (r,), 'float', lin=((name, 'L'),))

    def vec(w):
        return w.make('block.DenseBlockArray', w.lst([a('u', n), a('v', m)], 'list'))
    for mth in ('copy', 'merge', 'norm'):
        yield 'DenseBlockArray.' + mth, lambda w, mth=mth: w.meth(vec(w), mth)
    for p in ('ndim', 'shape', 'compatible'):
        yield 'DenseBlockArray.' + p, lambda w, p=p: w.get(vec(w), p)

    def mat(w):
        A = lambda name, r, c: Arr(C(shape=(r, c), dtype='float', deg=0, tr=0, kind='sp', roots=frozenset(['param:' + name]), term=TERMS.mk('sym', name)))
        return w.make('block.SparseBlockMatrix', w.lst([w.lst([A('A00', n, n), A('A01', n, m)], 'list'), w.lst([A('A10', m, n), A('A11', m, m)], 'list')], 'list'))
    for mth in ('copy', 'merge', 'transpose', 'diagonal'):
        yield 'SparseBlockMatrix.' + mth, lambda w, mth=mth: w.meth(mat(w), mth)
    for p in ('rows', 'cols', 'square', 'shape'):
        yield 'SparseBlockMatrix.' + p, lambda w, p=p: w.get(mat(w), p)
    yield 'SparseBlockMatrix.mul(vec)', lambda w: w.eng.binop('Mult', mat(w), vec(w), w.st, None)
    yield 'SparseBlockMatrix.mul(mat)', lambda w: w.eng.binop('Mult', mat(w), mat(w), w.st, None)
    yield 'SparseBlockMatrix.add', lambda w: w.eng.binop('Add', mat(w), mat(w), w.st, None)
    yield 'SparseBlockMatrix.identity_like', lambda w: w.meth(mat(w), 'identity_like')
    yield 'SparseBlockMatrix.norm_l1', lambda w: w.meth(mat(w), 'norm_l1', 0)


# ------------------------------------------------------------------------------------ synthetic
@group('synthetic')
def _(w):
    Y = 'synthetic.'
    for n in (1, 2, 3):
        for eq in (True, False):
            yield 'n_simplex(%d,%s)' % (n, eq), lambda w, n=n, eq=eq: w.fn(Y + 'n_simplex', n, equilateral=eq)
        for ce in (True, False):
            yield 'n_cube(%d,%s)' % (n, ce), lambda w, n=n, ce=ce: w.fn(Y + 'n_cube', n, centering=ce)
        yield 'n_cube_dual(%d)' % n, lambda w, n=n: w.fn(Y + 'n_cube_dual', n)
    for sh in ((3,), (3, 4), (2, 3, 4)):
        for ce in (True, False):
            yield 'n_cube_grid(%s,%s)' % (sh, ce), lambda w, sh=sh, ce=ce: w.fn(Y + 'n_cube_grid', w.tup(*sh), centering=ce)
    yield 'circle', lambda w: w.fn(Y + 'circle', 4)
    yield 'icosahedron', lambda w: w.fn(Y + 'icosahedron')
    yield 'icosphere', lambda w: w.fn(Y + 'icosphere', 1)
    yield 'cylinder', lambda w: w.fn(Y + 'cylinder', 2, 1, 4)


# ------------------------------------------------------------------------------------ stencil
def stencil_scenarios(n, symbolic):
    def f(w):
        if symbolic:
            shape = [dims.mul(2, S('X%d' % i)) for i in range(n)]
        else:
            shape = [(4, 6, 8)[i] for i in range(n)]
        cname = {2: 'StencilComplex2D', 3: 'StencilComplex3D'}.get(n, 'StencilComplex')
        t = w.make('stencil.topology.StencilTopology', w.tup(*shape))
        w.label(t, 'param:T')
        c = w.make('stencil.complex.StencilComplex', t, arr('scale', (), 'float', deg=1, tr=0, facts=['pyscalar'], taint=GEO))
        w.label(c, 'param:c')
        E = [w.N(t, k) for k in range(n + 1)]

        def sh(w, k, fine=True):
            return list(w.eng.lst(w.st, w.N(t, k)).items)

        def frm(w, k, name='f', tt=None, dtype='float32'):
            s = w.eng.lst(w.st, w.N(tt or t, k)).items
            return arr(name, tuple(s), dtype, deg=0, tr=0, lin=((name, 'L'),))

        def ap(w, op, x):
            return w.eng.call(op, [x], {}, w.st, None)

        def it(w, o, i):
            return w.eng.getitem(o, i, w.st, None)
        for a in ('is_even', 'coarse', 'fine', 'n_elements'):
            yield 'topology.' + a, lambda w, a=a: w.get(t, a)
        for a in ('coarse', 'fine'):
            yield 'topology.%s.shape' % a, lambda w, a=a: w.get(w.get(t, a), 'shape')
        for k in range(n + 1):
            for init in ('zeros', 'ones', 'empty'):
                yield 'topology.form(%d,%s)' % (k, init), lambda w, k=k, init=init: w.meth(t, 'form', k, init=init)
        for a in ('primal', 'dual'):
            for k in range(n):
                src, dst = (k, k + 1) if a == 'primal' else (k + 1, k)
                yield '%s[%d].shape' % (a, k), lambda w, a=a, k=k: w.get(it(w, w.get(t, a), k), 'shape')
                yield '%s[%d](f)' % (a, k), lambda w, a=a, k=k, s=src: ap(w, it(w, w.get(t, a), k), frm(w, s))
                yield '%s[%d].T(f)' % (a, k), lambda w, a=a, k=k, s=dst: ap(w, w.get(it(w, w.get(t, a), k), 'T'), frm(w, s))
        for k in range(n + 1):
            yield 'transfers[%d](f)' % k, lambda w, k=k: ap(w, it(w, w.get(t, 'transfers'), k), frm(w, k))
            yield 'transfers[%d].T(f)' % k, lambda w, k=k: ap(w, w.get(it(w, w.get(t, 'transfers'), k), 'T'), frm(w, k, tt=w.get(t, 'coarse')))
            yield 'averaging_operators_0[%d](f)' % k, lambda w, k=k: ap(w, it(w, w.get(t, 'averaging_operators_0'), k), frm(w, 0))
            yield 'hodge[%d](f)' % k, lambda w, k=k: ap(w, it(w, w.get(c, 'hodge'), k), frm(w, k))
            yield 'hodge[%d].I(f)' % k, lambda w, k=k: ap(w, w.get(it(w, w.get(c, 'hodge'), k), 'I'), frm(w, k))
            yield 'coarsen[%d](f)' % k, lambda w, k=k: ap(w, it(w, w.get(c, 'coarsen'), k), frm(w, k))
            yield 'refine[%d](f)' % k, lambda w, k=k: ap(w, it(w, w.get(c, 'refine'), k), frm(w, k, tt=w.get(t, 'coarse')))
            for sc in (True, False):
                yield 'smoothers(%s)[%d](f)' % (sc, k), lambda w, k=k, sc=sc: ap(w, it(w, w.meth(c, 'smoothers', sc), k), frm(w, k))
        for a in ('coarse', 'fine', 'primal_position', 'n_dim', 'shape', 'n_elements'):
            yield 'complex.' + a, lambda w, a=a: w.get(c, a)
        for a in ('coarse', 'fine'):
            yield 'complex.%s.scale' % a, lambda w, a=a: w.get(w.get(c, a), 'scale')
        pts = points(S('P'), n)
        for ai in (True, False):
            yield 'sample_0(%s)' % ai, lambda w, ai=ai: w.meth(c, 'sample_0', frm(w, 0, 'f0'), pts, assume_interior=ai)
        yield 'from_shape', lambda w: w.meth(w.klass('stencil.complex.StencilComplex'), 'from_shape', w.tup(*shape))

        # operator algebra
        def P(w, k):
            return it(w, w.get(t, 'primal'), k)

        def D(w, k):
            return it(w, w.get(t, 'dual'), k)
        mul = lambda w, a, b: w.eng.binop('Mult', a, b, w.st, None)
        add = lambda w, a, b: w.eng.binop('Add', a, b, w.st, None)
        H = lambda w, k: it(w, w.get(c, 'hodge'), k)
        lap = lambda w: add(w, mul(w, mul(w, D(w, 0), H(w, 1)), P(w, 0)), H(w, 0))
        yield 'op.laplacian.shape', lambda w: w.get(lap(w), 'shape')
        yield 'op.laplacian(f)', lambda w: ap(w, lap(w), frm(w, 0))
        yield 'op.laplacian.T(f)', lambda w: ap(w, w.meth(lap(w), 'transpose'), frm(w, 0))
        yield 'op.simplify(f)', lambda w: ap(w, w.meth(lap(w), 'simplify'), frm(w, 0))
        if n > 1:
            yield 'op.dd', lambda w: mul(w, P(w, 1), P(w, 0))
            yield 'op.dd(f)', lambda w: ap(w, mul(w, P(w, 1), P(w, 0)), frm(w, 0))
            yield 'op.dual dd(f)', lambda w: ap(w, mul(w, D(w, 0), D(w, 1)), frm(w, 2))
        yield 'op.zero(f)', lambda w: ap(w, w.make('stencil.operator.ZeroOperator', w.tup(w.N(t, 1), w.N(t, 0))), frm(w, 0))
        yield 'op.zero.T(f)', lambda w: ap(w, w.get(w.make('stencil.operator.ZeroOperator', w.tup(w.N(t, 1), w.N(t, 0))), 'T'), frm(w, 1))
        yield 'op.identity(f)', lambda w: ap(w, w.make('stencil.operator.IdentityOperator', w.N(t, 0)), frm(w, 0))
        dg = lambda w: w.make('stencil.operator.DiagonalOperator', frm(w, 0, 'diag'), w.N(t, 0))
        yield 'op.diagonal(f)', lambda w: ap(w, dg(w), frm(w, 0))
        yield 'op.diagonal.I', lambda w: w.get(dg(w), 'I')
        # systems (with generic diagonals: no entry happens to be all zero or all one)
        w.eng.generic_allclose = True
        sysm = lambda w: w.meth(w.klass('stencil.linear_system.System'), 'canonical', c)

        def vec(w, ks, name='y'):
            return own(w, w.make('stencil.block.BlockArray', w.lst([frm(w, k, '%s%d' % (name, k)) for k in ks], 'list'), ndim=1), name)
        yield 'System.canonical', sysm
        for a in ('A', 'B', 'L', 'R'):
            yield 'System.canonical.' + a, lambda w, a=a: w.get(sysm(w), a)
        yield 'System.A*x', lambda w: mul(w, w.get(sysm(w), 'A'), vec(w, range(n + 1)))
        yield 'System.AT*x', lambda w: mul(w, w.meth(w.get(sysm(w), 'A'), 'transpose'), vec(w, range(n + 1)))
        yield 'System.B*x', lambda w: mul(w, w.get(sysm(w), 'B'), vec(w, range(n + 1)))
        yield 'System.allocate_x', lambda w: w.meth(sysm(w), 'allocate_x')
        yield 'System.allocate_y', lambda w: w.meth(sysm(w), 'allocate_y')
        yield 'System.A.rows', lambda w: w.get(w.get(sysm(w), 'A'), 'rows')
        yield 'System.A.cols', lambda w: w.get(w.get(sysm(w), 'A'), 'cols')
        yield 'System.A.is_square', lambda w: w.get(w.get(sysm(w), 'A'), 'is_square')
        yield 'System.A.diagonal', lambda w: w.meth(w.get(sysm(w), 'A'), 'diagonal')
        yield 'System.A.aslinearoperator', lambda w: w.meth(w.get(sysm(w), 'A'), 'aslinearoperator')
        yield 'System.normal.A*x', lambda w: mul(w, w.get(w.meth(sysm(w), 'normal'), 'A'), vec(w, range(n + 1)))
        yield 'System.normal.B*x', lambda w: mul(w, w.get(w.meth(sysm(w), 'normal'), 'B'), vec(w, range(n + 1)))
        yield 'op.aslinearoperator', lambda w: w.meth(P(w, 0), 'aslinearoperator')
        yield 'System.normal', lambda w: w.meth(sysm(w), 'normal')
        yield 'System.normal_ne', lambda w: w.meth(sysm(w), 'normal_ne')
        yield 'System.copy', lambda w: w.meth(sysm(w), 'copy')
        two = lambda w: w.tup(w.eng.slice_(None, 2), w.eng.slice_(None, 2)) if hasattr(w.eng, 'slice_') else w.tup(_sl(None, 2), _sl(None, 2))
        sub = lambda w: it(w, sysm(w), two(w))
        yield 'System[:2,:2]', sub
        yield 'System[:2,:2].A*x', lambda w: mul(w, w.get(sub(w), 'A'), vec(w, range(2)))
        yield 'System.restrict_dual', lambda w: w.meth(sysm(w), 'restrict_dual', vec(w, range(n + 1)))
        yield 'System.restrict_primal', lambda w: w.meth(sysm(w), 'restrict_primal', vec(w, range(n + 1)))
        # block arrays
        V = lambda w, nm='y': vec(w, range(2), nm)
        for m in ('copy', 'sum', 'abs', 'invert', 'transpose', 'to_dense'):
            yield 'BlockArray.' + m, lambda w, m=m: w.meth(V(w), m)
        yield 'BlockArray.from_dense', lambda w: w.meth(V(w), 'from_dense', w.meth(V(w), 'to_dense'))
        yield 'BlockArray.shape', lambda w: w.get(V(w), 'shape')
        for op in ('Add', 'Sub', 'Mult'):
            yield 'BlockArray.' + op, lambda w, op=op: w.eng.binop(op, V(w), V(w, 'z'), w.st, None)
            yield 'BlockArray.scalar' + op, lambda w, op=op: w.eng.binop(op, V(w), 2.0, w.st, None)
        idn = lambda w, k: w.make('stencil.operator.IdentityOperator', w.N(t, k))
        one = lambda w: w.make('stencil.block.BlockOperator', w.lst([w.lst([idn(w, 0), D(w, 0)], 'list'), w.lst([P(w, 0), idn(w, 1)], 'list')], 'list'), ndim=2)
        yield 'BlockOperator(identity blocks)*x', lambda w: mul(w, one(w), V(w))
        yield 'BlockOperator(identity blocks).T*x', lambda w: mul(w, w.meth(one(w), 'transpose'), V(w))
        yield 'BlockOperator(identity blocks).diagonal', lambda w: w.meth(one(w), 'diagonal')
        # equations
        def fields(w, tt=None):
            return w.dict({'constraint': frm(w, 0, 'constraint', tt), 'conductance': frm(w, 1, 'conductance', tt), 'resistance': frm(w, 1, 'resistance', tt), 'foo': frm(w, 1, 'foo', tt)})
        if n == 2:
            eq = lambda w: w.meth(w.klass('stencil.diffusion.Diffusion'), 'formulate', c, fields(w))
            yield 'Diffusion.formulate', eq
            yield 'Diffusion.formulate_flux_only', lambda w: w.meth(w.klass('stencil.diffusion.Diffusion'), 'formulate_flux_only', c, fields(w))
            yield 'Diffusion.formulate_all', lambda w: w.meth(w.klass('stencil.diffusion.Diffusion'), 'formulate_all', c, fields(w))
            x, y = lambda w: vec(w, range(2), 'x'), lambda w: vec(w, range(2), 'y')

            def eq(w, eq=eq):
                e = eq(w)
                for a in 'AB':
                    own(w, w.get(w.get(e, 'system'), a), 'equation.system.' + a)
                return e
            yield 'Diffusion.residual', lambda w: w.meth(eq(w), 'residual', x(w), y(w))
            yield 'Diffusion.jacobi', lambda w: w.meth(eq(w), 'jacobi', x(w), y(w))
            yield 'Diffusion.NR_BLOCK_GS', lambda w: w.meth(eq(w), 'NR_BLOCK_GS', x(w), y(w))
            yield 'Diffusion.NE_BLOCK_GS', lambda w: w.meth(eq(w), 'NE_BLOCK_GS', x(w), y(w))
            yield 'Diffusion.smooth', lambda w: w.meth(eq(w), 'smooth', x(w), y(w))
            yield 'Diffusion.restrict', lambda w: w.meth(eq(w), 'restrict', y(w))
            yield 'Diffusion.restrict_primal', lambda w: w.meth(eq(w), 'restrict_primal', y(w))
            yield 'Diffusion.interpolate', lambda w: w.meth(eq(w), 'interpolate', w.make('stencil.block.BlockArray', w.lst([frm(w, k, 'x%d' % k, w.get(t, 'coarse')) for k in range(2)], 'list'), ndim=1))
            yield 'Diffusion.solve', lambda w: w.meth(eq(w), 'solve', y(w))
            yield 'Diffusion.solve(x0)', lambda w: w.meth(eq(w), 'solve', y(w), x(w))
            if not symbolic:
                yield 'Diffusion.coarse', lambda w: w.get(eq(w), 'coarse')
                yield 'Diffusion.v_cycle', lambda w: w.fn('stencil.multigrid.v_cycle', w.meth(eq(w), 'hierarchy', 1), y(w))
                yield 'Diffusion.v_cycle(x)', lambda w: w.fn('stencil.multigrid.v_cycle', w.meth(eq(w), 'hierarchy', 1), y(w), x(w))
                yield 'Diffusion.solve_full_cycle', lambda w: w.fn('stencil.multigrid.solve_full_cycle', w.meth(eq(w), 'hierarchy', 1), y(w))
                yield 'Diffusion.solve_v_cycle', lambda w: w.fn('stencil.multigrid.solve_v_cycle', w.meth(eq(w), 'hierarchy', 1), y(w), iterations=2)
    return f


def own(w, ba, name):
    """a block array the caller holds on to: changing which blocks it holds is a change of the caller's object"""
    b = w.get(ba, 'block')
    if isinstance(b, Arr):
        c = w.eng.content(b, w.st)
        w.st.store[b.loc] = c.rep(roots=c.roots | {'param:%s.block' % name})
    return ba


def _sl(lo, hi, step=None):
    from .values import SliceV
    return SliceV(lo, hi, step)


for _n in (1, 2, 3):
    add_group('stencil/%dd' % _n, stencil_scenarios(_n, True))
add_group('stencil/2d-concrete', stencil_scenarios(2, False))


@group('stencil/util')
def _(w):
    U = 'stencil.util.'
    for n in (1, 2, 3, 4):
        yield 'generate(%d)' % n, lambda w, n=n: w.fn(U + 'generate', n)
        yield 'smoother(%d)' % n, lambda w, n=n: w.fn(U + 'smoother', n)
        yield 'checkerboard(%d)' % n, lambda w, n=n: w.fn(U + 'checkerboard', w.tup(*[S('X%d' % i) for i in range(n)]))
    yield 'pascal', lambda w: w.fn(U + 'pascal', 4, 2)
    yield 'binning', lambda w: w.fn(U + 'binning', arr('a', (dims.mul(2, S('X')), S('Y')), 'float32', lin=(('a', 'L'),)), w.lst([2, 1], 'list'))
