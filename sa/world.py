"""Symbolic inputs: topologies, complexes, stencil systems and arrays of arbitrary size.

The objects are built by abstractly executing the repository's own constructors
on arrays of which only the documented facts are assumed."""
from . import dims
from .dims import Poly
from .values import (Arr, C, ListV, LC, Inst, IC, TERMS, Top, ANY, AbsRaise, Union)
from .loader import AnalysisBroken

S = dims.sym


def arr(name, shape, dtype='float', deg=0, tr=0, lin=(), facts=(), taint=(), label=True, kind='nd'):
    return Arr(C(shape=tuple(shape), dtype=dtype, deg=deg, tr=tr, lin=lin, facts=frozenset(facts),
                 taint=frozenset(taint), kind=kind, term=TERMS.mk('sym', name),
                 roots=frozenset(['param:' + name]) if label else frozenset()))


class World(object):
    """a factory of symbolic objects in one engine state"""

    def __init__(self, eng, st=None):
        self.eng = eng
        self.st = st if st is not None else eng.base.fork()

    # ------------------------------------------------------------ helpers
    def cls(self, qual):
        return self.eng.get_class('pycomplex.' + qual)

    def func(self, qual):
        return self.eng.get_func('pycomplex.' + qual)

    def new(self, cls, label, **kw):
        q = self.eng.quiet
        self.eng.quiet += 1
        try:
            o = self.eng.instantiate(cls, [], kw, self.st, None)
        finally:
            self.eng.quiet = q
        if not isinstance(o, Inst):
            raise AnalysisBroken('constructing %s gave %r' % (cls.name, o))
        self.label(o, label)
        return o

    def label(self, o, label):
        ic = self.eng.inst(self.st, o)
        self.st.store[o.loc] = IC(ic.attrs, label, ic.open, ic.computed)

    def preset(self, o, **kw):
        ic = self.eng.inst(self.st, o)
        at = dict(ic.attrs)
        at.update(kw)
        self.st.store[o.loc] = IC(at, ic.label, ic.open, ic.computed | set(kw))

    def lst(self, items, kind='list', label=None):
        return self.eng.mklist(self.st, list(items), kind, frozenset([label]) if label else frozenset())

    # ------------------------------------------------------------ topology
    def topology(self, kind, n, name='T', closed=True, cls=None, parent=None, nodual=False, sizes=None):
        p = name + '.'
        N = [(sizes or {}).get(k, S(p + 'N%d' % k)) for k in range(n + 1)]
        if kind == 'simplicial':
            esh = [(N[k], k + 1) for k in range(n + 1)]
            bsh = [(N[k + 1], k + 2) for k in range(n)]
            cls = cls or self.cls('topology.simplicial.' + ('TopologyTriangular' if n == 2 else 'TopologySimplicial'))
        else:
            esh = [(N[k],) + (2,) * k for k in range(n + 1)]
            bsh = [(N[k + 1], k + 1, 2) for k in range(n)]
            cls = cls or self.cls('topology.cubical.TopologyCubical')
        elements = [arr(p + 'elements[%d]' % k, esh[k], 'index', facts=[('into', N[0])]) for k in range(n + 1)]
        boundary = [arr(p + 'boundary[%d]' % k, bsh[k], 'index', facts=[('into', N[k])]) for k in range(n)]
        orient = [arr(p + 'orientation[%d]' % k, bsh[k], 'sign') for k in range(n)]
        o = self.new(cls, 'param:' + name, elements=self.lst(elements, label='param:' + name + '.elements'),
                     boundary=self.lst(boundary, label='param:' + name + '.boundary'),
                     orientation=self.lst(orient, label='param:' + name + '.orientation'))
        if closed == 'raw':
            pass        # the boundary is computed by the code under analysis
        elif closed:
            self.preset(o, boundary=None)
        else:
            b = None
            if n >= 1:
                b = self.topology(kind, n - 1, name + '.bd', closed=True) if n > 1 else self.point_boundary(kind, name)
                B = [S(name + '.bd.N%d' % k) for k in range(n)]
                idx = [arr(name + '.bd.parent_idx[%d]' % k, (B[k],), 'int', facts=[('into', N[k]), 'unique']) for k in range(n)]
                self.preset(b, parent=o, parent_idx=self.lst(idx, label='param:' + name + '.bd.parent_idx'))
            self.preset(o, boundary=b)
        return o

    def point_boundary(self, kind, name):
        """a 0-dimensional topology"""
        N0 = S(name + '.bd.N0')
        cls = self.cls('topology.simplicial.TopologySimplicial' if kind == 'simplicial' else 'topology.cubical.TopologyCubical')
        e = arr(name + '.bd.elements[0]', (N0, 1) if kind == 'simplicial' else (N0,), 'index', facts=[('into', N0)])
        o = self.new(cls, 'param:' + name + '.bd', elements=self.lst([e]), boundary=self.lst([]), orientation=self.lst([]))
        self.preset(o, boundary=None)
        return o

    # ------------------------------------------------------------ complexes
    def vertices(self, n0, dim, name='x', dtype='float', facts=()):
        return arr(name + '.vertices', (n0, dim), dtype, deg=1, tr=1, facts=facts, taint=['geometry'])

    def weights(self, n0, name='x'):
        return arr(name + '.weights', (n0,), 'float', deg=2, tr=0, taint=['geometry'])

    def complex(self, qual, kind, n, dim, closed=True, weighted=False, name='x', dtype='float', radius=False, tname=None, vdeg=None, vtr=None, sizes=None):
        t = self.topology(kind, n, tname or name + '.T', closed, sizes=sizes)
        n0 = (sizes or {}).get(0, S((tname or name + '.T') + '.N0'))
        v = self.vertices(n0, dim, name, dtype)
        if vdeg is not None:
            v.c0 = v.c0.rep(deg=vdeg)
        if vtr is not None:
            v.c0 = v.c0.rep(tr=None if vtr == 'none' else vtr)
        kw = dict(vertices=v, topology=t)
        if weighted:
            kw['weights'] = self.weights(n0, name)
            if vdeg is not None:
                kw['weights'].c0 = kw['weights'].c0.rep(deg=2 * vdeg)
        if radius:
            kw['radius'] = arr(name + '.radius', (), 'float', deg=1, tr=0, taint=['geometry'], facts=['pyscalar'])
        return self.new(self.cls(qual), 'param:' + name, **kw)




# ------------------------------------------------------------------------------- summaries
# Functions whose result has a property that the abstract domain cannot derive from the body
# (they solve a bordered linear system that mixes units).  The body is still executed and
# checked; only the returned facets are refined.
def _bary_summary(eng, st, env, v, node):
    pts = env.get('pts')
    from . import npmodel as n
    if pts is None or not isinstance(v, Arr):
        return v
    pc, vc = n.content(eng, st, pts), eng.content(v, st)
    w = env.get('weights')
    wc = n.content(eng, st, w) if w is not None else None
    ok = pc.deg in (1, ANY) and (wc is None or wc.deg in (2, ANY))
    rep = dict(deg=0 if ok or pc.deg == 0 and (wc is None or wc.deg == 0) else None)
    if pc.tr in (0, ANY, 1) and (wc is None or wc.tr in (0, ANY)):
        rep['tr'] = 0
        rep['facts'] = vc.facts | frozenset(['bary'])
    if v.loc in st.store:
        st.store[v.loc] = vc.rep(**rep)
    else:
        v.c0 = vc.rep(**rep)
    return v


def _parity_summary(eng, st, env, v, node):
    # solved by the satisfiability solver: one value for each n-element
    self = env.get('self')
    if not isinstance(v, Arr) or eng.content(v, st).shape is not None or self is None:
        return v
    try:
        n = eng.getitem(eng.getattr(self, 'n_elements', st, node), -1, st, node)
    except AbsRaise:
        return v
    c = eng.content(v, st).rep(shape=(n,) if not isinstance(n, Arr) else None, deg=0, tr=0)
    return Arr(c.rep(term=c.term))


def _elements_summary(eng, st, env, v, node):
    # the constructor rejects vertices that are not numbered 0..n-1: the elements refer to that range
    its = eng.items(st, env.get('elements')) if env.get('elements') is not None else None
    if its and all(isinstance(e, Arr) for e in its):
        c0 = eng.content(its[0], st)
        if c0.shape and isinstance(c0.shape[0], Poly):
            for e in its:
                c = eng.content(e, st)
                if c.kind == 'nd' and not any(isinstance(f, tuple) and f[0] == 'into' for f in c.facts):
                    r = c.rep(facts=c.facts | frozenset([('into', c0.shape[0])]))
                    st.store[e.loc] = r
    return v


def install(eng):
    for m in [m for m in eng.mods if m.endswith('topology.primal')]:
        eng.post_hooks[m + ':PrimalTopology.__init__'] = _elements_summary
    eng.post_hooks['pycomplex.topology.base:BaseTopology.relative_parity'] = _parity_summary
    for q in ('circumcenter_barycentric', 'circumcenter_barycentric_weighted'):
        eng.post_hooks['pycomplex.geometry.euclidian:' + q] = _bary_summary
        eng.post_hooks['pycomplex.geometry.euclidian.' + q] = _bary_summary
