"""Abstract interpreter for the repository's Python sources.

Nothing of the repository is imported or executed: the interpreter walks the syntax trees, keeps abstract
values (symbolic shapes, element kinds, units, translation weights, linearity, aliasing roots, symbolic
terms), joins at control-flow merges, and inlines repository functions.  Anything it has no rule for becomes
Top, about which no rule ever reports."""
import ast
import builtins as _b
import sys
import types

from . import dims
from . import fold
from .dims import Poly
from .values import *
from .loader import load_program, AnalysisBroken

sys.setrecursionlimit(20000)


INFEASIBLE = object()


class Budget(Exception):
    pass


class Event(object):
    __slots__ = ('kind', 'rel', 'func', 'line', 'construct', 'msg', 'data', 'stack')

    def __init__(self, kind, rel, func, line, construct, msg, data, stack):
        self.kind, self.rel, self.func, self.line = kind, rel, func, line
        self.construct, self.msg, self.data, self.stack = construct, msg, data, stack

    def key(self):
        return (self.kind, self.rel, self.func, self.construct)

    def __repr__(self):
        return '%s %s:%s in %s: `%s` %s' % (self.kind, self.rel, self.line, self.func, self.construct, self.msg)


class Frame(object):
    __slots__ = ('func', 'scope', 'scopes', 'mod', 'cls', 'self', 'globals_', 'locals_', 'gen', 'nonlocals', 'ctl')

    def __init__(self, func, scope, scopes, mod, cls=None):
        self.func, self.scope, self.scopes, self.mod, self.cls = func, scope, scopes, mod, cls
        self.self = None
        self.globals_ = set()
        self.nonlocals = set()
        self.locals_ = None
        self.gen = False
        self.ctl = frozenset()


class Out(object):
    """outcomes of a block"""
    __slots__ = ('fall', 'rets', 'brk', 'cont', 'raises')

    def __init__(self, fall=None):
        self.fall, self.rets, self.brk, self.cont, self.raises = fall, [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brk += o.brk
        self.cont += o.cont
        self.raises += o.raises


def snippet(node, n=100):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n - 3] + '...'


def assigned_names(node):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            if isinstance(ch, ast.Assign):
                for t in ch.targets:
                    tgt(t)
            elif isinstance(ch, (ast.AugAssign, ast.AnnAssign)):
                tgt(ch.target)
            elif isinstance(ch, ast.For):
                tgt(ch.target)
            elif isinstance(ch, ast.withitem) and ch.optional_vars is not None:
                tgt(ch.optional_vars)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(ch, ast.NamedExpr):
                tgt(ch.target)
            walk(ch)
    walk(node)
    return out


def has_yield(node):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if has_yield(ch):
            return True
    return False


PYSCALAR = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))
NUM = (int, float, complex, bool)


class Engine(object):
    MAXDEPTH = 60
    MAXREC = 5

    def __init__(self, repo='/repo', mods=None, budget=400000):
        self.repo = repo
        self.mods = mods or load_program(repo)
        self._fn_attrs = None
        self.modv = {}
        self.events = []
        self._evkeys = set()
        self.stack = []            # (FuncV, call node)
        self.budget = budget
        self.steps = 0
        self.calls = 0
        self.unknown_calls = {}
        self.functions_seen = set()
        self.base = State()
        self.loading = []
        self.quiet = 0
        self.ctl = frozenset()      # what the choice between the joined states depends on
        self.marks = []
        self.maybe_stop = 0
        self.raisectr = 0
        self.guardctr = 0       # explicit raises and open assertions met
        self.post_hooks = {}
        self.called = set()
        self.viewpos = {}                  # places of the elements of views (while linear forms are propagated)
        self.generic_allclose = False      # treat allclose(symbolic, constant) as false
        self.hooks = {}            # qualified function name -> python callable(engine, st, args, kwargs, node)
        self.on_call = None
        from . import npmodel
        self.np = npmodel
        self.phase = True             # which of the two solutions an orientation problem is given
        for name in sorted(self.mods):
            self.load_module(name)
        self.label_shared()

    def label_shared(self):
        """mark the objects that outlive every call: module and class attributes, default arguments"""
        done = set()

        def func(f):
            for i, d in enumerate(list(f.defaults) + list(f.kwdefaults.values())):
                self.add_root(d, 'global:default argument of %s' % f.qual, self.base)

        def visit(where, v):
            if id(v) in done:
                return
            done.add(id(v))
            if isinstance(v, FuncV):
                func(v)
            elif isinstance(v, ClassV):
                for k, x in v.ns.items():
                    f = getattr(x, 'func', None)
                    if isinstance(f, FuncV):
                        visit('', f)
                    else:
                        visit('class attribute %s.%s' % (v.name, k), x)
            else:
                self.add_root(v, 'global:' + where, self.base)
        for name in sorted(self.modv):
            if name not in self.mods:
                continue
            for k, v in sorted(self.mod_ns(name).items(), key=lambda kv: kv[0]):
                visit('module variable %s.%s' % (name, k), v)

    # ------------------------------------------------------------------ events
    def event(self, kind, node, msg='', **data):
        if self.quiet:
            return
        f = self.stack[-1][0] if self.stack else None
        rel = node._mod.rel if node is not None and hasattr(node, '_mod') else (f.mod.rel if f is not None and f.mod else '?')
        func = f.qual if f is not None else '<module>'
        if kind in ('shape', 'index-space') and '#' in msg:
            kind = 'unsure-' + kind        # involves an existential size (number of distinct / selected entries)
        line = getattr(node, 'lineno', 0)
        cons = snippet(node) if node is not None else ''
        k = (kind, rel, func, cons, msg)
        if k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append(Event(kind, rel, func, line, cons, msg, data, [g.qual for g, _ in self.stack]))

    def reset_events(self):
        self.events = []
        self._evkeys = set()

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modv:
            return self.modv[name]
        m = self.mods[name]
        scope = 'mod:' + name
        self.base.store[scope] = {'__name__': name, '__file__': m.path}
        mv = ModV(name, m, scope)
        self.modv[name] = mv
        fr = Frame(None, scope, [scope], m)
        q = self.quiet
        try:
            out = self.exec_block(m.tree.body, fr, self.base)
            if out.fall is not None:
                self.base.store = out.fall.store
        except AbsRaise as e:
            self.event('module-raise', e.node, str(e))
        self.quiet = q
        return mv

    def mod_ns(self, name, st=None):
        return (st or self.base).store['mod:' + name]

    def get_class(self, qual):
        mod, cls = qual.rsplit('.', 1)
        if mod not in self.modv:
            raise AnalysisBroken('module %s is gone' % mod)
        v = self.mod_ns(mod).get(cls)
        if not isinstance(v, ClassV):
            raise AnalysisBroken('class %s is gone' % qual)
        return v

    def get_func(self, qual):
        mod, fn = qual.rsplit('.', 1)
        if mod in self.modv:
            v = self.mod_ns(mod).get(fn)
            if isinstance(v, FuncV):
                return v
        raise AnalysisBroken('function %s is gone' % qual)

    def all_classes(self):
        seen = {}
        for name in self.modv:
            for k, v in self.mod_ns(name).items():
                if isinstance(v, ClassV):
                    seen[v.qual] = v
        return [seen[k] for k in sorted(seen)]

    def do_import(self, node, fr, st):
        scope = dict(st.store[fr.scope])
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    scope[a.asname] = self.import_mod(a.name)
                else:
                    top = a.name.split('.')[0]
                    self.import_mod(a.name)
                    scope[top] = self.import_mod(top)
        else:
            base = node.module or ''
            if node.level:
                pk = fr.mod.name.split('.')
                if not fr.mod.is_pkg:
                    pk = pk[:-1]
                pk = pk[:len(pk) - (node.level - 1)]
                base = '.'.join(pk + ([node.module] if node.module else []))
            m = self.import_mod(base)
            for a in node.names:
                if a.name == '*':
                    if isinstance(m, ModV):
                        ns = self.base.store[m.scope]
                        al = ns.get('__all__')
                        names = None
                        if isinstance(al, ListV):
                            names = [x for x in (st.store.get(al.loc) or self.base.store[al.loc]).items or ()]
                        for k, v in ns.items():
                            if (names is not None and k in names) or (names is None and not k.startswith('_')):
                                scope[k] = v
                    continue
                if isinstance(m, ModV):
                    ns = self.base.store[m.scope]
                    if a.name in ns:
                        v = ns[a.name]
                    elif m.name + '.' + a.name in self.mods:
                        v = self.import_mod(m.name + '.' + a.name)
                    elif m.module is not None and m.name in self.loading_names():
                        v = Top('circular import')
                    else:
                        self.event('name-error', node, 'cannot import %s from %s' % (a.name, m.name))
                        raise AbsRaise(ExcV('builtins.ImportError'), node, True)
                else:
                    v = Ext(base + '.' + a.name)
                scope[a.asname or a.name] = v
        st.store[fr.scope] = scope

    def loading_names(self):
        return set(n for n, v in self.modv.items())

    def import_mod(self, name):
        if name in self.mods:
            pk = name.split('.')
            for i in range(1, len(pk)):
                p = '.'.join(pk[:i])
                if p in self.mods:
                    self.load_module(p)
            mv = self.load_module(name)
            if len(pk) > 1:
                ps = 'mod:' + '.'.join(pk[:-1])
                if ps in self.base.store and pk[-1] not in self.base.store[ps]:
                    d = dict(self.base.store[ps])
                    d[pk[-1]] = mv
                    self.base.store[ps] = d
            return mv
        top = name.split('.')[0]
        if top in set(m.split('.')[0] for m in self.mods):
            if any(m.startswith(name + '.') for m in self.mods):
                return ModV(name, None, None)
            self.event('name-error', None, 'no module %s' % name)
            raise AbsRaise(ExcV('builtins.ImportError'), None, True)
        alias = {'numpy': 'np', 'numpy_indexed': 'npi'}
        return Ext(name)

    # ------------------------------------------------------------------ state joins
    def join_states(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        r = {}
        sa, sb = a.store, b.store
        del self.marks[:]
        out = State(r, a.flags | b.flags)
        for k, va in sa.items():
            if k not in sb:
                r[k] = va
                continue
            vb = sb[k]
            if va is vb:
                r[k] = va
            else:
                r[k] = self.join_cell(va, vb, a, b, out)
        for k, vb in sb.items():
            if k not in sa:
                r[k] = vb
        for k, c in self.marks:
            r[k] = c
        return out

    def join_cell(self, x, y, a, b, out):
        if isinstance(x, C):
            j = join_c(x, y)
            if self.ctl and (x.term is None or x.term != y.term):
                j = j.rep(taint=j.taint | self.ctl)
            if j.items is None and x.kind == 'obj' and y.kind == 'obj' and x.items is not None and y.items is not None \
                    and x.shape == y.shape and len(x.items) == len(y.items):
                j = j.rep(items=tuple(u if u is v else self.join(u, v, a, b, out) for u, v in zip(x.items, y.items)))
            return j
        if isinstance(x, dict):
            r = {}
            for k in set(x) | set(y):
                u, v = x.get(k, UNBOUND), y.get(k, UNBOUND)
                r[k] = u if u is v else self.join(u, v, a, b, out)
            return r
        if isinstance(x, IC):
            r = {}
            for k in set(x.attrs) | set(y.attrs):
                if k in x.attrs and k in y.attrs:
                    u, v = x.attrs[k], y.attrs[k]
                    r[k] = u if u is v else self.join(u, v, a, b, out)
                elif k in x.computed or k in y.computed:
                    pass      # cached property evaluated on one side only
                else:
                    r[k] = self.join(x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND), a, b, out)
            return IC(r, x.label, x.open or y.open, x.computed & y.computed)
        if isinstance(x, LC):
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return LC(tuple(u if u is v else self.join(u, v, a, b, out) for u, v in zip(x.items, y.items)),
                          None, x.roots | y.roots)
            els = list(x.items or ()) + list(y.items or ()) + [s for s in (x.summary, y.summary) if s is not None]
            s = None
            for e in els:
                s = e if s is None else self.join(s, e, a, b, out)
            return LC(None, s if s is not None else Top('empty'), x.roots | y.roots,
                      x.n if x.n is not None and x.n == y.n else None)
        if isinstance(x, DC):
            r = {}
            for k in set(x.items) | set(y.items):
                u, v = x.items.get(k, UNBOUND), y.items.get(k, UNBOUND)
                r[k] = u if u is v else self.join(u, v, a, b, out)
            s = x.summary if y.summary is None else (y.summary if x.summary is None else self.join(x.summary, y.summary, a, b, out))
            return DC(r, s, x.roots | y.roots)
        return Top('cell')

    def join(self, x, y, a=None, b=None, out=None):
        """join two values; a, b the states they live in, out the joined state"""
        if x is y:
            return x
        if isinstance(x, PYSCALAR) and isinstance(y, PYSCALAR) and type(x) == type(y) and x == y:
            return x
        if isinstance(x, Top):
            return x if not isinstance(y, Unbound) else self.mkunion([x, y])
        if isinstance(y, Top):
            return y if not isinstance(x, Unbound) else self.mkunion([x, y])
        if isinstance(x, Arr) and isinstance(y, Arr):
            ca = self.content(x, a or out)
            cb = self.content(y, b or out)
            if x.loc == y.loc:
                return x
            j = join_c(ca, cb)
            if self.ctl and (ca.term is None or ca.term != cb.term):
                j = j.rep(taint=j.taint | self.ctl)
            return Arr(j, parents=(x, y))
        if isinstance(x, NUM + (Poly,)) and isinstance(y, NUM + (Poly,)) and not isinstance(x, bool) and not isinstance(y, bool):
            if type(x) == type(y) == Poly and x == y:
                return x
            return self.mkunion([x, y])
        if isinstance(x, ListV) and isinstance(y, ListV) and x.kind == y.kind and out is not None:
            la = (a or out).store.get(x.loc) or self.base.store.get(x.loc)
            lb = (b or out).store.get(y.loc) or self.base.store.get(y.loc)
            if x.loc == y.loc:
                return x
            if la is not None and lb is not None:
                c = self.join_cell(la, lb, a, b, out)
                if c.items is not None or x.kind != 'tuple':
                    z = ListV(x.kind)
                    out.store[z.loc] = c
                    return z
        if isinstance(x, Inst) and isinstance(y, Inst):
            if x.loc == y.loc:
                return x
            if self.ctl and out is not None:
                self.mark_alternatives(x, y, a or out, b or out, out)
        if isinstance(x, Ext) and x == y:
            return x
        if isinstance(x, BoundV) and isinstance(y, BoundV) and x.func is y.func and x.self is y.self:
            return x
        if isinstance(x, ExtObj) and isinstance(y, ExtObj) and x.type == y.type and len(x.args) == len(y.args) and not x.kw and not y.kw:
            return ExtObj(x.type, [self.join(p, q, a, b, out) for p, q in zip(x.args, y.args)], taint=x.taint | y.taint)
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if (x.lo, x.hi, x.step) == (y.lo, y.hi, y.step):
                return x
        return self.mkunion([x, y])

    def arrays_of(self, v, st, acc, depth=0):
        """the arrays a value holds, by location"""
        if depth > 6:
            return acc
        if isinstance(v, Arr):
            acc[v.loc] = v
        elif isinstance(v, Union):
            for u in v.alts:
                self.arrays_of(u, st, acc, depth)
        elif isinstance(v, (Inst, ListV, DictV)):
            k = ('seen', v.loc)
            if k in acc:
                return acc
            acc[k] = None
            c = st.store.get(v.loc) or self.base.store.get(v.loc)
            if isinstance(c, IC):
                for a, u in c.attrs.items():
                    if a not in c.computed:
                        self.arrays_of(u, st, acc, depth + 1)
            elif isinstance(c, LC):
                for u in c.items or ((c.summary,) if c.summary is not None else ()):
                    self.arrays_of(u, st, acc, depth + 1)
            elif isinstance(c, DC):
                for u in c.items.values():
                    self.arrays_of(u, st, acc, depth + 1)
        return acc

    def mark_alternatives(self, x, y, a, b, out):
        """x or y, depending on a condition: whatever only one of the two holds depends on that condition"""
        px, py = self.arrays_of(x, a, {}), self.arrays_of(y, b, {})
        for mine, other, st in ((px, py, a), (py, px, b)):
            terms = set(self.content(v, st).term for v in other.values() if v is not None)
            for k, v in mine.items():
                if v is None or k in other:
                    continue
                c = self.content(v, st)
                if c.term is not None and c.term in terms:
                    continue
                c = c.rep(taint=c.taint | self.ctl)
                out.store[v.loc] = c
                self.marks.append((v.loc, c))

    def control(self, t, st):
        """what an undecided condition makes the joined results depend on"""
        return self.taint_of(t, st) - frozenset(['uninit'])

    def mkunion(self, vs):
        alts = []
        for v in vs:
            for w in (v.alts if isinstance(v, Union) else (v,)):
                if not any(w is u or (isinstance(w, PYSCALAR) and isinstance(u, PYSCALAR) and type(w) == type(u) and w == u)
                           or (isinstance(w, (Inst, ListV, DictV)) and type(w) == type(u) and w.loc == u.loc) for u in alts):
                    alts.append(w)
        if len(alts) == 1:
            return alts[0]
        if len(alts) > 6:
            if any(isinstance(u, Unbound) for u in alts):
                return Union([UNBOUND, Top('wide union')])
            return Top('wide union')
        return Union(alts)

    def content(self, a, st=None):
        c = st.store.get(a.loc) if st is not None else None
        if c is None:
            c = self.base.store.get(a.loc)
            c = c if isinstance(c, C) else a.c0
        if a.parents and 'uninit' in c.taint and not any('uninit' in self.content(p, st).taint for p in a.parents):
            c = c.rep(taint=c.taint - frozenset(['uninit']))
        if fold.REAL and a.parents and c.kind == 'nd':
            v = self.viewpos.get(a.loc)
            its = None
            if v is not None:
                pc = self.content(v[0], st)
                if pc.items is not None and (not v[1] or max(v[1]) < len(pc.items)):
                    its = tuple(pc.items[i] for i in v[1])
            if its != c.items or its is None:
                c = c.rep(items=its)
        return c

    def real_write(self, st, arr, items):
        v = self.viewpos.get(arr.loc)
        if v is None:
            c = self.content(arr, st)
            if not arr.parents:
                c = c.rep(items=items)
                if c.kind == 'sp':
                    # writing through .data: what was stored stays stored
                    old = self.content(arr, st).items
                    if items is None or old is None or any(isinstance(y, (int, float)) and y == 0 and not (isinstance(x, (int, float)) and x == 0) for x, y in zip(old, items)):
                        c = c.rep(facts=frozenset((f[0], False) + f[2:] if isinstance(f, tuple) and f[0] == 'spm' else f for f in c.facts))
                st.store[arr.loc] = c
            for p in arr.parents:
                self.real_write(st, p, None)
            return
        p, pos = v
        pi = self.content(p, st).items
        if items is None or pi is None or len(items) != len(pos):
            return self.real_write(st, p, None)
        pi = list(pi)
        for i, x in zip(pos, items):
            pi[i] = x
        self.real_write(st, p, tuple(pi))

    def assigned(self, st, v):
        """v was given to something that may have filled it"""
        if isinstance(v, Arr) and 'uninit' in self.content(v, st).taint:
            st.store[v.loc] = self.content(v, st).rep(taint=self.content(v, st).taint - frozenset(['uninit']))
            for p in v.parents:
                self.assigned(st, p)

    # ------------------------------------------------------------------ array writes
    def write_arr(self, st, arr, newc, strong=False, seen=None):
        """in-place write of content newc into arr"""
        seen = seen if seen is not None else set()
        if arr.loc in seen:
            return
        seen.add(arr.loc)
        old = self.content(arr, st)
        if strong:
            c = newc.rep(roots=old.roots)
        else:
            c = join_c(old, newc)
            c = c.rep(shape=old.shape, dtype=old.dtype, roots=old.roots, kind=old.kind,
                      items=None, taint=old.taint | newc.taint if 'uninit' in newc.taint else (old.taint | newc.taint) - frozenset(['uninit']),
                      facts=frozenset(f for f in c.facts))
        st.store[arr.loc] = c
        if fold.REAL and len(seen) == 1 and arr.parents:
            its = newc.items if strong and newc.items is not None and len(newc.items) == len(self.viewpos.get(arr.loc, (0, ()))[1]) else None
            before, todo = [], list(arr.parents)
            while todo:
                p = todo.pop()
                todo += p.parents
                before.append((p, self.content(p, st).items))
            for p in arr.parents:
                pc = self.content(p, st)
                self.write_arr(st, p, newc.rep(shape=pc.shape), False, seen)
            for p, i in before:
                if not p.parents and i is not None:
                    st.store[p.loc] = self.content(p, st).rep(items=i)
            self.real_write(st, arr, its)
            return
        for p in arr.parents:
            pc = self.content(p, st)
            self.write_arr(st, p, newc.rep(shape=pc.shape), False, seen)

    def mutate(self, st, val, node, how):
        """val is about to be changed in place"""
        if isinstance(val, Arr):
            roots = self.content(val, st).roots
        elif isinstance(val, (ListV, DictV)):
            c = st.store.get(val.loc) or self.base.store.get(val.loc)
            roots = c.roots if c is not None else frozenset()
        elif isinstance(val, Top):
            roots = val.roots
        else:
            roots = frozenset()
        shared = frozenset(r for r in roots if r.startswith('global:'))
        if shared:
            self.event('global-write', node, '%s of %s' % (how, sorted(shared)[0][7:]), roots=shared)
        if roots - shared:
            self.event('mutate', node, how, roots=roots - shared)

    # ------------------------------------------------------------------ lists
    def lst(self, st, v):
        return st.store.get(v.loc) or self.base.store.get(v.loc)

    def mklist(self, st, items, kind='list', roots=frozenset()):
        z = ListV(kind)
        st.store[z.loc] = LC(tuple(items), None, roots)
        return z

    def mkulist(self, st, summary, kind='list', n=None, roots=frozenset()):
        z = ListV(kind)
        st.store[z.loc] = LC(None, summary, roots, n)
        return z

    def items(self, st, v):
        """concrete items of an iterable, or None"""
        if isinstance(v, ListV):
            return self.lst(st, v).items
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, DictV):
            d = self.lst(st, v)
            return tuple(d.items) if d.summary is None else None
        if isinstance(v, Range):
            return None
        if isinstance(v, Arr):
            c = self.content(v, st)
            if c.items is not None and len(c.shape or ()) == 1:
                return c.items
            if c.shape and isinstance(c.shape[0], int) and c.shape[0] <= 64:
                return tuple(self.np.getitem(self, st, v, i, None) for i in range(c.shape[0]))
        return None

    def iter_elem(self, st, v, node=None):
        """summary element of an iterable whose length is unknown"""
        if isinstance(v, ListV):
            l = self.lst(st, v)
            if l.items is not None:
                s = None
                for e in l.items:
                    s = e if s is None else self.join(s, e, st, st, st)
                return s if s is not None else Top('empty list')
            return l.summary
        if isinstance(v, Range):
            return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), term=TERMS.fresh('iter')))
        if isinstance(v, Arr):
            c = self.content(v, st)
            if c.shape == ():
                return Top('iterating scalar')
            return self.np.getitem(self, st, v, Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), term=TERMS.fresh('iter'))), node)
        if isinstance(v, DictV):
            return Top('dict key')
        if isinstance(v, ExtObj):
            return Top('iter extobj', taint=v.taint)
        if isinstance(v, Top):
            return Top('iter', v.roots, v.taint)
        return Top('iter')

    # ------------------------------------------------------------------ blocks
    def exec_block(self, stmts, fr, st):
        out = Out()
        cur = st
        for s in stmts:
            if cur is None:
                break
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            try:
                o = self.exec_stmt(s, fr, cur)
            except AbsRaise as e:
                if e.node is None:
                    e.node = s
                out.raises.append((cur, e))
                cur = None
                break
            out.absorb(o)
            cur = o.fall
        out.fall = cur
        return out

    def exec_stmt(self, s, fr, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return Out(st)
        r = m(s, fr, st)
        if isinstance(r, Out):
            return r
        return Out(st)

    def x_Expr(self, s, fr, st):
        self.eval(s.value, fr, st)

    def x_Pass(self, s, fr, st):
        pass

    def x_Import(self, s, fr, st):
        self.do_import(s, fr, st)

    x_ImportFrom = x_Import

    def x_Global(self, s, fr, st):
        fr.globals_ |= set(s.names)

    def x_Nonlocal(self, s, fr, st):
        fr.nonlocals |= set(s.names)

    def x_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st, s)

    def x_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st, s)

    def x_AugAssign(self, s, fr, st):
        load = ast.copy_location({ast.Name: lambda t: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(s.target)](s.target), s.target)
        load._mod = s._mod
        old = self.eval(load, fr, st)
        rhs = self.eval(s.value, fr, st)
        op = type(s.op).__name__

        def one(o):
            if isinstance(o, Inst):
                f, _ = o.cls.lookup('__i%s__' % DUNDER[op])
                if isinstance(f, FuncV):
                    return self.call(BoundV(f, o), [rhs], {}, st, s)
            if isinstance(o, Arr) and self.content(o, st).shape != ():
                c = self.content(o, st)
                if c.kind == 'sp':
                    if op in ('Mult', 'Div'):
                        self.mutate(st, o, s, 'augmented assignment')
                        return self.binop(op, o, rhs, st, s)
                    return self.binop(op, o, rhs, st, s)
                if c.shape is None and not c.roots:
                    r = self.binop(op, o, rhs, st, s)
                    return r
                self.mutate(st, o, s, 'augmented assignment')
                r = self.binop(op, o, rhs, st, s)
                rc = self.content(r, st) if isinstance(r, Arr) else C(taint=self.taint_of(r, st))
                self.inplace_checks(st, o, rc, s)
                self.write_arr(st, o, rc.rep(shape=c.shape, dtype=c.dtype, kind=c.kind), strong=True)
                return o
            if isinstance(o, ListV) and o.kind == 'list' and op == 'Add':
                self.mutate(st, o, s, 'augmented assignment')
                r = self.binop(op, o, rhs, st, s)
                if isinstance(r, ListV):
                    st.store[o.loc] = LC(self.lst(st, r).items, self.lst(st, r).summary, self.lst(st, o).roots)
                return o
            if isinstance(o, Top) and o.roots and 'ndarray' in o.why:
                self.mutate(st, o, s, 'augmented assignment')
            return self.binop(op, o, rhs, st, s)
        keep = None
        if isinstance(s.target, ast.Subscript) and isinstance(s.target.value, (ast.Name, ast.Attribute)) and isinstance(old, Arr) and not fold.REAL:
            # the item store below folds the whole array: keep its items over the write through the view
            self.quiet += 1
            try:
                b = self.eval(load.value, fr, st)
            finally:
                self.quiet -= 1
            if isinstance(b, Arr) and b.loc != old.loc:
                keep = b, self.content(b, st).items
        v = self.mapu(old, one, st, s)
        if keep is not None and keep[1] is not None and self.content(keep[0], st).kind == 'nd':
            st.store[keep[0].loc] = self.content(keep[0], st).rep(items=keep[1])
        self.assign(s.target, v, fr, st, s, aug=True)

    def inplace_checks(self, st, target, newc, node):
        c = self.content(target, st)
        if c.dtype in INTS and newc.dtype in ('float', 'float32', 'complex'):
            self.event('int-truncation', node, 'a %s value is stored into an integer (%s) array' % (newc.dtype, c.dtype), roots=c.roots)
        if c.dtype == 'copyof' and newc.dtype in ('float', 'float32', 'complex'):
            self.event('int-truncation', node, 'float value is stored into an array that inherits the (possibly integer) element type of an input')

    def x_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.eval(t.value, fr, st)
                k = self.eval(t.slice, fr, st)
                self.mutate(st, v, s, 'del item')
                if isinstance(v, ListV):
                    l = self.lst(st, v)
                    if l.items is not None and isinstance(k, int):
                        it = list(l.items)
                        try:
                            del it[k]
                        except IndexError:
                            raise AbsRaise(ExcV('builtins.IndexError'), s)
                        st.store[v.loc] = LC(tuple(it), None, l.roots)
            elif isinstance(t, ast.Name):
                d = dict(st.store[fr.scope])
                d.pop(t.id, None)
                st.store[fr.scope] = d

    def x_FunctionDef(self, s, fr, st):
        f = self.mkfunc(s, fr, st)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr, st)
            v = self.decorate(dv, v, fr, st, d)
        self.bind(s.name, v, fr, st)

    def mkfunc(self, s, fr, st):
        defaults = [self.eval(d, fr, st) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, fr, st) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        name = getattr(s, 'name', '<lambda>')
        outer = ''
        if fr.cls is not None and fr.func is None:
            outer = fr.cls.name + '.'
        elif fr.func is not None:
            outer = fr.func.qual.split(':', 1)[-1] + '.'
        f = FuncV(s, fr.mod, [x for x in fr.scopes if not x.startswith('cls:')], defaults, kwd, name,
                  '%s:%s%s' % (fr.mod.name, outer, name))
        if fr.cls is not None and fr.func is None:
            f.cls = fr.cls
        elif fr.func is not None:
            f.cls = fr.cls
        return f

    def decorate(self, dv, v, fr, st, node):
        p = dv.path if isinstance(dv, Ext) else None
        if p in ('cached_property.cached_property', 'functools.cached_property'):
            return Prop(v, True)
        if p == 'builtins.property':
            return Prop(v, False)
        if p in ('abc.abstractproperty',):
            return Prop(v, False)
        if p == 'builtins.staticmethod':
            return StaticM(v)
        if p == 'builtins.classmethod':
            return ClassM(v)
        if p == 'abc.abstractmethod':
            if isinstance(v, FuncV):
                v.abstract = True
            return v
        if p in ('functools.lru_cache', 'functools.cache'):
            if isinstance(v, FuncV):
                v.cached = True
            return v
        if isinstance(dv, ExtObj) and dv.type in ('memoizer',):
            if isinstance(v, FuncV):
                v.cached = True
            return v
        if isinstance(dv, ExtObj) and dv.type == 'functools.wraps':
            return v
        if isinstance(dv, ExtM) and dv.name in ('setter', 'getter', 'deleter') and isinstance(dv.obj, Prop):
            if dv.name == 'setter':
                return Prop(dv.obj.func, dv.obj.cached, v)
            return dv.obj
        if isinstance(dv, (FuncV, BoundV, ClassV, Partial)):
            return self.call(dv, [v], {}, st, node)
        return Top('decorated')

    def x_ClassDef(self, s, fr, st):
        bases = [self.eval(b, fr, st) for b in s.bases]
        c = ClassV(s.name, s, fr.mod, bases)
        scope = 'cls:' + c.qual
        st.store[scope] = {}
        cf = Frame(None, scope, [scope] + fr.scopes, fr.mod, c)
        o = self.exec_block(s.body, cf, st)
        if o.fall is None:
            raise AbsRaise(ExcV('builtins.Exception'), s)
        st.store = o.fall.store
        c.ns = dict(st.store[scope])
        c.mro = self.mro(c)
        self.bind(s.name, c, fr, st)

    def mro(self, c):
        def lin(k):
            if isinstance(k, ClassV):
                return list(k.mro)
            return [k] if isinstance(k, Ext) else []
        seqs = [lin(b) for b in c.bases] + [[b for b in c.bases if isinstance(b, (ClassV, Ext))]]
        r = [c]
        while True:
            seqs = [x for x in seqs if x]
            if not seqs:
                return r
            for q in seqs:
                h = q[0]
                if not any(any(h == y for y in z[1:]) for z in seqs):
                    break
            else:
                h = seqs[0][0]
            r.append(h)
            seqs = [[y for y in z if y != h] if z and z[0] == h else z for z in seqs]

    def x_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else None
        o = Out(None)
        o.rets.append((st, v))
        return o

    def x_Raise(self, s, fr, st):
        e = None
        if s.exc is not None:
            e = self.eval(s.exc, fr, st)
        if isinstance(e, Ext):
            e = ExcV(e.path)
        elif isinstance(e, ClassV):
            e = ExcV(e.qual)
        elif isinstance(e, Inst):
            e = ExcV(e.cls.qual)
        elif not isinstance(e, ExcV):
            e = ExcV('unknown')
        self.raisectr += 1
        self.guardctr += 1
        raise AbsRaise(e, s)

    def x_Assert(self, s, fr, st):
        t = self.eval(s.test, fr, st)
        self.ambiguous(t, st, s.test)
        b = self.truth(t, st)
        if b is False:
            self.raisectr += 1
            raise AbsRaise(ExcV('builtins.AssertionError'), s)
        if b is not True:
            self.raisectr += 1
            self.guardctr += 1
        self.refine(s.test, True, fr, st)

    def ambiguous(self, t, st, node):
        """the truth value of an array of several elements is an error"""
        if isinstance(t, Arr):
            c = self.content(t, st)
            if c.kind == 'nd' and c.shape and all(d is not None for d in c.shape) and any(isinstance(d, int) and d > 1 or isinstance(d, Poly) and not str(d).startswith(('B:', '#')) for d in c.shape) and 0 not in c.shape:
                self.event('type-error', node, 'the truth value of an array of shape %s is ambiguous' % (tuple(str(d) for d in c.shape),))
                raise AbsRaise(ExcV('builtins.ValueError'), node, True)

    def x_If(self, s, fr, st):
        t = self.eval(s.test, fr, st)
        self.ambiguous(t, st, s.test)
        b = self.truth(t, st)
        if b is True:
            self.refine(s.test, True, fr, st)
            return self.exec_block(s.body, fr, st)
        if b is False:
            self.refine(s.test, False, fr, st)
            return self.exec_block(s.orelse, fr, st)
        s2 = st.fork()
        out = Out()
        f1 = f2 = None
        ctl = self.control(t, st)
        if self.refine(s.test, True, fr, st) is not False:
            o1 = self.exec_block(s.body, fr, st)
            out.absorb(o1)
            f1 = o1.fall
        if self.refine(s.test, False, fr, s2) is not False:
            o2 = self.exec_block(s.orelse, fr, s2)
            out.absorb(o2)
            f2 = o2.fall
        if ctl and out.rets:
            fr.ctl = fr.ctl | ctl
        prev, self.ctl = self.ctl, ctl
        try:
            out.fall = self.join_states(f1, f2)
        finally:
            self.ctl = prev
        return out

    def refine(self, test, pos, fr, st):
        """narrow unions by a test; returns False if the branch is infeasible"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pos, fr, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for v in test.values:
                    if self.refine(v, pos, fr, st) is False:
                        return False
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            want_none = isinstance(test.ops[0], ast.Is) == pos
            return self.narrow(test.left, fr, st, lambda v: (v is None) == want_none if not isinstance(v, Top) else True)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            self.quiet += 1
            try:
                cls = self.eval(test.args[1], fr, st)
            except AbsRaise:
                cls = None
            finally:
                self.quiet -= 1
            return self.narrow(test.args[0], fr, st, lambda v: self.isinst(v, cls, st) in (pos, None))
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self.narrow(test, fr, st, lambda v: self.truth(v, st) in (pos, None))

    def narrow(self, target, fr, st, pred):
        if isinstance(target, ast.Name):
            d = st.store[fr.scope]
            v = d.get(target.id)
            if isinstance(v, Union):
                alts = [a for a in v.alts if pred(a)]
                if not alts:
                    return False
                d = dict(d)
                d[target.id] = alts[0] if len(alts) == 1 else Union(alts)
                st.store[fr.scope] = d
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name):
            o = st.store[fr.scope].get(target.value.id)
            if isinstance(o, Inst):
                ic = self.inst(st, o)
                v = ic.attrs.get(target.attr)
                if isinstance(v, Union):
                    alts = [a for a in v.alts if pred(a)]
                    if not alts:
                        return False
                    at = dict(ic.attrs)
                    at[target.attr] = alts[0] if len(alts) == 1 else Union(alts)
                    st.store[o.loc] = IC(at, ic.label, ic.open, ic.computed)

    def x_For(self, s, fr, st):
        it = self.eval(s.iter, fr, st)
        items = self.iterate(it, st, s.iter)
        out = Out()
        if items is not None and len(items) <= (400 if fold.REAL else 80):
            cur = st
            brks = []
            for e in items:
                if cur is None:
                    break
                self.assign(s.target, e, fr, cur, s)
                o = self.exec_block(s.body, fr, cur)
                out.rets += o.rets
                out.raises += o.raises
                brks += o.brk
                cur = o.fall
                for c in o.cont:
                    cur = self.join_states(cur, c)
            if cur is not None and s.orelse:
                o = self.exec_block(s.orelse, fr, cur)
                out.absorb(o)
                cur = o.fall
            for b in brks:
                cur = self.join_states(cur, b)
            out.fall = cur
            return out
        # unknown number of iterations: at least one is assumed for definite assignment
        cur = st
        n_iter = 3
        exits = None
        for k in range(n_iter):
            if cur is None:
                break
            before = cur.fork()
            e = self.iter_elem(cur, it, s.iter)
            self.assign(s.target, e, fr, cur, s)
            o = self.exec_block(s.body, fr, cur)
            out.rets += o.rets
            out.raises += o.raises
            for b in o.brk:
                exits = self.join_states(exits, b)
            nxt = o.fall
            for c in o.cont:
                nxt = self.join_states(nxt, c)
            if nxt is None:
                cur = None
                break
            cur = nxt if k == 0 else self.join_states(before, nxt)
        if cur is not None:
            # zero iterations
            cur = self.join_loop0(st, cur)
            if s.orelse:
                o = self.exec_block(s.orelse, fr, cur)
                out.absorb(o)
                cur = o.fall
        out.fall = self.join_states(cur, exits)
        return out

    def join_loop0(self, st, cur):
        return cur

    def iterate(self, it, st, node):
        """tuple of items or None"""
        if isinstance(it, Inst):
            f, _ = it.cls.lookup('__iter__')
            if isinstance(f, FuncV):
                return self.iterate(self.call(BoundV(f, it), [], {}, st, node), st, node)
            f, _ = it.cls.lookup('__getitem__')
            g, _ = it.cls.lookup('__len__')
            if isinstance(f, FuncV) and isinstance(g, FuncV):
                n = self.call(BoundV(g, it), [], {}, st, node)
                if isinstance(n, int):
                    return tuple(self.call(BoundV(f, it), [i], {}, st, node) for i in range(n))
            if not it.cls.has_ext_base() and not self.inst(st, it).open:
                self.event('type-error', node, '%s is not iterable' % it.cls.name)
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
            return None
        if isinstance(it, Union):
            return None
        if isinstance(it, (FuncV, BoundV)):
            self.event('type-error', node, 'a function is iterated over')
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if it is None or isinstance(it, (bool, int, float)) or isinstance(it, Poly) or isinstance(it, Arr) and self.content(it, st).shape == ():
            self.event('type-error', node, '%s is not iterable' % ('None' if it is None else 'a number'))
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        return self.items(st, it)

    def x_While(self, s, fr, st):
        out = Out()
        cur = st
        exits = None
        for k in range(60):
            if cur is None:
                break
            t = self.eval(s.test, fr, cur)
            b = self.truth(t, cur)
            if b is False:
                break
            if b is None and k >= 3:
                break
            if b is None:
                ex = cur.fork()
                self.refine(s.test, False, fr, ex)
                exits = self.join_states(exits, ex)
            self.refine(s.test, True, fr, cur)
            before = cur.fork()
            o = self.exec_block(s.body, fr, cur)
            out.rets += o.rets
            out.raises += o.raises
            for x in o.brk:
                exits = self.join_states(exits, x)
            nxt = o.fall
            for c in o.cont:
                nxt = self.join_states(nxt, c)
            cur = nxt
            if b is None and cur is not None:
                cur = self.join_states(before, cur)
            if b is True and k >= 3 and (o.brk or o.rets or k > 40):
                cur = None
                break
        out.fall = self.join_states(cur, exits)
        return out

    def x_Break(self, s, fr, st):
        o = Out(None)
        o.brk.append(st)
        return o

    def x_Continue(self, s, fr, st):
        o = Out(None)
        o.cont.append(st)
        return o

    def x_With(self, s, fr, st):
        for i in s.items:
            v = self.eval(i.context_expr, fr, st)
            if i.optional_vars is not None:
                if isinstance(v, Inst):
                    f, _ = v.cls.lookup('__enter__')
                    if isinstance(f, FuncV):
                        v = self.call(BoundV(f, v), [], {}, st, s)
                self.assign(i.optional_vars, v, fr, st, s)
        return self.exec_block(s.body, fr, st)

    def x_Try(self, s, fr, st):
        before = st.fork()
        nev = len(self.events)
        nstop = self.maybe_stop
        nraise = self.raisectr
        caught_all = bool(s.handlers)
        if caught_all:
            self.quiet += 0
        o = self.exec_block(s.body, fr, st)
        out = Out()
        out.rets += o.rets
        out.brk += o.brk
        out.cont += o.cont
        fall = o.fall
        if s.handlers:
            # internal errors raised in the protected body are the expected protocol of the handler
            fresh_err = any(ev.kind in ('attr-error', 'type-error', 'name-error', 'arity', 'index-error', 'key-error') or ev.kind.startswith('maybe-') for ev in self.events[nev:])
            for ev in self.events[nev:]:
                if ev.kind in ('attr-error', 'type-error', 'name-error', 'arity', 'index-error', 'key-error'):
                    ev.kind = 'caught-' + ev.kind
            hst = before.fork()
            if fall is not None:
                hst = self.join_states(hst, fall)
            for r_st, _ in o.raises:
                hst = self.join_states(hst, r_st)
            body_may = self.raisectr != nraise or fresh_err or any(isinstance(x, ast.Raise) for b in s.body for x in ast.walk(b))
            dead = fall is None and not o.rets and not o.brk and not o.cont
            if fold.REAL and any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException') for h in s.handlers):
                self.raisectr = nraise          # whatever the body raises ends here
            if o.raises or dead or body_may or self.maybe_stop != nstop:
                for h in s.handlers:
                    if isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and fall is not None \
                            and self.maybe_stop == nstop and not o.raises:
                        continue    # the protected next() calls provably succeed
                    hs = hst.fork()
                    if h.name:
                        self.bind(h.name, ExcV('caught'), fr, hs)
                    ho = self.exec_block(h.body, fr, hs)
                    out.absorb(ho)
                    # a handler that always re-raises or is not needed when the body cannot fail
                    fall2 = ho.fall
                    if fall2 is not None:
                        if o.raises or dead or body_may:
                            fall = self.join_states(fall, fall2)
        else:
            out.raises += o.raises
        if fall is not None and s.orelse:
            oo = self.exec_block(s.orelse, fr, fall)
            out.absorb(oo)
            fall = oo.fall
        if s.finalbody:
            if fall is not None:
                fo = self.exec_block(s.finalbody, fr, fall)
                out.absorb(fo)
                fall = fo.fall
            rets, out.rets = out.rets, []
            for rst, v in rets:
                fo = self.exec_block(s.finalbody, fr, rst)
                if fo.fall is not None:
                    out.rets.append((fo.fall, v))
                out.absorb(fo)
        out.fall = fall
        return out

    # ------------------------------------------------------------------ binding
    def bind(self, name, v, fr, st):
        scope = fr.scope
        if name in fr.globals_:
            scope = 'mod:' + fr.mod.name
            self.event('global-write', None, name)
            if scope not in st.store:
                st.store[scope] = self.base.store[scope]
        elif name in fr.nonlocals:
            for x in fr.scopes[1:]:
                if name in (st.store.get(x) or self.base.store.get(x) or {}):
                    scope = x
                    break
        d = dict(st.store.get(scope) or self.base.store.get(scope) or {})
        d[name] = v
        st.store[scope] = d

    def assign(self, t, v, fr, st, node, aug=False):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            k = self.eval(t.slice, fr, st)
            self.setitem(o, k, v, st, node, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, node)

    def unpack(self, t, v, fr, st, node):
        items = self.iterate(v, st, node) if not isinstance(v, Union) else None
        if isinstance(v, Union):
            alts = [self.iterate(a, st, node) for a in v.alts]
            if all(a is not None and len(a) == len(t.elts) for a in alts):
                items = []
                for col in zip(*alts):
                    s = col[0]
                    for e in col[1:]:
                        s = self.join(s, e, st, st, st)
                    items.append(s)
        if items is not None and not any(isinstance(e, ast.Starred) for e in t.elts):
            if len(items) != len(t.elts):
                self.event('type-error', node, 'unpacking %d values into %d names' % (len(items), len(t.elts)))
                raise AbsRaise(ExcV('builtins.ValueError'), node, True)
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr, st, node)
            return
        if items is not None:
            k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
            after = len(t.elts) - k - 1
            items = list(items)
            if len(items) >= len(t.elts) - 1:
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr, st, node)
                self.assign(t.elts[k].value, self.mklist(st, items[k:len(items) - after]), fr, st, node)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x, fr, st, node)
                return
        if isinstance(v, PYSCALAR) and not isinstance(v, str):
            self.event('type-error', node, 'cannot unpack %r' % (v,))
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        for e in t.elts:
            x = self.iter_elem(st, v, node)
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.mkulist(st, x), fr, st, node)
            else:
                self.assign(e, x, fr, st, node)

    def inst(self, st, o):
        return st.store.get(o.loc) or self.base.store.get(o.loc)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Union):
            for a in o.alts:
                if isinstance(a, Inst):
                    self.setattr(a, name, v, st, node)
            return
        if isinstance(o, Inst):
            ic = self.inst(st, o)
            p, _ = o.cls.lookup(name)
            if isinstance(p, Prop) and p.setter is not None:
                self.call(BoundV(p.setter, o), [v], {}, st, node)
                return
            if isinstance(p, Prop) and not p.cached:
                self.event('attr-error', node, 'cannot set property %s of %s' % (name, o.cls.name))
                raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
            if ic.label is not None:
                self.event('attr-write', node, 'attribute %s of pre-existing %s is written' % (name, o.cls.name),
                           label=ic.label, attr=name, cls=o.cls.name)
            at = dict(ic.attrs)
            at[name] = v
            st.store[o.loc] = IC(at, ic.label, ic.open, ic.computed - {name})
            return
        if isinstance(o, ClassV):
            self.event('class-write', node, name)
            return
        if isinstance(o, (ModV, Ext)):
            self.event('global-write', node, name)
            return
        if isinstance(o, Arr):
            if name in ('shape', 'data', 'indices', 'dtype', 'flags'):
                self.mutate(st, o, node, 'attribute assignment')
                if name == 'data':
                    fold.sparse_set_data(self, st, o, v)
            return
        if isinstance(o, Top) and o.roots:
            self.event('attr-write', node, 'attribute %s of an input object is written' % name, label=sorted(o.roots)[0], attr=name, cls='?')

    def setitem(self, o, k, v, st, node, aug=False):
        if isinstance(o, Union):
            for a in o.alts:
                if not isinstance(a, (Unbound, type(None))):
                    self.setitem(a, k, v, st, node, aug)
            return
        if isinstance(o, ListV):
            if not aug or not isinstance(v, Arr):
                self.mutate(st, o, node, 'item assignment')
            l = self.lst(st, o)
            if o.kind == 'tuple':
                self.event('type-error', node, 'item assignment on a tuple')
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
            if l.items is not None and isinstance(k, int):
                it = list(l.items)
                if not -len(it) <= k < len(it):
                    raise AbsRaise(ExcV('builtins.IndexError'), node)
                it[k] = v
                st.store[o.loc] = LC(tuple(it), None, l.roots)
            elif l.items is not None and len(l.items):
                st.store[o.loc] = LC(tuple(self.join(e, v, st, st, st) for e in l.items), None, l.roots)
            else:
                s = l.summary
                st.store[o.loc] = LC(None, v if s is None else self.join(s, v, st, st, st), l.roots, l.n)
        elif isinstance(o, DictV):
            self.mutate(st, o, node, 'item assignment')
            d = self.lst(st, o)
            kk = self.ckey(k, st)
            if kk is not None:
                it = dict(d.items)
                it[kk[0]] = v
                st.store[o.loc] = DC(it, d.summary, d.roots)
            else:
                st.store[o.loc] = DC(d.items, v if d.summary is None else self.join(d.summary, v, st, st, st), d.roots)
        elif isinstance(o, Arr):
            if not aug:
                self.mutate(st, o, node, 'item assignment')
            self.np.setitem(self, st, o, k, v, node)
        elif isinstance(o, Inst):
            f, _ = o.cls.lookup('__setitem__')
            if isinstance(f, FuncV):
                self.call(BoundV(f, o), [k, v], {}, st, node)
        elif isinstance(o, Top):
            if o.roots and not aug:
                self.mutate(st, o, node, 'item assignment')

    def equal(self, a, b, st):
        """True, False or None (unknown): equality of nested sequences of numbers and strings"""
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.kind != b.kind:
                return False if {a.kind, b.kind} == {'list', 'tuple'} else None
            x, y = self.lst(st, a).items, self.lst(st, b).items
            if x is None or y is None:
                return None
            if len(x) != len(y):
                return False
            r = [self.equal(p, q, st) for p, q in zip(x, y)]
            return False if False in r else None if None in r else True
        if isinstance(a, PYSCALAR) and isinstance(b, PYSCALAR):
            return a == b
        if any(isinstance(x, ListV) and isinstance(y, PYSCALAR) for x, y in ((a, b), (b, a))):
            return False
        return None

    def ckey(self, k, st):
        """hashable python key for a constant, in a 1-tuple, or None"""
        if isinstance(k, PYSCALAR):
            return (k,)
        if isinstance(k, Poly):
            return (k,)
        if isinstance(k, ListV) and k.kind == 'tuple':
            it = self.lst(st, k).items
            if it is not None:
                r = []
                for x in it:
                    c = self.ckey(x, st)
                    if c is None:
                        return None
                    r.append(c[0])
                return (tuple(r),)
        if isinstance(k, (Ext, ClassV)):
            return (k,)
        if isinstance(k, Inst):
            return (k.loc,)
        return None

    # ------------------------------------------------------------------ truth / isinstance
    def truth(self, v, st):
        if isinstance(v, PYSCALAR):
            return bool(v)
        if isinstance(v, Poly):
            return None
        if isinstance(v, ListV):
            l = self.lst(st, v)
            return bool(l.items) if l.items is not None else None
        if isinstance(v, DictV):
            d = self.lst(st, v)
            return bool(d.items) if d.summary is None or d.items else None
        if isinstance(v, Inst):
            if v.cls.lookup('__len__')[0] is not None or v.cls.lookup('__bool__')[0] is not None or v.cls.has_ext_base():
                return None
            return True
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, Ext, ExtM, Partial, ExcV, SliceV)):
            return True
        if isinstance(v, Union):
            r = set(self.truth(a, st) for a in v.alts if not isinstance(a, Unbound))
            return r.pop() if len(r) == 1 else None
        if isinstance(v, Arr):
            c = self.content(v, st)
            if 'true' in c.facts:
                return True
            if 'false' in c.facts:
                return False
        return None

    def isinst(self, v, cls, st):
        if isinstance(cls, ListV):
            r = [self.isinst(v, c, st) for c in self.lst(st, cls).items or ()]
            if True in r:
                return True
            return None if None in r or not r else False
        if isinstance(v, Inst):
            if isinstance(cls, (ClassV, Ext)):
                if v.cls.is_sub(cls):
                    return True
                return None if v.cls.has_ext_base() and isinstance(cls, Ext) else False
            return None
        if isinstance(v, Top) or isinstance(cls, Top):
            return None
        if isinstance(v, Union):
            r = set(self.isinst(a, cls, st) for a in v.alts)
            return r.pop() if len(r) == 1 else None
        if isinstance(cls, ClassV):
            return False
        if isinstance(cls, Ext):
            p = cls.path
            last = p.split('.')[-1]
            if isinstance(v, Arr):
                c = self.content(v, st)
                if p in ('numpy.ndarray',):
                    return c.kind in ('nd', 'obj') and c.shape != () if c.shape is not None else (None if c.kind == 'nd' else False)
                if last in ('int', 'float', 'Number', 'integer', 'floating'):
                    if c.shape is None:
                        return None
                    if c.shape != ():
                        return False
                    return {'int': c.dtype in INTS, 'integer': c.dtype in INTS, 'float': c.dtype == 'float'}.get(last, None) if c.dtype else None
                if last == 'dia_matrix' and fold.REAL and c.kind == 'sp':
                    m = next((f for f in c.facts if isinstance(f, tuple) and f[0] == 'spm'), None)
                    if m is not None:
                        return m[2] == 'dia'
                if 'spmatrix' in last or 'sparse' in p or last.endswith('_matrix'):
                    return c.kind == 'sp' if c.kind in ('nd', 'sp') else None
                if last in ('list', 'tuple', 'str', 'dict', 'slice', 'LinearOperator'):
                    return False
                return None
            tymap = {'int': int, 'float': float, 'str': str, 'bool': bool}
            if isinstance(v, PYSCALAR):
                if last in tymap and p.startswith('builtins'):
                    return isinstance(v, tymap[last])
                if last in ('list', 'tuple', 'dict', 'slice', 'ndarray', 'set'):
                    return False
                return None
            if isinstance(v, Poly):
                return last == 'int' if p.startswith('builtins') else None
            if isinstance(v, ListV):
                if last in ('list', 'tuple', 'set', 'frozenset'):
                    return v.kind == last
                if last in ('int', 'float', 'str', 'dict', 'ndarray', 'slice'):
                    return False
                return None
            if isinstance(v, DictV):
                return last == 'dict' if last in ('dict', 'list', 'tuple', 'int', 'str', 'ndarray') else None
            if isinstance(v, SliceV):
                return last == 'slice'
            if isinstance(v, (FuncV, BoundV)) and last in ('int', 'float', 'str', 'list', 'tuple', 'ndarray'):
                return False
        return None

    # ------------------------------------------------------------------ expressions
    def eval(self, n, fr, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return Top(type(n).__name__)
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        return m(n, fr, st)

    def e_Constant(self, n, fr, st):
        return n.value

    def e_JoinedStr(self, n, fr, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, fr, st)
        return Top('str')

    def lookup_name(self, name, fr, st):
        for i, sc in enumerate(fr.scopes):
            d = st.store.get(sc)
            if d is None:
                d = self.base.store.get(sc)
            if d is not None and name in d:
                return d[name]
            if i == 0 and fr.locals_ is not None and name in fr.locals_ and name not in fr.globals_ and name not in fr.nonlocals:
                return UNBOUND
        ms = 'mod:' + fr.mod.name
        d = st.store.get(ms) or self.base.store.get(ms) or {}
        if name in d:
            return d[name]
        if hasattr(_b, name):
            return Ellipsis if name == 'Ellipsis' else Ext('builtins.' + name)
        return None if name == 'None' else KeyError

    def e_Name(self, n, fr, st):
        v = self.lookup_name(n.id, fr, st)
        if v is KeyError:
            self.event('name-error', n, 'name %s is not defined' % n.id)
            raise AbsRaise(ExcV('builtins.NameError'), n, True)
        if v is UNBOUND:
            self.event('unbound', n, 'local variable %s is used before assignment' % n.id, definite=True)
            raise AbsRaise(ExcV('builtins.UnboundLocalError'), n, True)
        if isinstance(v, Union) and any(a is UNBOUND for a in v.alts):
            self.event('maybe-unbound', n, 'local variable %s may be unassigned' % n.id)
            alts = [a for a in v.alts if a is not UNBOUND]
            v = alts[0] if len(alts) == 1 else Union(alts)
            d = dict(st.store[fr.scope])
            if n.id in d:
                d[n.id] = v
                st.store[fr.scope] = d
        return v

    def e_Tuple(self, n, fr, st):
        return self.seq(n, fr, st, 'tuple')

    def e_List(self, n, fr, st):
        return self.seq(n, fr, st, 'list')

    def e_Set(self, n, fr, st):
        return self.seq(n, fr, st, 'set')

    def seq(self, n, fr, st, kind):
        items = []
        unknown = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr, st)
                it = self.iterate(v, st, e)
                if it is None:
                    x = self.iter_elem(st, v, e)
                    unknown = x if unknown is None else self.join(unknown, x, st, st, st)
                else:
                    items += list(it)
            else:
                items.append(self.eval(e, fr, st))
        if unknown is not None:
            for x in items:
                unknown = self.join(unknown, x, st, st, st)
            return self.mkulist(st, unknown, kind)
        return self.mklist(st, items, kind)

    def e_Dict(self, n, fr, st):
        d = {}
        summ = None
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, fr, st)
            if k is None:
                if isinstance(vv, DictV):
                    c = self.lst(st, vv)
                    d.update(c.items)
                    summ = c.summary if summ is None else summ
                else:
                    summ = Top('**')
                continue
            kk = self.ckey(self.eval(k, fr, st), st)
            if kk is None:
                summ = vv if summ is None else self.join(summ, vv, st, st, st)
            else:
                d[kk[0]] = vv
        z = DictV()
        st.store[z.loc] = DC(d, summ)
        return z

    def e_Slice(self, n, fr, st):
        f = lambda x: self.eval(x, fr, st) if x is not None else None
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_ExtSlice(self, n, fr, st):
        return self.mklist(st, [self.eval(d, fr, st) for d in n.dims], 'tuple')

    def e_Index(self, n, fr, st):
        return self.eval(n.value, fr, st)

    def e_Lambda(self, n, fr, st):
        return self.mkfunc(n, fr, st)

    def e_IfExp(self, n, fr, st):
        t = self.eval(n.test, fr, st)
        b = self.truth(t, st)
        if b is True:
            return self.eval(n.body, fr, st)
        if b is False:
            return self.eval(n.orelse, fr, st)
        s2 = st.fork()
        res = []
        ctl = self.control(t, st)
        for pos, e, s in ((True, n.body, st), (False, n.orelse, s2)):
            if self.refine(n.test, pos, fr, s) is False:
                continue
            try:
                res.append((self.eval(e, fr, s), s))
            except AbsRaise as ex:
                err = ex
        if not res:
            raise err
        if len(res) == 1:
            st.store = res[0][1].store
            return res[0][0]
        prev, self.ctl = self.ctl, ctl
        try:
            j = self.join_states(res[0][1], res[1][1])
            v = self.join(res[0][0], res[1][0], res[0][1], res[1][1], j)
        finally:
            self.ctl = prev
        st.store = j.store
        return v

    def e_BoolOp(self, n, fr, st):
        is_and = isinstance(n.op, ast.And)
        vals = []
        done = []           # the operands known to have been passed to get here
        for e in n.values:
            v = self.guarded(e, done, is_and, fr, st)
            if v is INFEASIBLE:
                break
            b = self.truth(v, st)
            if b is (not is_and):
                # decided: whatever stopped earlier has this truth value as well
                vals = [self.with_truth(w, b, st) for w in vals] + [v]
                break
            if b is is_and and e is not n.values[-1]:
                continue
            vals.append(v)
            done.append(e)
        if not vals:
            return is_and
        if len(vals) == 1:
            return vals[0]
        # unknown: result is boolean-ish
        r = vals[0]
        for v in vals[1:]:
            r = self.join(r, v, st, st, st)
        return r

    def guarded(self, e, done, pos, fr, st):
        """evaluate e where all of done were found true (pos) or false"""
        if not done:
            return self.eval(e, fr, st)
        s2 = st.fork()
        for d in done:
            if self.refine(d, pos, fr, s2) is False:
                return INFEASIBLE
        if all(st.store.get(k) is x for k, x in s2.store.items()):
            return self.eval(e, fr, st)
        v = self.eval(e, fr, s2)
        st.store = self.join_states(st.fork(), s2).store
        return v

    def with_truth(self, v, b, st):
        if isinstance(v, Union):
            alts = [a for a in v.alts if self.truth(a, st) in (b, None)]
            return alts[0] if len(alts) == 1 else Union(alts) if alts else b
        if isinstance(v, Arr):
            c = self.content(v, st)
            if c.shape == () and c.dtype == 'bool' and self.truth(v, st) is None:
                return Arr(c.rep(facts=c.facts | {'true' if b else 'false'}))
        return v

    def e_UnaryOp(self, n, fr, st):
        v = self.eval(n.operand, fr, st)
        op = type(n.op).__name__
        if op == 'Not':
            b = self.truth(v, st)
            if b is None:
                return Arr(C(shape=(), dtype='bool', deg=0, tr=0, lin=(), taint=self.taint_of(v, st),
                             term=TERMS.mk('not', self.term_of(v, st))))
            return not b

        def one(v):
            if isinstance(v, NUM):
                return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
            if isinstance(v, Poly):
                return dims.neg(v) if op == 'USub' else v
            if isinstance(v, Inst):
                nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
                f, _ = v.cls.lookup(nm)
                if isinstance(f, FuncV):
                    return self.call(BoundV(f, v), [], {}, st, n)
                if not v.cls.has_ext_base() and not self.inst(st, v).open:
                    self.event('type-error', n, '%s has no %s' % (v.cls.name, nm))
                    raise AbsRaise(ExcV('builtins.TypeError'), n, True)
                return Top('unary')
            if isinstance(v, Arr):
                return self.np.unary(self, st, op, v, n)
            if v is None or isinstance(v, (str, FuncV, BoundV)):
                self.event('type-error', n, 'bad operand for unary %s' % op)
                raise AbsRaise(ExcV('builtins.TypeError'), n, True)
            return Top('unary', taint=self.taint_of(v, st))
        return self.mapu(v, one, st, n)

    def mapu(self, v, fn, st, node):
        """apply fn to every alternative of a union"""
        if not isinstance(v, Union):
            return fn(v)
        res = []
        err = None
        alts = [a for a in v.alts if a is not UNBOUND]
        q = len(self.events)
        for a in alts:
            s = st.fork()
            ev0 = len(self.events)
            try:
                s2 = st.fork()
                saved = st.store
                st.store = s2.store
                r = fn(a)
                res.append((r, State(st.store)))
                st.store = saved
            except AbsRaise as e:
                st.store = saved
                err = e
                # one alternative failing is not definite
                for ev in self.events[ev0:]:
                    if ev.kind in ('attr-error', 'type-error', 'arity', 'index-error', 'key-error'):
                        ev.kind = 'maybe-' + ev.kind
        if not res:
            raise err
        acc, ast_ = res[0]
        for r, s in res[1:]:
            j = self.join_states(ast_, s)
            acc = self.join(acc, r, ast_, s, j)
            ast_ = j
        st.store = ast_.store
        return acc

    def e_BinOp(self, n, fr, st):
        a = self.eval(n.left, fr, st)
        b = self.eval(n.right, fr, st)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def binop(self, op, a, b, st, node):
        if isinstance(a, Union):
            return self.mapu(a, lambda x: self.binop(op, x, b, st, node), st, node)
        if isinstance(b, Union):
            return self.mapu(b, lambda x: self.binop(op, a, x, st, node), st, node)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (FuncV, BoundV)) and (y is None or isinstance(y, (FuncV, BoundV, Arr, ListV, Poly) + NUM)):
                self.event('type-error', node, 'arithmetic with a function')
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError:
                raise AbsRaise(ExcV('builtins.ZeroDivisionError'), node)
            except Exception:
                return Top('arith')
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and op == 'Add':
                return a + b
            if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
                return a * b
            return Top('str')
        if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)) and not (isinstance(a, int) and isinstance(b, int)):
            if op == 'Add':
                return dims.add(a, b)
            if op == 'Sub':
                return dims.sub(a, b)
            if op == 'Mult':
                return dims.mul(a, b)
            if op in ('FloorDiv', 'Div'):
                d = dims.div(a, b)
                if d is not None:
                    return d
            return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=(), term=TERMS.mk('poly' + op, str(a), str(b))))
        if isinstance(a, Inst) or isinstance(b, Inst):
            d = DUNDER[op]
            if isinstance(a, Inst):
                f, _ = a.cls.lookup('__%s__' % d)
                if isinstance(f, FuncV):
                    r = self.call(BoundV(f, a), [b], {}, st, node)
                    if not (isinstance(r, Ext) and r.path == 'builtins.NotImplemented'):
                        return r
                elif a.cls.has_ext_base() or self.inst(st, a).open:
                    return Top('binop')
            if isinstance(b, Inst):
                f, _ = b.cls.lookup('__r%s__' % d)
                if isinstance(f, FuncV):
                    return self.call(BoundV(f, b), [a], {}, st, node)
                if b.cls.has_ext_base() or isinstance(a, (Top, Arr)) or self.inst(st, b).open:
                    return Top('binop')
            self.event('type-error', node, 'unsupported operand types for %s: %s and %s' % (op, self.tyname(a), self.tyname(b)))
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if isinstance(a, ListV) and isinstance(b, ListV) and op == 'Add':
            la, lb = self.lst(st, a), self.lst(st, b)
            if a.kind != b.kind and {a.kind, b.kind} == {'list', 'tuple'}:
                self.event('type-error', node, 'cannot concatenate %s and %s' % (a.kind, b.kind))
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
            if la.items is not None and lb.items is not None:
                return self.mklist(st, la.items + lb.items, a.kind)
            ea, eb = self.iter_elem(st, a), self.iter_elem(st, b)
            if la.items == ():
                ea = eb
            if lb.items == ():
                eb = ea
            return self.mkulist(st, self.join(ea, eb, st, st, st), a.kind,
                                dims.add(self.seqlen(st, a), self.seqlen(st, b)))
        if isinstance(a, ListV) and op == 'Mult' or isinstance(b, ListV) and op == 'Mult':
            l, k = (a, b) if isinstance(a, ListV) else (b, a)
            if isinstance(k, (int, Poly, Arr, Top)) and not (isinstance(k, Arr) and self.content(k, st).shape != ()):
                lc = self.lst(st, l)
                if isinstance(k, int) and lc.items is not None and len(lc.items) * max(k, 0) <= 256:
                    return self.mklist(st, lc.items * k, l.kind)
                n = dims.mul(self.seqlen(st, l), k) if isinstance(k, (int, Poly)) else None
                return self.mkulist(st, self.iter_elem(st, l), l.kind, n)
        if isinstance(a, ListV) and a.kind == 'set' or isinstance(b, ListV) and b.kind == 'set':
            return self.mkulist(st, Top('set'), 'set')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                self.event('type-error', node, 'arithmetic with None')
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
            return self.np.binop(self, st, op, a, b, node)
        if (a is None or b is None) and not isinstance(a, Top) and not isinstance(b, Top):
            self.event('type-error', node, 'arithmetic with None')
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if isinstance(a, ListV) and isinstance(b, NUM) or isinstance(b, ListV) and isinstance(a, NUM):
            if op in ('Add', 'Sub', 'Div', 'Pow') or (op == 'Mult' and isinstance(a, float) or isinstance(b, float)):
                self.event('type-error', node, 'unsupported operand types for %s: %s and %s' % (op, self.tyname(a), self.tyname(b)))
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        return Top('binop', taint=self.taint_of(a, st) | self.taint_of(b, st))

    def tyname(self, v):
        if isinstance(v, Inst):
            return v.cls.name
        if isinstance(v, ListV):
            return v.kind
        return type(v).__name__

    def seqlen(self, st, v):
        if isinstance(v, ListV):
            l = self.lst(st, v)
            return len(l.items) if l.items is not None else l.n
        if isinstance(v, Arr):
            c = self.content(v, st)
            if c.shape:
                return c.shape[0]
        if isinstance(v, Range):
            return v.n
        return None

    def e_Compare(self, n, fr, st):
        left = self.eval(n.left, fr, st)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, fr, st)
            r = self.compare(type(op).__name__, left, right, st, n)
            b = self.truth(r, st)
            if b is False:
                return r
            if res is None or self.truth(res, st) is True:
                res = r
            left = right
        return res

    def compare(self, op, a, b, st, node):
        if isinstance(a, Union):
            return self.mapu(a, lambda x: self.compare(op, x, b, st, node), st, node)
        if isinstance(b, Union):
            return self.mapu(b, lambda x: self.compare(op, a, x, st, node), st, node)
        if op in ('Is', 'IsNot'):
            r = None
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    r = True
                elif isinstance(o, Top):
                    r = None
                else:
                    r = False
            elif isinstance(a, (Inst, ListV, DictV)) and type(a) == type(b):
                r = a.loc == b.loc
                r = True if r else None
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            elif isinstance(a, (ClassV, FuncV)) or isinstance(b, (ClassV, FuncV)):
                r = a is b if type(a) == type(b) else None
            if r is None:
                return self.ubool(a, b, st, op)
            return r if op == 'Is' else not r
        if isinstance(a, PYSCALAR) and isinstance(b, PYSCALAR):
            try:
                return PYCMP[op](a, b)
            except TypeError:
                self.event('type-error', node, 'comparison of %s and %s' % (type(a).__name__, type(b).__name__))
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if op in ('In', 'NotIn'):
            it = None
            if isinstance(b, ListV):
                it = self.lst(st, b).items
            elif isinstance(b, DictV) and self.lst(st, b).summary is None:
                it = tuple(self.lst(st, b).items)
            if it is not None:
                k = self.ckey(a, st)
                keys = [self.ckey(x, st) if not isinstance(b, DictV) else (x,) for x in it]
                if k is not None and None not in keys:
                    r = k in keys
                    return r if op == 'In' else not r
            return self.ubool(a, b, st, op)
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}.get(op)
            o = a if isinstance(a, Inst) else b
            f, _ = o.cls.lookup(nm)
            if isinstance(f, FuncV):
                return self.call(BoundV(f, o), [b if o is a else a], {}, st, node)
            if op in ('Eq', 'NotEq') and isinstance(a, Inst) and isinstance(b, Inst) and not o.cls.has_ext_base():
                if a.loc == b.loc:
                    return op == 'Eq'
            x = b if o is a else a
            if op in ('Eq', 'NotEq') and not o.cls.has_ext_base() and (isinstance(x, PYSCALAR) or x is None):
                return op == 'NotEq'
            return self.ubool(a, b, st, op)
        if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
            if a == b:
                return op in ('Eq', 'LtE', 'GtE')
            return self.ubool(a, b, st, op)
        if isinstance(a, ListV) and isinstance(b, ListV) and a.kind == b.kind:
            x, y = self.lst(st, a).items, self.lst(st, b).items
            if fold.REAL and op in ('Eq', 'NotEq'):
                r = self.equal(a, b, st)
                if r is not None:
                    return r == (op == 'Eq')
            if x is not None and y is not None:
                if len(x) != len(y):
                    if op in ('Eq', 'NotEq'):
                        return op == 'NotEq'
                else:
                    ks = [(self.ckey(p, st), self.ckey(q, st)) for p, q in zip(x, y)]
                    if op in ('Eq', 'NotEq'):
                        if any(p is not None and q is not None and isinstance(p[0], PYSCALAR) and isinstance(q[0], PYSCALAR) and p != q for p, q in ks):
                            return op == 'NotEq'
                        if all(p is not None and p == q for p, q in ks):
                            return op == 'Eq'
            return self.ubool(a, b, st, op)
        if isinstance(a, (ClassV, Ext, FuncV)) and isinstance(b, (ClassV, Ext, FuncV)) and op in ('Eq', 'NotEq'):
            r = a is b or a == b
            return r if op == 'Eq' else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.compare(self, st, op, a, b, node)
        if fold.REAL and op in ('Eq', 'NotEq'):
            if any(isinstance(x, ListV) and x.kind in ('list', 'tuple') and isinstance(y, str) for x, y in ((a, b), (b, a))):
                return op == 'NotEq'
            if isinstance(a, self.np.DtypeV) or isinstance(b, self.np.DtypeV):
                p, q = [x.name if isinstance(x, self.np.DtypeV) else self.np.canon_dtype(self, st, x) for x in (a, b)]
                if p is not None and p == q and p != 'copyof':
                    return op == 'Eq'
                if fold.DTYPES and p != q and {p, q} <= {'sign', 'index'}:
                    return op == 'NotEq'
        return self.ubool(a, b, st, op)

    def ubool(self, a, b, st, op='cmp'):
        return Arr(C(shape=(), dtype='bool', deg=0, tr=0, lin=(), taint=self.taint_of(a, st) | self.taint_of(b, st),
                     term=TERMS.mk(op, self.term_of(a, st), self.term_of(b, st))))

    def taint_of(self, v, st, depth=0):
        if isinstance(v, Arr):
            return self.content(v, st).taint
        if isinstance(v, (Top, ExtObj)):
            return v.taint
        if isinstance(v, Union):
            return frozenset().union(*[self.taint_of(a, st, depth) for a in v.alts])
        if isinstance(v, ListV) and depth < 4:
            l = self.lst(st, v)
            return frozenset().union(*[self.taint_of(a, st, depth + 1) for a in (l.items if l.items is not None else (l.summary,))]) if (l.items or l.summary is not None) else frozenset()
        if isinstance(v, DictV) and depth < 4:
            l = self.lst(st, v)
            return frozenset().union(frozenset(), *[self.taint_of(a, st, depth + 1) for a in list(l.items.values()) + ([l.summary] if l.summary is not None else [])])
        return frozenset()

    def term_of(self, v, st, depth=0):
        if isinstance(v, Arr):
            return self.content(v, st).term
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return 'c:%r' % (v,)
        if isinstance(v, (int, float)):
            return 'c:%r' % (float(v),)
        if isinstance(v, PYSCALAR):
            return 'c:%r' % (v,)
        if isinstance(v, Poly):
            return 'p:%r' % (v,)
        if isinstance(v, ListV) and depth < 5:
            l = self.lst(st, v)
            if l.items is not None:
                return TERMS.mk('seq', *[self.term_of(x, st, depth + 1) for x in l.items])
            return TERMS.mk('ulist', v.loc)
        if isinstance(v, SliceV):
            return TERMS.mk('slice', *[self.term_of(x, st, depth + 1) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, (Inst, DictV)):
            return 'o:' + v.loc
        if isinstance(v, Ext):
            return 'x:' + v.path
        if isinstance(v, ExtObj):
            return TERMS.mk('ext', v.type, *[self.term_of(x, st, depth + 1) for x in v.args])
        if isinstance(v, ClassV):
            return 'k:' + v.qual
        return TERMS.fresh('top')

    def e_Attribute(self, n, fr, st):
        o = self.eval(n.value, fr, st)
        return self.getattr(o, n.attr, st, n)

    def getattr(self, o, name, st, node, default=KeyError):
        if isinstance(o, Union):
            return self.mapu(o, lambda x: self.getattr(x, name, st, node, default), st, node)
        if isinstance(o, Inst):
            ic = self.inst(st, o)
            if name in ic.attrs:
                v = ic.attrs[name]
                if v is UNBOUND or isinstance(v, Union) and any(a is UNBOUND for a in v.alts):
                    self.event('maybe-attr-error', node, 'attribute %s of %s may be unset' % (name, o.cls.name), attr=name, cls=o.cls.name)
                    if v is UNBOUND:
                        raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
                    alts = [a for a in v.alts if a is not UNBOUND]
                    v = alts[0] if len(alts) == 1 else Union(alts)
                return v
            d, k = o.cls.lookup(name)
            if k is not None:
                if isinstance(d, Prop):
                    if not isinstance(d.func, FuncV):
                        return Top('property')
                    v = self.call(BoundV(d.func, o), [], {}, st, node)
                    if d.cached:
                        self.add_root(v, 'cached:%s.%s' % (o.cls.name, name), st)
                        ic = self.inst(st, o)
                        at = dict(ic.attrs)
                        at[name] = v
                        st.store[o.loc] = IC(at, ic.label, ic.open, ic.computed | {name})
                    return v
                if isinstance(d, FuncV):
                    return BoundV(d, o)
                if isinstance(d, StaticM):
                    return d.func
                if isinstance(d, ClassM):
                    return BoundV(d.func, o.cls)
                return d
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                z = DictV()
                st.store[z.loc] = DC(ic.attrs, None, frozenset([ic.label]) if ic.label else frozenset())
                return z
            f, _ = o.cls.lookup('__getattr__')
            if isinstance(f, FuncV):
                return self.call(BoundV(f, o), [name], {}, st, node)
            if ic.open or o.cls.has_ext_base():
                return Top('attr ' + name, taint=frozenset())
            if default is not KeyError:
                return default
            self.event('attr-error', node, '%s has no attribute %s' % (o.cls.name, name), attr=name, cls=o.cls.name)
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
        if isinstance(o, ModV):
            if o.scope is not None:
                ns = st.store.get(o.scope) or self.base.store[o.scope]
                if name in ns:
                    return ns[name]
            if o.name + '.' + name in self.mods:
                return self.import_mod(o.name + '.' + name)
            if default is not KeyError:
                return default
            self.event('attr-error', node, 'module %s has no attribute %s' % (o.name, name))
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
        if isinstance(o, ClassV):
            d, k = o.lookup(name)
            if k is not None:
                if isinstance(d, StaticM):
                    return d.func
                if isinstance(d, ClassM):
                    return BoundV(d.func, o)
                return d
            if name == '__name__':
                return o.name
            if o.has_ext_base():
                return Top('class attr')
            if name.startswith('__'):
                return Top('class attr')
            if default is not KeyError:
                return default
            self.event('attr-error', node, 'class %s has no attribute %s' % (o.name, name), attr=name, cls=o.name)
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
        if isinstance(o, Ext):
            return self.np.ext_attr(self, st, o, name, node)
        if isinstance(o, Arr):
            return self.np.arr_attr(self, st, o, name, node)
        if isinstance(o, SliceV):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(name, Top('slice'))
        if isinstance(o, ListV):
            if name in LISTM.get(o.kind, ()):
                return ExtM(o, name)
            if default is not KeyError:
                return default
            self.event('attr-error', node, '%s has no attribute %s' % (o.kind, name))
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
        if isinstance(o, (DictV, str, Prop, FuncV, BoundV)):
            if isinstance(o, FuncV) and name == '__name__':
                return o.name
            py = {FuncV: types.FunctionType, BoundV: types.MethodType, str: str}.get(type(o))
            if py is not None and not hasattr(py, name) and not hasattr(types.FunctionType, name) and not name.startswith('__') \
                    and name not in self.fn_attrs():
                if default is not KeyError:
                    return default
                self.event('attr-error', node, '%s has no attribute %s' % ('a string' if py is str else 'a function', name))
                raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
            return ExtM(o, name)
        if isinstance(o, Super):
            return o.get(self, name, st, node)
        if isinstance(o, ExtObj):
            return self.np.extobj_attr(self, st, o, name, node)
        if o is None:
            if name == '__class__':
                return Ext('builtins.NoneType')
            if default is not KeyError:
                return default
            self.event('attr-error', node, 'None has no attribute %s' % name)
            raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
        if isinstance(o, NUM):
            from .fold import np as _np
            if _np is not None and not hasattr(o, name) and not hasattr(_np.int64, name) and not hasattr(_np.float64, name):
                if default is not KeyError:
                    return default
                self.event('attr-error', node, 'a number has no attribute %s' % name)
                raise AbsRaise(ExcV('builtins.AttributeError'), node, True)
            return ExtM(o, name)
        if isinstance(o, Top):
            return Top('attr ' + name, o.roots, o.taint)
        return Top('attr ' + name)

    def fn_attrs(self):
        """names that the program stores on anything but self (functions may carry attributes)"""
        if self._fn_attrs is None:
            out = set()
            for m in self.mods.values():
                tree = getattr(m, 'tree', None)
                for n in ast.walk(tree) if tree is not None else ():
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        out.add(n.attr)
            self._fn_attrs = out
        return self._fn_attrs

    def add_root(self, v, root, st, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if depth > 4:
            return
        if isinstance(v, Arr):
            if v.loc in seen:
                return
            seen.add(v.loc)
            c = self.content(v, st)
            st.store[v.loc] = c.rep(roots=c.roots | {root})
        elif isinstance(v, ListV):
            if v.loc in seen:
                return
            seen.add(v.loc)
            l = self.lst(st, v)
            st.store[v.loc] = LC(l.items, l.summary, l.roots | {root}, l.n)
            for x in (l.items or ()):
                self.add_root(x, root, st, depth + 1, seen)
            if l.summary is not None:
                self.add_root(l.summary, root, st, depth + 1, seen)
        elif isinstance(v, DictV):
            if v.loc in seen:
                return
            seen.add(v.loc)
            l = self.lst(st, v)
            st.store[v.loc] = DC(l.items, l.summary, l.roots | {root})
            for x in l.items.values():
                self.add_root(x, root, st, depth + 1, seen)
        elif isinstance(v, Union):
            for a in v.alts:
                self.add_root(a, root, st, depth + 1, seen)
        elif isinstance(v, Inst):
            if v.loc in seen:
                return
            seen.add(v.loc)
            ic = self.inst(st, v)
            if ic is not None and ic.label is None:
                st.store[v.loc] = IC(ic.attrs, root, ic.open, ic.computed)

    def e_Subscript(self, n, fr, st):
        o = self.eval(n.value, fr, st)
        k = self.eval(n.slice, fr, st)
        return self.getitem(o, k, st, n)

    def getitem(self, o, k, st, n):
        if isinstance(o, Union):
            return self.mapu(o, lambda x: self.getitem(x, k, st, n), st, n)
        if isinstance(o, (ListV, DictV, Inst)) and isinstance(k, Union):
            return self.mapu(k, lambda x: self.getitem(o, x, st, n), st, n)
        if isinstance(o, (FuncV, BoundV)):
            self.event('type-error', n, 'a function is subscripted')
            raise AbsRaise(ExcV('builtins.TypeError'), n, True)
        if isinstance(o, ListV):
            l = self.lst(st, o)
            if l.items is not None:
                if isinstance(k, int):
                    try:
                        return l.items[k]
                    except IndexError:
                        self.event('index-error', n, 'index %d out of range for a sequence of %d' % (k, len(l.items)))
                        raise AbsRaise(ExcV('builtins.IndexError'), n, True)
                if isinstance(k, SliceV) and all(isinstance(x, (int, type(None))) for x in (k.lo, k.hi, k.step)):
                    return self.mklist(st, l.items[slice(k.lo, k.hi, k.step)], o.kind)
                if isinstance(k, SliceV):
                    return self.mkulist(st, self.iter_elem(st, o, n), o.kind)
                if isinstance(k, (str,)) or isinstance(k, ListV) or isinstance(k, Arr) and self.content(k, st).shape not in ((), None):
                    self.event('type-error', n, '%s index is not an integer' % o.kind)
                    raise AbsRaise(ExcV('builtins.TypeError'), n, True)
                return self.iter_elem(st, o, n)
            if isinstance(k, SliceV):
                return self.mkulist(st, l.summary, o.kind)
            return l.summary
        if isinstance(o, DictV):
            d = self.lst(st, o)
            kk = self.ckey(k, st)
            if kk is not None and kk[0] in d.items:
                return d.items[kk[0]]
            if d.summary is not None:
                return d.summary
            if kk is not None:
                self.event('key-error', n, 'key %r is never present' % (kk[0],))
                raise AbsRaise(ExcV('builtins.KeyError'), n, True)
            r = None
            for v in d.items.values():
                r = v if r is None else self.join(r, v, st, st, st)
            return r if r is not None else Top('empty dict')
        if isinstance(o, str):
            if isinstance(k, int) and -len(o) <= k < len(o):
                return o[k]
            if isinstance(k, SliceV) and all(isinstance(x, (int, type(None))) for x in (k.lo, k.hi, k.step)):
                return o[slice(k.lo, k.hi, k.step)]
            return Top('str')
        if isinstance(o, Arr):
            return self.np.getitem(self, st, o, k, n)
        if isinstance(o, Inst):
            f, _ = o.cls.lookup('__getitem__')
            if isinstance(f, FuncV):
                return self.call(BoundV(f, o), [k], {}, st, n)
            if o.cls.has_ext_base() or self.inst(st, o).open:
                return Top('getitem')
            self.event('type-error', n, '%s is not subscriptable' % o.cls.name)
            raise AbsRaise(ExcV('builtins.TypeError'), n, True)
        if isinstance(o, (FuncV, BoundV)) or o is None or isinstance(o, (bool, int, float)):
            self.event('type-error', n, '%s is not subscriptable' % (self.tyname(o) if o is not None else 'None'))
            raise AbsRaise(ExcV('builtins.TypeError'), n, True)
        if isinstance(o, Ext):
            return self.np.ext_subscript(self, st, o, k, n)
        if isinstance(o, Range):
            return Arr(C(shape=(), dtype='int', deg=0, tr=0, lin=()))
        if isinstance(o, Top):
            return Top('item', o.roots, o.taint | self.taint_of(k, st))
        return Top('item', taint=self.taint_of(o, st))

    # comprehension
    def comp(self, n, fr, st, emit):
        """runs emit(frame, state) for every element; returns (complete, None)"""
        scope = newloc('sc')
        st.store[scope] = {}
        cf = Frame(fr.func, scope, [scope] + ([x for x in fr.scopes]), fr.mod, fr.cls)
        cf.self = fr.self
        exact = [True]
        size = [1]

        def rec(i, st, exactpath):
            if i == len(n.generators):
                emit(cf, st, exactpath)
                return
            g = n.generators[i]
            it = self.eval(g.iter, cf if i else Frame_like(fr, cf), st)
            items = self.iterate(it, st, g.iter)
            if items is not None and len(items) <= (400 if fold.REAL else 80):
                for e in items:
                    self.assign(g.target, e, cf, st, n)
                    ok = True
                    ex = exactpath
                    for c in g.ifs:
                        b = self.truth(self.eval(c, cf, st), st)
                        if b is False:
                            ok = False
                            break
                        if b is None:
                            ex = False
                            self.refine(c, True, cf, st)
                    if ok:
                        rec(i + 1, st, ex)
            else:
                self.assign(g.target, self.iter_elem(st, it, g.iter), cf, st, n)
                for c in g.ifs:
                    self.eval(c, cf, st)
                    self.refine(c, True, cf, st)
                    size[0] = None
                m = self.seqlen(st, it)
                size[0] = dims.mul(size[0], m) if size[0] is not None and m is not None and len(n.generators) == 1 else None
                rec(i + 1, st, False)
        rec(0, st, True)
        return size[0]

    def e_ListComp(self, n, fr, st, kind='list'):
        acc = []
        exact = [True]

        def emit(cf, s, ex):
            acc.append(self.eval(n.elt, cf, s))
            if not ex:
                exact[0] = False
        size = self.comp(n, fr, st, emit)
        if exact[0]:
            return self.mklist(st, acc, kind)
        r = None
        for v in acc:
            r = v if r is None else self.join(r, v, st, st, st)
        return self.mkulist(st, r if r is not None else Top('empty'), kind, size if not isinstance(size, int) or size == 1 and False else None)

    def e_GeneratorExp(self, n, fr, st):
        return self.e_ListComp(n, fr, st)

    def e_SetComp(self, n, fr, st):
        return self.e_ListComp(n, fr, st, 'set')

    def e_DictComp(self, n, fr, st):
        d = {}
        summ = [None]

        def emit(cf, s, ex):
            k = self.ckey(self.eval(n.key, cf, s), s)
            v = self.eval(n.value, cf, s)
            if k is not None and ex:
                d[k[0]] = v
            else:
                summ[0] = v if summ[0] is None else self.join(summ[0], v, s, s, s)
        self.comp(n, fr, st, emit)
        z = DictV()
        st.store[z.loc] = DC(d, summ[0])
        return z

    def e_Yield(self, n, fr, st):
        v = self.eval(n.value, fr, st) if n.value is not None else None
        d = st.store[fr.scope]
        y = d.get('%yield')
        if isinstance(y, ListV):
            l = self.lst(st, y)
            if l.items is not None:
                st.store[y.loc] = LC(l.items + (v,), None, l.roots)
            else:
                st.store[y.loc] = LC(None, self.join(l.summary, v, st, st, st), l.roots)
        return None

    def e_YieldFrom(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        y = st.store[fr.scope].get('%yield')
        it = self.iterate(v, st, n)
        if isinstance(y, ListV):
            l = self.lst(st, y)
            if l.items is not None and it is not None:
                st.store[y.loc] = LC(l.items + tuple(it), None, l.roots)
            else:
                s = self.iter_elem(st, v, n)
                if l.items or l.summary is not None:
                    s = self.join(s, self.iter_elem(st, y), st, st, st)
                st.store[y.loc] = LC(None, s, l.roots)
        return None

    def e_Starred(self, n, fr, st):
        return self.eval(n.value, fr, st)

    def e_NamedExpr(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.assign(n.target, v, fr, st, n)
        return v

    def e_Call(self, n, fr, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and isinstance(self.lookup_name('super', fr, st), Ext):
            if n.args:
                c = self.eval(n.args[0], fr, st)
                o = self.eval(n.args[1], fr, st)
                return Super(c, o)
            f = fr.func
            return Super(f.cls if f is not None else None, fr.self)
        f = self.eval(n.func, fr, st)
        args = []
        unknown_args = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                it = self.iterate(v, st, a)
                if it is None:
                    unknown_args = True
                    args.append(StarArg(self.iter_elem(st, v, a), v))
                else:
                    args += list(it)
            else:
                args.append(self.eval(a, fr, st))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, DictV):
                    d = self.lst(st, v)
                    for kk, x in d.items.items():
                        if isinstance(kk, str):
                            kwargs[kk] = x
                    if d.summary is not None:
                        kwargs['**'] = d.summary
                else:
                    kwargs['**'] = Top('kwargs')
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, n, fr)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, node, fr=None):
        if isinstance(f, Union):
            return self.mapu(f, lambda x: self.call(x, args, kwargs, st, node, fr), st, node)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self] + list(args), kwargs, st, node, bound=f.self)
            return self.call(f.func, [f.self] + list(args), kwargs, st, node, fr)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs, st, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kwargs, st, node)
        if isinstance(f, Partial):
            return f.fn(self, st, args, kwargs, node)
        if isinstance(f, Inst):
            g, _ = f.cls.lookup('__call__')
            if isinstance(g, FuncV):
                return self.call_func(g, [f] + list(args), kwargs, st, node, bound=f)
            if f.cls.has_ext_base() or self.inst(st, f).open:
                return Top('call')
            self.event('type-error', node, '%s is not callable' % f.cls.name)
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if isinstance(f, Ext):
            return self.np.call_ext(self, st, f, args, kwargs, node, fr)
        if isinstance(f, ExtM):
            return self.np.call_method(self, st, f, args, kwargs, node)
        if isinstance(f, ExtObj):
            return self.np.call_extobj(self, st, f, args, kwargs, node)
        if isinstance(f, (Arr, ListV, DictV)) or isinstance(f, PYSCALAR):
            if isinstance(f, Arr) and self.content(f, st).kind not in ('nd', 'sp'):
                return Top('call')
            self.event('type-error', node, 'a value (%s) is called as a function' % self.tyname(f))
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        if isinstance(f, Top):
            t = f.taint
            for a in list(args) + list(kwargs.values()):
                t = t | self.taint_of(a, st)
            self.unknown_calls[snippet(node, 60) if node is not None else '?'] = self.unknown_calls.get(snippet(node, 60) if node is not None else '?', 0) + 1
            return Top('call', taint=t)
        return Top('call')

    def instantiate(self, cls, args, kwargs, st, node):
        h = self.hooks.get(cls.qual)
        if h is not None:
            r = h(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        abstract = [k for c in cls.mro if isinstance(c, ClassV) for k in c.ns
                    if isinstance(cls.lookup(k)[0], FuncV) and cls.lookup(k)[0].abstract]
        if any(isinstance(k, Ext) and k.path.endswith('Exception') for k in cls.mro):
            return ExcV(cls.qual, args)
        o = Inst(cls)
        st.store[o.loc] = IC({}, None, False)
        new, _ = cls.lookup('__new__')
        init, _ = cls.lookup('__init__')
        if isinstance(new, (FuncV, StaticM)):
            f = new.func if isinstance(new, StaticM) else new
            r = self.call_func(f, [cls] + args, kwargs, st, node)
            if not isinstance(r, Inst):
                return r
            o = r
        if isinstance(init, FuncV):
            self.call_func(init, [o] + args, kwargs, st, node, bound=o)
        elif (args or kwargs) and not cls.has_ext_base() and not isinstance(new, (FuncV, StaticM)):
            self.event('arity', node, '%s takes no arguments' % cls.name)
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        elif cls.has_ext_base():
            ic = self.inst(st, o)
            st.store[o.loc] = IC(ic.attrs, None, True)
        return o

    def bind_args(self, f, args, kwargs, st, node):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        star = [x for x in args if isinstance(x, StarArg)]
        kw = dict(kwargs)
        kwtop = kw.pop('**', None)
        if star:
            i = args.index(star[0])
            for name, v in zip(pos[:i], args[:i]):
                env[name] = v
            rest = star[0].elem
            for name in pos[i:]:
                if name not in kw:
                    env[name] = rest
            if a.vararg:
                env[a.vararg.arg] = star[0].val if len(pos) <= i and len(args) == i + 1 else self.mkulist(st, rest, 'tuple')
        else:
            for name, v in zip(pos, args):
                env[name] = v
            extra = args[len(pos):]
            if a.vararg:
                env[a.vararg.arg] = self.mklist(st, extra, 'tuple')
            elif extra:
                self.event('arity', node, '%s takes %d positional arguments but %d are given' % (f.qual, len(pos), len(args)))
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        ko = [x.arg for x in a.kwonlyargs]
        left = {}
        for k, v in kw.items():
            if k in pos or k in ko:
                if k in env and not star:
                    self.event('arity', node, '%s got multiple values for %s' % (f.qual, k))
                    raise AbsRaise(ExcV('builtins.TypeError'), node, True)
                env[k] = v
            else:
                left[k] = v
        if a.kwarg:
            z = DictV()
            st.store[z.loc] = DC(left, kwtop)
            env[a.kwarg.arg] = z
        elif left:
            self.event('arity', node, '%s got an unexpected keyword %s' % (f.qual, sorted(left)[0]))
            raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        nd = len(f.defaults)
        for name, d in zip(pos[len(pos) - nd:], f.defaults):
            if name not in env:
                env[name] = d if kwtop is None else self.join(d, kwtop, st, st, st)
        for name in ko:
            if name not in env and name in f.kwdefaults:
                env[name] = f.kwdefaults[name]
        missing = [x for x in pos + ko if x not in env]
        if missing:
            if kwtop is not None or star:
                for x in missing:
                    env[x] = kwtop if kwtop is not None else star[0].elem
            else:
                self.event('arity', node, '%s misses argument %s' % (f.qual, missing[0]))
                raise AbsRaise(ExcV('builtins.TypeError'), node, True)
        return env

    def call_func(self, f, args, kwargs, st, node, bound=None):
        self.called.add(f.qual)
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        env = self.bind_args(f, args, kwargs, st, node)
        depth = len(self.stack)
        rec = sum(1 for g, _ in self.stack if g.node is f.node)
        if depth > self.MAXDEPTH or rec > self.MAXREC:
            t = frozenset()
            for a in args:
                t |= self.taint_of(a, st)
            return Top('recursion', taint=t)
        self.calls += 1
        self.functions_seen.add(f.qual)
        if self.on_call is not None:
            self.on_call(f, env, st, node)
        scope = newloc('sc')
        gen = not isinstance(f.node, ast.Lambda) and getattr(f.node, '_gen', None)
        if gen is None or gen is False:
            gen = (not isinstance(f.node, ast.Lambda)) and has_yield(f.node)
            f.node._gen = gen
        if gen:
            env['%yield'] = self.mklist(st, [])
        st.store[scope] = env
        fr = Frame(f, scope, [scope] + [x for x in f.scopes if not x.startswith('mod:')], f.mod, f.cls)
        fr.self = bound if bound is not None else (args[0] if args and f.cls is not None else None)
        if not hasattr(f.node, '_locals'):
            if isinstance(f.node, ast.Lambda):
                f.node._locals = set()
            else:
                f.node._locals = assigned_names(f.node)
        fr.locals_ = f.node._locals
        self.stack.append((f, node))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, fr, st)
                st.store.pop(scope, None) if False else None
                return v
            out = self.exec_block(f.node.body, fr, st)
        finally:
            self.stack.pop()
        rets = list(out.rets)
        if out.fall is not None:
            rets.append((out.fall, None))
        if not rets and gen and not out.raises:
            # a generator that never ends by itself
            return self.mkulist(st, Top('item of an endless generator'))
        if not rets:
            e = out.raises[0][1] if out.raises else AbsRaise(ExcV('builtins.Exception'), node)
            raise e
        s, v = rets[0]
        if gen:
            v = s.store[scope]['%yield']
        for s2, v2 in rets[1:]:
            if gen:
                v2 = s2.store[scope]['%yield']
            prev, self.ctl = self.ctl, fr.ctl
            try:
                j = self.join_states(s, s2)
                v = self.join(v, v2, s, s2, j)
            finally:
                self.ctl = prev
            s = j
        st.store = s.store
        if f.cached:
            self.add_root(v, 'cached:' + f.qual, st)
        ph = self.post_hooks.get(f.qual)
        if ph is not None:
            v = ph(self, st, env, v, node)
        return v


class Super(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, eng, name, st, node):
        o = self.obj
        c = o.cls if isinstance(o, Inst) else o
        if not isinstance(c, ClassV) or not isinstance(self.cls, ClassV):
            return Top('super')
        mro = c.mro
        i = [k for k, x in enumerate(mro) if x is self.cls]
        i = i[0] + 1 if i else 1
        for k in mro[i:]:
            if isinstance(k, ClassV) and name in k.ns:
                d = k.ns[name]
                if isinstance(d, FuncV):
                    return BoundV(d, o)
                if isinstance(d, Prop):
                    return eng.call(BoundV(d.func, o), [], {}, st, node)
                if isinstance(d, ClassM):
                    return BoundV(d.func, c)
                if isinstance(d, StaticM):
                    return d.func
                return d
        if any(isinstance(k, Ext) for k in mro):
            return Top('super attr')
        if name in ('__init__', '__new__', '__setattr__', '__getattribute__', '__repr__', '__eq__', '__hash__'):
            return Top('object method')
        eng.event('attr-error', node, 'super of %s has no attribute %s' % (c.name, name))
        raise AbsRaise(ExcV('builtins.AttributeError'), node, True)


class StarArg(object):
    __slots__ = ('elem', 'val')

    def __init__(self, elem, val):
        self.elem, self.val = elem, val


def Frame_like(fr, cf):
    return cf


INTS = ('int', 'index', 'sign', 'bool', 'uint8', 'int8', 'int16', 'int32', 'int64')
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}
import operator as _op
PYOP = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod,
        'Pow': _op.pow, 'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift}
PYCMP = {'Eq': _op.eq, 'NotEq': _op.ne, 'Lt': _op.lt, 'LtE': _op.le, 'Gt': _op.gt, 'GtE': _op.ge,
         'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b}
LISTM = {'list': ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'index', 'count', 'copy', 'clear', '__getitem__', '__getslice__', '__len__', '__iter__', '__contains__', '__class__'),
         'tuple': ('index', 'count', '__getitem__', '__len__', '__iter__', '__class__'),
         'set': ('add', 'union', 'intersection', 'difference', 'discard', 'remove', 'update', 'pop', 'issubset', 'copy')}
