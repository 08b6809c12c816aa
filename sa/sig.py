"""Plain-data rendering of abstract values, and comparison of two renderings."""
import re
from .values import (Arr, ListV, DictV, Inst, Union, Top, AbsRaise, TERMS)
from . import fold, dims

# public attributes that carry the state of each family of objects
STATE = ('n_dim', 'vertices', 'weights', 'radius', 'radii', 'topology', 'scale', 'shape', 'complex', 'parent',
         'parent_idx', 'primal', 'A', 'B', 'L', 'R', 'block', 'system', 'n_elements')
# classes whose name is part of what a caller sees
PUBLIC = re.compile(r'^(Complex|Topology|Dual|ClosedDual|System|Diffusion|StencilComplex|StencilTopology|DenseBlockArray|SparseBlockMatrix)')
FACTS = ('rowsum1', 'colsum1', 'bary', 'diagonal', 'zero', 'uninit')


def dname(d):
    return re.sub(r'#[\w.:]+', '#', str(d))


def num(x):
    return str(x) if x is not None else None


def sig(eng, st, v, depth=0, inst=2):
    if isinstance(v, Arr):
        c = eng.content(v, st)
        k = TERMS.get(c.term) if c.term is not None else None
        d = dict(t='A', shape=[dname(x) for x in c.shape] if c.shape is not None else None, dtype=c.dtype,
                 deg=num(c.deg), tr=num(c.tr), lin=dict(c.lin) if c.lin is not None else None, kind=c.kind,
                 facts=sorted(f for f in c.facts if f in FACTS), taint=sorted(c.taint))
        if k is not None and k[0] == 'sym':
            d['sym'] = str(k[1])
        if fold.is_const(c):
            d['const'] = [x if isinstance(x, (int, float)) else str(x) for x in c.items]
        elif k is not None and k[0] == 'const' and isinstance(k[1], float):
            d['const'] = [k[1]]
        if c.kind == 'obj' and c.items is not None and depth < 6:
            d['items'] = [sig(eng, st, x, depth + 1, inst) for x in c.items]
        return d
    if isinstance(v, ListV):
        l = eng.lst(st, v)
        if depth > 6:
            return dict(t='?')
        if l.items is not None:
            return dict(t='L', items=[sig(eng, st, x, depth + 1, inst) for x in l.items])
        return dict(t='U', item=sig(eng, st, l.summary, depth + 1, inst), n=num(l.n))
    if isinstance(v, Union):
        return dict(t='|')
    if isinstance(v, Inst):
        d = dict(t='I', cls=v.cls.name, mro=[k.name for k in v.cls.mro[1:] if hasattr(k, 'ns') and k.name != 'object'])
        if inst > 0:
            at = {}
            ic = eng.inst(st, v)
            for a in STATE:
                has, _ = v.cls.lookup(a)
                if a not in ic.attrs and has is None:
                    continue
                q = eng.quiet
                eng.quiet += 1
                try:
                    f = st.fork()
                    x = ic.attrs[a] if a in ic.attrs else eng.getattr(v, a, f, None)
                    at[a] = sig(eng, f, x, depth + 1, inst - 1)
                except AbsRaise:
                    pass
                finally:
                    eng.quiet = q
            d['state'] = at
        return d
    if v is None or isinstance(v, (int, float, str, bool)):
        return dict(t='K', v=v)
    if isinstance(v, dims.Poly):
        return dict(t='D', v=dname(v))
    return dict(t='?')


# ---------------------------------------------------------------------------------- comparison
class Diff(object):
    def __init__(self):
        self.found = []         # (aspect, path, expected, found)
        self.same = {}          # aspect -> number of definite agreements
        self.unsure = {}        # aspect -> number of places where the analysis cannot tell

    def ok(self, a):
        self.same[a] = self.same.get(a, 0) + 1

    def huh(self, a):
        self.unsure[a] = self.unsure.get(a, 0) + 1

    def bad(self, a, path, exp, got):
        self.found.append((a, path, str(exp), str(got)))


_WIDTH = {'bool': 0, 'sign': 1, 'uint8': 1, 'int16': 1.5, 'uint16': 1.5, 'index': 2, 'uint32': 2, 'uint64': 2, 'int': 2, 'float16': 2.5, 'float32': 3, 'float': 4, 'complex': 5}
_LIN = {'0': 0, 'L': 1, 'A': 2, 'N': 3}


def unknown(s):
    return s is None or s.get('t') in ('?', '|', None)


def dim_known(d):
    return d is not None and d != 'None' and '#' not in d


def compare(g, n, path='', out=None):
    """differences between the expected (g) and the present (n) rendering"""
    out = out if out is not None else Diff()
    if unknown(g) or unknown(n):
        out.huh('structure')
        return out
    a, b = g['t'], n['t']
    if a != b:
        # a python number and a 0-d array, or a list of known and of unknown length, are not definite differences
        if {a, b} <= {'A', 'K'}:
            ka, kb = (g, n) if a == 'K' else (n, g)
            if isinstance(ka['v'], (int, float)) and not isinstance(ka['v'], bool) and kb.get('const') is not None and kb.get('shape') == []:
                if abs(kb['const'][0] - ka['v']) > 1e-9:
                    out.bad('const', path, g.get('v', g.get('const')), n.get('v', n.get('const')))
                return out
            if ka['v'] is None:
                out.bad('structure', path, show(g), show(n))
                return out
            out.huh('structure')
            return out
        if {a, b} == {'D', 'K'}:
            out.bad('shape', path, g['v'], n['v']) if isinstance((g if a == 'K' else n)['v'], int) and dim_known((g if a == 'D' else n)['v']) else out.huh('shape')
            return out
        if {a, b} <= {'L', 'U', 'A'}:
            out.huh('structure')
            return out
        if b == 'K' and n['v'] is None or a == 'K' and g['v'] is None or 'I' in (a, b):
            out.bad('structure', path, show(g), show(n))
            return out
        out.huh('structure')
        return out
    if a == 'K':
        if type(g['v']) != type(n['v']) or g['v'] != n['v']:
            if isinstance(g['v'], (int, float)) and isinstance(n['v'], (int, float)) and abs(g['v'] - n['v']) < 1e-9:
                out.ok('const')
            else:
                out.bad('const' if g['v'] is not None and n['v'] is not None else 'structure', path, g['v'], n['v'])
        else:
            out.ok('const')
        return out
    if a == 'D':
        if not dim_known(g['v']) or not dim_known(n['v']):
            out.huh('shape')
        elif g['v'] != n['v']:
            out.bad('shape', path, g['v'], n['v'])
        else:
            out.ok('shape')
        return out
    if a == 'L':
        if len(g['items']) != len(n['items']):
            out.bad('structure', path, '%d items' % len(g['items']), '%d items' % len(n['items']))
            return out
        out.ok('structure')
        for i, (x, y) in enumerate(zip(g['items'], n['items'])):
            compare(x, y, '%s[%d]' % (path, i), out)
        return out
    if a == 'U':
        compare(g['item'], n['item'], path + '[*]', out)
        return out
    if a == 'I':
        if g['cls'] != n['cls']:
            if PUBLIC.match(g['cls']) and g['cls'] not in n.get('mro', ()):
                out.bad('class', path, g['cls'], n['cls'])
            else:
                out.huh('class')
            return out
        out.ok('class')
        gs, ns = g.get('state') or {}, n.get('state') or {}
        for k in gs:
            if k in ns:
                n0 = len(out.found)
                compare(gs[k], ns[k], path + '.' + k, out)
                for a, p, x, y in list(out.found[n0:]):
                    if a == 'structure' and p == path + '.' + k:
                        out.bad('state', p, x, y)
            elif k in ('vertices', 'weights', 'radius', 'topology', 'parent', 'scale', 'parent_idx'):
                if ns:
                    out.bad('state', path + '.' + k, show(gs[k]), 'not set')
        return out
    # arrays
    gsh, nsh = g['shape'], n['shape']
    if gsh is None or nsh is None:
        out.huh('shape')
    elif len(gsh) != len(nsh):
        out.bad('shape', path, tuple(gsh), tuple(nsh))
    else:
        for x, y in zip(gsh, nsh):
            if not dim_known(x) or not dim_known(y):
                out.huh('shape')
            elif x != y:
                out.bad('shape', path, tuple(gsh), tuple(nsh))
                break
        else:
            out.ok('shape')
    gd, nd = g['dtype'], n['dtype']
    if gd is None or nd is None:
        out.huh('dtype')
    elif gd == nd:
        out.ok('dtype')
    elif gd in _WIDTH and nd in _WIDTH:
        if (gd == 'bool') != (nd == 'bool') or _WIDTH[nd] < _WIDTH[gd] or nd.startswith('uint') and not gd.startswith('uint') and _WIDTH[nd] < 2.5 > _WIDTH[gd]:
            out.bad('dtype', path, gd, nd)
        else:
            out.ok('dtype')
    for f in ('deg', 'tr'):
        x, y = g[f], n[f]
        if x in (None, 'any') or y in (None, 'any'):
            out.huh(f)
        elif x != y:
            # an unknown result of the coordinate analysis never counts
            out.bad(f, path, x, y)
        else:
            out.ok(f)
    gl, nl = g['lin'], n['lin']
    if gl is None or nl is None:
        if gl and any(v == 'L' for v in gl.values()):
            out.huh('lin')
    else:
        for k, v in gl.items():
            w = nl.get(k, '0')
            if v in ('L', '0') and _LIN[w] > _LIN[v]:
                out.bad('lin', path, '%s in %s' % ({'L': 'linear', '0': 'independent'}[v], k), {'A': 'affine', 'N': 'nonlinear', 'L': 'dependent'}[w])
            elif v == 'L' and w == 'L':
                out.ok('lin')
    for t in n['taint']:
        if t not in g['taint']:
            out.bad('taint-' + t, path, 'independent of ' + t, 'depends on ' + t)
    if not g['taint']:
        out.ok('taint')
    for f in ('rowsum1', 'colsum1', 'bary', 'diagonal'):
        if f in g['facts']:
            if f in n['facts']:
                out.ok('fact-' + f)
            else:
                out.huh('fact-' + f)
    if 'uninit' in n['facts'] and 'uninit' not in g['facts']:
        out.bad('uninit', path, 'every element assigned', 'elements that were never assigned')
    if g.get('sym') is not None:
        if n.get('sym') is None:
            out.huh('sym')
        elif n['sym'] != g['sym']:
            out.bad('state', path, g['sym'], n['sym'])
        else:
            out.ok('state')
    gc, nc = g.get('const'), n.get('const')
    if gc is not None and nc is not None:
        if len(gc) == len(nc):
            bad = [(x, y) for x, y in zip(gc, nc) if (abs(x - y) > 1e-9 * max(1, abs(x)) if not isinstance(x, str) and not isinstance(y, str) else str(x) != str(y))]
            if bad:
                out.bad('const', path, gc if len(gc) < 20 else '%s...' % gc[:20], nc if len(nc) < 20 else '%s...' % nc[:20])
            else:
                out.ok('const')
    elif gc is not None:
        out.huh('const')
    gi, ni = g.get('items'), n.get('items')
    if gi is not None and ni is not None:
        if len(gi) == len(ni):
            for i, (x, y) in enumerate(zip(gi, ni)):
                compare(x, y, '%s{%d}' % (path, i), out)
    return out


def show(s):
    if unknown(s):
        return '?'
    if s['t'] == 'A':
        return 'array(%s)' % ', '.join(s['shape']) if s['shape'] is not None else 'array'
    if s['t'] == 'K':
        return repr(s['v'])
    if s['t'] == 'I':
        return s['cls']
    if s['t'] == 'L':
        return '%d items' % len(s['items'])
    return s['t']


def count(s, acc):
    """definite facets of a rendering, per aspect"""
    if unknown(s):
        return acc
    if s['t'] == 'A':
        if s['shape'] is not None:
            acc['shape'] = acc.get('shape', 0) + 1
        for f in ('deg', 'tr'):
            if s[f] not in (None, 'any'):
                acc[f] = acc.get(f, 0) + 1
        if s['lin'] and any(v == 'L' for v in s['lin'].values()):
            acc['lin'] = acc.get('lin', 0) + 1
        if s['dtype'] is not None:
            acc['dtype'] = acc.get('dtype', 0) + 1
        if not s['taint']:
            acc['taint'] = acc.get('taint', 0) + 1
    for x in s.get('items') or ():
        count(x, acc)
    for x in (s.get('state') or {}).values():
        count(x, acc)
    if s.get('item'):
        count(s['item'], acc)
    return acc
