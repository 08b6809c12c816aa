"""Decides the properties: which events and which facets of the computed results each property is about.

A *finding* is (property, rule, where, what).  `where` names a function and a construct, or an analysed
operation - never a line number."""
import collections
import re
from . import sweep, sig as sigs, scenarios
from .loader import AnalysisBroken


class Finding(object):
    def __init__(self, prop, rule, func, construct, msg, rel='', line=0, scenario=''):
        self.prop, self.rule, self.func, self.construct, self.msg = prop, rule, func, construct, msg
        self.rel, self.line = rel, line
        self.scenarios = [scenario] if scenario else []

    @property
    def key(self):
        return (self.rule, self.func, norm(self.construct))

    def text(self):
        at = '%s:%d: ' % (self.rel, self.line) if self.rel else ''
        return '%s[%s] %s: %s -- %s (reached by %d analysed operation(s), e.g. %s)' % (
            at, self.rule, self.func, self.construct, self.msg, len(self.scenarios), self.scenarios[0] if self.scenarios else '-')

    def plain(self):
        return dict(rule=self.rule, file=self.rel, line=self.line, function=self.func, construct=self.construct,
                    message=self.msg, operations=self.scenarios[:20], n_operations=len(self.scenarios))


def norm(s):
    return re.sub(r'\s+', '', s or '')


# ---------------------------------------------------------------------------------- what belongs to which property
ERRORS = {'attr-error': 'an attribute that does not exist', 'type-error': 'an operation on a value of the wrong kind',
          'name-error': 'a name that is not defined', 'arity': 'a call that does not match the signature',
          'unbound': 'a local variable that is not assigned', 'index-error': 'an index outside a fixed-length sequence',
          'key-error': 'a missing key', 'index-rank': 'more indices than dimensions',
          'module-raise': 'a module that cannot be imported'}
SHAPES = {'shape': 'operands whose sizes do not fit', 'index-space': 'an index into one kind of element used on another',
          'index-rank': 'more indices than dimensions', 'index-range': 'an index outside the axis'}

EVENTS = {
    'C01': {'mutate': 'in-place change of an object the caller can still see', 'attr-write': 'attribute of an argument overwritten'},
    'C02': {'global-write': 'module state changed by an operation', 'class-write': 'class state changed by an operation',
            'default-write': 'a default argument object is changed',
            'io-call': 'an operation that touches files, streams or processes',
            'random': 'a result that depends on the state of a random number generator'},
    'C03': SHAPES,
    'C05': {'unit': 'sum or comparison of quantities of different physical dimension'},
    'C07': {'batch-reduce': 'reduction over a batch axis', 'batch-index': 'selection along a batch axis'},
    'C08': {'int-truncation': 'float values stored into an integer array', 'narrowing': 'values stored into an array of a narrower type',
            'narrow-cast': 'indices cast to a type that cannot hold them', 'float-to-int': 'float values cast to integers'},
    'C11': dict(ERRORS, **SHAPES),
}
ASPECTS = {
    'C02': ('taint-random', 'taint-uninit', 'uninit'),
    'C03': ('shape', 'structure'),
    'C05': ('deg',),
    'C06': ('tr',),
    'C08': ('dtype',),
    'C10': ('state', 'class'),
    'C12': ('lin',),
    'C16': ('taint-geometry',),
}
SWEPT = sorted(set(EVENTS) | set(ASPECTS))

# events that are the documented purpose of the operation
ALLOWED = [
    # (systems that couple forms of several degrees: the blocks of the operand have units of their own, which the analysed operand does not have)
    ('unit', re.compile(r'^stencil/.*:(System|op\.|Diffusion)')),
    ('io-call', re.compile(r'STL|save|load|plot|write|read', re.I)),
]


def allowed(kind, scenario):
    return any(k == kind and rx.search(scenario) for k, rx in ALLOWED)


# groups in which a property has nothing to say
def relevant(prop, r):
    if prop == 'C07':
        return r.group.startswith('geometry/')
    if prop == 'C16':
        return r.group.startswith(('complex/', 'topology/'))
    return True


def collect(prop, results, golden):
    """findings of one property, plus what was decided"""
    found = collections.OrderedDict()
    stat = collections.Counter()

    def add(f):
        k = f.key
        if k in found:
            found[k].scenarios += f.scenarios
        else:
            found[k] = f
    ev = EVENTS.get(prop, {})
    asp = ASPECTS.get(prop, ())
    for r in results:
        if not relevant(prop, r):
            continue
        stat['operations'] += 1
        if r.missing:
            stat['missing'] += 1
            continue
        if r.crash:
            stat['undecided-operations'] += 1
            continue
        g = golden.get(r.id)
        for e in r.events:
            if e['kind'] in ev and not allowed(e['kind'], r.id):
                add(Finding(prop, e['kind'], e['func'], e['construct'], '%s: %s' % (ev[e['kind']], e['msg']), e['rel'], e['line'], r.id))
        if r.raised:
            stat['raises'] += 1
            if g is not None and (prop in ('C11', 'C03') or prop == 'C10' and re.search(r'parent|weights|radius|transfer', r.name)):
                add(Finding(prop, 'always-raises', r.name, r.raised[0].split('.')[-1],
                            'the operation now always ends with this exception', '', 0, r.id))
            continue
        if r.sig is None or g is None:
            continue
        stat['results'] += 1
        if prop == 'C10':
            consistency(prop, r, add, stat)
        if not asp or prop not in ('C05', 'C06', 'C07') and 'precomp' in r.name:
            continue            # (cached helper structures of the pickers have no observable layout of their own)
        d = sigs.compare(g, r.sig)
        for a in asp:
            stat['decided'] += d.same.get(a, 0) + (d.same.get('taint', 0) if a.startswith('taint') else 0)
            stat['undecided'] += d.unsure.get(a, 0)
        for a, path, exp, got in d.found:
            if a in asp or a == 'const' and prop in CONST and CONST[prop](r):
                add(Finding(prop, a, r.name, path or 'result', 'expected %s, the source gives %s' % (exp, got), '', 0, r.id))
    return list(found.values()), stat


CONST = {'C03': lambda r: True}


def consistency(prop, r, add, stat):
    """every complex that is handed out: one position (and weight) per vertex of its topology"""
    def visit(s, path):
        if not isinstance(s, dict):
            return
        st = s.get('state') if s.get('t') == 'I' else None
        if st:
            v, t = st.get('vertices'), st.get('topology')
            if v and t and v.get('t') == 'A' and t.get('t') == 'I':
                n = (t.get('state') or {}).get('n_elements')
                if n and n.get('t') == 'L' and n['items']:
                    n0 = n['items'][0]
                    n0 = str(n0['v']) if n0.get('t') in ('D', 'K') else None
                    if n0 is not None and sigs.dim_known(n0):
                        for nm in ('vertices', 'weights'):
                            a = st.get(nm)
                            if a and a.get('t') == 'A' and a.get('shape') and sigs.dim_known(a['shape'][0]):
                                stat['decided'] += 1
                                if a['shape'][0] != n0:
                                    add(Finding(prop, 'one-per-vertex', r.name, path + '.' + nm,
                                                '%s has %s rows for a topology of %s vertices' % (nm, a['shape'][0], n0), '', 0, r.id))
            w = st.get('weights')
            if v and w and v.get('t') == w.get('t') == 'A' and v.get('shape') and w.get('shape') and \
                    sigs.dim_known(v['shape'][0]) and sigs.dim_known(w['shape'][0]):
                stat['decided'] += 1
                if v['shape'][0] != w['shape'][0]:
                    add(Finding(prop, 'one-per-vertex', r.name, path + '.weights', '%s weights for %s vertex positions' % (w['shape'][0], v['shape'][0]), '', 0, r.id))
            for k, x in st.items():
                visit(x, path + '.' + k)
        for i, x in enumerate(s.get('items') or ()):
            visit(x, '%s[%d]' % (path, i))
    visit(r.sig, 'result')


_BASE = ('Abstract interpretation of the source of every public operation on symbolic inputs of arbitrary size '
         '(sa/scenarios.py lists them); ')
EXPLAIN = {
    'C01': _BASE + 'every store through an alias of an argument, receiver or cached value is a finding.',
    'C02': _BASE + 'stores to module or class state, random sources, uninitialised memory and file access are findings.',
    'C03': _BASE + 'array sizes are polynomials over the element counts; index arrays carry the element kind they index; definite misfits '
                   'and results whose sizes differ from the committed table are findings.',
    'C05': _BASE + 'every array carries its exponent of length; sums of unequal exponents and results with an exponent other than the expected one are findings.',
    'C06': _BASE + 'every array carries how it changes when the coordinates are translated (invariant / moves along).',
    'C07': _BASE + 'leading axes are marked as batch axes; reductions and fixed selections along them are findings.',
    'C08': _BASE + 'stores and casts that lose integer range or fraction, and results of a narrower type than expected are findings.',
    'C10': _BASE + 'state (radius, weights, topology, class) of every returned complex is compared with the expected propagation.',
    'C11': _BASE + 'definite uses of missing names, attributes, arguments, unassigned locals, misfitting shapes and unconditional raises are findings.',
    'C12': _BASE + 'every array carries its degree in the field argument; results expected to be linear must be linear.',
    'C16': _BASE + 'topological results must not carry the coordinate taint.',
}
