"""Every rule must fire on a small source that breaks it (otherwise the rule is blind, and the check reports so)."""
import os
from . import interp, sweep, world
from .loader import AnalysisBroken
from .values import AbsRaise
from .world import World, arr
from . import dims
from .sig import sig, compare

REPO = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'selftest')
S = dims.sym


def cases():
    N, M = S('N'), S('M')
    x = lambda **k: arr('x', (N, 3), 'float', deg=1, tr=1, taint=['geometry'], **k)
    y = lambda **k: arr('y', (M, 3), 'float', deg=1, tr=1, taint=['geometry'], **k)
    return {
        'mutate': ('mutate', lambda w: [x()]),
        'global-write': ('global_write', lambda w: [x()]),
        'shape': ('shape', lambda w: [x(), y()]),
        'unit': ('unit', lambda w: [x()]),
        'batch-reduce': ('batch_reduce', lambda w: [arr('p', (S('B:0'), 3), 'float', deg=1, tr=1)]),
        'int-truncation': ('int_truncation', lambda w: [arr('i', (N,), 'int'), arr('f', (N,), 'float')]),
        'attr-error': ('attr_error', lambda w: [x()]),
        'name-error': ('name_error', lambda w: [x()]),
        'arity': ('arity', lambda w: [x()]),
        'unbound': ('unbound', lambda w: [x()]),
        'index-rank': ('index_rank', lambda w: [x()]),
        'index-space': ('index_space', lambda w: [x(), arr('k', (S('K'),), 'index', facts=[('into', M), 'nonneg'])]),
    }


FACETS = {
    'deg': ('deg_ok', 'deg_bad'), 'tr': ('tr_ok', 'tr_bad'), 'lin': ('lin_ok', 'lin_bad'), 'shape': ('shape_ok', 'shape_bad'),
    'dtype': ('dtype_ok', 'dtype_bad'), 'taint-geometry': ('geo_ok', 'geo_bad'), 'taint-random': ('lin_ok', 'random_bad'),
    'uninit': ('lin_ok', 'uninit_bad'), 'taint-uninit': ('lin_ok', 'uninit_read'),
}


def run(prop):
    from . import checks
    eng = interp.Engine(REPO)
    world.install(eng)
    n = 0
    want = set(checks.EVENTS.get(prop, {}))
    for kind, (fn, args) in cases().items():
        if kind not in want:
            continue
        eng.reset_events()
        w = World(eng)
        try:
            eng.call(w.func('bad.' + fn), args(w), {}, w.st, None)
        except AbsRaise:
            pass
        if not any(e.kind == kind for e in eng.events):
            raise AnalysisBroken('rule %s does not fire on its example (%s)' % (kind, [e.kind for e in eng.events]))
        n += 1
    x = lambda: arr('x', (S('N'), 3), 'float', deg=1, tr=1, lin=(('x', 'L'),), taint=[])
    g = lambda: arr('x', (S('N'), 3), 'float', deg=1, tr=1, lin=(('x', 'L'),), taint=['geometry'])
    for asp in checks.ASPECTS.get(prop, ()):
        if asp not in FACETS:
            continue
        out = []
        for fn in FACETS[asp]:
            w = World(eng)
            v = eng.call(w.func('bad.' + fn), [g() if 'geometry' in asp else x()], {}, w.st, None)
            out.append(sig(eng, w.st, v))
        if not any(f[0] == asp for f in compare(*out).found) or compare(out[0], out[0]).found:
            raise AnalysisBroken('facet %s is blind: %s' % (asp, out))
        n += 1
    return n
