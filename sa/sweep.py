"""Runs the analysed entry points and collects events and output signatures (in parallel)."""
import os
import sys
import time
import traceback
from .values import AbsRaise
from . import interp, world, scenarios
from .sig import sig


class Result(object):
    def __init__(self, group, name):
        self.group, self.name = group, name
        self.raised = None
        self.crash = None
        self.missing = None
        self.sig = None
        self.events = []
        self.calls = set()
        self.wall = 0.

    @property
    def id(self):
        return self.group + ':' + self.name


def ev_plain(e):
    return dict(kind=e.kind, rel=e.rel, func=e.func, line=e.line, construct=e.construct, msg=e.msg,
                roots=sorted(e.data.get('roots', ()) or ()) if isinstance(e.data, dict) else [],
                name=str(e.data.get('name', '')) if isinstance(e.data, dict) else '')


def run_group(eng, g, want=None, extract=None):
    out = []
    w = scenarios.W(eng)
    base = w.st
    eng.generic_allclose = False
    eng.reset_events()
    gen = g.scenarios(w)
    setup = Result(g.name, '<setup>')
    while True:
        w.st = base
        try:
            name, thunk = next(gen)
        except StopIteration:
            break
        if scenarios.skipped(g.name, name) or want is not None and not want(g.name, name):
            continue
        r = Result(g.name, name)
        w.st = base.fork()
        eng.reset_events()
        eng.called = set()
        eng.steps = 0
        t = time.time()
        v = None
        try:
            v = thunk(w)
            r.sig = sig(eng, w.st, v)
        except AbsRaise as e:
            r.raised = (str(e), getattr(e.node, 'lineno', 0))
        except scenarios.Missing as e:
            r.missing = str(e)
        except RecursionError as e:
            r.crash = 'recursion ' + str(e)[:60]
        except interp.Budget as e:
            r.crash = 'budget'
        except Exception as e:
            r.crash = repr(e)[:200] + ' @ ' + traceback.format_exc()[-300:]
        r.events = [ev_plain(e) for e in eng.events]
        r.calls = set(eng.called)
        r.wall = time.time() - t
        if extract is not None and v is not None:
            r.extra = extract(eng, w, g.name, name, v)
        out.append(r)
    return out


_ENG = None
_ARGS = None


def _work(i):
    g = _ARGS[0][i]
    t = time.time()
    try:
        rs = run_group(_ENG, g, _ARGS[1], _ARGS[2])
        return i, rs, None, time.time() - t
    except Exception as e:
        return i, [], traceback.format_exc(), time.time() - t


def load(repo='/repo', extra=None):
    sys.setrecursionlimit(20000)
    mods = None
    if extra:
        from .loader import load_program, add_module
        mods = load_program(repo)
        for k, v in extra.items():
            add_module(mods, k, v)
    eng = interp.Engine(repo, mods) if mods else interp.Engine(repo)
    world.install(eng)
    return eng


def run(repo='/repo', groups=None, want=None, extract=None, jobs=None, eng=None):
    """-> list of Result; raises AnalysisBroken if a group cannot be set up"""
    global _ENG, _ARGS
    import multiprocessing
    from .loader import AnalysisBroken
    _ENG = eng or load(repo)
    gs = [g for g in scenarios.GROUPS if groups is None or groups(g.name)]
    _ARGS = (gs, want, extract)
    jobs = jobs or min(8, os.cpu_count() or 1)
    res = [None] * len(gs)
    if jobs == 1:
        it = (_work(i) for i in range(len(gs)))
        pool = None
    else:
        ctx = multiprocessing.get_context('fork')
        pool = ctx.Pool(jobs)
        it = pool.imap_unordered(_work, range(len(gs)), chunksize=1)
    broken = []
    for i, rs, err, dt in it:
        res[i] = rs
        if err:
            broken.append((gs[i].name, err))
    if pool is not None:
        pool.close()
        pool.join()
    return [r for rs in res for r in (rs or [])], broken
