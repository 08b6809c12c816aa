"""python3-vt -m sa.run <property> [--tier quick|thorough] [--repo /repo]"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import checks, golden, sweep, scenarios, selftest   # noqa: E402
from sa.loader import AnalysisBroken                         # noqa: E402
from sa import special                                       # noqa: E402


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    with open(p) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == prop]


def matches(k, f):
    return k['rule'] == f.rule and k['function'] == f.func and checks.norm(k['construct']) == checks.norm(f.construct)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.property
    try:
        found, cov, assumptions = decide(prop, a.repo, a.tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s' % prop)
        return 3
    kn = known(prop)
    new, old = [], []
    for f in found:
        k = next((k for k in kn if matches(k, f)), None)
        (old.append((k, f)) if k is not None else new.append(f))
    for k in {id(k): k for k, _ in old}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    evdir = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.violations.json' % prop)
    if new:
        with open(replay, 'w') as fh:
            json.dump([f.plain() for f in new], fh, indent=1)
        for f in new[:25]:
            print(f.text())
        if len(new) > 25:
            print('... and %d more in %s' % (len(new) - 25, replay))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='other', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    ev['coverage']['known_findings'] = len(old)
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print('%s: %s; %s' % (prop, 'VIOLATED' if new else 'holds on everything analysed',
                          ', '.join('%s=%s' % (k, v) for k, v in sorted(cov.items()) if isinstance(v, int))))
    return 1 if new else 0


def decide(prop, repo, tier):
    found, cov = [], {}
    assumptions = ['the models of numpy/scipy functions in sa/npmodel.py and sa/extmodel.py give the documented shapes, types and algebra',
                   'inputs satisfy the documented preconditions (e.g. element arrays index existing vertices)']
    expl = []
    if prop in checks.SWEPT:
        st = selftest.run(prop)
        gold = golden.load()
        rs, broken = sweep.run(repo)
        if broken:
            raise AnalysisBroken('cannot set up %s: %s' % (broken[0][0], broken[0][1][-400:]))
        fs, stat = checks.collect(prop, rs, gold)
        found += fs
        done = [r for r in rs if r.sig is not None or r.raised]
        if len(rs) < 0.97 * len(gold) or len(done) < 0.9 * len(gold):
            raise AnalysisBroken('only %d of %d operations could be analysed (%d expected)' % (len(done), len(rs), len(gold)))
        funcs = set()
        for r in rs:
            funcs |= r.calls
        cov.update(stat)
        cov['functions_analysed'] = len(funcs)
        cov['operations_analysed'] = len(done)
        cov['rules_selftested'] = st
        cov['samples'] = [r.id for r in rs[::max(1, len(rs) // 12)]]
        expl.append(checks.EXPLAIN.get(prop, ''))
    if prop in special.RULES:
        fs, stat, ex = special.RULES[prop](repo, tier)
        found += fs
        cov.update(stat)
        expl.append(ex)
    if not expl:
        raise AnalysisBroken('no rule for ' + prop)
    cov['explanation'] = ' '.join(expl)
    return found, cov, assumptions


if __name__ == '__main__':
    sys.exit(main())
