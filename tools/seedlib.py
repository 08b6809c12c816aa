"""Helpers for planting bugs in scratch copies (never in /repo)."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree('/repo', dst, symlinks=True)
    return dst


def edit(root, edits):
    for rel, old, new in edits:
        p = os.path.join(root, rel)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches for %r' % (rel, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))


def tests(root, jobs=8):
    """stable tests that no longer pass in the copy"""
    xml = root + '.xml'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONPATH=root)
    os.makedirs(root + '/examples/output', exist_ok=True)
    sh('cd %s/examples/modelling && /opt/venv/bin/pytest -q --rootdir=%s --confcutdir=%s -p no:cacheprovider -n %d --show_plot=False '
       '--timeout=300 --continue-on-collection-errors --tb=short -W ignore --ignore=%s/examples/modelling/test_pcp.py '
       '-o junit_family=xunit2 --junitxml=%s %s' % (root, root, root, jobs, root, xml, root), env=env)
    out = xml + '.json'
    sh('python3 /opt/vp/results.py %s junit:%s' % (out, xml))
    try:
        passed = set(json.load(open(out))['passed'])
    except Exception:
        return STABLE
    finally:
        for f in (xml, out):
            if os.path.exists(f):
                os.remove(f)
    return STABLE - passed


def demo(root, d):
    env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTHONDONTWRITEBYTECODE='1')
    r = sh('bash %s/demo.sh' % d, cwd=root, env=env)
    return r.returncode, r.stdout[-300:]


def check(prop, root):
    env = dict(os.environ, VERIF_TIER='quick', SA_EVIDENCE='/tmp/sd/ev')
    os.makedirs('/tmp/sd/ev', exist_ok=True)
    r = sh('python3-vt -m sa.run %s --tier quick --repo %s' % (prop, root), cwd=HERE, env=env)
    return r.returncode, r.stdout


def plant(id, prop, edits, demo_py, needs, breaks, run_tests=True, run_check=True):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    root = copy('/tmp/sd/' + id)
    edit(root, edits)
    diff = sh('git -C %s diff' % root).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo_py.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    good, bad = demo('/repo', d), demo(root, d)
    ok = good[0] == 0 and bad[0] != 0
    print('%s %s demo: unchanged %s, patched %s %s' % (id, prop, good[0], bad[0], '' if ok else '<<<<<< ' + good[1] + bad[1]))
    if ok and run_tests:
        t = tests(root)
        print('   stable tests broken: %d %s' % (len(t), sorted(t)[:3] if t else ''))
        ok = not t
    if run_check:
        rc, out = check(prop, root)
        print('   check rc=%d %s' % (rc, 'CAUGHT' if rc == 1 else '!!!! MISSED'))
        print('   ' + '\n   '.join(l[:300] for l in out.splitlines()[:3]))
    shutil.rmtree(root)
    if not ok:
        print('   INVALID: removed')
        shutil.rmtree(d)
    sys.stdout.flush()
    return ok
