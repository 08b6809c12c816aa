"""probe.py FILE: tries small edits (never in /repo) and shows which properties report them.
FILE defines PROBES = [(name, property, [(rel, old, new), ...]), ...]"""
import os
import shutil
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import checks, golden, sweep, special, run   # noqa


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    gold = golden.load()
    for name, prop, edits in ns['PROBES']:
        if want and name not in want:
            continue
        root = '/tmp/probe/%d_%s' % (os.getpid(), name)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree('/repo/pycomplex', root + '/pycomplex')
        try:
            for rel, old, new in edits:
                p = os.path.join(root, rel)
                s = open(p).read()
                if s.count(old) != 1:
                    raise KeyError('%s: %d matches for %r' % (rel, s.count(old), old))
                open(p, 'w').write(s.replace(old, new))
            pid = os.fork()
            if pid == 0:
                try:
                    own = os.environ.get('OWN')
                    rs, broken = ([], []) if own and prop not in checks.SWEPT else sweep.run(root)
                    print('== %s (%s) %s' % (name, prop, 'BROKEN ' + broken[0][1][-300:] if broken else ''))
                    for p in checks.SWEPT + [q for q in special.RULES if q not in checks.SWEPT]:
                        fs = []
                        if own and p != prop:
                            continue
                        if p in checks.SWEPT:
                            fs += checks.collect(p, rs, gold)[0]
                        if p in special.RULES:
                            fs += special.RULES[p](root, 'quick')[0]
                        kn = run.known(p)
                        fs = [f for f in fs if not any(run.matches(k, f) for k in kn)]
                        if fs:
                            print('   %s%s %d: %s' % ('**' if p == prop else '  ', p, len(fs), fs[0].text()[:230]))
                        elif p == prop:
                            print('   !! MISSED by %s' % p)
                except BaseException as e:
                    import traceback
                    traceback.print_exc()
                sys.stdout.flush()
                os._exit(0)
            os.waitpid(pid, 0)
        except KeyError as e:
            print('== %s BAD EDIT %s' % (name, e))
        sys.stdout.flush()
        shutil.rmtree(root, ignore_errors=True)


main()
