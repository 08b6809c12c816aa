"""Regenerates golden.json from the present source (run by hand, after reviewing the differences)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import sweep, golden, sig
rs, broken = sweep.run(sys.argv[1] if len(sys.argv) > 1 else '/repo')
assert not broken, broken
try:
    old = golden.load()
except Exception:
    old = {}
for r in rs:
    if r.sig is not None and r.id in old:
        d = sig.compare(old[r.id], r.sig)
        for f in d.found:
            print('CHANGED', r.id, f)
print(golden.save(rs))
