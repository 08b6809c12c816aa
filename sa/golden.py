"""The committed table of expected facets (shape, type, length exponent, ...) per analysed operation."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden.json')


def strip(s):
    """drop empty defaults"""
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items() if not (k in ('facts', 'taint') and v == [])}
    if isinstance(s, list):
        return [strip(x) for x in s]
    return s


def fill(s):
    if isinstance(s, dict):
        s = {k: fill(v) for k, v in s.items()}
        if s.get('t') == 'A':
            s.setdefault('facts', [])
            s.setdefault('taint', [])
        return s
    if isinstance(s, list):
        return [fill(x) for x in s]
    return s


def save(results, path=PATH):
    table, index, ids = [], {}, {}
    for r in sorted(results, key=lambda r: r.id):
        if r.sig is None:
            continue
        k = json.dumps(strip(r.sig), sort_keys=True, separators=(',', ':'))
        if k not in index:
            index[k] = len(table)
            table.append(k)
        ids[r.id] = index[k]
    with open(path, 'w') as fh:
        fh.write('{"table": [\n' + ',\n'.join(table) + '\n],\n"operations": ' + json.dumps(ids, sort_keys=True, indent=0) + '}\n')
    return len(ids), len(table)


def load(path=PATH):
    with open(path) as fh:
        d = json.load(fh)
    table = [fill(x) for x in d['table']]
    return {k: table[i] for k, i in d['operations'].items()}
