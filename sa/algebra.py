"""Non-commutative block matrix algebra over the expressions that the analysis derives for sparse operators.

An operator is a block matrix whose entries are integer combinations of words; a word is a sequence of atoms
(opaque matrices, possibly transposed).  Everything the algebra does not know is an opaque atom."""
from .values import T, TERMS
from . import dims
from .dims import Poly


class Unknown(Exception):
    pass


def positive(p):
    return p > 0 if isinstance(p, int) else isinstance(p, Poly) and all(c > 0 for c in p.terms.values())


class Alg(object):
    def __init__(self, names=None, rules=()):
        self.names = dict(names or {})      # term -> name of an atom
        self.rules = list(rules)            # (word, replacement combination)
        self.memo = {}
        self.opaque = set()
        self.positive = ()                  # first letters of the atoms without negative entries

    # a matrix: (row sizes, column sizes, {(i, j): {word: coefficient}})
    def atom(self, name, r, c, tr=False):
        return ((r,), (c,), {(0, 0): {((name, tr),): 1}})

    def transpose(self, m):
        r, c, e = m
        flip = lambda w: tuple((n, not t) if not n.startswith('diag') else (n, t) for n, t in reversed(w))
        return (c, r, {(j, i): {flip(w): k for w, k in x.items()} for (i, j), x in e.items()})

    def scale(self, m, s):
        return (m[0], m[1], {p: {w: k * s for w, k in x.items()} for p, x in m[2].items()})

    def add(self, a, b):
        if len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
            raise Unknown('block structures differ')
        e = {p: dict(x) for p, x in a[2].items()}
        for p, x in b[2].items():
            d = e.setdefault(p, {})
            for w, k in x.items():
                d[w] = d.get(w, 0) + k
        return (a[0], a[1], e)

    def refine_cols(self, m, sizes):
        """split the single column block of m"""
        if len(m[1]) == len(sizes):
            return m
        raise Unknown('block structures differ')

    def is_identity(self, m):
        return len(m[0]) == len(m[1]) == 1 and m[2] == {(0, 0): {(): 1}}

    def mul(self, a, b):
        if self.is_identity(a):
            return b
        if self.is_identity(b):
            return a
        if len(a[1]) != len(b[0]):
            raise Unknown('block structures differ')
        e = {}
        for (i, k), x in a[2].items():
            for (l, j), y in b[2].items():
                if k != l:
                    continue
                d = e.setdefault((i, j), {})
                for w, s in x.items():
                    for v, t in y.items():
                        d[w + v] = d.get(w + v, 0) + s * t
        return (a[0], b[1], e)

    def reduce(self, m):
        e = {}
        for p, x in m[2].items():
            todo, out, n = [(w, k) for w, k in x.items() if k], {}, 0
            while todo:
                n += 1
                if n > 4000:
                    raise Unknown('rewriting')
                w, k = todo.pop()
                for pat, rep in self.rules:
                    at = next((i for i in range(len(w) - len(pat) + 1) if w[i:i + len(pat)] == pat), None)
                    if at is not None:
                        todo += [(w[:at] + v + w[at + len(pat):], k * s) for v, s in rep.items()]
                        break
                else:
                    out[w] = out.get(w, 0) + k
            out = {w: k for w, k in out.items() if k}
            if out:
                e[p] = out
        return (m[0], m[1], e)

    # ------------------------------------------------------------------ expressions
    def term(self, t, shape=None):
        k = (t.i if isinstance(t, T) else t, shape)
        if k not in self.memo:
            self.memo[k] = self._term(t, shape)
        return self.memo[k]

    def _term(self, t, shape):
        if not isinstance(t, T):
            raise Unknown('not an expression')
        if t in self.names:
            n, r, c = self.names[t]
            return self.atom(n, r, c)
        k = TERMS.get(t)
        op = k[0]
        if op == 'T' and len(k) == 2:
            return self.transpose(self.term(k[1], shape[::-1] if shape else None))
        if op == 'neg':
            return self.scale(self.term(k[1], shape), -1)
        if op == 'bmat':
            rows = [TERMS.get(r)[1:] for r in k[1:]]
            nr, nc = len(rows), max(map(len, rows))
            e, rs, cs = {}, [None] * nr, [None] * nc
            for i, r in enumerate(rows):
                for j, b in enumerate(r):
                    if not isinstance(b, T):
                        continue
                    m = self.term(b)
                    if len(m[0]) != 1 or len(m[1]) != 1:
                        raise Unknown('nested blocks')
                    rs[i] = rs[i] if rs[i] is not None else m[0][0]
                    cs[j] = cs[j] if cs[j] is not None else m[1][0]
                    x = m[2].get((0, 0), {})
                    if x:
                        e[i, j] = dict(x)
            # blocks of size zero are nothing
            ri, ci = [i for i in range(nr) if rs[i] != 0], [j for j in range(nc) if cs[j] != 0]
            e = {(ri.index(i), ci.index(j)): x for (i, j), x in e.items() if i in ri and j in ci}
            return (tuple(rs[i] for i in ri), tuple(cs[j] for j in ci), e)
        if op == 'eye' and len(k) == 5:
            r, c = k[3], k[4]
            if r == c:
                return ((r,), (c,), {(0, 0): {(): 1}})
            rest = dims.sub(c, r) if r is not None and c is not None else None
            back = dims.sub(r, c) if rest is not None else None
            if rest is not None and positive(rest):
                return ((r,), (r, rest), {(0, 0): {(): 1}})
            if back is not None and positive(back):
                return ((c, back), (c,), {(0, 0): {(): 1}})
        if op in ('mm', 'dot', 'matmul', 'spmul') and len(k) == 3:
            return self.mul(self.term(k[1]), self.term(k[2]))
        if op in ('add', 'sub') and len(k) == 3:
            b = self.term(k[2], shape)
            return self.add(self.term(k[1], shape), b if op == 'add' else self.scale(b, -1))
        if op == 'abs' and len(k) == 2:
            m = self.term(k[1], shape)
            e = {}
            for p, x in m[2].items():
                if len(x) != 1:
                    raise Unknown('absolute value of a sum')
                (w, c), = x.items()
                if all(a[0][0] in self.positive for a in w):
                    e[p] = {w: abs(c)}
                elif len(w) == 1:
                    e[p] = {(('|%s|' % w[0][0], w[0][1]),): abs(c)}
                else:
                    raise Unknown('absolute value of a product')
            return (m[0], m[1], e)
        if op == 'coo' and isinstance(k[-1], str):
            a = k[-1].strip('()').split(',')
            if len(a) == 2 and '0' in (a[0].strip(), a[1].strip()):
                return ((0 if a[0].strip() == '0' else None,), (0 if a[1].strip() == '0' else None,), {})
        self.opaque.add(op)
        return self.atom('?%d' % t.i, None, None)
