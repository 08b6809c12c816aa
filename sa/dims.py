"""Symbolic array dimensions: integer polynomials over named sizes."""


class Poly(object):
    __slots__ = ('terms', '_h')

    def __init__(self, terms):
        self.terms = {m: c for m, c in terms.items() if c}
        self._h = hash(frozenset(self.terms.items()))

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        def mono(m, c):
            s = '*'.join(m)
            if not s:
                return str(c)
            return s if c == 1 else '%d*%s' % (c, s)
        return '+'.join(mono(m, c) for m, c in sorted(self.terms.items())) or '0'


    def __add__(self, o):
        return _op(add, self, o)
    __radd__ = __add__

    def __mul__(self, o):
        return _op(mul, self, o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return _op(sub, self, o)

    def __rsub__(self, o):
        return _op(sub, o, self)

    def __neg__(self):
        return mul(self, -1)

    def __floordiv__(self, o):
        r = _op(div, self, o)
        if r is None:
            raise TypeError
        return r


def _op(f, a, b):
    if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
        try:
            a = a if isinstance(a, Poly) else int(a)
            b = b if isinstance(b, Poly) else int(b)
        except Exception:
            return NotImplemented
    r = f(a, b)
    return r


def sym(name):
    return Poly({(name,): 1})


def _p(d):
    return d if isinstance(d, Poly) else Poly({(): d})


def norm(p):
    if isinstance(p, Poly):
        if not p.terms:
            return 0
        if set(p.terms) == {()}:
            return p.terms[()]
    return p


def add(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    a, b = _p(a), _p(b)
    t = dict(a.terms)
    for m, c in b.terms.items():
        t[m] = t.get(m, 0) + c
    return norm(Poly(t))


def mul(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    a, b = _p(a), _p(b)
    t = {}
    for m, c in a.terms.items():
        for n, d in b.terms.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return norm(Poly(t))


def neg(a):
    return mul(a, -1)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    """exact division, or None"""
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b and a % b == 0 else None
    if a == b:
        return 1
    a, b = _p(a), _p(b)
    if len(b.terms) != 1:
        # try constant multiple
        if len(a.terms) == len(b.terms):
            for m, c in b.terms.items():
                d = a.terms.get(m)
                if d is None or d % c:
                    return None
                q = d // c
                return q if mul(b, q) == a else None
        return None
    (m, c), = b.terms.items()
    t = {}
    for n, d in a.terms.items():
        if d % c:
            return None
        n = list(n)
        for x in m:
            if x not in n:
                return None
            n.remove(x)
        t[tuple(n)] = d // c
    return norm(Poly(t))


def prod(ds):
    r = 1
    for d in ds:
        r = mul(r, d)
    return r


def total(ds):
    r = 0
    for d in ds:
        r = add(r, d)
    return r


def definitely_differ(a, b):
    """True when the two sizes are provably unequal *as types* : distinct normal forms.
    Distinct symbols are regarded as distinct index spaces."""
    if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
        return False
    return a != b
