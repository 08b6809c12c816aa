"""Linear forms: the abstract domain in which the effect of an operator on a generic field is propagated.

A Lin is a polynomial with rational coefficients over named symbols (the entries of the field).  Propagating
fields of symbols through the source of an operator derives its matrix."""
from fractions import Fraction


class Lin(object):
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise TypeError('truth value of a symbolic quantity')

    def _cmp(self, o):
        raise TypeError('order of symbolic quantities')
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __repr__(self):
        return '+'.join('%s*%s' % (c, '*'.join(map(str, m))) for m, c in sorted(self.t.items(), key=str)) or '0'

    def __add__(self, o):
        o = terms(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.items():
            t[m] = t.get(m, 0) + c
        return mk(t)
    __radd__ = __add__

    def __neg__(self):
        return Lin({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = terms(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.items():
            t[m] = t.get(m, 0) - c
        return mk(t)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = terms(o)
        if o is None:
            return NotImplemented
        t = {}
        for m, c in self.t.items():
            for n, d in o.items():
                k = m if not n else n if not m else tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c * d
        return mk(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Lin) or number(o) is None or number(o) == 0:
            raise TypeError('division by a symbolic quantity')
        o = number(o)
        return Lin({m: c / o for m, c in self.t.items()})

    def __rtruediv__(self, o):
        raise TypeError('division by a symbolic quantity')

    def conjugate(self):
        return self


def number(x):
    if isinstance(x, Fraction):
        return x
    try:
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, int):
            return Fraction(x)
        if hasattr(x, 'item'):
            x = x.item()
        return Fraction(x) if isinstance(x, (int, float)) else None
    except (OverflowError, ValueError):
        return None


def terms(x):
    if isinstance(x, Lin):
        return x.t
    n = number(x)
    return None if n is None else {(): n}


def mk(t):
    r = Lin(t)
    if not r.t:
        return 0
    if len(r.t) == 1 and () in r.t:
        c = r.t[()]
        return int(c) if c.denominator == 1 else float(c)
    return r


def sym(name):
    return Lin({(name,): Fraction(1)})


def coefficients(x):
    """(linear part, constant) of a linear form; None if it is not linear"""
    t = terms(x)
    if t is None or any(len(m) > 1 for m in t):
        return None
    return {m[0]: float(c) for m, c in t.items() if m}, float(t.get((), 0))
