"""Value domain: Laurent polynomials with rational coefficients over uninterpreted terms, and link terms."""
from fractions import Fraction


class Num(object):
    """sum of coef * product(atom**exp); immutable, hashable"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    @staticmethod
    def c(v):
        v = Fraction(v)
        return Num({} if v == 0 else {frozenset(): v})

    @staticmethod
    def atom(a, e=1):
        return Num({frozenset([(a, e)]): Fraction(1)})

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and frozenset() in self.d:
            return self.d[frozenset()]
        return None

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return Num(d)

    def __neg__(self):
        return Num({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k = Fraction(k)
        return Num({} if k == 0 else {m: c * k for m, c in self.d.items()})

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for n, k in o.d.items():
                p = mono_mul(m, n)
                v = d.get(p, 0) + c * k
                if v == 0:
                    d.pop(p, None)
                else:
                    d[p] = v
        return Num(d)

    def inv(self):
        if not self.d:
            return Num.atom(('inv0',))
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return Num({frozenset((a, -e) for a, e in m): 1 / c})
        lead, n = self.normal()
        return Num({frozenset([(('poly', n), -1)]): 1 / lead})

    def normal(self):
        """leading coefficient and the polynomial divided by it"""
        k = min(self.d, key=mono_key)
        lead = self.d[k]
        return lead, self.scale(1 / lead)

    def __truediv__(self, o):
        if isinstance(o, Num) and len(o.d) > 1:
            # exact multiples cancel
            l1, n1 = (self.normal() if self.d else (Fraction(0), self))
            l2, n2 = o.normal()
            if self.d and n1 == n2:
                return Num.c(l1 / l2)
        return self * o.inv()

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def monomial(self):
        """(coef, {atom: exp}) when there is exactly one monomial"""
        if len(self.d) != 1:
            return None
        (m, c), = self.d.items()
        return c, dict(m)

    def single(self):
        """the atom when this is exactly one atom"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1:
                (a, e), = m
                if e == 1:
                    return a
        return None

    def __repr__(self):
        return 'N<%s>' % show(self)


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return frozenset(d.items())


def mono_key(m):
    return (len(m), sorted((tkey(a), e) for a, e in m))


_tk = {}


def tkey(t):
    k = _tk.get(t)
    if k is None:
        k = _tk[t] = show(t)
    return k


def size(t):
    if isinstance(t, Num):
        return sum(size(a) for m in t.d for a, e in m) + len(t.d)
    if isinstance(t, tuple):
        return 1 + sum(size(x) for x in t)
    return 1


def show(t):
    if isinstance(t, Num):
        if not t.d:
            return '0'
        out = []
        for m in sorted(t.d, key=mono_key):
            c = t.d[m]
            s = '*'.join((show(a) if e == 1 else '%s^%s' % (show(a), e)) for a, e in sorted(m, key=lambda x: tkey(x[0])))
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if isinstance(t, tuple) and t:
        h = t[0]
        if h == 'p':
            return str(t[1])
        if h == 'fld':
            return '%s.%s' % (show(t[1]), '.'.join(show(x) for x in t[2]))
        if h == 'ptr':
            return '&%s.%s' % (show(t[1]), '.'.join(show(x) for x in t[2]))
        if h in ('new', 'pick'):
            return '%s_%s%s' % (h, t[1], t[2])
        return '%s(%s)' % (h if isinstance(h, str) else show(h), ','.join(show(x) for x in t[1:]))
    if isinstance(t, str):
        return t
    return repr(t)


N0 = Num.c(0)
N1 = Num.c(1)
