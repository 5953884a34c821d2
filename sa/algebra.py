"""Rational functions with rational coefficients over opaque atoms (value numbers).

The domain of the formula analysis: floating-point expressions are abstracted to the real
function that they denote, in a normal form that does not depend on how they are written.
"""
from fractions import Fraction

MAXTERMS = 400


class TooBig(Exception):
    pass


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, k in b:
        d[x] = d.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=repr))


def _pmul(a, b):
    r = {}
    if len(a) * len(b) > 40 * MAXTERMS:
        raise TooBig
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig
    return r


class Rat:
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=None):
        d = {(): Fraction(1)} if d is None else d
        if not d:
            raise ZeroDivisionError
        # common monomial factors
        if len(d) == 1:
            (m, c), = d.items()
            if m:
                ms = list(n) or [()]
                common = dict(m)
                for x in ms:
                    e = dict(x)
                    common = {y: min(k, e.get(y, 0)) for y, k in common.items()}
                g = tuple((y, -k) for y, k in common.items() if k > 0)
                if g:
                    n = {_mmul(x, g): k for x, k in n.items()}
                    m = _mmul(m, g)
            if c != 1:
                n = {x: k / c for x, k in n.items()}
            d = {m: Fraction(1)}
        self.n, self.d = n, d
        if not n:
            self.d = {(): Fraction(1)}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Rat({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Rat({((a, 1),): Fraction(1)})

    def __add__(self, o, s=1):
        if self.d == o.d:
            return Rat(_padd(self.n, o.n, s), self.d)
        return Rat(_padd(_pmul(self.n, o.d), _pmul(o.n, self.d), s), _pmul(self.d, o.d))

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __mul__(self, o):
        return Rat(_pmul(self.n, o.n), _pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise ZeroDivisionError
        return Rat(_pmul(self.n, o.d), _pmul(self.d, o.n))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}

    def is_const(self):
        return not self.atoms()

    def cval(self):
        return self.n.get((), Fraction(0)) / self.d[()]

    def single(self):
        if self.d == {(): 1} and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __eq__(self, o):
        return isinstance(o, Rat) and not _padd(_pmul(self.n, o.d), _pmul(o.n, self.d), -1)

    def __hash__(self):
        return 0

    def key(self):
        """Hashable form; equal functions may have different keys when they have denominators."""
        f = lambda p: tuple(sorted(p.items(), key=repr))    # noqa: E731
        return f(self.n), f(self.d)

    def sign_key(self):
        """(key, sign) up to a positive factor, None if the denominator is not a monomial."""
        if len(self.d) != 1 or not self.n:
            return None
        ms = sorted(self.n, key=repr)
        lead = next((m for m in ms if m), None)
        if lead is None:
            return None
        c = self.n[lead]
        s = 1 if c > 0 else -1
        return (tuple((m, self.n[m] / c) for m in ms), tuple(self.d)), s

    def subst(self, m):
        """Replace atoms by Rats."""
        if not (self.atoms() & set(m)):
            return self

        def ev(p):
            r = Rat.const(0)
            for mon, c in p.items():
                t = Rat.const(c)
                for a, k in mon:
                    x = m.get(a) or Rat.atom(a)
                    for _ in range(k):
                        t = t * x
                r = r + t
            return r
        return ev(self.n) / ev(self.d)

    def show(self, name):
        def p(q):
            if not q:
                return '0'
            out = []
            for m, c in sorted(q.items(), key=repr):
                s = '*'.join(name(a) + ('' if k == 1 else '^%d' % k) for a, k in m)
                out.append(s if c == 1 and s else '%s%s' % (c, '*' + s if s else ''))
            return ' + '.join(out)
        if self.d == {(): 1}:
            return p(self.n)
        return '(%s)/(%s)' % (p(self.n), p(self.d))
