"""Symbolic integer polynomials over interned atoms, and a linear-inequality domain."""
from math import gcd


class Atoms:
    """Interning table.  An atom is a hashable key; its id is a small int."""

    def __init__(self):
        self.ids, self.keys, self.deps, self.home = {}, [], [], []

    def get(self, key, deps=frozenset(), home=None):
        i = self.ids.get(key)
        if i is None:
            i = len(self.keys)
            self.ids[key] = i
            self.keys.append(key)
            self.deps.append(frozenset(deps))   # atoms occurring inside the key
            self.home.append(home)              # block that defines it, or None
        return i


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, c=1):
        return Poly({(a,): c})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for k, v in o.t.items():
            w = t.get(k, 0) + v
            if w:
                t[k] = w
            else:
                t.pop(k, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return ZERO
            return Poly({k: v * o for k, v in self.t.items()})
        if o.is_const():
            return self * o.cval()
        if self.is_const():
            return o * self.cval()
        t = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                k = tuple(sorted(k1 + k2))
                w = t.get(k, 0) + v1 * v2
                if w:
                    t[k] = w
                else:
                    t.pop(k, None)
        return Poly(t)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for k in self.t:
            s.update(k)
        return s

    def single(self):
        """The atom when the polynomial is exactly one atom."""
        if len(self.t) == 1:
            (k, v), = self.t.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None

    def div(self, c):
        """Exact division by the integer c, or None."""
        t = {}
        for k, v in self.t.items():
            if v % c:
                return None
            t[k] = v // c
        return Poly(t)

    def coeff(self, a):
        """(coefficient polynomial of atom a to the first power, rest); None if nonlinear."""
        c, r = {}, {}
        for k, v in self.t.items():
            n = k.count(a)
            if n == 0:
                r[k] = v
            elif n == 1:
                kk = list(k)
                kk.remove(a)
                c[tuple(kk)] = v
            else:
                return None
        return Poly(c), Poly(r)


ZERO = Poly({})
ONE = Poly({(): 1})


# --------------------------------------------------------------------------
# linear infeasibility (Fourier-Motzkin with integer tightening)
# --------------------------------------------------------------------------

def _norm(row):
    """row: dict var->int with () the constant; meaning sum >= 0."""
    g = 0
    for k, v in row.items():
        if k != ():
            g = gcd(g, v)
    if g == 0:
        return row
    if g > 1:
        row = {k: (v // g) for k, v in row.items()}   # floor on the constant: tightening
    return row


_cache = {}


def infeasible(rows, eqs, limit=400):
    """True only if {r >= 0 for r in rows} and {e == 0 for e in eqs} has no integer point.

    rows and eqs are Polys; every non-constant monomial is treated as a variable.
    """
    key = (frozenset(rows), frozenset(eqs))
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 400000:
            _cache.clear()
        r = _infeasible(rows, eqs, limit)
        _cache[key] = r
    return r


class _row:
    __slots__ = ('t',)

    def __init__(self, lhs, c):
        self.t = dict(lhs)
        if c:
            self.t[()] = c


def _infeasible(rows, eqs, limit):
    R = [dict(p.t) for p in rows]
    E = [dict(p.t) for p in eqs]
    # Gaussian elimination of the equalities that have a unit coefficient
    while E:
        best = None
        for e in E:
            for k, v in e.items():
                if k != () and abs(v) == 1:
                    best = (e, k, v)
                    break
            if best:
                break
        if best is None:
            for e in E:
                R.append(e)
                R.append({k: -v for k, v in e.items()})
                g = 0
                for k, v in e.items():
                    if k != ():
                        g = gcd(g, v)
                if g == 0:
                    if e.get((), 0) != 0:
                        return True
                elif e.get((), 0) % g:
                    return True
            break
        e, k, v = best
        E.remove(e)
        def sub(row):
            c = row.get(k, 0)
            if c:
                f = -c * v      # v is +-1
                row = dict(row)
                for kk, vv in e.items():
                    w = row.get(kk, 0) + f * vv
                    if w:
                        row[kk] = w
                    else:
                        row.pop(kk, None)
            return row
        E = [x for x in map(sub, E) if x]
        R = list(map(sub, R))
    seen = {}

    def add(store, row):
        """Keep the tightest constant per left-hand side; True if contradictory."""
        row = _norm(row)
        lhs = frozenset((k, v) for k, v in row.items() if k != ())
        c = row.get((), 0)
        if not lhs:
            return c < 0
        if lhs not in store or store[lhs] > c:
            store[lhs] = c
        return False

    for row in R:
        if add(seen, row):
            return True
    # opposite rows that leave one value: an equality to eliminate exactly
    for lhs, c in seen.items():
        o = seen.get(frozenset((k, -v) for k, v in lhs))
        if o is not None and o == -c and any(abs(v) == 1 for _, v in lhs):
            if limit < 4:
                break
            return _infeasible([_row(l_, c_) for l_, c_ in seen.items()], [_row(lhs, c)],
                               limit - 1)
    while True:
        # opposite pairs
        vars_ = {}
        for lhs in seen:
            for k, v in lhs:
                p = vars_.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not vars_:
            return False
        k, (np_, nn) = min(vars_.items(), key=lambda it: it[1][0] * it[1][1] - it[1][0] - it[1][1])
        new = {}
        pos, neg = [], []
        for lhs, c in seen.items():
            d = dict(lhs)
            v = d.get(k)
            if v is None:
                if lhs not in new or new[lhs] > c:
                    new[lhs] = c
            elif v > 0:
                pos.append((d, c, v))
            else:
                neg.append((d, c, -v))
        for d1, c1, v1 in pos:
            for d2, c2, v2 in neg:
                g = gcd(v1, v2)
                a, b = v2 // g, v1 // g
                row = {}
                for kk, vv in d1.items():
                    if kk != k:
                        row[kk] = a * vv
                for kk, vv in d2.items():
                    if kk != k:
                        w = row.get(kk, 0) + b * vv
                        if w:
                            row[kk] = w
                        else:
                            row.pop(kk, None)
                row[()] = a * c1 + b * c2
                if add(new, row):
                    return True
        if len(new) > limit:
            return False
        seen = new
