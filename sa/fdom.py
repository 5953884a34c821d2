"""Interval domain for floating-point values (with a may-be-nan flag)."""
import math
from . import ir
from .engine import callee_name

INF = math.inf


class Itv:
    __slots__ = ('lo', 'hi', 'nan')

    def __init__(self, lo, hi, nan):
        self.lo, self.hi, self.nan = lo, hi, nan

    def __repr__(self):
        return '[%g, %g]%s' % (self.lo, self.hi, ' or nan' if self.nan else '')

    def join(self, o):
        return Itv(min(self.lo, o.lo), max(self.hi, o.hi), self.nan or o.nan)


TOP = Itv(-INF, INF, True)
EMPTY = Itv(INF, -INF, False)


def _widen(lo, hi, nan, ty):
    """Account for rounding to the type."""
    eps = {'half': 2.0 ** -10, 'float': 2.0 ** -23}.get(repr(ty), 2.0 ** -52)
    if lo not in (INF, -INF):
        lo -= abs(lo) * eps + 1e-300
    if hi not in (INF, -INF):
        hi += abs(hi) * eps + 1e-300
    return Itv(lo, hi, nan)


def _mul(a, b):
    if a in (INF, -INF) or b in (INF, -INF):
        if a == 0 or b == 0:
            return 0.0
    try:
        return a * b
    except OverflowError:
        return INF


def refine(e, v, itv, items):
    """Intersect with what the dominating comparisons say about v."""
    k = e.fkey(v)
    lo, hi, nan = _restrict(k, itv.lo, itv.hi, itv.nan, itv, items)
    if lo > hi and not nan:
        return Itv(lo, hi, nan)
    if k[0] != 'fabs':
        a, b, nan = _restrict(('fabs', k), -INF, INF, nan, itv, items)
        lo, hi = max(lo, -b), min(hi, b)
        a, b, nan = _restrict(('fneg', k), -INF, INF, nan, itv, items)
        lo, hi = max(lo, -b), min(hi, -a)
    return Itv(lo, hi, nan)


def _restrict(k, lo, hi, nan, itv, items):
    for f in items:
        if f[0] != 'rel':
            continue
        if f[1] == k:
            c, r = f[2], f[3]
        elif f[2] == k:
            c, r = f[1], frozenset({'L': 'G', 'G': 'L'}.get(x, x) for x in f[3])
        else:
            continue
        if 'U' not in r:
            nan = False
        if c[0] != 'c' or c[1] == 'nan':
            continue
        if nan and r == frozenset('U'):
            return INF, -INF, itv.nan
        if 'L' not in r:
            lo = max(lo, c[1] if 'E' in r else math.nextafter(c[1], INF))
        if 'G' not in r:
            hi = min(hi, c[1] if 'E' in r else math.nextafter(c[1], -INF))
    return lo, hi, nan


def interval(u, v, ctx, depth=0):
    items = ctx.items if hasattr(ctx, 'items') else ctx
    return refine(u.eng, v, _interval(u, v, items, depth), items)


def _interval(u, v, items, depth):
    e = u.eng
    if isinstance(v, ir.Const):
        if v.kind == 'fp':
            return TOP if v.val != v.val else Itv(v.val, v.val, False)
        if v.kind == 'zero':
            return Itv(0.0, 0.0, False)
        return TOP
    if not isinstance(v, ir.Inst) or depth > 25:
        return TOP

    def sub(x):
        return interval(u, x, items, depth + 1)
    op = v.op
    if op in ('sitofp', 'uitofp'):
        n = v.ops[0].ty.n
        return Itv(-2.0 ** (n - 1) if op[0] == 's' else 0.0, 2.0 ** n, False)
    if op in ('fpext', 'fptrunc', 'freeze'):
        a = sub(v.ops[0])
        return a if op != 'fptrunc' else _widen(a.lo, a.hi, a.nan, v.ty)
    if op == 'fneg':
        a = sub(v.ops[0])
        return Itv(-a.hi, -a.lo, a.nan)
    if op in ('fadd', 'fsub'):
        a, b = sub(v.ops[0]), sub(v.ops[1])
        if op == 'fsub':
            b = Itv(-b.hi, -b.lo, b.nan)
        if a.lo > a.hi or b.lo > b.hi:
            return Itv(INF, -INF, a.nan or b.nan)
        nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
        lo = -INF if -INF in (a.lo, b.lo) else a.lo + b.lo
        hi = INF if INF in (a.hi, b.hi) else a.hi + b.hi
        return _widen(lo, hi, nan, v.ty)
    if op == 'fmul':
        a, b = sub(v.ops[0]), sub(v.ops[1])
        if a.lo > a.hi or b.lo > b.hi:
            return Itv(INF, -INF, a.nan or b.nan)
        ps = [_mul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]

        def z(i):
            return i.lo <= 0 <= i.hi

        def f(i):
            return INF in (i.lo, i.hi) or -INF in (i.lo, i.hi)
        nan = a.nan or b.nan or (z(a) and f(b)) or (z(b) and f(a))
        lo, hi = min(ps), max(ps)
        if v.ops[0] is v.ops[1]:
            lo, nan = max(lo, 0.0), a.nan
        return _widen(lo, hi, nan, v.ty)
    if op == 'fdiv':
        a, b = sub(v.ops[0]), sub(v.ops[1])
        if a.lo > a.hi or b.lo > b.hi:
            return Itv(INF, -INF, a.nan or b.nan)
        if b.lo > 0 or b.hi < 0:
            fa = INF in (abs(a.lo), abs(a.hi))
            fb = INF in (abs(b.lo), abs(b.hi))
            nan = a.nan or b.nan or (fa and fb)
            qs = []
            for x in (a.lo, a.hi):
                for y in (b.lo, b.hi):
                    if abs(y) == INF:
                        qs += [0.0] + ([x, -x] if abs(x) == INF else [])
                    else:
                        qs.append(x / y)
            return _widen(min(qs), max(qs), nan, v.ty)
        return TOP
    if op == 'select':
        c = v.ops[0]
        out = EMPTY
        for o, pol in ((v.ops[1], True), (v.ops[2], False)):
            fs = e.cond_facts(c, pol)
            out = out.join(interval(u, o, fs + items, depth + 1))
        return out
    if op == 'phi' and v.blk not in e.latch_of:
        out = EMPTY
        for o, p in zip(v.ops, v.x):
            if p in e.cfg.reach:
                out = out.join(interval(u, o, e.edge_facts(p, v.blk) + e.items(p), depth + 1))
        return out
    if op in ('call', 'invoke'):
        n = callee_name(v) or ''
        m = n[5:].split('.')[0] if n.startswith('llvm.') else n
        m = m.rstrip('fl') if m.rstrip('fl') in ('sqrt', 'exp', 'fabs') else m
        if m in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'floorf', 'floorl'):
            a = sub(v.ops[1])
            fl = {'c': math.ceil}.get(m[0], math.floor)
            if a.lo > a.hi:
                return a
            lo = a.lo if abs(a.lo) == INF else float(math.floor(a.lo))
            hi = a.hi if abs(a.hi) == INF else float(math.ceil(a.hi))
            if m.startswith('floor') and abs(a.hi) != INF:
                hi = float(math.floor(a.hi))
            if m.startswith('ceil') and abs(a.lo) != INF:
                lo = float(math.ceil(a.lo))
            return Itv(lo, hi, a.nan)
        if m.startswith('copysign'):
            a = sub(v.ops[1])
            x = max(abs(a.lo), abs(a.hi)) if a.lo <= a.hi else -INF
            return Itv(-x, x, a.nan)
        if m.startswith('fabs'):
            a = sub(v.ops[1])
            if a.lo >= 0:
                return a
            return Itv(0.0, max(abs(a.lo), abs(a.hi)), a.nan)
        if m.startswith('sqrt'):
            a = sub(v.ops[1])
            hi = INF if a.hi == INF else math.sqrt(max(a.hi, 0.0)) * (1 + 1e-6)
            return Itv(0.0, hi, a.nan or a.lo < 0)
        if m.startswith('exp') and not m.startswith('expm'):
            a = sub(v.ops[1])
            return Itv(0.0, INF if a.hi > 700 else math.exp(a.hi) * 1.01, a.nan)
        if m in ('minnum', 'fmin', 'maxnum', 'fmax'):
            a, b = sub(v.ops[1]), sub(v.ops[2])
            f = min if 'min' in m else max
            r = Itv(f(a.lo, b.lo), f(a.hi, b.hi), a.nan and b.nan)
            if a.nan:
                r = r.join(Itv(b.lo, b.hi, r.nan))
            if b.nan:
                r = r.join(Itv(a.lo, a.hi, r.nan))
            return r
    return TOP
