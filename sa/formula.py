"""Formulas: cases and expected values of element-wise functions, and the equality test.

A formula is written with the names of the operands. Its value is a normal form of the algebra
domain; two normal forms that are the same denote the same function. Normal forms that differ
are told apart by random interpretation: both are evaluated, with 40 digits, at random values of
their atoms that satisfy the case, and only a disagreement counts as a difference.
"""
import ast
import itertools
import random
import mpmath
from .algebra import Rat, TooBig
from .sym import ZERO

NAN = ('k', 'nan')
INF = ('k', float('inf'))
NINF = ('k', float('-inf'))
mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
mp.dps = 40
RELN = {ast.Lt: 'L', ast.Gt: 'G', ast.Eq: 'E', ast.LtE: 'LE', ast.GtE: 'GE', ast.NotEq: 'LG'}
FLIP = {'L': 'G', 'G': 'L', 'E': 'E', 'U': 'U'}


# ------------------------------------------------------------------- parsing
def expr(sim, node, env):
    """Role of an expression over the names of env."""
    if isinstance(node, str):
        node = ast.parse(node, mode='eval').body
    if isinstance(node, ast.Constant):
        return ('k', float(node.value))
    if isinstance(node, ast.Name):
        if node.id == 'nan':
            return NAN
        if node.id == 'inf':
            return INF
        if node.id == 'pi':
            return sim.role(Rat.atom(('fn', 'pi')))
        return env[node.id]
    if isinstance(node, ast.UnaryOp):
        v = expr(sim, node.operand, env)
        if v == INF:
            return NINF
        return sim.arith('fneg', [v])
    if isinstance(node, ast.BinOp):
        a, b = expr(sim, node.left, env), expr(sim, node.right, env)
        if isinstance(node.op, ast.Pow):
            n = int(b[1])
            x = sim.alg(a)
            r = Rat.const(1)
            for _ in range(n):
                r = r * x
            return sim.role(r)
        op = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div'}[type(node.op)]
        return sim.arith(op, [a, b])
    if isinstance(node, ast.Call):
        return sim.role(sim.fn(node.func.id, [sim.fnarg(expr(sim, x, env)) for x in node.args]))
    raise ValueError(ast.dump(node))


def cases(text, env):
    """All the assignments of relations that a condition 'a < x <= b and ...' stands for."""
    if not text:
        return [{}]
    node = ast.parse(text, mode='eval').body
    opts = []
    for cmp in node.values if isinstance(node, ast.BoolOp) else [node]:
        ops = [cmp.left] + cmp.comparators
        for a, op, b in zip(ops, cmp.ops, ops[1:]):
            if isinstance(op, ast.Is):          # x is nan
                opts.append([((side(a, env), side(a, env)), 'U')])
                continue
            opts.append([((side(a, env), side(b, env)), r) for r in RELN[type(op)]])
    out = []
    for c in itertools.product(*opts):
        d = close(dict(c))
        if d is not None:
            out.append(d)
    return out


def side(node, env):
    if isinstance(node, ast.Name):
        return {'inf': INF}.get(node.id) or env[node.id]
    if isinstance(node, ast.UnaryOp):
        v = side(node.operand, env)
        return ('k', -v[1])
    if isinstance(node, ast.Constant):
        return ('k', float(node.value))
    return ast.unparse(node)            # an expression; resolved by the caller


def close(rels):
    """Transitive closure; None if it is contradictory."""
    R = {}

    def put(a, b, r):
        if R.get((a, b), r) != r:
            return False
        R[a, b], R[b, a] = r, FLIP[r]
        return True
    for (a, b), r in rels.items():
        if r == 'U':
            R[a, b] = r
        elif not put(a, b, r):
            return None
    nodes = list(dict.fromkeys(x for p in R for x in p))
    ks = [x for x in nodes if x[0] == 'k']
    for a, b in itertools.combinations(ks, 2):
        if not put(a, b, 'L' if a[1] < b[1] else 'G'):
            return None
    for k in nodes:
        for a in nodes:
            for b in nodes:
                if a != b and a != k and b != k and 'U' not in (R.get((a, a)), R.get((b, b))):
                    p, q = R.get((a, k)), R.get((k, b))
                    if p and q and (p == q or 'E' in (p, q)):
                        if not put(a, b, q if p == 'E' else p):
                            return None
    return R


# ---------------------------------------------------------------- evaluation
def apply(name, xs):
    try:
        if name == 'pi':
            return mp.pi
        if name in ('log', 'sqrt', 'log2', 'log10'):
            if xs[0] < 0 or xs[0] == 0 and name != 'sqrt':
                return None
            return {'log': mp.log, 'sqrt': mp.sqrt, 'log10': mp.log10,
                    'log2': lambda v: mp.log(v, 2)}[name](xs[0])
        if name in ('asin', 'acos'):
            return None if abs(xs[0]) > 1 else getattr(mp, name)(xs[0])
        if name in ('exp', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'erf'):
            return getattr(mp, name)(xs[0])
        if name == 'exp2':
            return mp.mpf(2) ** xs[0]
        if name == 'pow':
            if xs[0] < 0 and xs[1] != int(xs[1]) or xs[0] == 0 and xs[1] < 0:
                return None
            return xs[0] ** xs[1]
        if name[:3] == 'ite':
            r = 'E' if abs(xs[0]) < 1e-25 else 'G' if xs[0] > 0 else 'L'
            return xs[1] if r in name[3:] else xs[2]
        if name == 'abs':
            return abs(xs[0])
        if name in ('trunc', 'idiv', 'irem'):
            q = xs[0] / xs[1] if name != 'trunc' else xs[0]
            q = mp.floor(q) if q >= 0 else mp.ceil(q)
            return q if name != 'irem' else xs[0] - q * xs[1]
        if name == 'copysign':
            return abs(xs[0]) if xs[1] >= 0 else -abs(xs[0])
        if name == 'lgamma':
            return mp.loggamma(xs[0]) if xs[0] > 0 else None
    except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence):
        return None
    # uninterpreted: a random value that is determined by the arguments
    k = (name,) + tuple(mp.nstr(x, 25) for x in xs)
    return mp.mpf(random.Random(repr(k)).uniform(0.5, 2))


def evaluate(x, vals, sim):
    """Value of a Rat; None outside of its domain."""
    def atom(a):
        if a in vals:
            return vals[a]
        if a[0] == 'fn':
            args = [evaluate(r, vals, sim) for r in sim.fnargs.get(a, [])]
            v = None if any(r is None for r in args) else apply(a[1], args)
        elif a == ('inf',):
            v = mp.mpf(10) ** 30
        else:
            v = mp.mpf(random.Random(repr(a) + repr(vals.get('seed'))).uniform(0.2, 3))
        vals[a] = v
        return v

    def poly(p):
        t = mp.mpf(0)
        for m, c in p.items():
            y = mp.mpf(c.numerator) / c.denominator
            for a, k in m:
                v = atom(a)
                if v is None:
                    return None
                y *= v ** k
            t += y
        return t
    n, d = poly(x.n), poly(x.d)
    if n is None or d is None or d == 0:
        return None
    return n / d


def holds(sim, c, vals):
    """Whether a branch constraint holds for the values of the atoms; None: not known."""
    v = evaluate(c[1], dict(vals), sim)
    if c[0] == 'class':
        m = 3 if v is None else 384 if v > 0 else 24 if v < 0 else 96
        return bool(m & c[2]) == c[3]
    if v is None:
        return None
    if abs(v) < 1e-25:
        return 'E' in c[2]
    return ('G' if v > 0 else 'L') in c[2]


def samples(sim, rels, want, n=6, seed=1, pc=(), conds=()):
    """Random values of the atoms that satisfy the relations."""
    rng = random.Random(seed)
    roles = sorted({x for p in rels for x in p if x[0] in ('el', 'acc', 'out')} | set(want),
                   key=repr)
    consts = sorted({x[1] for p in rels for x in p if x[0] == 'k' and
                     isinstance(x[1], float) and abs(x[1]) != float('inf')})
    free = [r for r in roles if r not in sim.esub]
    checks = []
    for (a, b), r in rels.items():
        if r == 'U' or a == b:
            continue
        x, y = sim.alg(a), sim.alg(b)
        if x is not None and y is not None:
            checks.append((x - y, r))
    def draw():
        vals = {'seed': rng.random()}
        for r in free:
            c = rng.choice(consts) if consts and rng.random() < 0.5 else 0
            vals[r] = mp.mpf(c + rng.choice([rng.uniform(-3, 3), rng.uniform(-0.7, 0.7),
                                             rng.uniform(0.1, 2)]))
        return vals

    def accept(vals):
        for r in sim.esub:
            v = evaluate(sim.esub[r], vals, sim)
            if v is None:
                return False
            vals[r] = v
        for p, r in checks:
            v = evaluate(p, dict(vals), sim)
            if v is None:
                return False
            if abs(v) < 1e-25:
                if r != 'E':
                    return False
            elif r != ('G' if v > 0 else 'L'):
                return False
        return all(holds(sim, c, vals) for c in pc)

    out = []
    for t in range(4000):
        vals = draw()
        if accept(vals):
            out.append(vals)
            if len(out) >= n:
                break
    # Values on both sides of every comparison on which the result depends.
    for c in list(conds) + [c[1] for c in pc if c[0] == 'rel']:
        seen = {'G': 0, 'L': 0, 'E': 0}
        mine = [r for r in free if r in deep(sim, c)]
        for t in range(120 if mine else 0):
            vals = dict(rng.choice(out)) if out and rng.random() < 0.5 else draw()
            r = rng.choice(mine)
            f = []
            for q in (0, 1, 2):
                vals[r] = mp.mpf(q)
                try:
                    f.append(evaluate(c, dict(vals), sim))
                except (OverflowError, ValueError):
                    f.append(None)
            if None in f or abs(f[1] - f[0]) < 1e-20 or \
                    abs(f[2] - 2 * f[1] + f[0]) > 1e-12 * abs(f[1] - f[0]):
                continue
            root = -f[0] / (f[1] - f[0])
            side = min(seen, key=seen.get)
            if seen[side] >= 2:
                break
            d = mp.mpf(rng.choice([0.001, 0.03, 0.3, 2])) * (1 if abs(root) > 1 else
                                                             abs(root) + mp.mpf(1) / 8)
            up = (f[1] > f[0]) == (side == 'G')
            vals[r] = root if side == 'E' else root + d if up else root - d
            vals = {k: v for k, v in vals.items() if k in free or k == 'seed'}
            if accept(vals):
                seen[side] += 1
                out.append(vals)
    return out


def compare(sim, v, w, rels, tol=1e-6, pc=(), precise=True):
    """'same', 'differ' or 'unknown' for two roles under the relations."""
    r = _compare(sim, v, w, rels, tol, pc)
    return r if precise or r == 'same' else 'unknown'


def _compare(sim, v, w, rels, tol, pc):
    if v is None or w is None or '?' in (v[0], w[0]):
        return 'unknown'
    if v == w or sim.rel(v, w) == 'E':
        return 'same'
    special = (NAN, INF, NINF)
    if v in special and w in special:
        if pc and not samples(sim, rels, roles_of(sim, [], pc), pc=pc):
            return 'unknown'
        return 'differ'
    x, y = sim.alg(v), sim.alg(w)
    if v in special or w in special:
        z = y if v in special else x
        if z is None:
            return 'unknown'
        nan = {r for p in rels for r in p if rels[p] == 'U'}
        if sim.nanin(z, nan):
            return 'same' if NAN in (v, w) else 'differ'
        if NAN in (v, w) and ('inf',) in deep(sim, z):
            return 'unknown'
        pts = samples(sim, rels, roles_of(sim, [z], pc), pc=pc)
        got = [evaluate(z, p, sim) for p in pts]
        if not got:
            return 'unknown'
        if all(g is None for g in got):
            return 'same' if NAN in (v, w) else 'unknown'
        return 'differ' if len(got) > 2 and all(g is not None for g in got) else 'unknown'
    if x is None or y is None:
        return 'unknown'
    try:
        x, y = sim.reduce(x), sim.reduce(y)
        if sim.esub:
            x, y = x.subst(sim.esub), y.subst(sim.esub)
        if x == y:
            return 'same'
    except (TooBig, ZeroDivisionError):
        pass
    nans = {r for p in rels for r in p if rels[p] == 'U'}
    if sim.nanin(x, nans) or sim.nanin(y, nans):
        a, b = sim.nanin(x, nans), sim.nanin(y, nans)
        if a != b:
            return 'differ'
        return 'same' if x.single() is None and y.single() is None else 'unknown'
    n = bad = undef = 0
    ites = [a for a in deep(sim, x) | deep(sim, y) if a[0] == 'fn' and a[1][:3] == 'ite']
    sides = {a: set() for a in ites}
    for p in samples(sim, rels, roles_of(sim, [x, y], pc), pc=pc,
                     conds=[sim.fnargs[a][0] for a in ites]):
        a, b = evaluate(x, dict(p), sim), evaluate(y, dict(p), sim)
        if a is None or b is None:
            undef += (a is None) != (b is None)
            continue
        n += 1
        bad += abs(a - b) > tol * max(1, abs(a), abs(b))
        for i in ites:
            v = evaluate(sim.fnargs[i][0], dict(p), sim)
            if v is not None:
                sides[i].add(('E' if abs(v) < 1e-25 else 'G' if v > 0 else 'L') in i[1][3:])
    if bad >= 2 and (bad * 2 >= n or ites) or not n and undef >= 3:
        return 'differ'
    if any(len(v) < 2 for v in sides.values()):
        return 'unknown'
    return 'same' if n >= 2 and not bad and not undef else 'unknown'


def atoms(sim, x):
    return {a for a in deep(sim, x) if a[0] in ('el', 'acc', 'out')}


def roles_of(sim, xs, pc):
    out = set()
    for x in list(xs) + [c[1] for c in pc]:
        out |= atoms(sim, x)
    return out


def deep(sim, x):
    """All the atoms, those in the arguments of functions too."""
    out, work = set(), [x]
    while work:
        y = work.pop()
        for a in y.atoms():
            if a not in out:
                out.add(a)
                work += sim.fnargs.get(a, [])
    return out


def el(k, *js):
    return ('el', k, tuple(js))


def show_case(rels, names):
    inv = {v: k for k, v in names.items()}

    def nm(r):
        if r in inv:
            return inv[r]
        return ('%g' % r[1] if isinstance(r[1], float) else str(r[1])) if r[0] == 'k' else '...'
    seen, out = set(), []
    for (a, b), r in rels.items():
        if (b, a) in seen or a[0] == b[0] == 'k':
            continue
        seen.add((a, b))
        out.append('%s is nan' % nm(a) if r == 'U' else '%s %s %s' % (
            nm(a), {'L': '<', 'E': '==', 'G': '>'}[r], nm(b)))
    return ' and '.join(out) or 'always'
