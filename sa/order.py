"""P18: comparisons select the element or position that the documentation names.

Abstract interpretation of one iteration of a loop in the order domain: the abstract state says
only how the current element compares with the values that it is compared with (less, equal,
greater). For each such case the conditions of the iteration are decided, and the effect (which
accumulators are updated and how, whether the search stops, what is stored) is compared with the
transfer function of the specification. Together with the initial values and the values stored
after the last iteration this is an inductive argument for sequences of every length.

Code whose structure does not match (a value that the abstraction does not know decides, say) is
counted as undecided and never reported.
"""
import itertools
from . import ir, reads
from .engine import Ctx, callee_name
from .sym import Poly, ZERO, ONE
from .algebra import Rat, TooBig

REL = {'oeq': 'E', 'ogt': 'G', 'oge': 'GE', 'olt': 'L', 'ole': 'LE', 'one': 'LG', 'ord': 'LEG',
       'uno': '', 'ueq': 'E', 'ugt': 'G', 'uge': 'GE', 'ult': 'L', 'ule': 'LE', 'une': 'LG',
       'true': 'LEG', 'false': '', 'eq': 'E', 'ne': 'LG', 'slt': 'L', 'sle': 'LE', 'sgt': 'G',
       'sge': 'GE'}
FLIP = {'L': 'G', 'G': 'L', 'E': 'E', 'U': 'U'}
PYOP = ['L', 'LE', 'E', 'LGU', 'G', 'GE']
MAXSTEPS = 400
ZEROK = ('k', 0.0)
NAN = ('k', 'nan')
STRICT = ('sqrt', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan',
          'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'fabs', 'lgamma', 'tgamma',
          'erfcx')
INFS = (('k', float('inf')), ('k', float('-inf')))
FUNS = {'exp': 1, 'log': 1, 'log1p': 1, 'expm1': 1, 'sqrt': 1, 'sin': 1, 'cos': 1, 'tan': 1,
        'asin': 1, 'acos': 1, 'atan': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'erf': 1, 'erfc': 1,
        'hypot': 2, 'pow': 2, 'lgamma': 1, 'log2': 1, 'exp2': 1, 'log10': 1, 'nextafter': 2,
        'trunc': 1, 'copysign': 2,
        'erfcx': 1}
FNAMES = {'cabs': 'hypot', **{'_Z5erfcx' + c: 'erfcx' for c in 'fde'},
          **{p + f + s: f for f in FUNS for p in ('', 'npy_') for s in ('', 'f', 'l')}}


class Undecided(Exception):
    pass


class Out(tuple):
    """An outcome: what the branches that the case does not decide assume about the values."""
    pc = ()
    precise = True


def outcome(kind, new, stores, env):
    o = Out((kind, new, stores))
    o.pc = env.get('pc', ())
    o.precise = 'imprecise' not in env
    return o


class Sim:
    """Follows one iteration (or what comes after the last one) under an assignment."""

    def __init__(self, u, L, rels, assume=(), roles=None):
        self.u, self.e, self.L = u, u.eng, L
        self.rels = {}
        for (a, b), r in rels.items():
            self.rels[a, b] = r
            self.rels[b, a] = FLIP[r]
        self.assume = list(assume)
        self.fnargs = {}
        self.esub = {}
        self.nans = {a for (a, b), r in rels.items() if r == 'U' and a == b}
        self.infroles = [a for (a, b), r in rels.items() if r == 'E' and b in INFS]
        for (a, b), r in rels.items():
            if r == 'E' and a != b:
                x, y = self.alg(a), self.alg(b)
                if x is not None and y is not None and x != y:
                    if x.single() is None:
                        x, y = y, x
                    if x.single() is not None and x.single() not in y.atoms():
                        m = {x.single(): y}
                        self.esub = {k: v.subst(m) for k, v in self.esub.items()}
                        self.esub.update(m)
        self.arels = {}
        for (a, b), r in rels.items():
            x, y = self.alg(a), self.alg(b)
            if a != b and x is not None and y is not None and r != 'U':
                k = (x - y).sign_key()
                if k is not None:
                    self.arels[k[0]] = r if k[1] > 0 else FLIP[r]
        self.accs = {}
        for a in u.acc:
            self.accs.setdefault(a.inst, []).append(a)
        self.steps = 0
        self.asked = set()
        self.roles = roles or {}
        self.written = []

    # --------------------------------------------------------------- algebra
    def alg(self, r):
        """The value as a rational function of the roles, None if it is not one."""
        t = r[0]
        if t == 'f':
            return r[1].subst(self.esub) if self.esub else r[1]
        if t in ('el', 'acc', 'out'):
            return self.esub.get(r) or Rat.atom(r)
        if t == 'k':
            if isinstance(r[1], float) and abs(r[1]) != float('inf'):
                return Rat.const(r[1])
            return None
        if t == 'p':
            x = Rat.const(0)
            for m, c in r[1].t.items():
                y = Rat.const(c)
                for a in m:
                    y = y * Rat.atom(('pa', a))
                x = x + y
            return x
        return None

    def role(self, x):
        x = self.reduce(x)
        if x.is_const():
            c = x.cval()
            if float(c) == c:
                return ('k', float(c))
        a = x.single()
        if a is not None and a[0] in ('el', 'acc', 'out'):
            return a
        return ('f', x)

    def reduce(self, x):
        """sqrt(u)^2 = u."""
        for _ in range(8):
            bad = None
            for p in (x.n, x.d):
                for m in p:
                    for a, k in m:
                        if a[0] == 'fn' and a[1] == 'sqrt' and abs(k) >= 2:
                            bad = a
            if bad is None:
                return x
            u = self.fnargs[bad][0]

            def half(p):
                r = Rat.const(0)
                for m, c in p.items():
                    t = Rat.const(c)
                    for a, k in m:
                        if a == bad:
                            for _ in range(k // 2):
                                t = t * u
                            k = k % 2
                        for _ in range(k):
                            t = t * Rat.atom(a)
                    r = r + t
                return r
            x = half(x.n) / half(x.d)
        return x

    def fnarg(self, r):
        if r in INFS:
            x = Rat.atom(('inf',))
            return x if r[1] > 0 else -x
        return self.alg(r)

    def fn(self, name, args):
        """A function of rational functions, in a normal form."""
        one = Rat.const(1)
        if name == 'log1p':
            return self.fn('log', [one + args[0]])
        if name == 'expm1':
            return self.fn('exp', args) - one
        if name == 'hypot' and len(args) == 2:
            return self.fn('sqrt', [args[0] * args[0] + args[1] * args[1]])
        if name == 'erfcx':
            return self.fn('exp', [args[0] * args[0]]) * self.fn('erfc', args)
        if name == 'erfc':
            return one - self.fn('erf', args)
        u = args[0]
        if name == 'abs' and next((c for m, c in sorted(u.n.items(), key=repr)), 0) < 0:
            return self.fn('abs', [-u])
        if len(args) == 1 and u.is_const():
            c = u.cval()
            if c == 0 and name in ('exp', 'cosh', 'cos'):
                return one
            if c == 0 and name in ('sqrt', 'sinh', 'sin', 'tanh', 'asin', 'erf', 'atan') or \
                    c == 1 and name == 'log':
                return Rat.const(0)
            if c == 1 and name == 'sqrt':
                return one
        if name in ('exp', 'erf', 'sin', 'sinh', 'tan', 'tanh', 'asin', 'atan', 'cos', 'cosh'):
            lead = next((c for m, c in sorted(u.n.items(), key=repr)), 0)
            if lead < 0:
                v = self.fn(name, [-u])
                return one / v if name == 'exp' else v if name in ('cos', 'cosh') else -v
        a = ('fn', name) + tuple(self.reduce(x).key() for x in args)
        self.fnargs[a] = args
        return Rat.atom(a)

    # ---------------------------------------------------------------- values
    def choice(self, c, a, b, env):
        """A value that is chosen by a comparison that the case does not decide."""
        x, y = self.alg(a), self.alg(b)
        if x is None or y is None:
            return None
        cs = self.constraints(c, env, True)
        if cs is None:
            # a disjunction
            cs, x, y = self.constraints(c, env, False), y, x
        if not cs or len(cs) > 4 or any(k[0] != 'rel' for k in cs):
            return None
        for k in cs:
            args = [k[1], x, y]
            f = ('fn', 'ite' + ''.join(sorted(k[2]))) + tuple(self.reduce(z).key() for z in args)
            self.fnargs[f] = args
            x = Rat.atom(f)
        return self.role(x)

    def poly(self, r):
        if r is None:
            return None
        return r[1] if r[0] == 'p' else None

    def element(self, ins, env):
        """('el', operand, position) of a load or store."""
        cs = [a for a in self.accs.get(ins, ()) if a.kind == 'opnd']
        if len(cs) != 1 or len(self.accs[ins]) != 1 or cs[0].J is None:
            return None
        a = cs[0]
        js = []
        for j in a.J:
            m = {}
            for x in j.atoms():
                k = self.e.key(x)
                if k[0] == 'v':
                    v = self.e.inst_by_id(k[1])
                    if v in env:
                        q = self.poly(env[v])
                        if q is None:
                            return None
                        m[x] = q
            js.append(self.e.subst(j, m) if m else j)
        part = ()
        if self.u.loop.types[a.opnd] in (14, 15, 16):
            h = self.u.lay.size[a.opnd] // 2
            if a.R is None or not a.R.is_const() or a.R.cval() not in (0, h) or a.size != h:
                return None
            part = ('im',) if a.R.cval() else ()
        return ('el', a.opnd, tuple(js)) + part

    def val(self, v, env, d=0):
        e = self.e
        if isinstance(v, ir.Const):
            if v.kind == 'int':
                return ('p', Poly.const(v.val))
            if v.kind == 'fp':
                if v.val != v.val:
                    return ('k', 'nan')
                try:
                    x = float(v.val)
                except OverflowError:
                    return ('k', repr(v))
                return ('k', x if x or not v.val else repr(v))
            if v.kind == 'zero':
                return ('k', 0.0) if v.ty.is_float() else ('p', ZERO)
            return ('k', repr(v))
        if v in env:
            return env[v]
        if not isinstance(v, ir.Inst) or d > 40:
            return ('?', id(v))
        r = self._val(v, env, d)
        if v.ty is not None and v.ty.is_int() and r[0] == '?':
            p = e.sym(v)
            if not any(self.carried(x, env) for x in p.atoms() | e._deps(p)):
                return ('p', p)
        return r

    def carried(self, a, env):
        """Whether the atom is a value that the iteration has changed."""
        k = self.e.key(a)
        x = self.e.inst_by_id(k[1]) if k[0] == 'v' else None
        return x is not None and x in env and env[x] != ('p', self.e.sym(x))

    def _val(self, v, env, d):
        try:
            return self.__val(v, env, d)
        except (ZeroDivisionError, TooBig, RecursionError):
            return ('?', v.id)

    def arith(self, op, args):
        xs = [self.alg(a) for a in args]
        if any(x is None for x in xs):
            return None
        if op == 'fneg':
            x = -xs[0]
        elif op == 'fma':
            x = xs[0] * xs[1] + xs[2]
        else:
            a, b = xs
            x = a + b if op == 'add' else a - b if op == 'sub' else a * b if op == 'mul' else a / b
        return self.role(x)

    def __val(self, v, env, d):
        e = self.e
        op = v.op
        unknown = ('?', v.id)
        if op == 'load':
            el = self.element(v, env)
            if el is not None and el[1] < self.u.lay.nin:
                return self.roles.get(el, el)
            if el is not None:
                # an output: the last value stored, or what it was at the start of the iteration
                js = el[2] + el[3:]
                for o, j, val in reversed(self.written):
                    if o == el[1] and j == js:
                        return val
                    if o == el[1] and not any(x == 'im' or y == 'im' or
                                              (x - y).is_const() and (x - y).t
                                              for x, y in zip(j, js)):
                        return unknown
                return ('out',) + el[1:]
            return unknown
        if op in ('freeze', 'fpext', 'fptrunc'):
            return self.val(v.ops[0], env, d + 1)
        if op in ('sext', 'zext', 'trunc'):
            if v.ops[0].ty.n == 1:
                c = self.cond(v.ops[0], env)
                return unknown if c is None else ('p', Poly.const(int(c)))
            r = self.val(v.ops[0], env, d + 1)
            if r[0] == 'el' or op != 'trunc':
                return r
            if r[0] == 'p' and r[1].is_const():
                return r
            return unknown
        if op in ('add', 'sub', 'mul'):
            a = self.poly(self.val(v.ops[0], env, d + 1))
            b = self.poly(self.val(v.ops[1], env, d + 1))
            if a is None or b is None:
                return self.arith(op, [self.val(x, env, d + 1) for x in v.ops]) or unknown
            return ('p', a + b if op == 'add' else a - b if op == 'sub' else a * b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.arith(op[1:], [self.val(x, env, d + 1) for x in v.ops]) or unknown
        if op in ('sitofp', 'uitofp'):
            r = self.val(v.ops[0], env, d + 1)
            if r[0] == 'p' and r[1].is_const():
                return ('k', float(r[1].cval()))
            return r if r[0] in ('p', 'el', 'f') else unknown
        if op == 'select':
            c = self.cond(v.ops[0], env)
            if c is None:
                a, b = self.val(v.ops[1], env, d + 1), self.val(v.ops[2], env, d + 1)
                if a != b and v.ty.is_float():
                    return self.choice(v.ops[0], a, b, env) or unknown
                return a if a == b else unknown
            return self.val(v.ops[1 if c else 2], env, d + 1)
        if op == 'fneg':
            return self.arith('fneg', [self.val(v.ops[0], env, d + 1)]) or unknown
        if op in ('call', 'invoke'):
            n = callee_name(v) or ''
            if n.startswith('npy_half_to_float'):
                return self.val(v.ops[1], env, d + 1)
            m = n[5:].split('.')[0] if n.startswith('llvm.') else n
            if m in ('smin', 'umin', 'minnum', 'fmin', 'smax', 'umax', 'maxnum', 'fmax'):
                a, b = self.val(v.ops[1], env, d + 1), self.val(v.ops[2], env, d + 1)
                r = self.rel(a, b)
                if r is None or r == 'U':
                    return unknown
                return a if (r == 'L') == ('min' in m) else b
            if m in ('fma', 'fmaf', 'fmal', 'fmuladd'):
                return self.arith('fma', [self.val(o, env, d + 1) for o in v.ops[1:4]]) or unknown
            if m in ('fabs', 'fabsf', 'fabsl'):
                a = self.val(v.ops[1], env, d + 1)
                r = self.rel(a, ZEROK)
                if r is None and self.alg(a) is not None:
                    return self.role(self.fn('abs', [self.alg(a)]))
                return a if r in ('G', 'E') else \
                    (self.arith('fneg', [a]) or unknown) if r == 'L' else unknown
            m = FNAMES.get(m)
            if m is not None:
                xs = [self.fnarg(self.val(o, env, d + 1)) for o in v.ops[1:1 + FUNS[m]]]
                if any(x is None for x in xs):
                    return unknown
                return self.role(self.fn(m, xs))
            return unknown
        if v.ty is not None and v.ty.is_int() and v.ty.n == 1:
            c = self.cond(v, env)
            return unknown if c is None else ('p', Poly.const(int(c)))
        return unknown

    def rel(self, a, b):
        if a == b and a[0] != '?':
            return 'E' if self.rels.get((a, a)) != 'U' else 'U'
        r = self.rels.get((a, b))
        if r is None and (a in INFS or b in INFS):
            p, q = self.infinite(a), self.infinite(b)
            if p is not None and q is not None:
                return 'E' if p == q else 'L' if p < q else 'G'
        if r is None and b[0] == 'k':
            r = self.bound(a, b)
        if r is None and a[0] == 'k' and b[0] != 'k':
            r = self.bound(b, a)
            r = r and FLIP[r]
        if r is None and a[0] != '?' and b[0] != '?':
            x, y = self.alg(a), self.alg(b)
            if x is not None and y is not None:
                try:
                    x = x - y
                    if not x.n:
                        return 'E'
                    if x.is_const():
                        return 'G' if x.cval() > 0 else 'L'
                    k = x.sign_key()
                    if k is not None and k[0] in self.arels:
                        r = self.arels[k[0]]
                        r = r if k[1] > 0 else FLIP[r]
                    else:
                        r = self.sign(x)
                except TooBig:
                    pass
        if r is None and a[0] in ('el', 'acc') and b[0] in ('el', 'acc'):
            self.asked.add((a, b))
        return r

    def sign(self, x, d=0):
        """'L', 'E' or 'G' if the signs of the atoms determine the sign of a Rat."""
        if not x.n:
            return 'E'
        n, m = self.psign(x.n, d), self.psign(x.d, d)
        return None if None in (n, m) else n if m == 'G' else FLIP[n]

    def psign(self, p, d):
        out = None
        for mon, c in p.items():
            s = 1 if c > 0 else -1
            for a, k in mon:
                r = self.asign(a, d)
                if r is None and k % 2:
                    return None
                if r is None or r == 'E':
                    # an even power: not negative, but it may be zero
                    return None
                if r == 'L' and k % 2:
                    s = -s
            if out not in (None, s):
                return None
            out = s
        return 'G' if out == 1 else 'L'

    def asign(self, a, d):
        if a[0] == 'fn' and d < 6:
            if a[1] in ('exp', 'pow', 'exp2'):
                return 'G'
            args = self.fnargs.get(a, [])
            if a[1] in ('sqrt', 'erf', 'sinh', 'tanh', 'atan', 'asin') and args:
                r = self.sign(args[0], d + 1)
                return r if r in ('G', 'E') or a[1] != 'sqrt' else None
            if a[1] == 'log' and args:
                return self.sign(args[0] - Rat.const(1), d + 1)
            return None
        return self.rels.get((a, ZEROK)) or self.bound(a, ZEROK)

    def bound(self, a, k):
        """The relation of a role to a constant that follows from one to another constant."""
        for (x, y), r in self.rels.items():
            if x == a and y[0] == 'k' and isinstance(y[1], float) and isinstance(k[1], float):
                if r == 'G' and y[1] >= k[1]:
                    return 'G'
                if r == 'L' and y[1] <= k[1]:
                    return 'L'
        return None

    # ------------------------------------------------------------ conditions
    def facts(self):
        return self.assume + self.path

    def cond(self, c, env):
        if isinstance(c, ir.Const):
            return bool(c.val) if c.kind == 'int' else False if c.kind == 'zero' else None
        if c in env and env[c][0] == 'p' and env[c][1].is_const():
            return bool(env[c][1].cval())
        if not isinstance(c, ir.Inst):
            return None
        op = c.op
        if op == 'freeze':
            return self.cond(c.ops[0], env)
        if op == 'trunc':
            r = self.val(c.ops[0], env)
            return bool(r[1].cval() & 1) if r[0] == 'p' and r[1].is_const() else None
        if op in ('and', 'or', 'xor'):
            a, b = self.cond(c.ops[0], env), self.cond(c.ops[1], env)
            if op == 'and':
                return False if a is False or b is False else None if None in (a, b) else True
            if op == 'or':
                return True if a or b else None if None in (a, b) else False
            return None if None in (a, b) else a != b
        if op == 'select':
            a = self.cond(c.ops[0], env)
            if a is None:
                x, y = self.cond(c.ops[1], env), self.cond(c.ops[2], env)
                return x if x is not None and x == y else None
            return self.cond(c.ops[1 if a else 2], env)
        if op in ('icmp', 'fcmp'):
            a, b = self.val(c.ops[0], env), self.val(c.ops[1], env)
            if a[0] == 'p' and b[0] == 'p' and op == 'icmp':
                return self.icmp(c.x, a[1], b[1])
            if op == 'fcmp' and (self.isnan(a) or self.isnan(b)):
                return c.x[0] == 'u' or c.x == 'true'
            r = self.rel(a, b)
            if r is None:
                k = self.pathrel(a, b, env)
                if k is not None and op == 'fcmp':
                    if k <= set(REL[c.x]):
                        return True
                    if not k & set(REL[c.x]):
                        return False
                if op == 'fcmp' and 'U' in (self.rels.get((a, a)), self.rels.get((b, b))):
                    return c.x[0] == 'u' or c.x == 'true'
                if op == 'fcmp' and c.x in ('uno', 'ord'):
                    known = {x for p in self.rels for x in p if self.rels[p] != 'U'}
                    if all(x in known or x[0] == 'k' and x[1] != 'nan' for x in (a, b)):
                        return c.x == 'ord'
                return None
            if r == 'U':
                return op == 'fcmp' and c.x[0] == 'u' and c.x != 'true' or c.x in ('true', 'ne')
            x = c.x
            if op == 'icmp' and x in ('ult', 'ule', 'ugt', 'uge'):
                x = 's' + x[1:]
            return r in REL[x]
        if op == 'call' and (callee_name(c) or '').startswith('llvm.is.fpclass'):
            x, m = self.val(c.ops[1], env), c.ops[2]
            if not isinstance(m, ir.Const) or m.kind != 'int':
                return None
            known = {y for p in self.rels for y in p}
            if self.isnan(x):
                return bool(m.val & 3)
            if self.rels and self.infinite(x) is not None and m.val & 3 in (0, 3):
                k = self.infinite(x)
                if k:
                    return bool(m.val & (512 if k > 0 else 4))
            if (x in known or self.known_real(x, known)) and m.val & 3 in (0, 3):
                m = m.val & 1020
                sign = self.rel(x, ZEROK)
                m &= {'L': 28, 'E': 96, 'G': 896}.get(sign, 1020)
                if self.infinite(x) == 0:
                    m &= 504
                return False if m == 0 else None
            return None
        return None

    def pathrel(self, a, b, env):
        """The relations that the branches before leave."""
        if not env.get('pc'):
            return None
        x, y = self.alg(a), self.alg(b)
        if x is None or y is None:
            return None
        k = self.allowed(x - y, env)
        return k if len(k) < 3 else None

    def icmp(self, pred, a, b):
        e = self.e
        p = a - b
        if p.is_const():
            k = p.cval()
            r = 'E' if k == 0 else 'G' if k > 0 else 'L'
            if pred[0] == 'u' and not (a.is_const() and b.is_const() and a.cval() >= 0 and
                                       b.cval() >= 0) and pred not in ('eq', 'ne'):
                return None
            return r in REL['s' + pred[1:] if pred[0] == 'u' else pred]
        ctx = self.ctx
        if pred in ('eq', 'ne'):
            if e.prove_eq(p, ctx):
                return pred == 'eq'
            if e.prove_ne(p, ctx):
                return pred == 'ne'
            return None
        if pred[0] == 'u' and not (e.prove(a, ctx) and e.prove(b, ctx)):
            return None
        q = {'lt': -p - 1, 'le': -p, 'gt': p - 1, 'ge': p}[pred[1:]]
        if e.prove(q, ctx):
            return True
        if e.prove(-q - 1, ctx):
            return False
        return None

    # ----------------------------------------------------------------- paths
    def run(self, start, mode, env=None, inner=True):
        """Outcomes of following the code from the header `start`.

        mode 'iterate': the tests of the counter stay in the loop, mode 'exit': they leave it.
        An outcome is ('next', {phi: value}, stores) or ('exit', None, stores).
        """
        self.out = []
        self.mode = mode
        env = dict(env or {})
        for i in start.insts:
            if i.op != 'phi':
                break
            env[i] = self.header_role(i)
        self._go(start, env, [], [], True)
        return self.out

    def header_role(self, i):
        if i.ty.is_int():
            return ('p', self.e.sym(i))
        return ('acc', i.id)

    def _go(self, b, env, stores, path, first=False, left=False):
        e = self.e
        while True:
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise Undecided('too many paths')
            self.path = path
            self.written = stores
            self.ctx = Ctx(self.assume + path + e.items(b))
            for i in b.insts:
                if i.op == 'phi':
                    continue
                if i.op == 'store':
                    el = self.element(i, env)
                    al = [a for a in self.accs.get(i, ()) if a.kind == 'opnd']
                    if el is None and al:
                        raise Undecided('a store to an unknown position')
                    if el is not None:
                        stores = stores + [(el[1], el[2] + el[3:], self.val(i.ops[0], env))]
                elif i.op in ('call', 'invoke'):
                    r = self.call(i, env)
                    if r is not None:
                        env[i] = r
                    stores = stores + self.effect(i, env)
                    self.written = stores
                elif i.op == 'load' and any(a.kind == 'heap' or a.kind == 'opnd' and
                                            a.opnd >= self.u.lay.nin for a in self.accs.get(i, ())):
                    # what it reads may be stored to later
                    self.written = stores
                    env[i] = self.val(i, env)
            t = b.term
            if t.op in ('ret', 'unreachable', 'resume'):
                self.out.append(outcome('exit' if t.op == 'ret' else 'dead', None, stores, env))
                return
            succs = self.successors(b, t, env)
            if len(succs) == 1:
                nb = self.enter(b, succs[0], env, stores, path, left)
                if nb is None:
                    return
                b, env, stores, path, left = nb
                continue
            for s, env2 in [(s, self.refine(t, s, env)) for s in succs]:
                if env2 is None:
                    continue
                self.path, self.written = path, stores
                self.ctx = Ctx(self.assume + path + e.items(b))
                nb = self.enter(b, s, env2, stores, path, left)
                if nb is not None:
                    self._go(*nb[:4], False, nb[4])
            return

    def enter(self, b, s, env, stores, path, left):
        e = self.e
        new = {}
        for i in s.insts:
            if i.op != 'phi':
                break
            for o, p in zip(i.ops, i.x):
                if p is b:
                    new[i] = self.val(o, env)
        fs = e.edge_facts(b, s)
        if any(f[0] == 'false' for f in fs):
            return None
        path = path + fs
        if s is self.L.header:
            self.out.append(outcome('next', new, stores, env))
            return None
        Lo = e.cfg.loop_of.get(s)
        if not left and s not in self.L.body:
            left = True
        if left:
            # the end of the row: back at the header of an enclosing loop
            x = self.L.parent
            while x is not None:
                if s is x.header:
                    self.out.append(outcome('exit', None, stores, env))
                    return None
                x = x.parent
        if Lo is not None and s is Lo.header and Lo is not self.L and Lo is not self.L.parent:
            raise Undecided('another loop')
        env = {k: v for k, v in env.items()}
        env.update(new)
        return s, env, stores, path, left

    # --------------------------------------------- what an undecided branch says
    def refine(self, t, s, env):
        """The environment after a branch, None if it contradicts the branches before it."""
        env = dict(env)
        cs = None
        if t.op == 'br' and len(t.x) == 2 and t.x[0] is not t.x[1]:
            cs = self.constraints(t.ops[0], env, s is t.x[0])
        if cs is None:
            env['imprecise'] = True
            return env
        for c in cs:
            if c[0] == 'rel' and not c[2] & self.allowed(c[1], env):
                return None
        env['pc'] = env.get('pc', ()) + tuple(cs)
        return env

    def allowed(self, x, env):
        """The relations to zero that the branches before leave to a Rat."""
        out = set('LEG')
        k = x.sign_key()
        for c in env.get('pc', ()):
            if c[0] == 'rel' and k is not None:
                m = c[1].sign_key()
                if m is not None and m[0] == k[0]:
                    out &= {r if m[1] == k[1] else FLIP[r] for r in c[2]}
        return out

    def constraints(self, c, env, truth):
        """[('rel', Rat, allowed relations to zero) or ('class', Rat, mask, truth)] or None."""
        if not isinstance(c, ir.Inst):
            return None
        k = self.cond(c, env)
        if k is not None:
            return [] if k == truth else None
        if c.op == 'freeze':
            return self.constraints(c.ops[0], env, truth)
        if c.op == 'xor' and isinstance(c.ops[1], ir.Const):
            return self.constraints(c.ops[0], env, not truth)
        if c.op in ('and', 'or') and truth == (c.op == 'and'):
            a, b = (self.constraints(o, env, truth) for o in c.ops)
            return None if a is None or b is None else a + b
        if c.op in ('fcmp', 'icmp'):
            a, b = self.val(c.ops[0], env), self.val(c.ops[1], env)
            x, y = self.alg(a), self.alg(b)
            if x is None or y is None or c.op == 'icmp' and c.x[0] == 'u':
                return None
            if c.x in ('uno', 'ord'):
                if not y.is_const() and x != y:
                    return None
                return [('class', x, 3 if c.x == 'uno' else 1020, truth)]
            rs = set(REL[c.x])
            return [('rel', x - y, rs if truth else set('LEG') - rs)]
        if c.op == 'call' and (callee_name(c) or '').startswith('llvm.is.fpclass'):
            x = self.alg(self.val(c.ops[1], env))
            m = c.ops[2]
            if x is None or not isinstance(m, ir.Const) or m.kind != 'int':
                return None
            return [('class', x, m.val, truth)]
        return None

    def infinite(self, r):
        """1 or -1 for an infinity, 0 for a finite value, None if it is not known."""
        if r in INFS:
            return 1 if r[1] > 0 else -1
        x = self.alg(r)
        if x is None:
            return None
        infs = {a: (1 if k[1] > 0 else -1) for a in x.atoms() for k in INFS
                if self.rels.get((a, k)) == 'E'}
        if not infs:
            return None if any(('fn' == a[0]) for a in x.atoms()) and self.infroles else 0
        if len(x.atoms()) == 1 and len(x.n) == 1 and x.d == {(): 1}:
            (m, c), = x.n.items()
            (a, k), = m
            return infs[a] * (1 if c > 0 else -1) if k == 1 else None
        return None

    def known_real(self, r, known):
        """A polynomial of values that are known to be finite numbers."""
        x = self.alg(r)
        return x is not None and x.d == {(): 1} and bool(x.atoms()) and all(
            a in known and a not in self.nans and a not in self.infroles for a in x.atoms())

    def isnan(self, r):
        """Known to be NaN (a NaN operand goes into it)."""
        if r[0] == 'k':
            return r[1] == 'nan'
        if not self.nans:
            return False
        x = self.alg(r)
        return x is not None and self.nanin(x, self.nans)

    def nanin(self, x, nans):
        """One of the values goes into it, possibly through functions that pass NaN on."""
        for a in x.atoms():
            if a in nans:
                return True
            if a[0] == 'fn' and a[1] in STRICT and any(
                    self.nanin(y, nans) for y in self.fnargs.get(a, [])):
                return True
        return False

    def successors(self, b, t, env):
        e = self.e
        if t.op == 'br' and len(t.x) == 1:
            return [t.x[0]]
        if t.op == 'invoke':
            return [t.x['normal']]
        if t.op == 'switch':
            r = self.val(t.ops[0], env)
            d, cases = t.x
            if r[0] == 'p':
                for cv, s in cases:
                    x = cv.val if isinstance(cv, ir.Const) else cv
                    if self.icmp('eq', r[1], Poly.const(x)):
                        return [s]
                live = [s for cv, s in cases
                        if self.icmp('eq', r[1], Poly.const(cv.val if isinstance(cv, ir.Const)
                                                            else cv)) is None]
                return list(dict.fromkeys(live + [d]))
            return list(dict.fromkeys([d] + [s for _, s in cases]))
        if t.op != 'br':
            raise Undecided('an unknown terminator')
        c = self.cond(t.ops[0], env)
        if c is not None:
            return [t.x[0 if c else 1]]
        body = self.L.body
        ins = [s for s in t.x if s in body]
        if b in body and len(ins) == 1 and self.counter_test(t.ops[0], env):
            outs = [s for s in t.x if s not in body]
            return ins if self.mode == 'iterate' else outs
        return list(dict.fromkeys(t.x))

    def counter_test(self, c, env):
        if not isinstance(c, ir.Inst) or c.op != 'icmp':
            return False
        a, b = self.val(c.ops[0], env), self.val(c.ops[1], env)
        if a[0] == 'p' and b[0] == 'p':
            ks = [self.e.key(x)[0] for x in (a[1] - b[1]).atoms()]
            return 'dim' in ks or 'iv' in ks or all(k == 'v' for k in ks)
        return False

    def effect(self, i, env):
        return []

    def call(self, i, env):
        n = callee_name(i) or ''
        if n == 'PyObject_RichCompareBool':
            a, b = self.val(i.ops[1], env), self.val(i.ops[2], env)
            o = self.poly(self.val(i.ops[3], env))
            if o is None:
                o = self.e.sym(i.ops[3])
            op = None
            if o is not None:
                for k in range(6):
                    if self.e.prove_eq(o - k, self.ctx):
                        op = k
            r = self.rel(a, b)
            if r is None or op is None:
                return None
            return ('p', Poly.const(int(r in PYOP[op])))
        return None


# ------------------------------------------------------------------ structure
def search_loops(u, opnd=0):
    """[(loop, position)] of the loops that walk along the core dimension of an operand."""
    e = u.eng
    out = []
    for L in e.cfg.loops:
        if L.parent is None:
            continue
        iv = e.iv(L).single()
        for a in u.acc:
            if a.kind == 'opnd' and a.opnd == opnd and a.rw == 'r' and a.J and \
                    e.cfg.loop_of.get(a.blk) is L and len(a.J) == 1:
                cf = a.J[0].coeff(iv)
                if cf is not None and cf[0].is_const() and abs(cf[0].cval()) == 1:
                    out.append((L, a.J[0], cf[0].cval()))
                    break
    return out


def header_phis(u, L):
    return [i for i in L.header.insts if i.op == 'phi']


def init_of(sim, phi):
    L = sim.L
    vs = [sim.val(o, {}) for o, p in zip(phi.ops, phi.x) if p not in L.body]
    return vs[0] if len(set(vs)) == 1 else ('?', 0)


def is_acc(u, phi):
    """A phi that is neither the counter nor a position."""
    if not phi.ty.is_int():
        return True
    a = u.eng.sym(phi).single()
    return a is not None and u.eng.key(a)[:2] == ('v', phi.id)


def outcomes(u, L, rels, mode, assume=()):
    s = Sim(u, L, rels, assume)
    return s, [o for o in s.run(L.header, mode) if o[0] != 'dead']


def the_outcome(outs):
    """The common effect of all the paths that the case allows."""
    if not outs:
        raise Undecided('no path')
    k = {o[0] for o in outs}
    if len(k) > 1:
        raise Undecided('the case does not decide whether the loop goes on')
    first = outs[0]
    for o in outs[1:]:
        if o[1] != first[1] or last(o[2]) != last(first[2]):
            raise Undecided('the case does not decide the effect')
    return first


RANGES = {1: (-128, 127), 2: (0, 255), 3: (-2**15, 2**15 - 1), 4: (0, 2**16 - 1),
          5: (-2**31, 2**31 - 1), 6: (0, 2**32 - 1), 7: (-2**63, 2**63 - 1), 8: (0, 2**64 - 1),
          9: (-2**63, 2**63 - 1), 10: (0, 2**64 - 1)}


def witness(u, cur, pc):
    """A value of the element `cur`, not an extreme one, that satisfies the tests of a path."""
    els = {a for c in pc for a in c[1].atoms() if a[0] == 'el'}
    if len(els) == 1:
        cur, = els              # the element, or the operand that it is equal to in this case
    ty = u.loop.types[cur[1]]
    flt = ty in (11, 12, 13, 23)
    lo, hi = RANGES.get(ty, (0, 0)) if not flt else (-1e30, 1e30)
    tests, pts = [], {1, -1, 3}
    for c in pc:
        if c[0] == 'class' and c[2] == 3 and not c[3]:
            continue
        if c[0] != 'rel':
            return None
        x = c[1]
        if x.atoms() and all(a[0] == 'pa' for a in x.atoms()):
            # a test of the position: what it says in the middle of a long sequence
            v = middle(u, x)
            if v is None or ('G' if v > 0 else 'L' if v < 0 else 'E') not in c[2]:
                return None
            continue
        if x.atoms() != {cur} or list(x.d) != [()] or \
                any(m not in ((), ((cur, 1),)) for m in x.n):
            return None
        k, b = x.n[((cur, 1),)] / x.d[()], x.n.get((), 0) / x.d[()]
        tests.append((k, b, c[2]))
        z = -b / k
        pts |= {z + d for d in ((-1, 0, 1) if flt else
                                (-z % 1 - 1, -z % 1, -z % 1 + 1))}
    for v in sorted(pts, key=abs):
        if not (lo + 2 < v < hi - 2) or not flt and v != int(v):
            continue
        if all(('G' if k * v + b > 0 else 'L' if k * v + b < 0 else 'E') in r
               for k, b, r in tests):
            return v
    return None


def middle(u, x):
    """The value of a rational function of the counter and the length, far from both ends."""
    val = {}
    for a in x.atoms():
        k = u.eng.key(a[1])[0]
        if k not in ('iv', 'dim'):
            return None
        val[a] = 1000 if k == 'iv' else 3001

    def poly(p):
        t = 0
        for m, c in p.items():
            for a, k in m:
                c *= val[a] ** k
            t += c
        return t
    d = poly(x.d)
    return poly(x.n) / d if d else None


def each_outcome(u, cur, outs, bad):
    """The outcomes of a case, one for each path that some value of the element takes.

    A path that only tests the element against constants is taken for some value in every
    case of the relations; what it does has to be right by itself (`bad` collects what is
    wrong).  Undecided if they are all right and there are other paths.
    """
    try:
        yield the_outcome(outs)
        return
    except Undecided as ex:
        why = ex
    mine = [o for o in outs if o.precise and witness(u, cur, o.pc) is not None]
    n = len(bad)
    yield from mine
    if len(mine) < len(outs) and len(bad) == n:
        raise why


def last(stores):
    d = {}
    for o, j, v in stores:
        d[o, j] = v
    return d


def before(u, L, opnd, nin):
    """Value of an output that is stored before the loop, in the same row."""
    e = u.eng
    out = None
    s = Sim(u, L, {})
    for a in u.acc:
        if a.kind == 'opnd' and a.opnd == opnd and a.rw == 'w' and a.blk not in L.body and \
                a.inst.op == 'store' and e.cfg.dom(a.blk, L.header):
            out = s.val(a.inst.ops[0], {})
    return out


# -------------------------------------------------------------- specifications
SELECT = {
    'good_p18': [((1, ()), 'idx', 'max')], 'bad_p18': [((1, ()), 'idx', 'max')],    # self-test
    'argmin': [((1, ()), 'idx', 'min')],
    'argmax': [((1, ()), 'idx', 'max')],
    'minmax': [((1, (0,)), 'val', 'min'), ((1, (1,)), 'val', 'max')],
    'argminmax': [((1, (0,)), 'idx', 'min'), ((1, (1,)), 'idx', 'max')],
    'min_argmin': [((1, ()), 'val', 'min'), ((2, ()), 'idx', 'min')],
    'max_argmax': [((1, ()), 'val', 'max'), ((2, ()), 'idx', 'max')],
}
CASES2 = [('L', 'L'), ('E', 'L'), ('E', 'E'), ('G', 'L'), ('G', 'E'), ('G', 'G')]


def jkey(j):
    return tuple(p.cval() if p.is_const() else p for p in j)


def check_select(u, spec):
    e = u.eng
    ls = search_loops(u)
    if len(ls) != 1:
        raise Undecided('%d loops over the sequence' % len(ls))
    L, J, step = ls[0]
    cur = ('el', 0, (J,))
    s, outs = outcomes(u, L, {}, 'exit')
    _, _, stores = the_outcome(outs)
    if the_outcome(outs)[0] == 'next':
        raise Undecided('the loop is not left')
    got = {(o, jkey(j)): v for (o, j), v in last(stores).items()}
    groups = {}
    phis = {i.id: i for i in header_phis(u, L) if is_acc(u, i)}
    for key, what, g in spec:
        v = got.get(key)
        if v is None:
            raise Undecided('a result is not stored after the loop')
        groups.setdefault(g, {})[what] = v

    def phi_of(v):
        if v[0] == 'acc':
            return phis.get(v[1])
        if v[0] == 'p':
            a = v[1].single()
            if a is not None and e.key(a)[0] == 'v':
                return phis.get(e.key(a)[1])
        return None

    def role(phi):
        return s.header_role(phi)
    cands = [p for p in phis.values() if init_of(s, p)[0] == 'el' and init_of(s, p)[1] == 0]
    info = {}
    for g, d in groups.items():
        ip = vp = None
        if 'idx' in d:
            ip = phi_of(d['idx'])
            if ip is None:
                if d['idx'][0] == 'p' and d['idx'][1].is_const():
                    return [(L.header.insts[0], 'the position of the %simum is the constant %d'
                             % (g, d['idx'][1].cval()))]
                raise Undecided('the stored position is not carried by the loop')
        if 'val' in d:
            vp = phi_of(d['val'])
            if vp is None and not (d['val'][0] == 'el' and ip is not None and
                                   d['val'] == ('el', 0, (e.sym(ip),))):
                if d['val'][:2] == ('el', 0) and all(j.is_const() for j in d['val'][2]):
                    return [(L.header.insts[0], 'the %simum is element %d whatever the others '
                             'are' % (g, d['val'][2][0].cval()))]
                raise Undecided('the stored value is not carried by the loop')
        info[g] = [ip, vp]
    gs = sorted(info)                       # max before min
    if all(info[g][1] for g in gs):
        perms = [[info[g][1] for g in gs]]
    else:
        perms = [list(p) for p in itertools.permutations(cands, len(gs))] \
            if len(cands) >= len(gs) else []
        perms = [p for p in perms if all(info[g][1] in (None, x) for g, x in zip(gs, p))]
        if all(info[g][0] for g in gs):
            perms.append([None] * len(gs))
    results = []
    for perm in perms:
        results.append(_select_with(u, L, cur, J, step, gs, info, perm, role, s))
    good = [r for r in results if r == []]
    if good:
        return []
    results = [r for r in results if r is not None]
    if not results:
        raise Undecided('the compared values are not recognised')
    return min(results, key=len)


def _select_with(u, L, cur, J, step, gs, info, perm, role, s):
    """Violations with the given value phis (None: the value is reloaded by its position)."""
    e = u.eng
    bad = []
    vals = []
    for g, vp in zip(gs, perm):
        ip = info[g][0]
        vals.append(role(vp) if vp is not None else ('el', 0, (e.sym(ip),)))
        if ip is not None and vp is not None:
            i0, v0 = init_of(s, ip), init_of(s, vp)
            if i0[0] != 'p' or v0[0] != 'el':
                return None
            if not e.prove_eq(i0[1] - v0[2][0], e.ctx(L.header)):
                bad.append((ip, 'the initial %simum and its position disagree' % g))
    if len(set(vals)) != len(vals):
        # the initial values coincide, the phis do not
        return None
    if len(gs) == 1:
        cases = [{gs[0]: r} for r in 'LEG']
    else:
        cases = [{'min': a, 'max': b} for a, b in CASES2]
    for case in cases:
        rels = {(cur, v): case[g] for g, v in zip(gs, vals)}
        if len(gs) == 2:
            m = 'E' if set(case.values()) == {'E'} else 'L'
            rels[vals[gs.index('min')], vals[gs.index('max')]] = m
        try:
            sim, outs = outcomes(u, L, rels, 'iterate')
            outs = list(each_outcome(u, cur, outs, []))
            if len(outs) > 1 and any(o[0] != 'next' for o in outs):
                return None         # an element that nothing can beat may end the search
        except Undecided:
            return None
        txt = ' and '.join({'L': 'less than', 'E': 'equal to', 'G': 'greater than'}[case[g]] +
                           ' the current %simum' % g for g in gs)
        for kind, new, _ in outs:
            if kind != 'next':
                bad.append((L.header.insts[0], 'the search stops at an element that is ' + txt))
                continue
            for g, v, vp in zip(gs, vals, perm):
                ip = info[g][0]
                take = case[g] == ('L' if g == 'min' else 'G')
                if ip is not None:
                    if new.get(ip, ('?',))[0] == '?':
                        return None
                    ti = take or case[g] == 'E' and step < 0
                    exp = ('p', J) if ti else role(ip)
                    if new[ip] != exp and not (new[ip][0] == 'p' and
                                               e.prove_eq(new[ip][1] - exp[1], e.ctx(L.header))):
                        bad.append((ip, 'the position of the %simum is %s for an element that is %s'
                                    % (g, 'not updated' if ti else 'updated', txt)))
                if vp is not None:
                    n = new.get(vp, ('?',))
                    if n[0] == '?':
                        return None
                    if n != (cur if take else role(vp)) and not (
                            case[g] == 'E' and n in (cur, role(vp))):
                        # both groups may hold the same value
                        if sim.rel(n, cur if take else role(vp)) == 'E':
                            continue
                        bad.append((vp, 'the %simum is %s for an element that is %s'
                                    % (g, 'not updated' if take else 'updated', txt)))
    return bad


def op_cases(u, L, opnd):
    """[(op, assumption)] of the comparison operators that reach the loop."""
    e = u.eng
    ps = set()
    for a in u.acc:
        if a.kind == 'opnd' and a.opnd == opnd and a.inst.op == 'load':
            p = e.sym(a.inst)
            ps.add(p)
    if not ps:
        raise Undecided('the operator is not read')
    out = []
    for c in range(6):
        fs = [('eq', p - c) for p in ps]
        if not e.unreachable(Ctx(fs + e.items(L.header))):
            out.append((c, fs))
    return out


def is_float(u):
    return u.loop.types[0] in (11, 12, 13, 23)


def check_first(u, arg):
    e = u.eng
    ls = search_loops(u)
    if not ls:
        raise Undecided('no loop over the sequence')
    out = 3 if arg else 4
    tgt = ('el', 2, ())
    bad = []
    covered = set()
    for L, J, step in ls:
        if step < 0:
            raise Undecided('the sequence is searched backwards')
        cur = ('el', 0, (J,))
        s, outs = outcomes(u, L, {}, 'exit')
        k, _, st = the_outcome(outs)
        v = last(st).get((out, ()))
        v = before(u, L, out, u.lay.nin) if v is None else v
        none = ('p', Poly.const(-1)) if arg else ('el', 3, ())
        acc = None
        if v is not None and v != none:
            # the result is carried by the loop
            for i in header_phis(u, L):
                if s.header_role(i) == v:
                    acc = i
            if acc is None:
                raise Undecided('the result without a match is not known')
            if init_of(s, acc)[0] == '?':
                raise Undecided('the initial result is not known')
            if init_of(s, acc) != none:
                bad.append((acc, 'the result without a match is not %s'
                            % ('-1' if arg else 'the value of `otherwise`')))
        for c, fs in op_cases(u, L, 1):
            covered.add(c)
            for r in 'LEG' + ('U' if is_float(u) else ''):
                hit = r in PYOP[c]
                sim, outs = outcomes(u, L, {(cur, tgt): r}, 'iterate', fs)
                desc = 'an element that is %s the target, with the operator %s' % (
                    {'L': 'less than', 'E': 'equal to', 'G': 'greater than',
                     'U': 'unordered with'}[r], ['<', '<=', '==', '!=', '>', '>='][c])
                for kind, new, st in each_outcome(u, cur, outs, bad):
                    changed = kind == 'next' and [
                        i for i in header_phis(u, L) if is_acc(u, i) and
                        new[i] != sim.header_role(i)]
                    if hit and kind == 'next':
                        if not changed:
                            bad.append((L.header.insts[0], 'the search goes on after ' + desc))
                        elif changed == [acc] and new[acc] == (('p', J) if arg else cur):
                            bad.append((acc, 'a later match replaces the first one'))
                        else:
                            raise Undecided('more than one kind of state')
                    elif hit:
                        v = last(st).get((out, ()))
                        if v is None or v[0] == '?':
                            raise Undecided('the result is not known')
                        exp = ('p', J) if arg else cur
                        if v != exp and not (v[0] == exp[0] == 'p' and
                                             e.prove_eq(v[1] - exp[1], e.ctx(L.header))):
                            bad.append((L.header.insts[0], 'the result for %s is not %s'
                                        % (desc, 'its position' if arg else 'that element')))
                    elif kind != 'next':
                        bad.append((L.header.insts[0], 'the search ends at ' + desc))
                    elif changed:
                        raise Undecided('more than one kind of state')
    if covered != set(range(6)):
        bad.append((ls[0][0].header.insts[0], 'no search for the operators %s'
                    % sorted(set(range(6)) - covered)))
    return bad


def truth(v):
    if v is not None and v[0] == 'p' and v[1].is_const():
        return bool(v[1].cval())
    return None


def check_runs(u, ordered):
    """all_same and ordered: stop with `false` at the first element that violates the relation."""
    e = u.eng
    ls = search_loops(u)
    if not ls:
        raise Undecided('no loop over the sequence')
    out = 2 if ordered else 1
    bad, covered = [], set()
    for L, J, step in ls:
        if step < 0:
            raise Undecided('the sequence is walked backwards')
        cur = ('el', 0, (J,))
        s, outs = outcomes(u, L, {}, 'exit')
        _, _, st = the_outcome(outs)
        v = last(st).get((out, ()))
        v = before(u, L, out, u.lay.nin) if v is None else v
        if truth(v) is None:
            raise Undecided('the result after the last element is not a constant')
        if not truth(v):
            bad.append((L.header.insts[0], 'the result after the last element is false'))
        prevs = [('el', 0, (J - 1,))]
        x0 = ('el', 0, (ZERO,))
        accs = []
        for i in header_phis(u, L):
            if is_acc(u, i) and init_of(s, i)[:2] == ('el', 0):
                accs.append(i)
                prevs.append(s.header_role(i))
        stored = (out, ()) in last(st)
        late = []
        for c, fs in op_cases(u, L, 1) if ordered else [(2, [])]:
            covered.add(c)
            for r in 'LEG' + ('U' if is_float(u) else ''):
                rels = {(p, cur): r for p in prevs}
                if c == 2:
                    rels[x0, cur] = r
                sim, outs = outcomes(u, L, rels, 'iterate', fs)
                if c != 2 and ((x0, cur) in sim.asked or (cur, x0) in sim.asked) and \
                        not sim.asked & {(p, cur) for p in prevs}:
                    # with a counter that starts at 1 the first comparison is the right one
                    if not any(a.rw == 'r' and a.J == [J - 1] for a in u.acc):
                        bad.append((L.header.insts[0], 'elements are compared with the first '
                                    'one, not with their predecessor'))
                        break
                holds = r in PYOP[c]
                desc = 'a pair that is %s, with the operator %s' % (
                    {'L': 'increasing', 'E': 'equal', 'G': 'decreasing', 'U': 'unordered'}[r],
                    ['<', '<=', '==', '!=', '>', '>='][c])
                for kind, new, st in each_outcome(u, cur, outs, bad):
                    if holds:
                        stored |= (out, ()) in last(st)
                        if kind != 'next':
                            bad.append((L.header.insts[0], 'the walk ends at ' + desc))
                            continue
                        for i in accs:
                            n = new[i]
                            if n[0] == '?':
                                raise Undecided('the predecessor is not known')
                            if n != cur and c != 2:
                                bad.append((i, 'elements are not compared with their predecessor'))
                        if [i for i in header_phis(u, L) if is_acc(u, i) and i not in accs and
                                new[i] != sim.header_role(i)]:
                            raise Undecided('other state')
                    else:
                        if kind == 'next':
                            if [i for i in header_phis(u, L) if is_acc(u, i) and i not in accs]:
                                raise Undecided('other state')
                            late.append((L.header.insts[0], 'the walk goes on after ' + desc,
                                         truth(last(st).get((out, ())))))
                            continue
                        v = last(st).get((out, ()))
                        v = before(u, L, out, u.lay.nin) if v is None else v
                        if truth(v) is None:
                            raise Undecided('the result is not a constant')
                        if truth(v):
                            bad.append((L.header.insts[0], 'the result is true for ' + desc))
        # it may go on if the result is false from then on
        bad += [(i, t) for i, t, r in late if stored or r is not False]
    if ordered and covered != set(range(6)):
        bad.append((ls[0][0].header.insts[0], 'the operators %s are not checked'
                    % sorted(set(range(6)) - covered)))
    return bad


def check_search(u, right):
    e = u.eng
    cand = []
    for L in e.cfg.loops:
        rd = [a for a in u.acc if a.kind == 'opnd' and a.opnd == 0 and a.rw == 'r' and a.J and
              e.cfg.loop_of.get(a.blk) is L]
        if rd and L.parent is not None:
            cand.append((L, rd))
    if len(cand) != 1 or len({a.J[0] for a in cand[0][1]}) != 1:
        raise Undecided('not one loop with one probe')
    L, rd = cand[0]
    mid = rd[0].J[0]
    el, v = ('el', 0, (mid,)), ('el', 1, ())
    phis = [i for i in header_phis(u, L) if is_acc(u, i) and i.ty.is_int()]
    s = Sim(u, L, {})
    lo = hi = None
    n = e.patom(('dim', 1))
    for i in phis:
        p = init_of(s, i)
        if p[0] == 'p' and not p[1].t:
            lo = i
        elif p[0] == 'p' and p[1] == n:
            hi = i
    if lo is None or hi is None or len(phis) != 2:
        raise Undecided('not a search between 0 and the length')
    # The second variable is the upper bound, or the number of the elements in doubt.
    first = _search_with(u, L, s, lo, hi, el, v, mid, right, False)
    if first and not _search_with(u, L, s, lo, hi, el, v, mid, right, True):
        return []
    return first


def _search_with(u, L, s, lo, hi, el, v, mid, right, length):
    e = u.eng
    bad = []
    left = -e.sym(hi) if length else e.sym(lo) - e.sym(hi)
    for b in L.body:
        for x in b.succs:
            if x not in L.body and not u.cover.error_edge(b, x):
                ctx = Ctx(e.items(b) + e.edge_facts(b, x))
                if not e.prove(left, ctx):
                    if not any(f[0] in ('ge', 'eq') for f in e.edge_facts(b, x)):
                        raise Undecided('the search can end early')
                    bad.append((b.term, 'the search ends before the bounds have met'))
    _, outs = outcomes(u, L, {}, 'exit')
    _, _, st = the_outcome(outs)
    r = last(st).get((2, ()))
    if r is None or r not in (s.header_role(lo), s.header_role(hi)):
        raise Undecided('the result is not a bound')
    if length and r != s.header_role(lo):
        bad.append((lo, 'the result is not the bound'))
    for c in 'LEG':
        _, outs = outcomes(u, L, {(el, v): c}, 'iterate')
        for kind, new, _ in each_outcome(u, el, outs, bad):
            if kind != 'next':
                raise Undecided('the search can end early')
            up = c == 'L' or right and c == 'E'
            txt = {'L': 'less than', 'E': 'equal to', 'G': 'greater than'}[c]
            if new[lo][0] != 'p' or new[hi][0] != 'p':
                raise Undecided('a bound is not known')
            end, nlo = e.sym(hi), new[lo][1]
            nhi = new[hi][1]
            if not nlo.atoms() | nhi.atoms() <= (mid + end + e.sym(lo) * 3).atoms():
                raise Undecided('a bound is not known')
            if length:
                end, nhi = end + e.sym(lo), nhi + nlo
            el_, eh = (mid + 1, end) if up else (e.sym(lo), mid)
            if (nlo - el_).t or (nhi - eh).t:
                bad.append((lo if up else hi, 'an element that is %s the value does not become '
                            'part of the %s side' % (txt, 'left' if up else 'right')))
    return bad


def check_relay(u):
    from .formula import compare
    e = u.eng
    ls = search_loops(u)
    if len(ls) != 1 or ls[0][2] < 0:
        raise Undecided('not one loop')
    L, J, _ = ls[0]
    x, lo, hi = ('el', 0, (J,)), ('el', 1, ()), ('el', 2, ())
    bad = []
    iv = e.iv(L)
    s = Sim(u, L, {})
    inits = {s.header_role(i): init_of(s, i) for i in header_phis(u, L) if is_acc(u, i)}
    carried, kept = [], set()
    for a, b in (('L', 'L'), ('E', 'L'), ('G', 'L'), ('G', 'E'), ('G', 'G')):
        for first in (True, False):
            rels = {(x, lo): a, (x, hi): b, (lo, hi): 'L'}
            sim, outs = outcomes(u, L, rels, 'iterate',
                                 [('eq', iv)] if first else [('ge', iv - 1)])
            for kind, new, st in each_outcome(u, x, outs, bad):
                vs = [(v, j) for (o, j), v in last(st).items() if o == 6]
                if kind != 'next' or len(vs) != 1:
                    raise Undecided('not one store')
                v, j = vs[0]
                if v[0] == '?':
                    raise Undecided('the result is not known')
                for i in header_phis(u, L):
                    if is_acc(u, i):
                        carried.append((sim.header_role(i), new[i], v))
                exp = ('el', 3, ()) if a == 'L' else ('el', 4, ()) if b == 'G' else \
                    ('el', 5, ()) if first else ('out', 6, (j[0] - 1,))
                txt = 'a first element between the thresholds' if first and exp[1] == 5 else \
                    'an element between the thresholds' if exp[0] == 'out' else \
                    'an element below the low threshold' if a == 'L' else \
                    'an element above the high threshold'
                if v[0] == 'acc' and exp[1] in (5, 6):
                    # the state is carried by the loop
                    kept.add(v)
                    if first and compare(s, inits[v], exp, {}) == 'differ':
                        bad.append((L.header.insts[0], 'the initial state is not operand 5'))
                    continue
                r = compare(sim, v, exp, rels)
                if exp[0] == 'out' and v[0] in ('el', 'k') and v != exp:
                    r = 'differ'
                if r == 'differ':
                    bad.append((L.header.insts[0], 'the result for %s is not %s' % (
                        txt, 'the one before' if exp[0] == 'out' else 'operand %d' % exp[1])))
                elif r != 'same':
                    raise Undecided('the result is not known')
    for p, n, v in carried:
        if p in kept and n != v:
            if n[0] == '?':
                raise Undecided('the state is not known')
            bad.append((L.header.insts[0], 'the state that is kept is not the last result'))
    return bad


WHOLE = set(SELECT) | {'first', 'argfirst', 'all_same', 'ordered', 'hysteresis_relay'}


def p18(u):
    if u.loop is None:
        return
    n = u.name
    if n in WHOLE:
        reads.judge(u, 'P18')
    try:
        if n in SELECT:
            bad = check_select(u, SELECT[n])
        elif n in ('first', 'argfirst'):
            bad = check_first(u, n == 'argfirst')
        elif n in ('all_same', 'ordered'):
            bad = check_runs(u, n == 'ordered')
        elif n in ('searchsortedl', 'searchsortedr'):
            bad = check_search(u, n == 'searchsortedr')
        elif n == 'hysteresis_relay':
            bad = check_relay(u)
        else:
            return
    except Undecided as ex:
        u.undecided = getattr(u, 'undecided', []) + ['%s: %s' % (n, ex)]
        u.add('P18', 'not-decided', True, None, str(ex))
        return
    for ins, txt in bad[:3]:
        u.add('P18', 'selection', False, ins, txt)
    u.add('P18', 'kernels-decided', True, None)
