"""P21: reductions and filters compute the documented quantity for every length.

One iteration of a loop is abstracted to a recurrence over the values that it carries; the
recurrences are solved in closed form with sums, products and extrema over the sequence
(summaries valid for every number of iterations), the loops of a kernel are composed in order,
and the stored results are expressions over the input sequences. They are compared with the
definition by random interpretation (of the expressions, never of the code), as in formula.py.
"""
import copy
import random
from fractions import Fraction
from .algebra import Rat, TooBig
from .engine import Ctx, callee_name
from . import ir
from .formula import apply, cases, el, mp
from .order import NAN, INFS, REL, Sim, Undecided, outcome
from .sym import Poly, ZERO

ONE = Rat.const(1)


HEAP = 1000000


# a nan among the alternatives of a choice
NOT = Rat.atom(('nan',))


class Red(Sim):
    sub = False
    mark = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ghosts = {}
        self.gkeys = {}
        self.limit = [4000]
        self.recs = []
        self.mems = []
        self.heaps = {}
        self.loads = {}
        self.values = {}
        for a in self.u.acc:
            if a.kind == 'opnd' and a.rw == 'r' and a.opnd < self.u.lay.nin and \
                    a.J is not None and a.ty is not None and a.ty.is_int():
                p = self.e.sym(a.inst).single()
                if p is not None:
                    self.loads[p] = (a.opnd, a.J)
        self.roots = []

    # ------------------------------------------------------------- the domain
    def ghost(self, kind, iv, body, hi, base):
        k = (kind, iv, body.key(), frozenset(hi.t.items()), base.key())
        if k not in self.gkeys:
            self.gkeys[k] = len(self.gkeys)
            self.ghosts[self.gkeys[k]] = (kind, iv, body, hi, base)
        return Rat.atom(('gh', self.gkeys[k]))

    def ite(self, c, rels, x, y):
        if x == y:
            return x
        if c.is_const():
            v = c.cval()
            return x if ('E' if v == 0 else 'G' if v > 0 else 'L') in rels else y
        if x == ONE and not y.n and ('E' in rels) != ('G' in rels) and self.bit(c):
            return c if 'G' in rels else ONE - c
        a = ('fn', 'ite' + ''.join(sorted(rels))) + tuple(self.reduce(z).key() for z in (c, x, y))
        self.fnargs[a] = [c, x, y]
        return Rat.atom(a)

    def rebuild(self, x, f):
        """Replaces the atoms for which f gives a Rat, in arguments of functions too."""
        if not x.atoms():
            return x
        m = {}
        for a in x.atoms():
            r = f(a)
            if r is None and a[0] == 'fn' and a in self.fnargs:
                if a[1][:3] == 'ite':
                    c, y, z = self.fnargs[a]
                    c = self.rebuild(c, f)
                    if c.is_const():
                        v = c.cval()
                        m[a] = self.rebuild(
                            y if ('E' if v == 0 else 'G' if v > 0 else 'L') in a[1][3:] else z, f)
                        continue
                args = [self.rebuild(z, f) for z in self.fnargs[a]]
                if any(not p == q for p, q in zip(args, self.fnargs[a])):
                    r = self.ite(args[0], set(a[1][3:]), args[1], args[2]) \
                        if a[1][:3] == 'ite' else self.fn(a[1], args)
            if r is not None:
                m[a] = r
        return x.subst(m) if m else x

    def at(self, x, iv, val):
        """A Rat with the iteration counter replaced by a polynomial."""
        m = {iv: val}

        def f(a):
            if a[0] == 'pa':
                if a[1] == iv:
                    return self.alg(('p', val))
                if iv in self.e._deps(Poly.atom(a[1])):
                    raise Undecided('a value that depends on the counter')
            elif a[0] in ('el', 'out'):
                js = tuple(self.e.subst(j, m) for j in a[2])
                if any(iv in self.e._deps(j) for j in js):
                    raise Undecided('a position that depends on the counter')
                if js != a[2]:
                    return Rat.atom(a[:2] + (js,) + a[3:])
            elif a[0] == 'gh':
                kind, v, body, hi, base = self.ghosts[a[1]]
                if v != iv and self.uses(body, iv):
                    if kind[:3] == 'REC' or v in val.atoms() | self.e._deps(val):
                        raise Undecided('nested recurrences')
                    body = self.at(body, iv, val)
                if self.uses(base, iv):
                    if kind[:3] == 'REC':
                        raise Undecided('nested recurrences')
                    base = self.at(base, iv, val)
                return self.ghost(kind, v, body, self.e.subst(hi, m), base)
            return None
        return self.rebuild(x, f)

    def uses(self, x, iv):
        """Whether the value depends on the iteration counter."""
        for a in self.deep(x):
            if a[0] == 'gh' and iv in self.e._deps(self.ghosts[a[1]][3]):
                return True
            for p in a[2] if a[0] in ('el', 'out') else [Poly.atom(a[1])] if a[0] == 'pa' else []:
                if iv in self.e._deps(p):
                    return True
        return False

    def deep(self, x):
        out, work = set(), [x]
        while work:
            for a in work.pop().atoms():
                if a not in out:
                    out.add(a)
                    if a[0] == 'gh':
                        work += [self.ghosts[a[1]][2], self.ghosts[a[1]][4]]
                    else:
                        work += self.fnargs.get(a, [])
        return out

    def arith(self, op, args):
        r = super().arith(op, args)
        if op in ('mul', 'fma') and r is not None:
            # 0*x is 0 only if x is finite
            xs = [self.alg(a) for a in args[:2]]
            for x, y in (xs, xs[::-1]):
                if not x.n and any(b[0] == 'fn' and b[1] in ('log', 'pow', 'zero')
                                   for b in self.deep(y)):
                    z = self.fn('zero', [y])
                    return self.role(z if op == 'mul' else z + self.alg(args[2]))
        return r

    # ----------------------------------------------------- sequences are finite
    def finite(self, r):
        x = self.alg(r)
        if self.infs and x is not None and any(
                a[0] != 'pa' and (a[0] != 'el' or a[1] == 0) for a in self.deep(x)):
            return False
        return x is not None and all(a[0] in ('el', 'pa', 'acc', 'gh', 'st', 'out') or
                                     a[0] == 'fn' and a[1][:3] in ('ite', 'abs')
                                     for a in self.deep(x)) and x.d == {(): 1}

    def known_real(self, r, known):
        return super().known_real(r, known) or self.finite(r)

    infs = False
    marks = ()

    def infinite(self, r):
        k = super().infinite(r)
        return 0 if k is None and self.finite(r) else k

    def rel(self, a, b):
        r = super().rel(a, b)
        if r is None and '?' not in (a[0], b[0]):
            p, q = self.infinite(a), self.infinite(b)
            if p is not None and q is not None and (p or q) and p != q:
                return 'L' if p < q else 'G'
        if r is None and b in INFS and self.finite(a):
            return 'L' if b[1] > 0 else 'G'
        if r is None and a in INFS and self.finite(b):
            return 'G' if a[1] > 0 else 'L'
        return r

    def ordered(self, r):
        x = self.alg(r) if r[0] != '?' else None
        a = x.single() if x is not None and not x.is_const() else None
        return self.finite(r) or a is not None and a[0] == 'el'

    def cond(self, c, env):
        if getattr(c, 'op', '') == 'icmp' and c.x in ('eq', 'ne') and c.ops[0].ty.k == 'ptr':
            # allocations succeed, and different operands do not overlap
            ks = [self.origin(o) for o in c.ops]
            if None not in ks and len(set(ks)) == 2 and ({k[0] for k in ks} == {'heap', 'null'} or
                                                        {k[0] for k in ks} <= {'heap', 'opnd'}):
                return c.x == 'ne'
        r = super().cond(c, env)
        if r is None and getattr(c, 'op', '') == 'fcmp' and c.x in ('uno', 'ord') and \
                all(self.finite(self.val(o, env)) for o in c.ops):
            return c.x == 'ord'
        if r is None and self.infs:
            # elements may be infinite, but they are not nan
            if getattr(c, 'op', '') == 'fcmp' and c.x in ('uno', 'ord') and \
                    all(self.ordered(self.val(o, env)) for o in c.ops):
                return c.x == 'ord'
            if getattr(c, 'op', '') == 'call' and 'is.fpclass' in (callee_name(c) or '') and \
                    c.ops[2].kind == 'int' and c.ops[2].val & 1020 in (0, 1020) and \
                    self.ordered(self.val(c.ops[1], env)):
                return bool(c.ops[2].val & 1020)
        if r is None and getattr(c, 'op', '') == 'call' and \
                'is.fpclass' in (callee_name(c) or ''):
            x, m = self.val(c.ops[1], env), c.ops[2]
            if self.finite(x) and m.kind == 'int':
                k = m.val & 504
                return False if k == 0 else True if k == 504 else None
        return r

    def _val(self, v, env, d):
        if v.op == 'load':
            e = self.element(v, env)
            if e is not None and e[1] >= self.u.lay.nin:
                return self.memory(e[1], e[2] + e[3:]) or ('?', v.id)
            r = self.chosen(v, env)
            if r is not None:
                return r
        if v.op == 'shl' and isinstance(v.ops[1], ir.Const) and v.ops[1].kind == 'int':
            a = self.val(v.ops[0], env, d + 1)
            return self.arith('mul', [a, ('p', Poly.const(1 << v.ops[1].val))]) or ('?', v.id)
        if v.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg') and \
                any(self.val(o, env, d + 1) == NAN for o in v.ops):
            return NAN
        if v.op == 'fdiv':
            a, b = self.val(v.ops[0], env, d + 1), self.val(v.ops[1], env, d + 1)
            if b in INFS and a not in INFS and self.finite(a):
                return ('k', 0.0)
        if v.op == 'call' and not self.sub and \
                (callee_name(v) or '').split('.')[1 if 'llvm' in callee_name(v) else 0] in \
                ('sqrt', 'sqrtf', 'sqrtl'):
            self.cancels(v.ops[1], env, v)
        if v.op == 'call' and 'fabs' in (callee_name(v) or ''):
            a = self.val(v.ops[1], env, d + 1)
            if a == NAN:
                return NAN
            if a in INFS:
                return ('k', float('inf'))
        if v.op == 'extractelement' and isinstance(v.ops[1], ir.Const):
            return self.part(v.ops[0], v.ops[1].val, env) or ('?', v.id)
        if v.op == 'call' and callee_name(v) == 'cabsf' and len(v.ops) == 2:
            xs = [self.part(v.ops[1], k, env) for k in (0, 1)]
            xs = [self.alg(x) if x is not None and x[0] != '?' else None for x in xs]
            return ('?', v.id) if None in xs else self.role(self.fn('hypot', xs))
        if v.op == 'zext' and v.ops[0].ty.n == 1 and self.cond(v.ops[0], env) is None:
            return self.choice(v.ops[0], ('p', Poly.const(1)), ('p', Poly.const(0)), env) or \
                ('?', v.id)
        if v.op in ('or', 'and') and v.ty.n > 1 and all(
                isinstance(o, ir.Inst) and o.op == 'zext' and o.ops[0].ty.n == 1 for o in v.ops):
            a, b = (self.val(o, env, d + 1) for o in v.ops)
            if '?' in (a[0], b[0]):
                return ('?', v.id)
            a, b = self.alg(a), self.alg(b)
            return self.role(a * b if v.op == 'and' else a + b - a * b)
        if v.op == 'select' and v.ty.is_int() and v.ty.n > 1 and self.cond(v.ops[0], env) is None:
            a, b = self.val(v.ops[1], env, d + 1), self.val(v.ops[2], env, d + 1)
            if a == b:
                return a
            return self.choice(v.ops[0], a, b, env) or ('?', v.id)
        r = super()._val(v, env, d)
        if r[0] == '?' and v.op == 'call':
            n = (callee_name(v) or '').replace('llvm.', '').split('.')[0]
            if n in ('smin', 'umin', 'minnum', 'fmin', 'smax', 'umax', 'maxnum', 'fmax'):
                xs = [self.val(o, env, d + 1) for o in v.ops[1:3]]
                xs = [self.alg(x) if x[0] != '?' else None for x in xs]
                if None not in xs:
                    return self.role(self.ite(xs[0] - xs[1], set('L' if 'min' in n else 'G'), *xs))
        if r[0] == '?' and v.op in ('sdiv', 'udiv', 'srem', 'urem'):
            rs = [self.val(o, env, d + 1) for o in v.ops]
            xs = [self.alg(x) if x[0] != '?' else None for x in rs]
            if None not in xs and (v.op[0] == 's' or all(self.unsigned(x) for x in rs)):
                return self.role(self.fn('i' + v.op[1:], xs))
        if r[0] == '?' and v.op in ('sitofp', 'uitofp', 'sext', 'zext', 'trunc'):
            q = self.val(v.ops[0], env, d + 1)
            if q[0] in ('acc', 'f', 'el'):
                return q
        return r

    # ----------------------------------------------------------------- memory
    def memory(self, o, js):
        """What a position of an output, or of memory that the call owns, holds."""
        for k in range(len(self.written) - 1, -1, -1):
            s = self.written[k]
            if self.mark is not None and k < self.mark:
                break
            if s[0] in ('MEM', 'CPY', 'SET'):
                return None
            if s[0] != o:
                continue
            if len(s) > 3 or s[1] is None:
                return None
            if s[1] == js:
                for start, taken in self.starts:
                    if k < start:
                        taken.append((o, js))
                return s[2]
            if not self.apart(s[1], js):
                return None
        if self.mark is None or o >= HEAP and not self.owned(o):
            return None
        return ('out', o, js)

    def apart(self, p, q):
        return len(p) == len(q) and any('im' in (x, y) and x != y or 'im' not in (x, y) and
                                        (x - y).is_const() and (x - y).t for x, y in zip(p, q)) \
            or len(p) != len(q)

    starts = ()

    def kept(self, made, taken):
        """What a loop reads of the stores before it is not stored by the loop itself."""
        for o, js in taken:
            for s in made:
                if s[0] in ('MEM', 'CPY', 'SET') or s[0] == o and (
                        s[1] is None or not self.apart(s[1], js)):
                    raise Undecided('memory that is carried by a loop')

    def owned(self, o):
        """Zeroed memory of which every access is known."""
        if o not in self.heaps:
            k = self.e.key(o - HEAP)
            call = self.e.inst_by_id(k[1])
            ok = callee_name(call) == 'calloc'
            for a in self.u.acc:
                if a.kind == 'heap' and a.base == o - HEAP:
                    ok = ok and a.length is None and len(self.accs[a.inst]) == 1
            seen, work = set(), [call]
            while work:
                x = work.pop()
                for i in self.e.fn.insts():
                    if i in seen or not any(y is x for y in i.ops):
                        continue
                    if i.op in ('gep', 'phi', 'select', 'bitcast'):
                        seen.add(i)
                        work.append(i)
                    elif i.op == 'store' and i.ops[0] is x or i.op in ('call', 'invoke') and \
                            callee_name(i) != 'free':
                        ok = False
            self.heaps[o] = ok
        return self.heaps[o]

    def effect(self, i, env):
        """What a call stores."""
        as_ = self.accs.get(i, ())
        ws, rs = ([a for a in as_ if a.rw == m] for m in 'wr')
        if not ws or not any(a.kind == 'heap' or a.kind == 'opnd' and a.opnd >= self.u.lay.nin
                             for a in ws):
            return []
        if len(ws) == 1 and ws[0].length is not None and not self.sub and all(
                a.kind == 'opnd' and a.J is not None and not any(j.t for j in a.J) and
                a.R is not None and not a.R.t for a in as_):
            if len(rs) == 1 and \
                    self.u.loop.types[ws[0].opnd] == self.u.loop.types[rs[0].opnd]:
                return [('CPY', ws[0].opnd, rs[0].opnd, ws[0].length)]
            v = self.val(i.ops[2], env)
            if not rs and v == ('p', Poly.const(0)):
                return [('SET', ws[0].opnd, None, ws[0].length)]
        return [(a.opnd if a.kind == 'opnd' else HEAP + a.base, None, ('?', 0)) for a in ws]

    def untouched(self, made, xs, iv):
        """What an iteration reads of the memory was not stored by the iterations before it."""
        for x in xs:
            for a in self.deep(x):
                if a[0] != 'out':
                    continue
                for s in made:
                    if s[0] != a[1]:
                        continue
                    if len(s) > 3 and s[3] or s[1] is None or len(s[1]) != len(a[2]):
                        raise Undecided('memory that is changed by a loop')
                    own, safe = s[1] == a[2], False
                    for p, q in zip(s[1], a[2]):
                        if 'im' in (p, q):
                            safe = safe or p != q
                            continue
                        d, cp, cq = p - q, p.coeff(iv), q.coeff(iv)
                        if cp is None or cq is None or not cp[0].is_const() or not cq[0].is_const() \
                                or iv in self.e._deps(cp[1]) | self.e._deps(cq[1]):
                            continue
                        c = cp[0].cval()
                        if c != cq[0].cval():
                            continue
                        safe = safe or own and c or d.is_const() and (
                            d.cval() % c if c else d.cval())
                    if not safe:
                        raise Undecided('memory that is carried by a loop')

    def cancels(self, v, env, root, d=0):
        """Collects the differences of rounded values in the argument of a square root."""
        if not isinstance(v, ir.Inst) or v in env or d > 20 or v.op not in (
                'fadd', 'fmul', 'fdiv', 'fsub') or v.op == 'fmul' and v.ops[0] is v.ops[1]:
            return
        x = self.alg(self.val(v, env))
        if x is None or any(a[0] in ('acc', 'out') for a in self.deep(x)):
            return
        for c in env.get('pc', ()):
            if c[0] == 'rel' and (c[1] == x and 'L' not in c[2] or
                                  c[1] == -x and 'G' not in c[2]):
                return
        if v.op != 'fsub':
            for o in v.ops:
                self.cancels(o, env, root, d + 1)
        elif any(isinstance(o, ir.Inst) and o not in env and
                 o.op in ('fadd', 'fsub', 'fmul', 'fdiv') for o in v.ops):
            self.roots.append((root, x, self.alg(self.val(v.ops[0], env)), env.get('pc', ()),
                               'imprecise' in env))

    def origin(self, v):
        if isinstance(v, ir.Const):
            return ('null',) if v.kind in ('null', 'zero') else None
        b, off = self.e.base_of(self.e.sym(v))
        k = self.e.key(b) if b is not None else ('?',)
        return k[:2] if k[0] in ('opnd', 'heap') else None

    def part(self, v, k, env):
        """A component of a vector of two values."""
        while isinstance(v, ir.Inst) and v.op == 'insertelement':
            if not isinstance(v.ops[2], ir.Const):
                return None
            if v.ops[2].val == k:
                return self.val(v.ops[1], env)
            v = v.ops[0]
        if not isinstance(v, ir.Inst) or v.op != 'load' or v.ty.k != 'vector':
            return None
        cs = self.accs.get(v, ())
        if len(cs) != 1 or cs[0].kind != 'opnd' or cs[0].J is None or \
                self.u.loop.types[cs[0].opnd] not in (14, 15, 16) or cs[0].opnd >= self.u.lay.nin:
            return None
        a = cs[0]
        if a.R is None or a.R.t or a.size != self.u.lay.size[a.opnd]:
            return None
        js = tuple(self.subst_env(j, env) or j for j in a.J)
        if any(self.e.key(x)[0] == 'v' for j in js for x in j.atoms()):
            return None
        m = env.get('ivsub')
        js = tuple(self.e.subst(j, m) for j in js) if m else js
        return ('el', a.opnd, js) + (('im',) if k else ())

    def chosen(self, v, env):
        """A load through a pointer that is one of two elements."""
        p = v.ops[0]
        for _ in range(8):
            if p in env and env[p][0] == 'ptr':
                p = env[p][1]
            else:
                break
        cs = self.accs.get(v, ())
        if len(cs) < 2 or not isinstance(p, ir.Inst):
            return None

        def one(q):
            q = self.e.sym(q)
            hits = [a for a in cs if a.kind == 'opnd' and a.J is not None and
                    not (Poly.atom(a.base) + a.off - q).t]
            if len(hits) != 1 or hits[0].opnd >= self.u.lay.nin:
                return None
            js = tuple(self.subst_env(j, env) or j for j in hits[0].J)
            if any(self.e.key(x)[0] == 'v' for j in js for x in j.atoms()):
                return None
            m = env.get('ivsub')
            return ('el', hits[0].opnd, tuple(self.e.subst(j, m) for j in js) if m else js)
        if p.op != 'select':
            return one(p)
        c = self.cond(p.ops[0], env)
        a, b = one(p.ops[1]), one(p.ops[2])
        if a is None or b is None:
            return None
        return a if c else b if c is False else self.choice(p.ops[0], a, b, env)

    def element(self, ins, env):
        r = super().element(ins, env)
        if r is None:
            cs = self.accs.get(ins, ())
            if len(cs) == 1 and cs[0].kind == 'heap' and cs[0].length is None:
                j = self.subst_env(cs[0].off, env)
                if j is not None:
                    r = ('el', HEAP + cs[0].base, (j,))
        m = env.get('ivsub')
        if r is not None and any(j != 'im' and any(self.e.key(x)[0] == 'v' for x in j.atoms())
                                 for j in r[2]):
            r = r[:2] + (tuple(self.computed(j, env) for j in r[2]),) + r[3:]
        if r is None or not m:
            return r
        js = tuple(self.e.subst(j, m) for j in r[2])
        return r[:2] + (js,) + r[3:]

    def computed(self, j, env):
        """A position that depends on values that were computed from elements."""
        m = {}
        for x in j.atoms():
            k = self.e.key(x)
            v = self.e.inst_by_id(k[1]) if k[0] == 'v' else None
            if v is not None and v.ty is not None and v.ty.is_int():
                if ('rv', v.id) in env:
                    m[x] = env['rv', v.id]
                    continue
                r = self.val(v, env)
                y = self.alg(r) if r[0] in ('f', 'el') else None
                if y is None or any(a[0] in ('acc', 'out', 'st') for a in self.deep(y)):
                    continue
                deps = set()
                for a in self.deep(y):
                    for p in a[2] if a[0] == 'el' else [Poly.atom(a[1])] if a[0] == 'pa' else \
                            [self.ghosts[a[1]][3]] if a[0] == 'gh' else []:
                        deps |= self.e._deps(p)
                z = self.e.patom(('rv', y.key()), deps=deps)
                self.values[z.single()] = y
                m[x] = z
                M = self.e.cfg.loop_of.get(v.blk)
                if M is not None and M.parent is None:
                    env['rv', v.id] = z
        return self.e.subst(j, m) if m else j

    def val(self, v, env, d=0):
        if v.ty is not None and v.ty.k == 'ptr' and v not in env and isinstance(v, ir.Inst):
            return ('ptr', v)
        r = super().val(v, env, d)
        if r[0] == 'p' and env.get('ivsub') and r[1].atoms() & set(env['ivsub']):
            r = ('p', self.e.subst(r[1], env['ivsub']))
        if r[0] == 'p' and v not in env and isinstance(v, ir.Inst):
            for x in r[1].atoms() | self.e._deps(r[1]):
                k = self.e.key(x)
                if k[0] == 'v' and self.e.inst_by_id(k[1]).blk in self.L.body:
                    return ('?', v.id)
        return r

    def choice(self, c, a, b, env):
        x, y = (NOT if r == NAN else self.alg(r) for r in (a, b))
        if x is None or y is None:
            return None
        for truth in (True, False):
            cs = self.constraints(c, env, truth)
            if cs and len(cs) <= 4 and all(k[0] == 'rel' for k in cs):
                p, q = (x, y) if truth else (y, x)
                for k in reversed(cs):
                    p = self.ite(k[1], k[2], p, q)
                return self.role(p)
        return None

    # ------------------------------------------------------------------ loops
    def refine(self, t, s, env):
        env2 = super().refine(t, s, env)
        if env2 is not None and t.op == 'switch' and 'imprecise' not in env:
            r = self.alg(self.val(t.ops[0], env))
            d, cs = t.x
            if r is not None:
                hit = [c.val if hasattr(c, 'val') else c for c, b in cs if b is s]
                miss = [c.val if hasattr(c, 'val') else c for c, b in cs]
                if s is not d and len(hit) == 1:
                    new = [('rel', r - Rat.const(hit[0]), set('E'))]
                elif s is d and not hit:
                    new = [('rel', r - Rat.const(k), set('LG')) for k in miss]
                else:
                    return env2
                del env2['imprecise']
                env2['pc'] = env.get('pc', ()) + tuple(new)
        return env2

    def constraints(self, c, env, truth):
        if isinstance(c, ir.Inst) and c.op == 'icmp' and c.x[0] == 'u' and \
                self.cond(c, env) is None:
            rs = [self.val(o, env) for o in c.ops]
            pred = c.x
            if pred in ('ugt', 'uge'):
                rs, pred = rs[::-1], {'ugt': 'ult', 'uge': 'ule'}[pred]
            if '?' not in (rs[0][0], rs[1][0]) and self.unsigned(rs[1]) and \
                    not self.unsigned(rs[0]):
                x, y = self.alg(rs[0]), self.alg(rs[1])
                k = {'L'} if pred == 'ult' else {'L', 'E'}
                if truth:
                    return [('rel', x, {'E', 'G'}), ('rel', x - y, k)]
                return [('or', None, [[('rel', x, {'L'})], [('rel', x - y, set('LEG') - k)]])]
            rs = [self.val(o, env) for o in c.ops]
            if all(self.unsigned(r) for r in rs):
                k = set(REL['s' + c.x[1:]])
                return [('rel', self.alg(rs[0]) - self.alg(rs[1]), k if truth else set('LEG') - k)]
        r = super().constraints(c, env, truth)
        if r and self.infs and r[0][0] == 'class' and len(r) == 1 and r[0][2] & 507 in (504, 0):
            # a test for infinities, |x| < inf
            x = self.fn('abs', [r[0][1]]) - Rat.atom(('inf',))
            return [('rel', x, {'L'} if bool(r[0][2] & 504) == r[0][3] else {'E'})]
        if r is None and isinstance(c, ir.Inst) and c.ty.is_int() and c.ty.n == 1 and \
                c.op in ('trunc', 'phi', 'load') and self.cond(c, env) is None:
            x = self.val(c.ops[0] if c.op == 'trunc' else c, env)
            x = self.alg(x) if x[0] != '?' else None
            if x is not None and self.bit(x):
                return [('rel', x, {'G'} if truth else {'E'})]
        if r is None and self.cond(c, env) is None:
            parts = None
            if c.op in ('and', 'or') and truth == (c.op == 'or'):
                parts = c.ops
            elif c.op == 'select' and isinstance(c.ops[2], ir.Const) and not truth:
                parts = c.ops[:2] if self.truth(c.ops[2]) is False else None
            elif c.op == 'select' and isinstance(c.ops[1], ir.Const) and truth:
                parts = [c.ops[0], c.ops[2]] if self.truth(c.ops[1]) else None
            if parts is not None:
                alts = []
                for p in parts:
                    k = self.cond(p, env)
                    if k is None:
                        q = self.constraints(p, env, truth)
                        if q is None:
                            return None
                        alts.append(q)
                    elif k == truth:
                        return []
                return alts[0] if len(alts) == 1 else [('or', None, alts)]
            parts = None
            if c.op == 'select' and isinstance(c.ops[2], ir.Const) and truth:
                parts = c.ops[:2] if self.truth(c.ops[2]) is False else None
            elif c.op == 'select' and isinstance(c.ops[1], ir.Const) and not truth:
                parts = [c.ops[0], c.ops[2]] if self.truth(c.ops[1]) else None
            if parts is not None:
                a, b = (self.constraints(p, env, truth) for p in parts)
                return None if a is None or b is None else a + b
        return r

    def bit(self, x):
        """A value that is 0 or 1."""
        if x.is_const():
            return x.cval() in (0, 1)
        if x.d != {(): 1} or len(x.n) != 1:
            y = Rat.const(1) - x
            if x.d != {(): 1} or len(y.n) != 1:
                return False
            x = y
        (mon, c), = x.n.items()
        if c != 1:
            return False
        for b, k in mon:
            if b[0] == 'fn' and b[1][:3] == 'ite':
                if not all(self.bit(z) for z in self.fnargs[b][1:]):
                    return False
            elif b[0] == 'gh':
                kind, _, body, _, base = self.ghosts[b[1]]
                if kind == 'SUM' or not self.bit(body) or not self.bit(base):
                    return False
            elif b[0] == 'acc':
                if not self.flag(self.e.inst_by_id(b[1]), set()):
                    return False
            elif not (b[0] == 'el' and self.u.loop.types[b[1]] == 0):
                return False
        return True

    def flag(self, v, seen):
        if isinstance(v, ir.Const):
            return v.kind == 'zero' or v.kind == 'int' and v.val in (0, 1, -1 if v.ty.n == 1 else 0)
        if v in seen or v.ty.is_int() and v.ty.n == 1:
            return True
        seen.add(v)
        ops = {'phi': v.ops, 'select': v.ops[1:], 'and': v.ops, 'or': v.ops}.get(v.op)
        if ops is not None:
            return all(self.flag(o, seen) for o in ops)
        return v.op == 'zext' and v.ops[0].ty.n == 1

    def above(self, v, seen):
        """A value that is one of unsigned elements or counts."""
        if isinstance(v, ir.Const):
            return v.kind == 'zero' or v.kind == 'int' and v.val >= 0
        if v in seen:
            return True
        seen.add(v)
        if v.op == 'phi':
            return all(self.above(o, seen) for o in v.ops)
        if v.op == 'select':
            return all(self.above(o, seen) for o in v.ops[1:])
        if v.op in ('zext', 'udiv', 'urem'):
            return True
        if v.op == 'call' and (callee_name(v) or '')[:9] in ('llvm.umin', 'llvm.umax'):
            return all(self.above(o, seen) for o in v.ops[1:3])
        if v.op == 'load':
            cs = self.accs.get(v, ())
            return bool(cs) and all(a.kind == 'opnd' and
                                    self.u.loop.types[a.opnd] in (0, 2, 4, 6, 8, 10) for a in cs)
        return False

    def unsigned(self, r):
        if r[0] == 'acc':
            return self.above(self.e.inst_by_id(r[1]), set())
        if r[0] == 'el':
            return r[1] < self.u.lay.nin and self.u.loop.types[r[1]] in (0, 2, 4, 6, 8, 10)
        return r[0] == 'p' and all(v >= 0 for v in r[1].t.values()) and \
            all(self.e.key(a)[0] in ('dim', 'iv') for a in r[1].atoms())

    def truth(self, c):
        return bool(c.val) if c.kind == 'int' else False if c.kind == 'zero' else None

    def enter(self, b, s, env, stores, path, left):
        self.limit[0] -= 1
        if self.limit[0] < 0:
            raise Undecided('too many paths')
        self.steps = 0
        if self.sub and s not in self.L.body:
            o = outcome('leave', (b, s), stores, env)
            o.env = env
            self.out.append(o)
            return None
        M = self.e.cfg.loop_of.get(s)
        if M is not None and s is M.header and M is not self.L and b not in M.body and \
                M.parent is self.L:
            return self.summary(b, M, env, stores, path, left)
        return super().enter(b, s, env, stores, path, left)

    def trip(self, M, ctx, env):
        """(number of iterations, exit block)."""
        e = self.e
        t = M.header.term
        if t.op != 'br' or len(t.x) != 2:
            raise Undecided('a loop that is not tested at its start')
        ins = [s for s in t.x if s in M.body]
        outs = [s for s in t.x if s not in M.body]
        c = t.ops[0]
        if len(ins) != 1 or getattr(c, 'op', '') != 'icmp':
            raise Undecided('a loop that is not tested at its start')
        a, b = self.poly(self.val(c.ops[0], env)), self.poly(self.val(c.ops[1], env))
        i = e.iv(M).single()
        if a is None or b is None:
            raise Undecided('the number of iterations')
        pred = c.x
        if t.x[0] is not ins[0]:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle',
                    'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        d = {'slt': b - a, 'ult': b - a, 'ne': b - a, 'sgt': a - b, 'ugt': a - b,
             'sle': b - a + 1, 'sge': a - b + 1}.get(pred)
        cf = d.coeff(i) if d is not None else None
        if cf is None or not cf[0].is_const():
            raise Undecided('the number of iterations')
        k = cf[0].cval()
        if pred == 'ne' and k == 1:
            d, k = -d, -1
            cf = d.coeff(i)
        n = cf[1]
        if k < -1 and n.is_const() is False:
            raise Undecided('the number of iterations')
        if k != -1 or i in e._deps(n):
            raise Undecided('the number of iterations')
        if any(e.key(x)[0] == 'v' for x in n.atoms()):
            raise Undecided('the number of iterations')
        return n, outs[0], e.prove(n, ctx)

    def summary(self, b, M, env, stores, path, left):
        e = self.e
        fs = e.edge_facts(b, M.header)
        if any(f[0] == 'false' for f in fs):
            return None
        path = path + fs
        h = M.header
        phis = [i for i in h.insts if i.op == 'phi']
        init = {i: self.val(o, env) for i in phis for o, p in zip(i.ops, i.x) if p is b}
        if any(i.op in ('store', 'call', 'invoke') for i in h.insts):
            raise Undecided('effects in the test of a loop')
        iv = e.iv(M).single()
        heads, accs = {}, []
        for i in phis:
            if i.ty.k == 'ptr':
                heads[i] = ('?', i.id)
                continue
            p = e.sym(i) if i.ty.is_int() else None
            if p is not None and not any(e.key(x)[0] == 'v' for x in p.atoms()):
                heads[i] = ('p', e.subst(p, env.get('ivsub', {})))
                continue
            if p is not None and p.single() is None and iv in p.atoms():
                q = self.subst_env(p, env)
                if q is not None:
                    heads[i] = ('p', q)
                    continue
            accs.append(i)
        ctx = Ctx(self.assume + path + e.items(b))
        henv = dict(env)
        henv.update(heads)
        T, out, some = self.trip(M, ctx, henv)
        if not some:
            # no iterations when the bound is negative
            x = self.alg(('p', T))
            env0 = dict(env)
            env0.update(init)
            env0['pc'] = env.get('pc', ()) + (('rel', x, {'L'}),)
            env0['ivsub'] = {**env.get('ivsub', {}), iv: ZERO}
            nb = self.enter(h, out, env0, stores, path + [('ge', -T - 1)],
                            left or out not in self.L.body)
            if nb is not None:
                self._go(*nb[:4], False, nb[4])
            env = {**env, 'pc': env.get('pc', ()) + (('rel', x, {'G', 'E'}),)}
            path = path + [('ge', T)]
            henv = dict(env)
            henv.update(heads)
        if not self.sub:
            self.mark = len(stores)
        guess = {i for i in accs if init[i][0] != '?'}
        while True:
            henv = dict(env)
            henv.update(heads)
            henv.update({i: init[i] if i in guess else ('acc', i.id) for i in accs})
            new, made, leave = self.iteration(
                M, henv, stores, path + [('ge', Poly.atom(iv)), ('ge', T - 1 - Poly.atom(iv))],
                accs)
            bad = {i for i in guess if not self.equal(new.get(i), init[i])}
            if not bad:
                break
            guess -= bad
        forms = {i: init[i] for i in guess}
        self.solve([i for i in accs if i not in guess], init, new, forms, iv)
        # after the loop
        inloop = {('acc', i.id): self.alg(forms[i]) for i in accs
                  if forms.get(i) and i not in guess}

        def conv(x):
            if x is not None:
                x = self.rebuild(x, inloop.get)
                if any(a[0] == 'acc' or a[0] == 'out' and not self.sub for a in self.deep(x)):
                    x = None
            return x
        body = [x for x in [leave and leave[0]] + [
            self.alg(r) if r[0] not in ('?', 'ptr') else None
            for r in list(new.values()) + [s[2] for s in made]] if x is not None]
        system = None
        if self.sub:
            self.untouched(made, body, iv)
        else:
            self.mark = None
            if any(a[0] == 'out' for x in body for a in self.deep(x)) or \
                    any(s[1] is not None and (len(s) > 4 or not any(
                        iv in p.atoms() for p in s[1] if p != 'im')) for s in made):
                system = self.remember(stores, made, inloop, iv, leave)

        def under(c):
            if c[0] == 'or':
                return ('or', None, [[under(d) for d in alt] for alt in c[2]])
            x = conv(c[1])
            if x is None:
                raise Undecided('a condition on unknown values')
            return (c[0], x) + c[2:]

        def after(T, old, new):
            """The environment and the stores after T iterations."""
            st, env = stores, dict(old)
            if system is not None:
                st = st + [('MEM', system, T)]
            for s in made if system is None else ():
                x = conv(self.alg(s[2]) if s[2][0] != '?' else None)
                st = st + [(s[0], s[1], ('?', 0) if x is None and s[2][0] in ('acc', 'out', 'f')
                            else s[2] if x is None else self.role(x),
                            ((iv, T),) + (s[3] if len(s) > 3 else ())) +
                           ((tuple(under(c) for c in s[4]),) if len(s) > 4 else ())
                           if s[1] is not None and (self.sub or iv in set().union(
                               *[j.atoms() for j in s[1] if j != 'im'], set()))
                           else (s[0], None, ('?', 0))]
            for i, r in new.items():
                if i in phis or not isinstance(i, ir.Inst) or old.get(i) == r:
                    continue
                x = conv(self.alg(r) if r[0] not in ('?', 'ptr') else None)
                env[i] = ('?', i.id) if x is None else self.role(self.at(x, iv, T))
            for i in phis:
                if i in forms:
                    x = self.alg(forms[i])
                    env[i] = forms[i] if x is None or i in guess else self.role(self.at(x, iv, T))
                elif i in heads and heads[i][0] == 'p':
                    env[i] = ('p', e.subst(heads[i][1], {iv: T}))
                else:
                    env[i] = ('?', i.id)
            env['ivsub'] = {**env.get('ivsub', {}), iv: T}
            return env, st
        if leave is None:
            env, stores = after(T, env, {})
            return self.enter(h, out, env, stores, path, left)
        ind, exits = leave
        ind = conv(ind)
        if ind is None:
            raise Undecided('a loop that is left early')
        count = self.ghost('SUM', iv, ind, T, Rat.const(0))
        deps = e._deps(T)
        for x in self.deep(ind):
            for q in x[2] if x[0] in ('el', 'out') else (Poly.atom(x[1]),) if x[0] == 'pa' else ():
                deps = deps | e._deps(q)
        J = e.patom(('first', count.single()[1]), deps=deps - {iv})
        self.limit[0] -= len(exits)
        for o in exits:
            if any(x[0] != 'rel' for x in o.pc):
                raise Undecided('a loop that is left early')
            pc = [(x[0], conv(x[1])) + x[2:] for x in o.pc[len(env.get('pc', ())):]]
            if any(x[1] is None for x in pc):
                raise Undecided('a loop that is left early')
            env2, st = after(J, env, o.env)
            env2['pc'] = env.get('pc', ()) + (('rel', count, {'G'}),) + tuple(
                (x[0], self.at(x[1], iv, J)) + x[2:] for x in pc)
            new = path + [('ge', J), ('ge', T - 1 - J)]
            nb = self.enter(o[1][0], o[1][1], env2, st, new, left or o[1][1] not in self.L.body)
            if nb is not None:
                self._go(*nb[:4], False, nb[4])
        env, stores = after(T, env, {})
        env['pc'] = env.get('pc', ()) + (('rel', count, {'E'}),)
        self.path, self.written = path, stores
        self.ctx = Ctx(self.assume + path + e.items(b))
        return self.enter(h, out, env, stores, path, left)

    def remember(self, stores, made, inloop, iv, leave):
        """A loop whose iterations read what earlier ones stored: the memory is the state."""
        if leave is not None:
            raise Undecided('a loop with memory that is left early')
        def conv(x):
            if x is not None:
                for a in self.deep(x):
                    if a in inloop and any(b[0] == 'out' for b in self.deep(inloop[a])):
                        return None
                x = self.rebuild(x, inloop.get)
                if any(a[0] == 'acc' for a in self.deep(x)):
                    return None
            return x

        def cond(c):
            if c[0] == 'or':
                return ('or', None, [[cond(d) for d in alt] for alt in c[2]])
            x = conv(c[1])
            if x is None:
                raise Undecided('a condition on unknown values')
            return (c[0], x) + c[2:]
        new = []
        for s in made:
            if s[1] is None or s[0] in ('MEM', 'CPY', 'SET'):
                raise Undecided('memory that is carried by a loop')
            x = conv(self.alg(s[2]) if s[2][0] not in ('?', 'ptr') else None)
            new.append(s[:2] + (('?', 0) if x is None and s[2][0] not in 'k' else
                                s[2] if x is None else self.role(x),) + s[3:4] +
                       ((tuple(cond(c) for c in s[4]),) if len(s) > 4 else ()))
        self.mems.append((list(stores), new, iv))
        return len(self.mems) - 1

    def subst_env(self, p, env):
        m = {}
        for x in p.atoms():
            k = self.e.key(x)
            if k[0] == 'v':
                v = self.e.inst_by_id(k[1])
                q = self.poly(env[v]) if v in env else None
                if q is None:
                    return None
                m[x] = q
        return self.e.subst(p, m)

    def equal(self, a, b):
        if a is None:
            return False
        if a == b and a[0] != '?':
            return True
        x, y = (self.alg(z) if z[0] != '?' else None for z in (a, b))
        return x is not None and y is not None and x == y

    def iteration(self, M, henv, stores, path, accs):
        """The values carried to the next iteration and the stores of one iteration."""
        s = copy.copy(self)
        s.L, s.sub, s.out, s.mode, s.accs = M, True, [], 'iterate', self.accs
        s.asked = set()
        s.assume = self.assume + path
        taken = []
        s.starts = self.starts + ((len(stores), taken),)
        s._go(M.header, dict(henv), list(stores), [], True)
        outs = [o for o in s.out if o[0] != 'dead']
        for o in outs:
            self.kept(o[2][len(stores):], taken)
        # leaving by the test of the header was excluded by its fact
        n0 = len(henv.get('pc', ()))
        exits = [o for o in outs if o[0] == 'leave']
        leave = None
        if exits:
            if not all(o.precise for o in outs) or any(len(o[2]) > len(stores) for o in exits) or \
                    any(o[0] not in ('leave', 'next') for o in outs):
                raise Undecided('a loop that is left early')
            ind = self.merge([('p', Poly.const(int(o[0] == 'leave'))) for o in outs],
                             [o.pc[n0:] for o in outs])
            leave = (self.alg(ind), exits) if ind[0] != '?' else (None, exits)
            outs = [o for o in outs if o[0] == 'next']
        if any(o[0] != 'next' for o in outs) or not outs:
            raise Undecided('a loop that is left early')
        sts = [o[2][len(stores):] for o in outs]
        if len(outs) > 1 and not all(o.precise for o in outs):
            same = all(o[1] == outs[0][1] for o in outs) and all(x == sts[0] for x in sts)
            if not same:
                raise Undecided('a branch on unknown values')
        pos = [[x[:2] + x[3:] for x in st] for st in sts]
        pcs = [o.pc[n0:] for o in outs]
        part = leave is not None
        if any(p != pos[0] for p in pos):
            if not all(o.precise for o in outs):
                raise Undecided('stores on some paths only')
            made = [x[:3] + ((x[3] if len(x) > 3 else ()), pc) for st, pc in zip(sts, pcs)
                    for x in st]
            return {i: self.merge([o[1].get(i, ('?', i.id)) for o in outs], pcs, part)
                    for i in accs}, made, leave
        new = {i: self.merge([o[1].get(i, ('?', i.id)) for o in outs], pcs, part) for i in accs}
        made = [sts[0][k][:2] + (self.merge([st[k][2] for st in sts], pcs, part),) + sts[0][k][3:]
                for k in range(len(pos[0]))]
        return new, made, leave

    def merge(self, vals, pcs, part=False):
        if all(v == vals[0] for v in vals):
            return vals[0]
        xs = [NOT if v == NAN else self.alg(v) if v[0] != '?' else None for v in vals]
        if any(x is None for x in xs):
            return ('?', 0)
        if any(c[0] != 'rel' for p in pcs for c in p):
            return self.chain(xs, pcs)
        return self.role(self.tree(xs, [list(p) for p in pcs], 0, part))

    def chain(self, xs, pcs):
        """Nested choices when some of the paths have a condition that is a disjunction."""
        def plain(c):
            return c[0] == 'rel' or c[0] == 'or' and all(plain(d) for alt in c[2] for d in alt)

        def where(c, y, r):
            if c[0] == 'rel':
                return self.ite(c[1], c[2], y, r)
            out = r
            for alt in reversed(c[2]):
                z = y
                for d in reversed(alt):
                    z = where(d, z, out)
                out = z
            return out
        order = sorted(range(len(xs)), key=lambda i: (
            any(not plain(c) for c in pcs[i]), sum(c[0] != 'rel' for c in pcs[i])))
        if any(not plain(c) for i in order[:-1] for c in pcs[i]):
            return ('?', 0)
        r = xs[order[-1]]
        for i in reversed(order[:-1]):
            y = xs[i]
            for c in reversed(pcs[i]):
                y = where(c, y, r)
            r = y
        return self.role(r)

    def tree(self, xs, pcs, d, part=False):
        """Nested choices for a partition given by conjunctions of conditions.

        part: the conditions do not cover everything (the rest does not matter)."""
        if all(x == xs[0] for x in xs) or d > 12:
            return xs[0]
        first = next((p[0] for p in pcs if p), None)
        if first is None:
            raise Undecided('paths that are not told apart')
        k = first[1].sign_key()
        yes, no = ([], []), ([], [])
        for x, p in zip(xs, pcs):
            allow, rest = set('LEG'), []
            for c in p:
                m = c[1].sign_key()
                if c[1] == first[1] or k is not None and m is not None and m[0] == k[0]:
                    flip = not c[1] == first[1] and m[1] != k[1]
                    allow &= {{'L': 'G', 'G': 'L'}.get(r, r) for r in c[2]} if flip else c[2]
                else:
                    rest.append(c)
            for tgt, side in ((yes, set(first[2])), (no, set('LEG') - set(first[2]))):
                left = allow & side
                if left:
                    tgt[0].append(x)
                    tgt[1].append(([('rel', first[1], left)] if left != side else []) + rest)
        if part and not (yes[0] and no[0]):
            return self.tree(*(yes if yes[0] else no), d + 1, part)
        if not yes[0] or not no[0]:
            raise Undecided('paths that are not told apart')
        return self.ite(first[1], first[2], self.tree(*yes, d + 1, part),
                        self.tree(*no, d + 1, part))

    # ------------------------------------------------------------- recurrences
    def solve(self, accs, init, new, forms, iv):
        """Closed forms F(iv) of the carried values that can be solved."""
        todo = list(accs)
        known = {}
        while todo:
            rest = []
            for i in todo:
                a = ('acc', i.id)
                others = {('acc', j.id) for j in accs} - {a} - set(known)
                if new[i][0] == '?' or init[i][0] == '?':
                    forms[i] = None
                    continue
                x, x0 = self.alg(new[i]), self.alg(init[i])
                if x is None or x0 is None:
                    forms[i] = None
                    continue
                x = self.rebuild(x, known.get)
                if self.deep(x) & others:
                    rest.append(i)
                    continue
                r = self.closed(x, x0, a, iv)
                if r is None:
                    r = self.guess(x, x0, a, iv)
                if r is not None:
                    known[a] = r
                    forms[i] = self.role(r)
                else:
                    forms[i] = None
            if len(rest) == len(todo) or not rest:
                break
            todo = rest
        for i in accs:
            if not forms.get(i):
                forms.pop(i, None)
        self.system([i for i in accs if i not in forms], init, new, forms, known, iv)

    def system(self, accs, init, new, forms, known, iv):
        """Values without a closed form: the recurrence itself is the summary."""
        exp = {}
        for i in accs:
            if '?' not in (new[i][0], init[i][0]) and 'ptr' not in (new[i][0], init[i][0]):
                x, x0 = self.alg(new[i]), self.alg(init[i])
                if x is not None and x0 is not None:
                    exp[i] = (self.rebuild(x, known.get), x0)
        while True:
            mine = {('acc', i.id) for i in exp}
            bad = [i for i, (x, x0) in exp.items()
                   if {a for a in self.deep(x) if a[0] == 'acc'} - mine or
                   any(a[0] == 'acc' for a in self.deep(x0))]
            if not bad:
                break
            for i in bad:
                del exp[i]
        if not exp:
            return
        n = len(self.recs)
        order = list(exp)
        state = {('acc', i.id): Rat.atom(('st', n, j)) for j, i in enumerate(order)}
        steps = [self.rebuild(exp[i][0], state.get) for i in order]
        inits = [exp[i][1] for i in order]
        self.recs.append((inits, steps, iv))
        for j, i in enumerate(order):
            forms[i] = self.role(self.ghost('REC%d.%d' % (n, j), iv, steps[j], Poly.atom(iv),
                                            inits[j]))

    def closed(self, x, x0, a, iv):
        k = Poly.atom(iv)
        kr = Rat.atom(('pa', iv))
        first = any(c is not None for c in [self.first_test(x, iv)])
        if first:
            # the first iteration is different
            x1 = self.rebuild(self.at(x, iv, Poly.const(0)), lambda b: x0 if b == a else None)
            rest = self.later(x, iv)
            r = self.closed_from(rest, x1, a, iv, 1)
            return None if r is None else self.ite(kr, 'E', x0, r)
        return self.closed_from(x, x0, a, iv, 0)

    def first_test(self, x, iv):
        for b in self.deep(x):
            if b[0] == 'fn' and b[1][:3] == 'ite':
                c = self.fnargs[b][0]
                if c.atoms() == {('pa', iv)} and c.d == {(): 1} and all(
                        len(m) <= 1 and all(k == 1 for _, k in m) for m in c.n):
                    v = {r: self.holds_from(c, r) for r in 'LEG'}
                    if self.late_rel(c) is not None:
                        return b
        return None

    def holds_from(self, c, r):
        return None

    def late_rel(self, c):
        """The relation to zero that a condition on the counter has in all iterations k >= 1."""
        (co,) = [v for m, v in c.n.items() if m]
        k0 = c.n.get((), 0)
        if co > 0 and co + k0 > 0:
            return 'G'
        if co < 0 and co + k0 < 0:
            return 'L'
        return None

    def later(self, x, iv):
        def f(b):
            if b[0] == 'fn' and b[1][:3] == 'ite':
                c, p, q = self.fnargs[b]
                if c.atoms() == {('pa', iv)} and c.d == {(): 1}:
                    r = self.late_rel(c)
                    if r is not None:
                        return self.rebuild(p if r in b[1][3:] else q, f)
            return None
        return self.rebuild(x, f)

    def closed_from(self, x, x0, a, iv, lo):
        """F(iv) for x_{k+1} = x(k, x_k), x_lo = x0 (valid for iv >= lo)."""
        k = Poly.atom(iv)
        kr = Rat.atom(('pa', iv))

        def has(y):
            return a in self.deep(y)
        ar = Rat.atom(a)

        def shifted(g):
            # the terms start at iteration lo
            return self.at(g, iv, k + lo) if lo else g
        if not has(x):
            prev = self.at(x, iv, k - 1)
            return self.ite(kr - Rat.const(lo), 'E', x0, prev)
        d = self.minus(x, ar, a)
        if d is not None:
            return x0 + self.ghost('SUM', iv, shifted(d), k - lo, Rat.const(0))
        m = self.extremum(x, ar, a)
        if m is not None:
            kind, g = m
            return self.ghost(kind, iv, shifted(g), k - lo, x0)
        m = self.latch(x, ar, a)
        if m is not None:
            c, g = m
            if not any(iv in e for e in [self.e._deps(Poly.atom(b[1])) for b in self.deep(g)
                                         if b[0] == 'pa']) and \
                    not any(b[0] in ('el', 'out', 'gh') for b in self.deep(g)):
                return self.ite(self.ghost('SUM', iv, shifted(c), k - lo, Rat.const(0)), 'G', g, x0)
        if x.d == {(): 1} or a not in {b for mon in x.d for b, _ in mon}:
            # linear: x = c*a + g
            one = {mon: v for mon, v in x.n.items() if a in dict(mon)}
            if all(dict(mon)[a] == 1 for mon in one) and not any(
                    a in self.deep(y) for b in x.atoms() if b[0] in ('fn', 'gh')
                    for y in self.fnargs.get(b, [])):
                c = Rat({tuple((b, e) for b, e in mon if b != a): v for mon, v in one.items()}, x.d)
                g = x - c * ar
                if has(g):
                    return None
                if not g.n:
                    return x0 * self.ghost('PROD', iv, shifted(c), k - lo, ONE)
                if c.atoms() <= {('pa', iv)}:
                    # c = w(k)/w(k + 1)
                    w = Rat(c.n)
                    w1 = self.at(w, iv, k + 1)
                    if w == c * w1:
                        w0 = self.at(w, iv, Poly.const(lo))
                        s = self.ghost('SUM', iv, shifted(w1 * g), k - lo, Rat.const(0))
                        r = (w0 * x0 + s) / w
                        return self.ite(kr - Rat.const(lo), 'E', x0, r)
        return None

    def minus(self, x, ar, a):
        d = x - ar
        if a not in self.deep(d):
            return d
        b = x.single()
        if b is not None and b[0] == 'fn' and b[1][:3] == 'ite':
            c, p, q = self.fnargs[b]
            if a in self.deep(c):
                return None
            p, q = self.minus(p, ar, a), self.minus(q, ar, a)
            if p is not None and q is not None:
                return self.ite(c, set(b[1][3:]), p, q)
        return None

    def latch(self, x, ar, a):
        """(indicator of the iterations that set the value, value) of a value set once."""
        if x == ar:
            return Rat.const(0), None
        if a not in self.deep(x):
            return Rat.const(1), x
        b = x.single()
        if b is None or b[0] != 'fn' or b[1][:3] != 'ite':
            return None
        c, p, q = self.fnargs[b]
        if a in self.deep(c):
            return None
        p, q = self.latch(p, ar, a), self.latch(q, ar, a)
        if p is None or q is None or None not in (p[1], q[1]) and not p[1] == q[1]:
            return None
        return self.ite(c, set(b[1][3:]), p[0], q[0]), p[1] if p[1] is not None else q[1]

    def guess(self, x, x0, a, iv):
        """An extremum that satisfies the recurrence (by random interpretation)."""
        k = Poly.atom(iv)
        leaves, work = [], [x]
        while work:
            b = work.pop()
            s = b.single()
            if s is not None and s[0] == 'fn' and s[1][:3] == 'ite':
                work += self.fnargs[s][1:]
            elif a not in self.deep(b) and not any(b == y for y in leaves):
                leaves.append(b)
        if len(leaves) != 1 or self.sample is None:
            return None
        for kind in ('MAX', 'MIN'):
            f = self.ghost(kind, iv, leaves[0], k, x0)
            now = self.rebuild(x, lambda b: f if b == a else None)
            then = self.at(f, iv, k + 1)
            good = 0
            for S in self.sample():
                for j in range(4):
                    S.iv[iv] = j
                    p, q = S.ev(now), S.ev(then)
                    if p is None or q is None or mp.isnan(p) or mp.isnan(q):
                        break
                    if abs(p - q) > 1e-20:
                        good = -1000
                    good += 1
            if good >= 20:
                return f
        return None

    sample = None

    def extremum(self, x, ar, a):
        b = x.single()
        if b is None or b[0] != 'fn' or b[1][:3] != 'ite':
            return None
        c, p, q = self.fnargs[b]
        rel = set(b[1][3:]) - {'E'}
        if len(rel) != 1:
            return None
        rel = rel.pop()
        if p == ar:
            p, q, rel = q, p, {'L': 'G', 'G': 'L'}[rel]
            # now: q == a is kept, p replaces it when not rel ...
        if not q == ar or a in self.deep(p):
            return None
        # p replaces a when c is `rel` (ties do not matter)
        if c == p - ar:
            s = 1
        elif c == ar - p:
            s = -1
        else:
            return None
        return ('MAX' if (rel == 'G') == (s == 1) else 'MIN'), p


# ---------------------------------------------------------------- evaluation
def landmarks(f):
    """Numbers at and beside those that a function compares with."""
    out = set()
    for i in f.insts():
        if i.op in ('icmp', 'fcmp'):
            for o in i.ops:
                if isinstance(o, ir.Const) and o.kind in ('int', 'fp') and \
                        isinstance(o.val, (int, Fraction)) and 1e-3 < abs(o.val) < 1000:
                    out |= {o.val + k for k in (-1, 0, 1)}
    return sorted(out)


# the case in which elements of the first operand are not finite
INFINITE = 'some x infinite'
# stands for an infinity
HUGE = mp.mpf(10) ** 30
KINDS = ('small', 'real', 'near', 'ties', 'marks', 'sparse')


class Sample:
    """Random sequences, dimensions and strides."""

    tainted = False

    def __init__(self, sim, u, dims, rng, spec, pools):
        self.sim, self.u, self.e = sim, u, u.eng
        self.dims = dims
        self.iv = {}
        self.st = {}
        self.memo = {}
        self.mem = None
        self.arr = {}
        self.rng = rng
        lay = u.lay
        top = max([4] + list(dims.values()))
        same = rng.choice(KINDS)
        self.contig = rng.random() < 0.5 or u.name.endswith('_contig')
        for k in range(lay.nin):
            t = u.loop.types[k]
            shape = [dims[d] for d in lay.opdims[k]]
            size = 1
            for s in shape:
                size *= s
            draw = pools.get(k)
            kind = same if rng.random() < .6 else rng.choice(KINDS)
            vals = []
            for _ in range(size * 2):
                v = draw(rng, dims) if draw is not None else self.draw(t, kind, rng, top)
                vals.append(mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction)
                            else mp.mpf(v))
            if kind == 'sparse' and draw is None:
                # a single element is not 0
                one = rng.choice([0, size - 1, rng.randrange(size)]) if size else 0
                vals = [v if j % size == one else mp.mpf(0) for j, v in enumerate(vals)]
            self.arr[k] = (shape, vals[:size], vals[size:])

    def draw(self, t, kind, rng, top):
        """An element of type number t."""
        if kind == 'ties':
            return rng.choice([0, 1])
        if t in (11, 12, 13, 14, 15, 16, 23):
            if kind == 'marks' and self.sim.marks:
                return rng.choice(self.sim.marks)
            return rng.choice([-2, -1, 0, 1, 2]) if kind in ('small', 'marks') else \
                rng.uniform(-3, 3) if kind in ('real', 'sparse') else 1 + rng.uniform(-.1, .1)
        low = 0 if t in (2, 4, 6, 8, 10, 0) else -3
        if kind == 'marks':
            whole = [k for k in self.sim.marks if k == int(k) and max(-99, 99 * low) <= k < 99]
            if whole:
                return rng.choice(whole)
        if kind == 'near' and top > 4:
            return rng.choice([top - 1, top, rng.randint(0, top)])
        return rng.randint(low, 4)

    def carry(self, o, js):
        """The element of a contiguous operand, when one index counts along several axes."""
        if not self.contig or o >= HEAP or len(js) < 2 or None in js:
            return js
        js = list(js)
        shape = [self.dims[d] for d in self.u.lay.opdims[o]]
        for d in range(len(shape) - 1, 0, -1):
            if d < len(js) and not isinstance(js[d], str) and shape[d] and \
                    not 0 <= js[d] < shape[d]:
                js[d - 1] += js[d] // shape[d]
                js[d] %= shape[d]
        return tuple(js)

    def get(self, k, js, part=0):
        shape, re, im = self.arr[k]
        js = self.carry(k, js)
        i = 0
        for s, j in zip(shape, js):
            if not 0 <= j < s:
                return None
            i = i * s + j
        return (im if part else re)[i]

    def seq(self, k, part=0):
        return list(self.arr[k][2 if part else 1])

    def poly(self, p):
        t = 0
        for m, c in p.t.items():
            for a in m:
                v = self.patom(a)
                if v is None:
                    return None
                c = c * v
            t += c
        return t

    def patom(self, a):
        if a in self.iv:
            return self.iv[a]
        k = self.e.key(a)
        lay = self.u.lay
        if k[0] == 'dim':
            return self.dims.get(lay.dimnames[k[1] - 1]) if k[1] else 1
        if k[0] == 'step':
            o = lay.owner(k[1])
            if o is None:
                return None
            n = lay.size[o] * (1 if self.contig else 3)
            if k[1] in lay.coresteps[o]:
                for d in lay.opdims[o][lay.coresteps[o].index(k[1]) + 1:]:
                    n *= self.dims[d]
            return n
        if k[0] in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr') and isinstance(k[2], Poly):
            x, y = self.poly(k[1]), self.poly(k[2])
            if x is None or y is None or x < 0 or y < 0:
                return None
            if 'shr' in k[0]:
                return x >> y
            return None if y == 0 else x // y if 'div' in k[0] else x % y
        if k[0] == 'ld' and a in self.sim.loads:
            o, js = self.sim.loads[a]
            js = [self.poly(j) for j in js]
            v = None if None in js else self.get(o, js)
            return None if v is None or v != int(v) else int(v)
        if k[0] == 'b2i':
            c = self.e.inst_by_id(k[1])
            if c.op != 'icmp' or not c.ops[0].ty.is_int():
                return None
            x, y = (self.poly(self.e.sym(o)) for o in c.ops)
            if x is None or y is None or c.x[0] == 'u' and (x < 0 or y < 0):
                return None
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y,
                        'le': x <= y}[c.x[-2:]])
        if k[0] == 'zext':
            v = self.poly(k[1])
            return v if v is not None and v >= 0 else None
        if k[0] == 'first':
            return self.first(k[1])
        if k[0] == 'rv' and a in self.sim.values:
            if a in self.memo:
                return self.memo[a]
            v = self.ev(self.sim.values[a])
            v = int(v) if v is not None and v == int(v) else None
            if not self.e._deps(Poly.atom(a)) & set(self.iv):
                self.memo[a] = v
            return v
        return None

    def first(self, g):
        """The first iteration in which the body of a sum is not zero."""
        _, iv, body, hi, _ = self.sim.ghosts[g]
        n = self.poly(hi)
        if n is None:
            return None
        old = self.iv.get(iv)
        try:
            for j in range(n):
                self.iv[iv] = j
                x = self.ev(body)
                if x is None or mp.isnan(x):
                    return None
                if abs(x) > .5:
                    return j
        finally:
            self.iv.pop(iv, None)
            if old is not None:
                self.iv[iv] = old
        return None

    def unfold(self, kind, n):
        m, j = (int(x) for x in kind[3:].split('.'))
        inits, steps, iv = self.sim.recs[m]
        now = [self.ev(x) for x in inits]
        old, olds = self.iv.get(iv), self.st.get(m)
        try:
            for t in range(max(n, 0)):
                self.iv[iv] = t
                self.st[m] = now
                now = [self.ev(x) for x in steps]
        finally:
            self.st[m] = olds
            if old is None:
                self.iv.pop(iv, None)
            else:
                self.iv[iv] = old
        return now[j]

    def atom(self, a):
        if a[0] == 'out':
            p = self.carry(a[1], tuple(j if j == 'im' else self.poly(j) for j in a[2]))
            v = None if None in p or self.mem is None else self.mem.get((a[1],) + p)
            if v is None and None not in p and self.mem is not None:
                v = mp.mpf(0) if a[1] >= HEAP else self.before((a[1],) + p)
            return None if isinstance(v, str) else v
        if a == ('inf',):
            return HUGE
        if a == ('nan',):
            self.nans = True
            return mp.nan
        if a[0] == 'st':
            return self.st[a[1]][a[2]]
        if a[0] == 'pa':
            v = self.patom(a[1])
            return None if v is None else mp.mpf(v)
        if a[0] == 'el':
            js = [self.poly(j) for j in a[2]]
            v = None if None in js else self.get(a[1], js, len(a) > 3)
            self.tainted |= v is not None and abs(v) == HUGE
            return v
        if a[0] == 'gh':
            kind, iv, body, hi, base = self.sim.ghosts[a[1]]
            n = self.poly(hi)
            if n is None:
                return None
            if kind[:3] == 'REC':
                return self.unfold(kind, n)
            v = self.ev(base)
            if v is None:
                return None
            old = self.iv.get(iv)
            try:
                for j in range(max(n, 0)):
                    self.iv[iv] = j
                    x = self.ev(body)
                    if x is None:
                        return None
                    if mp.isnan(x) and kind in ('MAX', 'MIN'):
                        return None
                    v = v + x if kind == 'SUM' else v * x if kind == 'PROD' else \
                        max(v, x) if kind == 'MAX' else min(v, x)
            finally:
                if old is None:
                    self.iv.pop(iv, None)
                else:
                    self.iv[iv] = old
            return v
        if a[0] == 'fn':
            args = self.sim.fnargs.get(a, [])
            if a[1][:3] == 'ite':
                old = self.tainted
                c = self.ev(args[0])
                self.tainted = old
                if c is None or mp.isnan(c):
                    return None
                r = 'E' if abs(c) < 1e-25 else 'G' if c > 0 else 'L'
                return self.ev(args[1] if r in a[1][3:] else args[2])
            vs = [self.ev(x) for x in args]
            if a[1] == 'sqrt' and vs[0] is not None and -1e-25 < vs[0] < 0:
                return mp.mpf(0)
            if None in vs:
                return None
            if a[1] == 'zero':
                return vs[0]*0
            if any(mp.isnan(v) for v in vs):
                return None
            if a[1] == 'log' and vs[0] == 0 or a[1] == 'pow' and vs[0] == 0 and vs[1] < 0:
                self.tainted = True
                return mp.nan       # not finite
            return apply(a[1], vs)
        return None

    def ev(self, x):
        def p(q):
            t = mp.mpf(0)
            for m, c in q.items():
                y = mp.mpf(c.numerator) / c.denominator
                for a, k in m:
                    v = self.atom(a)
                    if v is None or v == 0 and k < 0 or k < 0 and mp.isnan(v):
                        return None
                    y *= v ** k
                t += y
            return t
        n = p(x.n)
        if n is None or x.d == {(): 1}:
            return n
        d = p(x.d)
        return None if d is None or mp.isnan(d) or abs(d) < mp.mpf(10) ** -36 else n / d

    def holds(self, c):
        if c[0] == 'or':
            hs = [[self.holds(x) for x in alt] for alt in c[2]]
            if any(all(h) for h in hs):
                return True
            return None if any(None in h and False not in h for h in hs) else False
        v = self.ev(c[1])
        if v is None or mp.isnan(v):
            return None
        if c[0] == 'class':
            m = 384 if v > 0 else 24 if v < 0 else 96
            return bool(m & c[2]) == c[3]
        return ('E' if abs(v) < 1e-25 else 'G' if v > 0 else 'L') in c[2]

    def value(self, r):
        """A number, 'nan', 'inf', '-inf', or None (not defined), or '?'."""
        if r == NAN:
            return 'nan'
        if r in INFS:
            return 'inf' if r[1] > 0 else '-inf'
        x = self.sim.alg(r) if r[0] != '?' else None
        if x is None or any(a[0] == 'acc' or a[0] == 'out' and self.mem is None
                            for a in self.sim.deep(x)):
            return '?'
        self.tainted = self.nans = False
        v = self.ev(x)
        if self.nans and not self.tainted and v is not None and mp.isnan(v):
            return 'nan'
        if self.tainted and v is not None and x == Rat.atom(next(iter(self.sim.deep(x)))):
            return 'inf' if v > 0 else '-inf'
        return 'not finite' if v is not None and (mp.isnan(v) or self.tainted) else v

    def results(self, stores):
        """{(operand, position): value} after the stores of a path."""
        out = {}
        for s in stores:
            if s[0] == 'MEM':
                n = self.poly(s[2])
                if n is None:
                    return None
                init, made, iv = self.sim.mems[s[1]]
                out = self.results(init)
                old, self.mem = self.mem, out
                for t in range(n):
                    self.iv[iv] = t
                    new = self.results(made) if out is not None else None
                    out = None if new is None else {**out, **new}
                    self.mem = out
                self.iv.pop(iv, None)
                self.mem = old
                if out is None:
                    return None
                continue
            if s[0] in ('CPY', 'SET'):
                if not self.copy(out, *s[1:]):
                    return None
                continue
            o, js, v = s[:3]
            if js is None or not self.bind(out, o, js, v, s[3] if len(s) > 3 else (),
                                           s[4] if len(s) > 4 else ()):
                return None
        return out

    def before(self, k):
        """What an output holds before the call."""
        return mp.mpf(random.Random(repr((k, len(self.arr)))).randint(-9, 9))

    def copy(self, out, o, src, length):
        """A copy of a whole operand."""
        mine = [self.dims[d] for d in self.u.lay.opdims[o]]
        pos = [()]
        for n in mine:
            pos = [p + (k,) for p in pos for k in range(n)]
        shape, vals, _ = self.arr[src] if src is not None else (mine, [mp.mpf(0)] * len(pos), 0)
        if not self.contig or shape != mine or self.poly(length) != len(vals) * self.u.lay.size[o]:
            return False
        out.update({(o,) + p: v for p, v in zip(pos, vals)})
        return True

    def bind(self, out, o, js, v, loops, conds=()):
        if not loops:
            hs = [self.holds(c) for c in conds]
            if False in hs:
                return True
            if None in hs:
                return False
            p = self.carry(o, tuple(j if j == 'im' else self.poly(j) for j in js))
            out[(o,) + p] = self.value(v)
            return None not in p
        (iv, T), rest = loops[0], loops[1:]
        n = self.poly(T)
        if n is None:
            return False
        for i in range(n):
            self.iv[iv] = i
            ok = self.bind(out, o, js, v, rest, conds)
            del self.iv[iv]
            if not ok:
                return False
        return True


# ------------------------------------------------------------- specifications
def _mean(x):
    return sum(x) / len(x)


def _meanvar(S):
    x, ddof = S.seq(0), S.seq(1)[0]
    n = len(x)
    m = _mean(x) if x else None
    if n == ddof or not n:
        return None
    return {(2, 0): m, (2, 1): sum((v - m) ** 2 for v in x) / (n - ddof)}


def _mods(S):
    return [mp.sqrt(a * a + b * b) for a, b in zip(S.seq(0), S.seq(0, 1))] \
        if S.cplx else [abs(v) for v in S.seq(0)]


def _vnorm(S):
    x, p = _mods(S), S.seq(1)[0]
    if S.case == 'order == inf':
        return {(2,): max(x + [mp.mpf(0)])}
    if p <= 0:
        return {(2,): 'nan'}
    s = sum((v ** p for v in x), mp.mpf(0))
    return {(2,): s ** (1 / p) if s else mp.mpf(0)}


def _rms(S):
    x = _mods(S)
    return {(1,): mp.sqrt(sum(v * v for v in x) / len(x))} if x else None


def _kbnsum(S):
    r = {(1,): sum(S.seq(0), mp.mpf(0))}
    if S.cplx:
        r[1, 'im'] = sum(S.seq(0, 1), mp.mpf(0))
    return r


def _pearson(S):
    x, y = S.seq(0), S.seq(1)
    if len(x) < 2:
        return None
    mx, my = _mean(x), _mean(y)
    sx, sy = sum((v - mx) ** 2 for v in x), sum((v - my) ** 2 for v in y)
    if sx < 1e-25 or sy < 1e-25:
        return {(2,): 'nan'}
    return {(2,): sum((a - mx) * (b - my) for a, b in zip(x, y)) / mp.sqrt(sx * sy)}


def _wjaccard(S):
    x, y = S.seq(0), S.seq(1)
    if not x:
        return None
    a, b = sum(map(min, zip(x, y))), sum(map(max, zip(x, y)))
    return {(2,): 'nan' if a == b == 0 else '-inf' if b == 0 else a / b}


def _logbeta(S):
    x = S.seq(0)
    if not x:
        return {(1,): 'nan'}
    return {(1,): sum(mp.loggamma(v) for v in x) - mp.loggamma(sum(x))}


def _percentile(S):
    x, s, k = S.seq(0), S.seq(1)[0], int(S.seq(2)[0])
    n = len(x)
    if n == 0:
        return None
    lt, le = sum(v < s for v in x), sum(v <= s for v in x)
    eq = le - lt
    r = {0: (lt + le + (1 if eq else 0)) * mp.mpf(50) / n, 1: le * mp.mpf(100) / n,
         2: lt * mp.mpf(100) / n, 3: (lt + le) * mp.mpf(50) / n}
    return {(3,): r.get(k, 'nan')}


def _softmax(S):
    x = S.seq(0)
    t = sum(mp.exp(v) for v in x)
    return {(1, j): mp.exp(v) / t for j, v in enumerate(x)}


def _area(ps):
    d = [[b - a for a, b in zip(ps[0], ps[i])] for i in (1, 2)]
    g = [[sum(a * b for a, b in zip(u, v)) for v in d] for u in d]
    q = g[0][0] * g[1][1] - g[0][1] ** 2
    return mp.sqrt(max(q, mp.mpf(0))) / 2


def _tri_area(S):
    n = S.dims['n']
    x = S.seq(0)
    if n == 0:
        return {(1,): mp.mpf(0)}
    return {(1,): _area([x[k * n:(k + 1) * n] for k in range(3)])}


def _vdot(S):
    return {(2,): sum((a * b for a, b in zip(S.seq(0), S.seq(1))), mp.mpf(0))}


def _gmean(S, w=None):
    x = S.seq(0)
    w = w or [mp.mpf(1)] * len(x)
    if not x:
        return None
    if min(x) < 0:
        return 'nan'
    if min(x) == 0:
        return mp.mpf(0)
    return mp.exp(sum(b * mp.log(a) for a, b in zip(x, w)) / sum(w))


def _hmean(S, w=None):
    x = S.seq(0)
    w = w or [mp.mpf(1)] * len(x)
    if not x:
        return None
    if 0 in x:
        return mp.mpf(0)
    s = sum(b / a for a, b in zip(x, w))
    return None if abs(s) < 1e-25 else sum(w) / s


def _pmean(S, w=None):
    x, p = S.seq(0), S.seq(1 if w is None else 2)[0]
    w = w or [mp.mpf(1)] * len(x)
    if not x:
        return None
    if p == 0:
        return _gmean(S, w)
    if p == -1:
        return _hmean(S, w)
    if min(x) < 0:
        return 'nan'
    if min(x) == 0 and p < 0:
        return mp.mpf(0)
    s = sum(b * a ** p for a, b in zip(x, w) if a) / sum(w)
    return s ** (1 / p) if s else mp.mpf(0)


def _plain(f):
    def g(S):
        v = f(S)
        return None if v is None else {(S.u.lay.nin,): v}
    return g


def _weighted(f):
    return _plain(lambda S: f(S, S.seq(1)))


def _peak(S):
    x = S.seq(0)
    return max(x) - min(x) if x else None


def _msq(S):
    x = S.seq(0)
    return {(1,): sum(v * v for v in x) / len(x)} if x else None


def _backlash(S):
    h, y, r = S.seq(1)[0] / 2, S.seq(2)[0], {}
    for k, x in enumerate(S.seq(0)):
        y = max(x - h, min(x + h, y))
        r[3, k] = y
    return r if h >= 0 else None


def _unwrap(S):
    x, p = S.seq(0), S.seq(1)[0]
    r = {}
    if S.case == INFINITE and any(abs(v) == HUGE for v in x[:1]):
        return None
    for k, v in enumerate(x):
        if abs(v) == HUGE:
            r.update({(2, j): 'nan' for j in range(k, len(x))})
            return r
        if k:
            d = v - r[2, k - 1]
            q = abs(d / p) + mp.mpf(1) / 2 if p else 0
            if not p or abs(q - mp.nint(q)) < 1e-20:
                return None
            v -= mp.sign(d / p) * mp.floor(q) * p
        r[2, k] = v
    return r


def _nextn(sign):
    def f(S):
        x, r = S.seq(0)[0], {}
        for k in range(S.dims['n']):
            x = r[1, k] = apply('nextafter', [x, sign * mp.mpf(10) ** 30])
        return r
    return f


def _base(S):
    k, b = int(S.seq(0)[0]), int(S.seq(1)[0])
    r = {}
    for i in range(S.dims['ndigits' if 'ndigits' in S.dims else 'n']):
        r[2, i] = mp.mpf(k % b)
        k //= b
    return r


def _backlash_sum(S):
    w, h, y = S.seq(1), [d / 2 for d in S.seq(2)], S.seq(3)
    r = {}
    for k, x in enumerate(S.seq(0)):
        y = [max(x - a, min(x + a, b)) for a, b in zip(h, y)]
        r[4, k] = sum((a * b for a, b in zip(w, y)), mp.mpf(0))
    r.update({(5, j): v for j, v in enumerate(y)})
    return r


def _sos(S):
    m, ic = S.dims['m'], S.u.lay.nin > 2
    sos = [S.seq(0)[6 * k:6 * k + 6] for k in range(m)]
    z = [S.seq(2)[2 * k:2 * k + 2] if ic else [mp.mpf(0)] * 2 for k in range(m)]
    r = {}
    for i, x in enumerate(S.seq(1)):
        for (b0, b1, b2, _, a1, a2), s in zip(sos, z):
            y = b0 * x + s[0]
            s[0] = s[1] + b1 * x - a1 * y
            s[1] = b2 * x - a2 * y
            x = y
        r[S.u.lay.nin, i] = x
    if ic:
        r.update({(4, k, c): z[k][c] for k in range(m) for c in (0, 1)})
    return r


def _bincount(S):
    m, w = S.dims['m'], S.u.lay.nin > 1
    r = {}
    for part in ((), ('im',)) if S.u.loop.types[-1] in (14, 15) else ((),):
        for j in range(m):
            k = (S.u.lay.nin, j) + part
            r[k] = S.before(k)
        ws = S.seq(1, len(part)) if w else [1] * S.dims['n']
        for v, c in zip(S.seq(0), ws):
            if 0 <= v < m:
                r[(S.u.lay.nin, int(v)) + part] += c
    return r


def _delay(S):
    n, m, x = S.dims['n'], S.dims['m'], [mp.mpf(0)] * S.dims['m'] + S.seq(0)
    r = {(1, i): x[i] for i in range(n)}
    r.update({(2, k): x[n + m - 1 - k] for k in range(m)})
    return r


def _one_hot(S):
    x = S.seq(0)[0]
    return {(1, k): mp.mpf(k == x) for k in range(S.dims['n'])}


def _tri_indexed(S):
    n, m, x, i = S.dims['n'], S.dims['m'], S.seq(0), S.seq(1)
    if any(not -m <= k < m for k in i):
        return {(2,): 'nan'}
    i = [int(k) % m for k in i]
    return {(2,): _area([x[k * n:(k + 1) * n] for k in i]) if n else mp.mpf(0)}


def _positive(r, d):
    return r.choice([r.uniform(.1, 1), r.uniform(1, 4), 1, 2])


def _nonneg(r, d):
    return r.choice([r.uniform(.1, 2), r.uniform(.1, 2), 1, 2, 2, 2, r.choice([0, 1, -1])])


def _power(r, d):
    return r.choice([1, 2, -1, -2, .5, 0, mp.mpf(10) ** -7, -mp.mpf(10) ** -7, 3])


def _choice(*xs):
    return lambda r, d: r.choice(xs)


# name: (operands, [(case, {operand: how it is drawn})], definition)
SPECS = {
    'meanvar': ('x ddof', [('', {1: _choice(0, 1)})], _meanvar),
    'vnorm': ('x order', [('order == inf', {}), ('0 < order < inf', {1: _choice(1, 2, 3, .5)}),
                          ('order < 0', {1: _choice(-1, -.5)}), ('order == 0', {1: _choice(0)})],
              _vnorm),
    'rms': ('x', [('', {})], _rms),
    'vdot': ('x y', [('', {})], _vdot),
    'kbnsum': ('x', [('', {})], _kbnsum),
    'pearson_corr': ('x y', [('', {})], _pearson),
    'wjaccard': ('x y', [('', {})], _wjaccard),
    'multivariate_logbeta': ('x', [('', {0: _positive})], _logbeta),
    'percentileofscore': ('x score kind', [('', {2: _choice(0, 1, 2, 3, 4, -1)})], _percentile),
    'softmax': ('x', [('', {})], _softmax),
    'tri_area': ('p', [('', {})], _tri_area),
    'gmean': ('x', [('', {0: _nonneg})], _plain(_gmean)),
    'gmeanw': ('x w', [('', {0: _nonneg, 1: _positive})], _weighted(_gmean)),
    'hmean': ('x', [('', {})], _plain(_hmean)),
    'hmeanw': ('x w', [('', {1: _positive})], _weighted(_hmean)),
    'pmean': ('x p', [('', {0: _nonneg, 1: _power})], _plain(_pmean)),
    'pmeanw': ('x w p', [('', {0: _nonneg, 1: _positive, 2: _power})], _weighted(_pmean)),
    'peaktopeak': ('x', [('', {})], _plain(_peak)),
    'tri_area_indexed': ('p i', [('', {})], _tri_indexed),
    'good_p21': ('x', [('', {})], _msq),
    'bad_p21': ('x', [('', {})], _msq),
}


FILTERS = {
    'backlash': ('x deadband initial', [('', {1: _positive})], _backlash),
    'backlash_sum': ('x w deadband initial', [('', {2: _positive})], _backlash_sum),
    'sosfilter': ('sos x', [('', {})], _sos),
    'sosfilter_ic': ('sos x zi', [('', {})], _sos),
    'sosfilter_ic_contig': ('sos x zi', [('', {})], _sos),
    'bincount': ('x', [('', {})], _bincount),
    'bincountw': ('x w', [('', {})], _bincount),
    'one_hot': ('x', [('', {})], _one_hot),
    'unwrap': ('x period', [('', {1: _positive}), (INFINITE, {1: _positive})], _unwrap),
    'nextn_greater': ('x', [('', {})], _nextn(1)),
    'nextn_less': ('x', [('', {})], _nextn(-1)),
    'convert_to_base': ('k base', [('', {0: _choice(0, 1, 5, 27, 100), 1: _choice(2, 3, 10)})],
                        _base),
    'good_p22': ('x', [('', {})], _delay),
    'bad_p22': ('x', [('', {})], _delay),
}
# functions that update their output
UPDATES = ('bincount', 'bincountw')


def row_loops(u):
    """The outermost loops in which the outputs are stored."""
    e, out = u.eng, []
    for a in u.acc:
        if a.kind == 'opnd' and a.opnd >= u.lay.nin and a.rw == 'w':
            L = e.cfg.loop_of.get(a.blk)
            while L is not None and L.parent is not None:
                L = L.parent
            if L is None:
                raise Undecided('a store outside of the loop over the rows')
            if L not in out:
                out.append(L)
    return out


def sizes(u):
    names = [d for d in dict.fromkeys(u.lay.dimnames) if not d.isdigit()]
    fixed = {d: int(d) for d in u.lay.dimnames if d.isdigit()}
    return names, fixed


def near(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def p21(u):
    decide(u, 'P21', SPECS, 'quantity')


def p22(u):
    decide(u, 'P22', FILTERS, 'recurrence')


def decide(u, pid, specs, rule):
    if u.loop is None or u.name not in specs:
        return
    text, table, define = specs[u.name]
    if u.loop.types[0] in (17, 23):
        return
    names = {n: el(k) for k, n in enumerate(text.split())}
    try:
        loops = row_loops(u)
    except Undecided as ex:
        u.add(pid, 'not-decided', True, None, str(ex))
        return
    for L in loops:
        for cond, pools in table:
            for rels in cases('' if cond == INFINITE else cond, names):
                try:
                    judge(u, L, rels, cond, pools, define, pid, rule)
                except (Undecided, TooBig, ZeroDivisionError, RecursionError) as ex:
                    u.add(pid, 'not-decided', True, None, '%s: %s' % (cond, ex))


def thresholds(f):
    """Sizes near the integers that a function compares with or divides by."""
    out = set()
    for i in f.insts():
        if i.op in ('icmp', 'urem', 'srem', 'and'):
            for o in i.ops:
                if isinstance(o, ir.Const) and o.kind == 'int' and 4 < o.val <= 64:
                    out |= {o.val - 1, o.val, o.val + 1, o.val + 2}
    return sorted(out)


ROOTS = ('tri_area', 'rms', 'pearson_corr')


def judge(u, L, rels, cond, pools, define, pid, rule):
    sim = Red(u, L, rels)
    sim.infs = cond == INFINITE
    odd = thresholds(u.fn)
    sim.marks = landmarks(u.fn)
    rng = random.Random(repr((u.name, cond)))
    names, fixed = sizes(u)

    def sample():
        r = random.Random(1)
        for _ in range(30):
            S = Sample(sim, u, {**fixed, **{d: r.randint(1, 5) for d in names}}, r, None, pools)
            if legal(u, S):
                yield S
    sim.sample = sample
    outs = [o for o in sim.run(L.header, 'iterate') if o[0] == 'next']
    if not outs:
        raise Undecided('no path')
    stat = [dict(n=0, bad=0, unk=0, ex=None) for _ in outs]
    for t in range(800):
        if t >= (240 if odd else 160) and not any(st['bad'] == 1 for st in stat):
            break
        dims = dict(fixed)
        for d in names:
            dims[d] = rng.choice([0, 1, 2, 3, 4, 5, 6] if t % 4 else [1, 2, 3])
        if odd and t % 4 == 1:
            dims[rng.choice(names)] = rng.choice(odd)
        S = Sample(sim, u, dims, rng, None, pools)
        S.cplx = u.loop.types[0] in (14, 15, 16)
        S.case = cond
        if sim.infs:
            vals = S.arr[0][1]
            for k in range(len(vals)):
                if rng.random() < .2:
                    vals[k] = rng.choice([HUGE, -HUGE])
        if not legal(u, S):
            continue
        want = define(S)
        if want is None:
            continue
        for o, st in zip(outs, stat):
            h = [S.holds(c) for c in o.pc]
            if False in h:
                continue
            if None in h:
                st['unk'] += 1
                continue
            if st['n'] + st['unk'] > (40 if t < 160 or st['bad'] != 1 else 400):
                continue
            got = S.results(o[2])
            if got is None:
                st['unk'] += 1
                continue
            unk = False
            for k, w in want.items():
                if k not in got:
                    g = S.before(k) if u.name in UPDATES else '?'
                else:
                    g = got[k]
                if g == '?' or g is None or g == 'not finite' and isinstance(w, str):
                    unk = True
                elif not near(g, w):
                    st['bad'] += 1
                    st['ex'] = (dims, S, k, g, w)
                    break
            else:
                st['unk'] += unk
            st['n'] += 1
    txt = cond or 'every input'
    for root, x, a, pc, bad in sim.roots:
        hits, ex = 0, None
        for t in range(0 if bad else 200):
            S = Sample(sim, u, {**fixed, **{d: rng.choice([1, 1, 2, 3]) for d in names}}, rng, None,
                       pools)
            if legal(u, S) and all(S.holds(c) is True for c in pc):
                v, w = S.ev(x), S.ev(a)
                if v is not None and w is not None and abs(v) < 1e-25 and abs(w) > 1e-3:
                    hits, ex = hits + 1, S
        if hits >= 3:
            u.add(pid, 'square-root', False, root, 'a difference of rounded values under the '
                  'square root is 0 for some inputs, so rounding can make the argument negative '
                  '(operands %s)' % [[num(v) for v in ex.seq(i)] for i in ex.arr])
            return
    if sim.roots or u.name in ROOTS:
        u.add(pid, 'square-root', True, None)
    for o, st in zip(outs, stat):
        if st['bad'] >= 2 and o.precise and not st['unk'] > st['n'] // 2:
            dims, S, k, g, w = st['ex']
            u.add(pid, rule, False, L.header.insts[0],
                  'what is computed is not the documented quantity (%s): with %s, operands %s, '
                  'it is %s, not %s' % (txt, ', '.join('%s = %d' % x for x in dims.items()),
                                        [[num(v) for v in S.seq(i)] for i in S.arr],
                                        num(g), num(w)))
            return
    if all(not st['bad'] and not st['unk'] for st in stat) and any(st['n'] for st in stat):
        u.add(pid, rule, True, None)
    else:
        u.add(pid, 'not-decided', True, None, '%s: %s' % (
            txt, [(st['n'], st['bad'], st['unk'], o.precise) for o, st in zip(outs, stat)]))


def num(v):
    if isinstance(v, str):
        return v
    return ('inf' if v > 0 else '-inf') if abs(v) == HUGE else mp.nstr(v, 5)


def legal(u, S):
    """The shape hook accepts the dimensions."""
    for f in u.eng.root_facts:
        v = S.poly(f[1]) if f[0] in ('ge', 'eq', 'ne') else None
        if v is not None and (f[0] == 'ge' and v < 0):
            return False
    return True
