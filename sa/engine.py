"""Abstract interpretation of one LLVM function over symbolic linear facts.

Integer and pointer SSA values become polynomials over atoms (operand base
pointers, dimensions, steps, loop iteration counters, canonical loads of
read-only memory, opaque values).  Facts come from dominating branches, from
value ranges implied by types, and from inductive loop invariants that are
inferred by iterated elimination (a greatest fixpoint over a finite candidate
set).  Questions `p >= 0 at this point` are decided in the linear-inequality
domain, with case splits over control-flow joins.
"""
import re
from . import ir
from .cfg import CFG
from .sym import Atoms, Poly, ZERO, ONE, infeasible

INF = float('inf')
ALLOC = {'malloc': 'm', 'calloc': 'c', 'PyMem_Malloc': 'm', 'PyMem_RawMalloc': 'm',
         'PyMem_Calloc': 'c', 'PyMem_RawCalloc': 'c', 'PyObject_Malloc': 'm',
         '_Znwm': 'm', '_Znam': 'm', 'PyArray_malloc': 'm', 'realloc': 'r',
         'aligned_alloc': 'a', '_ZnamRKSt9nothrow_t': 'm', '_ZnwmRKSt9nothrow_t': 'm'}
VEC_RE = re.compile(r'^_ZNSt6vectorI([a-z])SaI[a-z]EE(6resizeEm|C[12]Em|6assignEm|aSEOS)')
VEC_SIZE = {'f': 4, 'd': 8, 'e': 16, 'l': 8, 'i': 4, 'm': 8, 'j': 4, 'c': 1, 'h': 1, 'a': 1,
            's': 2, 't': 2}


def callee_name(ins):
    c = ins.ops[0]
    if isinstance(c, ir.Const) and c.kind == 'global':
        return c.val
    if isinstance(c, ir.Const) and c.kind == 'asm':
        return 'asm'
    return None


def OR(*alts):
    return ('or', tuple(tuple(a) for a in alts))


class Ctx:
    """A program point: facts from the nearest to the root, plus pending joins."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def plus(self, facts):
        return Ctx(list(facts) + self.items)


class Engine:
    def __init__(self, fn, nin=0, nargs=0, mode='loop', hook_facts=(), fixed_dims=None,
                 const_steps=None):
        self.fn, self.mod = fn, fn.mod
        self.nin, self.nargs, self.mode = nin, nargs, mode
        self.cfg = CFG(fn)
        self.A = Atoms()
        self._sym, self._busy = {}, set()
        self._ctx, self._edge = {}, {}
        self._joinrel = {}
        self.invs = {}              # loop -> list of polys >= 0 (assumed invariants)
        self.dinvs = {}             # loop -> [('or', ...)]: X == init, or a bound
        self.phi_bounds = {}        # atom -> [polys >= 0]
        self.hook_facts = list(hook_facts)   # functions of engine -> fact
        self.fixed_dims = fixed_dims or {}
        self.root_facts = []        # facts that hold at the function's entry
        self._prove_cache = {}
        self._pure_cache = {}
        self.extra_axioms = []      # callables (engine, atom id, key) -> facts
        self.nprove = 0
        self.heap = {}              # atom -> (size poly, zeroed)
        for j, c in (const_steps or {}).items():
            self.root_facts.append(('eq', self.patom(('step', j)) - c))
        self.latch_of = {l.header: l for l in self.cfg.loops}
        for l in self.cfg.loops:
            self.invs[l] = []
        self._houdini_done = False

    # ------------------------------------------------------------------ atoms
    def atom(self, key, deps=(), home=None):
        return self.A.get(key, deps, home)

    def patom(self, key, deps=(), home=None):
        return Poly.atom(self.A.get(key, deps, home))

    def key(self, a):
        return self.A.keys[a]

    def iv(self, loop):
        return self.patom(('iv', loop.header.id), home=loop.header)

    def show(self, p):
        if p is None:
            return '?'
        out = []
        for k, v in sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
            names = [self.aname(a) for a in k]
            c = str(v) if (not names or v not in (1, -1)) else ('' if v == 1 else '-')
            out.append('*'.join(([c] if c not in ('', '-') else []) + names)
                       if c != '-' else '-' + '*'.join(names))
        return ' + '.join(out) if out else '0'

    def aname(self, a):
        k = self.key(a)
        if k[0] == 'opnd':
            return 'args[%d]' % k[1]
        if k[0] == 'dim':
            return 'dimensions[%d]' % k[1]
        if k[0] == 'step':
            return 'steps[%d]' % k[1]
        if k[0] == 'iv':
            return 'iter(%s)' % self.fn.blocks[k[1]].name
        if k[0] == 'v':
            return '%' + str(k[2])
        if k[0] == 'ld':
            return 'load[%s]' % self.show(k[1])
        if k[0] in ('zext', 'trunc', 'wrap'):
            return '%s(%s)' % (k[0], self.show(k[1]))
        if k[0] in ('sdiv', 'srem', 'ashr', 'lshr', 'and'):
            return '(%s %s %s)' % (self.show(k[1]), k[0], self.show(k[2]))
        return str(k[:2])

    # ------------------------------------------------------------- evaluation
    def opaque(self, v):
        return self.patom(('v', v.id, v.name), home=v.blk)

    def sym(self, v):
        """Polynomial of an integer or pointer value."""
        if isinstance(v, ir.Const):
            return self._sym_const(v)
        if isinstance(v, ir.Arg):
            return self.patom(('arg', v.idx))
        p = self._sym.get(v)
        if p is None:
            if v in self._busy:
                return self.opaque(v)
            self._busy.add(v)
            try:
                p = self._eval(v)
            finally:
                self._busy.discard(v)
            self._sym[v] = p
        return p

    def _sym_const(self, c):
        if c.kind == 'int':
            return Poly.const(c.val)
        if c.kind in ('null', 'zero'):
            return ZERO
        if c.kind == 'global':
            return self.patom(('glob', c.val))
        if c.kind == 'gep':
            return self._gep(c.val[0], c.val[1])
        if c.kind == 'cast':
            return self.sym(c.val[1])
        if c.kind in ('undef', 'poison'):
            return self.patom(('undef',))
        return self.patom(('const', id(c)))

    def _gep(self, ty, ops):
        p = self.sym(ops[0]) + self.sym(ops[1]) * ir.sizeof(ty)
        t = ty
        for o in ops[2:]:
            if t.k == 'struct':
                i = o.val
                p = p + ir.field_offset(t, i)
                t = t.fields[i]
            else:
                t = t.elt
                p = p + self.sym(o) * ir.sizeof(t)
        return p

    def base_of(self, p):
        """(base atom, offset poly) when exactly one pointer atom occurs, linearly."""
        cand = []
        for k, v in p.t.items():
            if len(k) == 1 and v == 1 and self.is_ptr_atom(k[0]):
                cand.append(k[0])
        if len(cand) == 1:
            return cand[0], p - Poly.atom(cand[0])
        return None, p

    def is_ptr_atom(self, a):
        k = self.key(a)
        if k[0] in ('opnd', 'glob', 'alloca', 'heap', 'vec', 'undef'):
            return True
        if k[0] == 'arg':
            return self.fn.args[k[1]].ty.k == 'ptr'
        if k[0] == 'v':
            return self.inst_by_id(k[1]).ty.k == 'ptr'
        if k[0] == 'ld':
            return k[2] == 'ptr'
        return False

    def inst_by_id(self, i):
        if not hasattr(self, '_byid'):
            self._byid = {x.id: x for x in self.fn.insts()}
        return self._byid[i]

    def readonly(self, a):
        """Memory designated by base atom a is never written while the function runs."""
        k = self.key(a)
        if k[0] == 'opnd':
            return k[1] < self.nin
        if k[0] == 'glob':
            g = self.mod.globals.get(k[1])
            return g is not None and g.const
        return False

    def load_key(self, ins):
        """Canonical key (tuple) for a load from read-only memory, else None."""
        p = self.sym(ins.ops[0])
        b, off = self.base_of(p)
        if b is not None and self.readonly(b):
            return ('ld', p, repr(ins.ty))
        return None

    def _eval(self, v):
        op = v.op
        if op in ('add', 'sub', 'mul'):
            a, b = self.sym(v.ops[0]), self.sym(v.ops[1])
            if v.ty.k != 'int':
                return self.opaque(v)
            p = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if 'nsw' not in v.flags and not p.is_const() and \
                    (v.ty.n < 64 or self._wide_data(p)):
                return self.narrow(p, v.ty.n)
            return p
        if op == 'gep':
            return self._gep(v.x, v.ops)
        if op == 'sext':
            s = v.ops[0]
            if s.ty.k == 'int' and s.ty.n == 1:
                return -self.b2i(s)
            return self.sym(s)
        if op == 'zext':
            s = v.ops[0]
            if s.ty.k == 'int' and s.ty.n == 1:
                return self.b2i(s)
            p = self.sym(s)
            if p.is_const():
                c = p.cval()
                return Poly.const(c if c >= 0 else c + (1 << s.ty.n))
            if 'nneg' in v.flags or self._nonneg_type(p):
                return p
            return self.patom(('zext', p, s.ty.n), p.atoms() | self._deps(p), self._home(p))
        if op == 'trunc':
            s = v.ops[0]
            if isinstance(s, ir.Inst) and s.op in ('sext', 'zext') and s.ops[0].ty.n <= v.ty.n:
                if s.ops[0].ty.n == v.ty.n:
                    return self.sym(s.ops[0])
                return self.sym(s)
            p = self.sym(s)
            if v.ty.n == 1:
                return self.opaque(v)
            if p.is_const():
                c = p.cval() & ((1 << v.ty.n) - 1)
                return Poly.const(c - (1 << v.ty.n) if c >> (v.ty.n - 1) else c)
            return self.narrow(p, v.ty.n)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            if v.ops[0].ty is not None and (v.ops[0].ty.is_int() or v.ops[0].ty.k == 'ptr'):
                return self.sym(v.ops[0])
            return self.opaque(v)
        if op == 'shl':
            b = self.sym(v.ops[1])
            if b.is_const() and 0 <= b.cval() < 63:
                return self.sym(v.ops[0]) * (1 << b.cval())
            return self.opaque(v)
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and'):
            a, b = self.sym(v.ops[0]), self.sym(v.ops[1])
            if op in ('sdiv', 'udiv') and b.is_const() and b.cval() > 0:
                q = a.div(b.cval())
                if q is not None and 'exact' in v.flags:
                    return q
            if op == 'ashr' and 'exact' in v.flags and b.is_const():
                q = a.div(1 << b.cval())
                if q is not None:
                    return q
            if op == 'and' and b.is_const() and v.ty.n > 8:
                # the remainder or the multiple of a power of two
                m = b.cval()
                low = m & (m + 1) == 0 and m > 0
                c = m + 1 if low else -m
                if (low or m < 0 and c & (c - 1) == 0) and 1 < c < 1 << 32:
                    q = self.patom(('ashr', a, Poly.const(c.bit_length() - 1), v.ty.n),
                                   a.atoms() | self._deps(a), self._home(a))
                    return a - q * c if low else q * c
            kind = {'udiv': 'sdiv', 'urem': 'srem'}.get(op, op)
            return self.patom((kind, a, b, v.ty.n), a.atoms() | b.atoms() |
                              self._deps(a) | self._deps(b), self._home(a, b))
        if op == 'load':
            return self._load(v)
        if op == 'phi':
            return self._phi(v)
        if op == 'select':
            a, b = self.sym(v.ops[1]), self.sym(v.ops[2])
            if a == b:
                return a
            return self.opaque(v)
        if op == 'alloca':
            return self.patom(('alloca', v.id, v.name))
        if op in ('call', 'invoke'):
            n = callee_name(v)
            if n and n.startswith('llvm.threadlocal.address'):
                return self.sym(v.ops[1])
            if n in ALLOC:
                a = self.atom(('heap', v.id, v.name), home=v.blk)
                k = ALLOC[n]
                args = v.ops[1:]
                if k == 'm':
                    self.heap[a] = (self._request(args[0]), False)
                elif k == 'c':
                    self.heap[a] = (self.sym(args[0]) * self.sym(args[1]), True)
                elif k in ('r', 'a'):
                    self.heap[a] = (self.sym(args[1]), k == 'r')
                return Poly.atom(a)
            if n and (n.startswith('llvm.smax') or n.startswith('llvm.smin')
                      or n.startswith('llvm.abs') or n.startswith('llvm.umin')):
                a = self.sym(v.ops[1])
                b = self.sym(v.ops[2]) if not n.startswith('llvm.abs') else ZERO
                if n.startswith('llvm.umin'):
                    return self.opaque(v)
                kind = n.split('.')[1]
                return self.patom((kind, a, b), a.atoms() | b.atoms() |
                                  self._deps(a) | self._deps(b), self._home(a, b))
            return self.opaque(v)
        return self.opaque(v)

    def _request(self, v):
        """Size of an allocation; new[] asks for -1 bytes when the product overflows."""
        if isinstance(v, ir.Inst) and v.op == 'select' and isinstance(v.ops[1], ir.Const) and \
                v.ops[1].kind == 'int' and v.ops[1].val in (-1, (1 << 64) - 1):
            c, r = v.ops[0], v.ops[2]
            if isinstance(c, ir.Inst) and isinstance(r, ir.Inst) and \
                    c.op == r.op == 'extractvalue' and c.ops[0] is r.ops[0]:
                m = c.ops[0]
                if isinstance(m, ir.Inst) and m.op == 'call' and \
                        (callee_name(m) or '').startswith('llvm.umul.with.overflow'):
                    return self.sym(m.ops[1]) * self.sym(m.ops[2])
        return self.sym(v)

    def _nonneg_type(self, p):
        a = p.single()
        return a is not None and self.key(a)[0] in ('dim', 'iv')

    def _wide_data(self, p):
        """p contains a 64-bit value that comes from the data (it can wrap around)."""
        # products with a stride only form addresses, which are modular
        at = {a for m in p.t if not any(self.key(x)[0] == 'step' for x in m) for a in m}
        for a in at:
            k = self.key(a)
            if k[0] == 'ld' and k[2] == 'i64':
                return True
            if k[0] == 'v':
                i = self.inst_by_id(k[1])
                if i.op in ('load', 'fptosi', 'fptoui', 'call') and i.ty.is_int() and i.ty.n == 64:
                    return True
            if k[0] in ('trunc', 'and', 'sdiv', 'srem', 'lshr', 'ashr') and \
                    isinstance(k[1], Poly) and self._wide_data(k[1]):
                return True
        return False

    def narrow(self, p, n):
        return self.patom(('trunc', p, n), p.atoms() | self._deps(p), self._home(p))

    def b2i(self, c):
        """0/1 value of an i1."""
        if isinstance(c, ir.Const):
            return Poly.const(c.val if c.kind == 'int' else 0)
        return self.patom(('b2i', c.id, c.name), home=c.blk)

    def _deps(self, p):
        s = set()
        for a in p.atoms():
            s |= self.A.deps[a]
        return s

    def _home(self, *ps):
        """Deepest block among the homes of the atoms (they are on one dominator chain)."""
        best = None
        for p in ps:
            for a in p.atoms():
                h = self.A.home[a]
                if h is not None and h in self.cfg.num and \
                        (best is None or self.cfg.dom(best, h)):
                    best = h
        return best

    def _load(self, v):
        p = self.sym(v.ops[0])
        b, off = self.base_of(p)
        if b is None:
            return self.opaque(v)
        k = self.key(b)
        if k[0] == 'arg' and off.is_const():
            o = off.cval()
            if self.mode == 'loop':
                if k[1] == 0 and o % 8 == 0:
                    return self.patom(('opnd', o // 8))
                if k[1] == 1 and o % 8 == 0:
                    d = o // 8
                    if d in self.fixed_dims:
                        return Poly.const(self.fixed_dims[d])
                    return self.patom(('dim', d))
                if k[1] == 2 and o % 8 == 0:
                    return self.patom(('step', o // 8))
            elif self.mode == 'hook' and k[1] == 1 and o % 8 == 0:
                return self.patom(('cd', o // 8))
        if k[0] == 'alloca':
            vec = self._vector(b)
            if vec is not None and off.is_const() and v.ty.k == 'ptr':
                base = self.atom(('vec', k[1], k[2]))
                self.heap[base] = (vec[0], True)
                if off.cval() == 0:
                    return Poly.atom(base)
                return Poly.atom(base) + vec[0]
            u = self._unique_store(b, off, v)
            if u is not None:
                return self.sym(u)
        if v.ty.is_int() or v.ty.k == 'ptr':
            if self.readonly(b):
                return self.patom(('ld', p, repr(v.ty)), p.atoms() | self._deps(p),
                                  self._home(p) or None)
        return self.opaque(v)

    def _vector(self, b):
        """(size in bytes) of the std::vector object in alloca b, if it is sized once."""
        if not hasattr(self, '_vecs'):
            self._vecs = {}
            for i in self.fn.insts():
                if i.op in ('call', 'invoke'):
                    m = VEC_RE.match(callee_name(i) or '')
                    if m and isinstance(i.ops[1], ir.Inst) and i.ops[1].op == 'alloca':
                        self._vecs.setdefault(i.ops[1].id, []).append(
                            (i, VEC_SIZE.get(m.group(1), 8)))
        u = self._vecs.get(self.key(b)[1])
        if not u:
            return None
        sizes = set()
        for i, s in u:
            if 'aSEOS' in callee_name(i):
                w = self.sym(i.ops[2]).single()
                w = self._vector(w) if w is not None and w != b else None
                if w is None:
                    return None
                sizes.add(w[0])
            else:
                sizes.add(self.sym(i.ops[2]) * s)
        if len(sizes) != 1:
            return None
        return (sizes.pop(),)

    def _unique_store(self, b, off, v):
        """Value stored at this constant slot of a non-escaping alloca, if there is one store."""
        if not off.is_const():
            return None
        if not hasattr(self, '_slots'):
            self._scan_slots()
        b = self.key(b)[1]
        if b in self._badalloca:
            return None
        st = self._slots.get((b, off.cval()), [])
        if len(st) == 1 and self.cfg.dom(st[0].blk, v.blk) and st[0].ops[0].ty.k == v.ty.k \
                and (v.ty.is_int() or v.ty.k == 'ptr'):
            if st[0].blk is not v.blk or st[0].id < v.id:
                return st[0].ops[0]
        return None

    def _scan_slots(self):
        """Stores to constant slots of allocas; allocas whose address escapes (syntactically)."""
        slots, bad = {}, set()

        def root(v):
            off = 0
            while isinstance(v, ir.Inst):
                if v.op == 'alloca':
                    return {v}, off
                if v.op == 'gep':
                    o = const_gep(v)
                    off = None if o is None or off is None else off + o
                    v = v.ops[0]
                elif v.op in ('phi', 'select'):
                    seen, work, out = set(), [v], set()
                    while work:
                        x = work.pop()
                        if x in seen or not isinstance(x, ir.Inst):
                            continue
                        seen.add(x)
                        if x.op == 'alloca':
                            out.add(x)
                        elif x.op == 'gep':
                            work.append(x.ops[0])
                        elif x.op == 'phi':
                            work += x.ops
                        elif x.op == 'select':
                            work += x.ops[1:]
                    return out, None
                else:
                    return set(), None
            return set(), None

        for i in self.fn.insts():
            if i.op == 'store':
                bad |= root(i.ops[0])[0]
                al, off = root(i.ops[1])
                if len(al) == 1 and off is not None:
                    slots.setdefault((next(iter(al)).id, off), []).append(i)
                else:
                    bad |= al
            elif i.op in ('call', 'invoke', 'ptrtoint', 'ret', 'insertvalue'):
                for a in i.ops[0:]:
                    if isinstance(a, ir.Inst) and a.ty is not None and a.ty.k == 'ptr':
                        bad |= root(a)[0]
        self._slots, self._badalloca = slots, {x.id for x in bad}

    # ------------------------------------------------------------- recurrences
    def _phi(self, v):
        L = self.latch_of.get(v.blk)
        if L is None:
            vals = {self.sym(o) for o in v.ops}
            if len(vals) == 1:
                p = vals.pop()
                return p
            return self.opaque(v)
        inits = [o for o, b in zip(v.ops, v.x) if b not in L.body]
        backs = [o for o, b in zip(v.ops, v.x) if b in L.body]
        ips = {self.sym(o) for o in inits}
        if len(ips) != 1:
            return self.opaque(v)
        init = ips.pop()
        if not self.invariant(init, L):
            return self.opaque(v)
        ds = set()
        for b in backs:
            d = self.deltas(b, v, L, set())
            if d is None:
                ds = None
                break
            ds |= d
        x = self.opaque(v)
        if ds is None:
            return x
        if len(ds) == 1:
            return init + self.iv(L) * next(iter(ds))
        if all(d.is_const() for d in ds):
            lo, hi = min(d.cval() for d in ds), max(d.cval() for d in ds)
            self.phi_bounds[x.single()] = [x - init - self.iv(L) * lo,
                                           init + self.iv(L) * hi - x]
            self.phi_delta = getattr(self, 'phi_delta', {})
            self.phi_delta[x.single()] = (v, L, init, ds)
        return x

    def syn_inv(self, c, L, depth=0):
        if isinstance(c, (ir.Const, ir.Arg)):
            return True
        if c.blk not in L.body:
            return True
        if depth > 40:
            return False
        if c.op in ('add', 'sub', 'mul', 'shl', 'sext', 'zext', 'trunc', 'gep', 'sdiv', 'ashr',
                    'udiv', 'lshr', 'and', 'freeze', 'icmp', 'select', 'or', 'xor', 'srem'):
            return all(self.syn_inv(o, L, depth + 1) for o in c.ops)
        if c.op == 'load':
            if not self.syn_inv(c.ops[0], L, depth + 1):
                return False
            b, off = self.base_of(self.sym(c.ops[0]))
            return b is not None and (self.readonly(b) or
                                      (self.key(b)[0] == 'arg' and self.mode == 'loop'))
        return False

    def deltas(self, v, x, L, seen):
        """Set of polynomials d such that v == x + d, or None."""
        if v is x:
            return {ZERO}
        if not isinstance(v, ir.Inst) or v.blk not in L.body or v in seen:
            return None
        seen = seen | {v}
        if v.op in ('add', 'sub', 'gep'):
            if v.op == 'gep':
                if not all(self.syn_inv(o, L) for o in v.ops[1:]):
                    return None
                d = self.deltas(v.ops[0], x, L, seen)
                if d is None:
                    return None
                off = self._gep(v.x, [ir.Const('null', v.ty)] + v.ops[1:])
                return {a + off for a in d}
            if v.op == 'add':
                for i in (0, 1):
                    if self.syn_inv(v.ops[1 - i], L):
                        d = self.deltas(v.ops[i], x, L, seen)
                        if d is not None:
                            off = self.sym(v.ops[1 - i])
                            return {a + off for a in d}
                return self._sum_deltas(v, x, L, seen)
            if self.syn_inv(v.ops[1], L):
                d = self.deltas(v.ops[0], x, L, seen)
                if d is not None:
                    off = self.sym(v.ops[1])
                    return {a - off for a in d}
            return None
        if v.op in ('freeze', 'sext', 'trunc'):
            return self.deltas(v.ops[0], x, L, seen)
        if v.op == 'select':
            a = self.deltas(v.ops[1], x, L, seen)
            b = self.deltas(v.ops[2], x, L, seen)
            return None if a is None or b is None else a | b
        if v.op == 'phi':
            L2 = self.latch_of.get(v.blk)
            if L2 is None:
                out = set()
                for o in v.ops:
                    d = self.deltas(o, x, L, seen)
                    if d is None:
                        return None
                    out |= d
                return out
            # value of an inner loop's counter: x plus a whole inner sweep
            inits = [o for o, b in zip(v.ops, v.x) if b not in L2.body]
            backs = [o for o, b in zip(v.ops, v.x) if b in L2.body]
            if len(inits) != 1 or len(backs) != 1:
                return None
            di = self.deltas(inits[0], x, L, seen)
            db = self.deltas(backs[0], v, L2, set())
            if di is None or db is None or len(di) != 1:
                return None
            if db == {ZERO}:
                return di
            if len(db) != 1:
                return None
            t = self.trip(L2)
            if t is None or not self.invariant(t, L):
                return None
            return {a + t * b for a in di for b in db}
        return None

    def _sum_deltas(self, v, x, L, seen):
        """x + b where b is a 0/1 value (count += cond)."""
        for i in (0, 1):
            o = v.ops[1 - i]
            while isinstance(o, ir.Inst) and o.op in ('zext', 'sext', 'freeze') and \
                    not (o.ops[0].ty.k == 'int' and o.ops[0].ty.n == 1):
                o = o.ops[0]
            if isinstance(o, ir.Inst) and o.op == 'zext' and o.ops[0].ty.n == 1:
                d = self.deltas(v.ops[i], x, L, seen)
                if d is not None:
                    return {a + k for a in d for k in (0, 1)}
        return None

    def invariant(self, p, L):
        for a in p.atoms() | self._deps(p):
            h = self.A.home[a]
            if h is not None and h in L.body:
                return False
        return True

    def trip(self, L):
        """Exact trip count polynomial when the loop is a counted one, else None."""
        if len(L.exits) != 1:
            return None
        eb, es = L.exits[0]
        t = eb.term
        if t.op != 'br' or len(t.ops) != 1 or eb is not L.header:
            return None
        pol = t.x[0] in L.body        # condition value that stays in the loop
        c = t.ops[0]
        if not (isinstance(c, ir.Inst) and c.op == 'icmp'):
            return None
        a, b = self.sym(c.ops[0]), self.sym(c.ops[1])
        i = self.iv(L).single()
        pred = c.x
        if not pol:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle',
                    'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        d = {'slt': b - a, 'ult': b - a, 'ne': b - a, 'sgt': a - b, 'ugt': a - b,
             'sle': b - a + 1, 'sge': a - b + 1}.get(pred)
        if d is None:
            return None
        cf = d.coeff(i)
        if cf is None or not cf[0].is_const():
            return None
        k = cf[0].cval()
        if pred == 'ne' and k == 1:
            d, k = -d, -1
            cf = d.coeff(i)
        if k != -1 or not self.invariant(cf[1], L):
            return None
        n = cf[1]
        # n must be non-negative
        ctx = self.ctx_edge(L.entries[0], L.header) if len(L.entries) == 1 else None
        if ctx is None or not self.prove(n, ctx):
            return None
        return n

    # ------------------------------------------------------------------- facts
    def cond_facts(self, c, pol, depth=0):
        if isinstance(c, ir.Const):
            if c.kind == 'int' and bool(c.val) != pol:
                return [('false',)]
            return []
        if isinstance(c, ir.Arg):
            return [('bool', ('arg', c.idx), pol)]
        if c.op == 'icmp':
            return self._icmp_facts(c, pol, depth)
        if c.op == 'fcmp':
            return [self._fcmp_fact(c, pol)]
        if c.op in ('call', 'invoke') and (callee_name(c) or '').startswith('llvm.is.fpclass'):
            f = self._fpclass_facts(c, pol)
            return f + [('bool', ('v', c.id), pol)]
        if c.op == 'freeze':
            return self.cond_facts(c.ops[0], pol, depth)
        if c.op == 'xor' and isinstance(c.ops[1], ir.Const) and c.ty.n == 1:
            return self.cond_facts(c.ops[0], pol != bool(c.ops[1].val), depth)
        a = b = None
        if c.op in ('and', 'or') and c.ty.n == 1:
            a, b, isand = c.ops[0], c.ops[1], c.op == 'and'
        elif c.op == 'select' and c.ty.n == 1:
            if isinstance(c.ops[2], ir.Const) and c.ops[2].kind == 'int' and not c.ops[2].val:
                a, b, isand = c.ops[0], c.ops[1], True
            elif isinstance(c.ops[1], ir.Const) and c.ops[1].kind == 'int' and c.ops[1].val:
                a, b, isand = c.ops[0], c.ops[2], False
            else:
                if depth > 6:
                    return []
                return [OR(self.cond_facts(c.ops[0], True, depth + 1) +
                           self.cond_facts(c.ops[1], pol, depth + 1),
                           self.cond_facts(c.ops[0], False, depth + 1) +
                           self.cond_facts(c.ops[2], pol, depth + 1))]
        if a is not None:
            if depth > 8:
                return []
            if isand == pol:
                return self.cond_facts(a, pol, depth + 1) + self.cond_facts(b, pol, depth + 1)
            return [OR(self.cond_facts(a, pol, depth + 1),
                       self.cond_facts(a, not pol, depth + 1) +
                       self.cond_facts(b, pol, depth + 1))]
        if c.op == 'phi' and c.blk not in self.latch_of and depth < 4:
            alts = []
            stop = self.cfg.idom.get(c.blk)
            for o, p in zip(c.ops, c.x):
                if p not in self.cfg.reach:
                    continue
                if isinstance(o, ir.Const) and o.kind == 'int' and bool(o.val) != pol:
                    continue
                fs = list(self.cond_facts(o, pol, depth + 1)) + self.edge_facts(p, c.blk)
                b_ = p
                n = 0
                while b_ is not stop and n < 50:
                    pr = self.cfg.preds(b_)
                    if len(pr) == 1:
                        fs += self.edge_facts(pr[0], b_)
                    b_ = self.cfg.idom[b_]
                    n += 1
                fs.append(('bool', ('phi-edge', c.blk.id), p.id))
                alts.append(fs)
            me = ('bool', ('v', c.id), pol)
            if not alts:
                return [('false',)]
            if len(alts) == 1:
                return alts[0] + [me]
            return [OR(*alts), me]
        return [('bool', ('v', c.id), pol)]

    def fkey(self, v):
        """Canonical key of a floating-point value."""
        if isinstance(v, ir.Const):
            if v.kind == 'fp':
                return ('c', float(v.val) if v.val == v.val else 'nan')
            if v.kind == 'zero':
                return ('c', 0.0)
            return ('c?', id(v))
        if isinstance(v, ir.Arg):
            return ('arg', v.idx)
        if v.op == 'load':
            k = self.load_key(v)
            if k:
                return k
        if v.op == 'phi' and v.blk not in self.latch_of:
            ks = {self.fkey(o) if not (isinstance(o, ir.Inst) and o.op == 'phi') else ('v', o.id)
                  for o in v.ops}
            if len(ks) == 1:
                return ks.pop()
        if v.op == 'call':
            n = callee_name(v) or ''
            if n.startswith('llvm.fabs'):
                return ('fabs', self.fkey(v.ops[1]))
        if v.op == 'fneg':
            return ('fneg', self.fkey(v.ops[0]))
        if v.op in ('fpext',):
            return self.fkey(v.ops[0])
        if v.op in ('sitofp', 'uitofp'):
            return (v.op, self.sym(v.ops[0]))
        return ('v', v.id)

    _REL = {'oeq': 'E', 'ogt': 'G', 'oge': 'GE', 'olt': 'L', 'ole': 'LE', 'one': 'LG',
            'ord': 'LEG', 'uno': 'U', 'ueq': 'EU', 'ugt': 'GU', 'uge': 'GEU', 'ult': 'LU',
            'ule': 'LEU', 'une': 'LGU', 'true': 'LEGU', 'false': ''}

    def _fcmp_fact(self, c, pol):
        a, b = self.fkey(c.ops[0]), self.fkey(c.ops[1])
        r = frozenset(self._REL[c.x])
        if not pol:
            r = frozenset('LEGU') - r
        if a == b:
            # x compared with itself: unordered exactly when x is NaN
            return ('rel', a, ('c', 0.0), frozenset('U') if r == frozenset('U') or
                    r == frozenset('LGU') or r == frozenset('LU') or r == frozenset('GU') else
                    frozenset('LEG') if 'E' in r and 'U' not in r else frozenset('LEGU'))
        if c.x in ('ord', 'uno') and b[0] == 'c' and b[1] != 'nan':
            return ('rel', a, ('c', 0.0), r)
        if repr(b) < repr(a):
            a, b = b, a
            r = frozenset({'L': 'G', 'G': 'L'}.get(x, x) for x in r)
        return ('rel', a, b, r)

    def _fpclass_facts(self, c, pol):
        """llvm.is.fpclass(x, mask): one bit per class of numbers."""
        m = c.ops[2].val & 0x3ff
        if not pol:
            m = 0x3ff & ~m
        a = self.fkey(c.ops[1])
        zero, inf = ('c', 0.0), ('c', INF)
        if m & 3 == 0 and m == 0x3fc:
            return [('rel', a, zero, frozenset('LEG'))]
        if m & ~3 == 0:
            return [('rel', a, zero, frozenset('U'))]
        rest = m & ~3
        n = frozenset('U') if m & 3 else frozenset()
        out = []
        # a != +inf / a != -inf / sign information that the mask gives
        if not rest & 0x200:
            out.append(('rel', a, inf, frozenset('L') | n))
        elif rest == 0x200:
            out.append(('rel', a, inf, frozenset('E') | n))
        if not rest & 0x004:
            out.append(('rel', a, ('c', -INF), frozenset('G') | n))
        elif rest == 0x004:
            out.append(('rel', a, ('c', -INF), frozenset('E') | n))
        s = frozenset()
        if rest & 0x380:
            s |= frozenset('G')
        if rest & 0x060:
            s |= frozenset('E')
        if rest & 0x01c:
            s |= frozenset('L')
        if s != frozenset('LEG') or not n:
            out.append(('rel', a, zero, s | n))
        if rest == 0x204:
            out.append(OR([('rel', a, inf, frozenset('E') | n)],
                          [('rel', a, ('c', -INF), frozenset('E') | n)]))
        return out

    def _icmp_facts(self, c, pol, depth):
        x, y = c.ops
        pred = c.x
        neg = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle',
               'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
        if not pol:
            pred = neg[pred]
        # boolean-valued comparisons:  (zext i1 b) ==/!= 0/1
        if pred in ('eq', 'ne'):
            for u, w in ((x, y), (y, x)):
                if isinstance(w, ir.Const) and w.kind == 'int' and w.val in (0, 1):
                    s = u
                    while isinstance(s, ir.Inst) and s.op in ('zext', 'freeze') \
                            and s.ops[0].ty.n != 1:
                        s = s.ops[0]
                    if isinstance(s, ir.Inst) and s.op == 'zext' and s.ops[0].ty.n == 1:
                        return self.cond_facts(s.ops[0], (w.val == 1) == (pred == 'eq'),
                                               depth + 1)
                    if u.ty is not None and u.ty.k == 'int' and u.ty.n == 1:
                        return self.cond_facts(u, (w.val == 1) == (pred == 'eq'), depth + 1)
        # comparison of a selected constant with a constant
        for u, w, pr in ((x, y, pred), (y, x, None)):
            if pr and isinstance(w, ir.Const) and w.kind == 'int' and depth < 6:
                s = u
                while isinstance(s, ir.Inst) and s.op in ('zext', 'sext', 'freeze') and \
                        s.ops[0].ty.n != 1:
                    s = s.ops[0]
                if isinstance(s, ir.Inst) and s.op == 'select' and \
                        all(isinstance(o, ir.Const) and o.kind == 'int' for o in s.ops[1:]):
                    r = [_icmp_const(pr, o.val, w.val, w.ty.n) for o in s.ops[1:]]
                    if None not in r:
                        if r[0] and r[1]:
                            return []
                        if not r[0] and not r[1]:
                            return [('false',)]
                        return self.cond_facts(s.ops[0], r[0], depth + 1)
        a, b = self.sym(x), self.sym(y)
        if pred == 'eq':
            return [('eq', a - b)]
        if pred == 'ne':
            out = [('ne', a - b)]
            # a remainder (x & 2**k-1, x urem n) that is not zero is positive
            for u, w, d in ((x, y, a - b), (y, x, b - a)):
                if isinstance(w, ir.Const) and w.kind == 'int' and w.val == 0:
                    s = u
                    while isinstance(s, ir.Inst) and s.op in ('zext', 'freeze'):
                        s = s.ops[0]
                    if isinstance(s, ir.Inst) and s.op == 'and' and any(
                            isinstance(o, ir.Const) and o.kind == 'int' and
                            0 < o.val < 1 << 31 for o in s.ops):
                        out.append(('ge', d - 1))
            return out
        if pred == 'slt':
            return [('ge', b - a - 1)]
        if pred == 'sle':
            return [('ge', b - a)]
        if pred == 'sgt':
            return [('ge', a - b - 1)]
        if pred == 'sge':
            return [('ge', a - b)]
        me = ('bool', ('v', c.id), pol)
        if pred == 'ult':
            return [('ult', a, b, 1), me]
        if pred == 'ule':
            return [('ult', a, b, 0), me]
        if pred == 'ugt':
            return [('ult', b, a, 1), me]
        return [('ult', b, a, 0), me]

    def edge_facts(self, a, s):
        k = (a, s)
        f = self._edge.get(k)
        if f is None:
            f = self._edge[k] = self._edge_facts(a, s)
        return f

    def _edge_facts(self, a, s):
        t = a.term
        if t.op == 'br' and len(t.x) == 2 and t.x[0] is not t.x[1]:
            return self.cond_facts(t.ops[0], s is t.x[0])
        if t.op == 'switch':
            d, cases = t.x
            p = self.sym(t.ops[0])
            vals = [v for v, b in cases if b is s]
            if d is s:
                if vals:
                    return [('ne', p - v) for v, b in cases if b is not s]
                return [('ne', p - v) for v, b in cases]
            if len(vals) == 1:
                return [('eq', p - vals[0])]
            return [OR(*[[('eq', p - v)] for v in vals])]
        return []

    def items(self, b):
        """Facts and pending joins at the start of block b (nearest first)."""
        it = self._ctx.get(b)
        if it is not None:
            return it
        out = []
        L = self.latch_of.get(b)
        if L is not None:
            out.append(('inv', L))
            ent = L.entries
            if len(ent) == 1:
                out += self.edge_facts(ent[0], b)
                out += self.items(ent[0])
            elif b is not self.cfg.entry:
                out += self.items(self.cfg.idom[b])
        elif b is not self.cfg.entry:
            pr = self.cfg.preds(b)
            if len(pr) == 1:
                out += self.edge_facts(pr[0], b)
                out += self.items(pr[0])
            else:
                out.append(('join', b))
                out += self.items(self.cfg.idom[b])
        else:
            out += self.root_facts
        self._ctx[b] = out
        return out

    def ctx(self, b):
        return Ctx(self.items(b))

    def ctx_edge(self, a, s):
        return Ctx(self.edge_facts(a, s) + self.items(a))

    def split_join(self, b):
        """[(facts, items of predecessor)] for the incoming edges of join b."""
        out = []
        for p in self.cfg.preds(b):
            fs = []
            for i in b.insts:
                if i.op != 'phi':
                    break
                if i.ty.is_int() and i.ty.n > 1 or i.ty.k == 'ptr':
                    o = i.ops[i.x.index(p)]
                    fs.append(('eq', self.sym(i) - self.sym(o)))
                elif i.ty.is_int():
                    o = i.ops[i.x.index(p)]
                    if isinstance(o, ir.Const) and o.kind == 'int':
                        fs.append(('bool', ('v', i.id), bool(o.val)))
            fs.append(('bool', ('phi-edge', b.id), p.id))
            out.append((fs + self.edge_facts(p, b), self.items(p)))
        return out

    def join_relevance(self, b):
        r = self._joinrel.get(b)
        if r is not None:
            return r
        rel = set()
        for i in b.insts:
            if i.op != 'phi':
                break
            if i.ty.is_int() or i.ty.k == 'ptr':
                rel |= self.sym(i).atoms()
                # parameters of the incoming values matter only through the phi
        stop = self.cfg.idom[b]
        seen, work = set(), list(self.cfg.preds(b))
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            t = x.term
            if t.ops and t.op == 'switch':
                rel |= self.sym(t.ops[0]).atoms()
            elif t.ops and t.op == 'br':
                rel |= self.cond_atoms(t.ops[0])
            if x is not stop:
                work += [q for q in self.cfg.preds(x) if q not in seen]
        self._joinrel[b] = rel
        return rel

    def cond_atoms(self, c, depth=0):
        if not isinstance(c, ir.Inst) or depth > 6:
            return set()
        if c.op == 'icmp':
            s = self.sym(c.ops[0]).atoms() | self.sym(c.ops[1]).atoms()
            for o in c.ops:
                if isinstance(o, ir.Inst) and o.op == 'zext' and o.ops[0].ty.n == 1:
                    s |= self.cond_atoms(o.ops[0], depth + 1)
            return s
        if c.op in ('and', 'or', 'xor', 'select', 'freeze', 'phi') and c.ty.is_int():
            s = set()
            for o in c.ops:
                if o is not c:
                    s |= self.cond_atoms(o, depth + 1)
            return s
        if c.op in ('trunc', 'zext', 'sext'):
            return self.sym(c).atoms() if c.ty.n > 1 else set()
        return set()

    # ---------------------------------------------------------------- axioms
    def axioms(self, a):
        """Facts that hold for atom a everywhere."""
        k = self.key(a)
        P = Poly.atom(a)
        out = []
        if k[0] in ('dim', 'iv', 'cd'):
            out.append(('ge', P))
            if k[0] == 'dim':
                for h in self.hook_facts:
                    out += h(self, k[1])
        elif k[0] == 'zext':
            out += [('ge', P), ('ge', Poly.const((1 << k[2]) - 1) - P), ('cond', 'nonneg', k[1], P)]
        elif k[0] == 'b2i':
            out += [('ge', P), ('ge', ONE - P)]
        elif k[0] == 'trunc':
            h = 1 << (k[2] - 1)
            out += [('ge', P + h), ('ge', Poly.const(h - 1) - P), ('cond', 'fits', k[1], P, k[2])]
        elif k[0] in ('sdiv', 'lshr', 'ashr', 'srem', 'and'):
            a_, b_ = k[1], k[2]
            if k[0] in ('lshr', 'ashr') and b_.is_const():
                c = 1 << b_.cval()
                f = [('ge', a_ - P * c), ('ge', P * c + (c - 1) - a_)]
                if k[0] == 'ashr':
                    out += f
                else:
                    out.append(('condf', (a_,), tuple(f) + (('ge', P),)))
            elif k[0] == 'sdiv':
                if b_.is_const() and b_.cval() > 0:
                    c = b_.cval()
                    out.append(('condf', (a_,), (('ge', a_ - P * c), ('ge', P * c + (c - 1) - a_),
                                                 ('ge', P))))
                    out.append(('condf', (-a_,), (('ge', P * c - a_), ('ge', -P),
                                                  ('ge', a_ + (c - 1) - P * c))))
                else:
                    out.append(('condf', (a_, b_ - 1), (('ge', P), ('ge', a_ - P))))
                    out.append(OR([('ge', a_), ('ge', b_ - 1), ('ge', P), ('ge', a_ - P)],
                                  [('ge', -a_ - 1), ('ge', b_ - 1), ('ge', -P), ('ge', P - a_)],
                                  [('eq', b_)], [('eq', b_ + 1), ('eq', P + a_)],
                                  [('ge', -b_ - 2), ('ge', a_), ('ge', -P), ('ge', a_ + P * 2)],
                                  [('ge', -b_ - 2), ('ge', -a_ - 1), ('ge', P),
                                   ('ge', -a_ - P * 2)]))
            elif k[0] == 'srem':
                out.append(('condf', (a_, b_ - 1), (('ge', P), ('ge', b_ - 1 - P))))
                out.append(OR([('ge', a_), ('ge', P), ('ge', a_ - P)],
                              [('ge', -a_ - 1), ('ge', -P), ('ge', P - a_)]))
                if b_.is_const() and b_.cval() > 0:
                    q = self.patom(('sdiv', a_, b_, k[3]), a_.atoms() | self._deps(a_),
                                   self._home(a_))
                    out.append(('eq', P + q * b_.cval() - a_))
            elif k[0] == 'and' and b_.is_const() and b_.cval() >= 0:
                out += [('ge', P), ('ge', Poly.const(b_.cval()) - P)]
        elif k[0] == 'ld':
            m = re.match(r'^i(\d+)$', k[2])
            if m and int(m.group(1)) < 64:
                h = 1 << (int(m.group(1)) - 1)
                out += [('ge', P + h), ('ge', Poly.const(h - 1) - P)]
        elif k[0] == 'v':
            ins = self.inst_by_id(k[1])
            if ins.ty.is_int() and 1 < ins.ty.n < 64:
                h = 1 << (ins.ty.n - 1)
                out += [('ge', P + h), ('ge', Poly.const(h - 1) - P)]
            if ins.op == 'select' and (ins.ty.is_int() and ins.ty.n > 1 or ins.ty.k == 'ptr'):
                out.append(OR([('eq', P - self.sym(ins.ops[1]))] +
                              self.cond_facts(ins.ops[0], True),
                              [('eq', P - self.sym(ins.ops[2]))] +
                              self.cond_facts(ins.ops[0], False)))
            for b in self.phi_bounds.get(a, ()):
                out.append(('ge', b))
        elif k[0] == 'smax':
            out += [('ge', P - k[1]), ('ge', P - k[2]),
                    OR([('eq', P - k[1])], [('eq', P - k[2])])]
        elif k[0] == 'smin':
            out += [('ge', k[1] - P), ('ge', k[2] - P),
                    OR([('eq', P - k[1])], [('eq', P - k[2])])]
        elif k[0] == 'abs':
            out += [('ge', P), OR([('eq', P - k[1])], [('eq', P + k[1])])]
        for f in self.extra_axioms:
            out += f(self, a, k)
        return out

    # ---------------------------------------------------------------- proving
    def prove(self, goal, ctx, splits=7):
        """True only if goal >= 0 holds in ctx."""
        if goal.is_const() and goal.cval() >= 0:
            return True
        key = (goal, tuple(ctx.items))
        r = self._prove_cache.get(key)
        if r is None:
            self._budget = 260
            r = self._prove([('ge', -goal - 1)], goal.atoms() | self._deps(goal),
                            ctx.items, splits)
            self._prove_cache[key] = r
        return r

    def prove_eq(self, p, ctx):
        return self.prove(p, ctx) and self.prove(-p, ctx)

    def prove_ne(self, p, ctx, splits=5):
        """p is never zero at ctx."""
        if p.is_const():
            return p.cval() != 0
        key = ('ne', p, tuple(ctx.items))
        r = self._prove_cache.get(key)
        if r is None:
            self._budget = 200
            at = set(p.atoms())
            for a in list(at):
                at |= self.A.deps[a]
            r = self._prove([('eq', p)], at, ctx.items, splits)
            self._prove_cache[key] = r
        return r

    def unreachable(self, ctx, splits=5):
        key = ('unreach', tuple(ctx.items))
        r = self._prove_cache.get(key)
        if r is None:
            self._budget = 120
            r = self._prove([], None, ctx.items, splits)
            self._prove_cache[key] = r
        return r

    def _gather(self, facts):
        rows, eqs, nes, ults, rels, bools, conds, ors, joins = [], [], [], [], {}, {}, [], [], []
        for f in facts:
            t = f[0]
            if t == 'ge':
                rows.append(f[1])
            elif t == 'eq':
                eqs.append(f[1])
            elif t == 'ne':
                nes.append(f[1])
            elif t == 'ult':
                ults.append(f)
            elif t == 'rel':
                k = (f[1], f[2])
                r = rels.get(k)
                rels[k] = f[3] if r is None else r & f[3]
                if not rels[k]:
                    return None
            elif t == 'bool':
                if bools.get(f[1], f[2]) != f[2]:
                    return None
                bools[f[1]] = f[2]
            elif t in ('cond', 'condf'):
                conds.append(f)
            elif t == 'or':
                ors.append(f)
            elif t == 'join':
                joins.append(f[1])
            elif t == 'inv':
                rows += self.invs[f[1]]
                rows.append(self.iv(f[1]))
                ors += self.dinvs.get(f[1], ())
            elif t == 'false':
                return None
        if rels and eqs:
            rels = self._canon_rels(rels, eqs)
            if rels is None:
                return None
        if rel_contradiction(rels):
            return None
        return rows, eqs, nes, ults, rels, bools, conds, ors, joins

    def _canon_rels(self, rels, eqs):
        """Rewrite loads whose address is fixed by equality facts; None: contradiction."""
        lds = [k for k in {x for kk in rels for x in kk} if k[0] == 'ld']
        if not lds:
            return rels
        need = set()
        for k in lds:
            need |= k[1].atoms()
        m = {}
        for p in eqs:
            for mono, c in p.t.items():
                if len(mono) == 1 and abs(c) == 1 and mono[0] in need and mono[0] not in m:
                    a = mono[0]
                    kk = self.key(a)[0]
                    if kk not in ('v', 'dim', 'iv'):
                        continue
                    r = Poly.atom(a) - p * c
                    if a in r.atoms():
                        continue
                    m[a] = self.subst(r, m)
                    for b in m:
                        if b != a:
                            m[b] = self.subst(m[b], {a: m[a]})
                    break
        if not m:
            return rels
        out = {}

        def cn(k):
            if k[0] == 'ld' and k[1].atoms() & m.keys():
                return (k[0], self.subst(k[1], m)) + tuple(k[2:])
            return k
        for (a, b), r in rels.items():
            a2, b2 = cn(a), cn(b)
            if a2 == b2:
                if not r & frozenset('EU'):
                    return None
                continue
            if repr(b2) < repr(a2) and a2[0] != 'c' and b2[0] != 'c' and \
                    not repr(b) < repr(a):
                a2, b2 = b2, a2
                r = frozenset({'L': 'G', 'G': 'L'}.get(x, x) for x in r)
            o = out.get((a2, b2))
            if o is None and (b2, a2) in out:
                a2, b2 = b2, a2
                r = frozenset({'L': 'G', 'G': 'L'}.get(x, x) for x in r)
                o = out[a2, b2]
            r = r if o is None else r & o
            if not r:
                return None
            out[a2, b2] = r
        return out

    def _prove(self, extra, goal_atoms, items, splits):
        """True if extra + items is contradictory."""
        self._budget -= 1
        self.nprove += 1
        if self._budget < 0:
            return False
        facts = extra + items
        g = self._gather(facts)
        if g is None:
            return True
        rows, eqs, nes, ults, rels, bools, conds, ors, joins = g
        # relevant atoms: closure from the goal through shared rows
        if goal_atoms is None:
            rel = None
        else:
            rel = set(goal_atoms)
            if self.extra_axioms:
                # tests of results that the extra axioms say something about
                for p in rows + eqs + nes:
                    at = p.atoms()
                    if len(at) == 1:
                        a, = at
                        if a not in rel and any(x(self, a, self.key(a)) for x in self.extra_axioms):
                            rel.add(a)
        done_ax = set()
        rows, eqs, nes, ults = list(rows), list(eqs), list(nes), list(ults)
        conds, ors = list(conds), list(ors)
        # add the axioms of all atoms that may matter
        while True:
            if rel is None:
                todo = set()
                for p in rows + eqs + nes:
                    todo |= p.atoms()
                for u in ults:
                    todo |= u[1].atoms() | u[2].atoms()
                todo -= done_ax
            else:
                changed = True
                while changed:
                    changed = False
                    for p in rows + eqs + nes:
                        at = p.atoms()
                        if at & rel and not at <= rel:
                            rel |= at
                            changed = True
                    for u in ults:
                        at = u[1].atoms() | u[2].atoms()
                        if at & rel and not at <= rel:
                            rel |= at
                            changed = True
                todo = rel - done_ax
            if not todo:
                break
            for a in todo:
                done_ax.add(a)
                for f in self.axioms(a):
                    if f[0] == 'ge':
                        rows.append(f[1])
                    elif f[0] == 'eq':
                        eqs.append(f[1])
                    elif f[0] in ('cond', 'condf'):
                        conds.append(f)
                        if rel is not None:
                            for p in _cond_polys(f):
                                rel |= p.atoms()
                    elif f[0] == 'or':
                        ors.append(f)
        if rel is None:
            R, Q, N = rows, eqs, nes
        else:
            R = [p for p in rows if not p.t or p.is_const() or p.atoms() & rel]
            Q = [p for p in eqs if p.is_const() or p.atoms() & rel]
            N = [p for p in nes if p.is_const() or p.atoms() & rel]
        R, Q = list(dict.fromkeys(R)), list(dict.fromkeys(Q))
        if infeasible(R, Q):
            return True
        for _ in range(3):
            grew = False
            for c in list(conds):
                add = None
                if c[0] == 'condf':
                    if all(infeasible(R + [-p - 1], Q) for p in c[1]):
                        add = c[2]
                elif c[1] == 'nonneg':
                    if infeasible(R + [-c[2] - 1], Q):
                        add = [('eq', c[3] - c[2])]
                elif c[1] == 'fits':
                    h = 1 << (c[4] - 1)
                    if infeasible(R + [-(c[2] + h) - 1], Q) and \
                            infeasible(R + [-(Poly.const(h - 1) - c[2]) - 1], Q):
                        add = [('eq', c[3] - c[2])]
                if add:
                    conds.remove(c)
                    for f in add:
                        (R if f[0] == 'ge' else Q).append(f[1])
                    grew = True
            for u in list(ults):
                x, y, s = u[1], u[2], u[3]
                if rel is not None and not (x.atoms() | y.atoms()) & rel and \
                        not (x.is_const() or y.is_const()):
                    continue
                if infeasible(R + [-y - 1], Q):
                    ults.remove(u)
                    R.append(x)
                    R.append(y - x - s)
                    grew = True
            for d in list(N):
                if d.is_const():
                    if d.cval() == 0:
                        return True
                    N.remove(d)
                    continue
                if infeasible(R + [-d - 1], Q):
                    N.remove(d)
                    R.append(d - 1)
                    grew = True
                elif infeasible(R + [d - 1], Q):
                    N.remove(d)
                    R.append(-d - 1)
                    grew = True
            if not grew:
                break
            if infeasible(R, Q):
                return True
        if splits <= 0:
            return False
        # case splits
        for i, o in enumerate(ors):
            if rel is not None and not any(self._fact_atoms(f) & rel for alt in o[1] for f in alt) \
                    and not any(f[0] in ('bool', 'rel') for alt in o[1] for f in alt):
                continue
            if o in extra or o in items:
                rest = [f for f in extra if f is not o]
                ritems = [f for f in items if f is not o]
            else:
                rest, ritems = extra, items
            # avoid splitting twice on the same axiom disjunction
            if any(f[0] == 'bool' and f[1] == o for f in extra):
                continue
            ok = True
            for n, alt in enumerate(o[1]):
                sub = rest + list(alt) + [('bool', o, n)]
                ga = goal_atoms
                if ga is not None:
                    ga = set(ga)
                    for f in alt:
                        ga |= self._fact_atoms(f)
                if not self._prove(sub, ga, ritems, splits - 1):
                    ok = False
                    break
            return ok
        for b in joins:
            if rel is not None and not (self.join_relevance(b) & rel):
                continue
            pre = []
            for f in items:
                if f[0] == 'join' and f[1] is b:
                    break
                pre.append(f)
            ok = True
            for fs, its in self.split_join(b):
                if not self._prove(extra + pre + fs, goal_atoms, its, splits - 1):
                    ok = False
                    break
            return ok
        return False

    def _fact_atoms(self, f):
        if f[0] in ('ge', 'eq', 'ne'):
            return f[1].atoms()
        if f[0] == 'ult':
            return f[1].atoms() | f[2].atoms()
        if f[0] == 'or':
            s = set()
            for alt in f[1]:
                for x in alt:
                    s |= self._fact_atoms(x)
            return s
        return set()

    # ------------------------------------------------------------ invariants
    def houdini(self, rounds=40):
        """Infer inductive invariants of all loops (greatest fixpoint)."""
        if self._houdini_done:
            return
        self._houdini_done = True
        cands = {}
        for L in self.cfg.loops:
            cs = self._candidates(L)
            if cs:
                cands[L] = cs
        # drop the candidates that do not hold on entry (with all candidates assumed,
        # then iterate)
        for L, cs in cands.items():
            self.invs[L] = list(cs)
        for L in self.cfg.loops:
            self.dinvs[L] = self._dcandidates(L)
        for _ in range(rounds):
            self._prove_cache.clear()
            changed = False
            for L in self.cfg.loops:
                if self.dinvs[L]:
                    keep = [c for c in self.dinvs[L] if self._dinductive(c, L)]
                    if len(keep) != len(self.dinvs[L]):
                        changed = True
                    self.dinvs[L] = keep
                if not self.invs[L]:
                    continue
                keep = []
                for c in self.invs[L]:
                    if self._inductive(c, L):
                        keep.append(c)
                    else:
                        changed = True
                self.invs[L] = keep
            if not changed:
                break
        else:
            for L in self.cfg.loops:
                self.invs[L] = []
                self.dinvs[L] = []
        self._prove_cache.clear()

    def _header_atoms(self, L):
        """Opaque integer header phis of L."""
        out = []
        for i in L.header.insts:
            if i.op != 'phi':
                break
            if i.ty.is_int() and i.ty.n > 1 or i.ty.k == 'ptr':
                p = self.sym(i)
                a = p.single()
                if a is not None and self.key(a)[0] == 'v' and self.key(a)[1] == i.id:
                    out.append((i, a))
        return out

    def _inductive(self, c, L):
        hp = self._header_atoms(L)
        iva = self.iv(L).single()
        for e in L.entries:
            m = {iva: ZERO}
            for i, a in hp:
                m[a] = self.sym(i.ops[i.x.index(e)])
            if not self.prove(self.subst(c, m), self.ctx_edge(e, L.header), 4):
                return False
        for l in L.latches:
            m = {iva: self.iv(L) + 1}
            for i, a in hp:
                m[a] = self.sym(i.ops[i.x.index(l)])
            g = self.subst(c, m)
            if not self.prove(g, self.ctx_edge(l, L.header), 6):
                return False
        return True

    def _dcandidates(self, L):
        """`X is still its initial value, or X < iterations so far / X < bound`."""
        out = []
        ivp = self.iv(L)
        for i, a in self._header_atoms(L):
            if not i.ty.is_int() or a in self.phi_bounds:
                continue
            inits = {self.sym(o) for o, b in zip(i.ops, i.x) if b not in L.body}
            if len(inits) != 1:
                continue
            t = inits.pop()
            if not self.invariant(t, L) or not self._keeps(i, L):
                continue
            X = Poly.atom(a)
            out.append(OR([('eq', X - t)], [('ge', ivp - 1 - X), ('ge', X)]))
        return out

    def _keeps(self, i, L):
        """The header variable is only kept or replaced (not incremented)."""
        seen, work, keep = set(), [o for o, b in zip(i.ops, i.x) if b in L.body], False
        while work:
            v = work.pop()
            if v is i:
                keep = True
                continue
            if v in seen or not isinstance(v, ir.Inst):
                continue
            seen.add(v)
            if v.op == 'phi' and v.blk in L.body and v.blk is not L.header:
                work += v.ops
            elif v.op == 'select':
                work += v.ops[1:]
        return keep

    def _dinductive(self, c, L):
        hp = self._header_atoms(L)
        iva = self.iv(L).single()
        for l in L.latches:
            m = {iva: self.iv(L) + 1}
            for i, a in hp:
                m[a] = self.sym(i.ops[i.x.index(l)])
            ctx = self.ctx_edge(l, L.header)
            # either alternative holds: assume the first one fails
            eq = self.subst(c[1][0][0][1], m)
            if not eq.t:
                continue
            for _, g in c[1][1]:
                if not self.prove(self.subst(g, m), ctx.plus([('ne', eq)]), 6):
                    return False
        return True

    def subst(self, p, m):
        out = ZERO
        for k, v in p.t.items():
            t = Poly.const(v)
            for a in k:
                t = t * (m[a] if a in m else Poly.atom(a))
            out = out + t
        return out

    def _candidates(self, L):
        hp = self._header_atoms(L)
        ha = {a for _, a in hp}
        iva = self.iv(L).single()
        ok_atoms = ha | {iva}
        cs = {}

        def add(p):
            if p.is_const() or not (p.atoms() & ok_atoms):
                return
            for a in p.atoms():
                if a in ok_atoms:
                    continue
                h = self.A.home[a]
                if h is not None and h in L.body:
                    return
            if any(d in ok_atoms for a in p.atoms() for d in self.A.deps[a]):
                return
            cs[p] = 1

        diffs = []
        terms = [ZERO]
        for b in L.body:
            for i in b.insts:
                if i.op == 'icmp':
                    if not (i.ops[0].ty.is_int() or i.ops[0].ty.k == 'ptr'):
                        continue
                    x, y = self.sym(i.ops[0]), self.sym(i.ops[1])
                    diffs.append(x - y)
                    if hp:
                        for t in (x, y):
                            if self.invariant(t, L) and len(t.t) <= 2 and t not in terms:
                                terms.append(t)
        for d in diffs:
            add(d)
            add(-d)
            add(d + 1)
            add(-d + 1)
        dims = set()
        for i in self.fn.insts():
            if i.op == 'load' and i.ty.is_int():
                p = self.sym(i)
                a = p.single()
                if a is not None and self.key(a)[0] == 'dim' and p not in terms and hp:
                    terms.append(p)
        ivp = self.iv(L)
        for i, a in hp:
            X = Poly.atom(a)
            inits = [self.sym(o) for o, b in zip(i.ops, i.x) if b not in L.body]
            ts = list(terms)
            for t in inits:
                if t not in ts and len(t.t) <= 3:
                    ts.append(t)
            for t in ts[:12]:
                for q in (X - t, t - X, X - t - 1, t - X - 1, X - t + 1, t - X + 1):
                    add(q)
                add(t + ivp - X)
                add(X - t - ivp)
            # initial value plus the iterations so far
            for j, b in hp:
                if b != a:
                    Y = Poly.atom(b)
                    add(Y - X)
                    add(Y - X - 1)
                    add(Y - X + 1)
                    if a < b and i.ty.is_int() and j.ty.is_int():
                        # what one variable gains the other one loses
                        for t in inits:
                            for w in [self.sym(o) for o, c in zip(j.ops, j.x)
                                      if c not in L.body]:
                                add(t + w - X - Y)
                                add(X + Y - t - w)
        # inner header values constrain outer counters only through icmps
        return list(cs)


def const_gep(v):
    """Byte offset of a getelementptr with constant indices, or None."""
    t, off = v.x, 0
    for n, o in enumerate(v.ops[1:]):
        if not isinstance(o, ir.Const) or not isinstance(o.val, int):
            return None
        if n == 0:
            off += o.val * ir.sizeof(t)
        elif t.k == 'struct':
            off += ir.field_offset(t, o.val)
            t = t.fields[o.val]
        else:
            t = t.elt
            off += o.val * ir.sizeof(t)
    return off


def _icmp_const(pred, a, b, n):
    if pred[0] == 'u':
        a, b = a & ((1 << n) - 1), b & ((1 << n) - 1)
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
            'ge': a >= b}.get(pred if pred in ('eq', 'ne') else pred[1:])


def _cond_polys(f):
    if f[0] == 'cond':
        return [f[2], f[3]]
    out = list(f[1])
    for x in f[2]:
        out.append(x[1])
    return out


def rel_contradiction(rels):
    """Contradictions among float order facts that one key pair does not show."""
    nan = set()
    num = set()
    for (a, b), r in rels.items():
        if r == frozenset('U'):
            if b[0] == 'c' and b[1] != 'nan':
                nan.add(a)
            elif a[0] == 'c' and a[1] != 'nan':
                nan.add(b)
        elif 'U' not in r:
            num.add(a)
            num.add(b)
    if nan & num:
        return True
    # constant bounds on one value
    lo, hi = {}, {}
    for (a, b), r in rels.items():
        for x, c, rr in ((a, b, r), (b, a, frozenset({'L': 'G', 'G': 'L'}.get(z, z) for z in r))):
            if c[0] == 'c' and c[1] != 'nan' and x[0] != 'c' and 'U' not in rr:
                v = c[1]
                if 'L' not in rr:
                    s = (v, 'E' not in rr)
                    if x not in lo or s > lo[x]:
                        lo[x] = s
                if 'G' not in rr:
                    s = (-v, 'E' not in rr)
                    if x not in hi or s > hi[x]:
                        hi[x] = s
    for x in lo:
        if x in hi:
            l, ls = lo[x]
            h, hs = -hi[x][0], hi[x][1]
            if l > h or (l == h and (ls or hs)):
                return True
    return False
