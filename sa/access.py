"""Memory accesses of a loop function, decomposed against its operands' layout."""
from . import ir
from .sym import Poly, ZERO
from .engine import Engine, Ctx, callee_name, ALLOC

MEMFN = ('llvm.memset.', 'llvm.memcpy.', 'llvm.memmove.', 'memset', 'memcpy', 'memmove')


class Access:
    __slots__ = ('inst', 'rw', 'base', 'kind', 'opnd', 'I', 'J', 'R', 'size', 'off', 'blk',
                 'length', 'why', 'ctx', 'ty', 'facts', 'elem', 'flat')

    def __repr__(self):
        return '<%s %s %s>' % (self.rw, self.kind, self.opnd)


class Layout:
    """Operand layout promised by NumPy for one registered loop."""

    def __init__(self, loop):
        reg = loop.reg
        self.loop = loop
        self.nargs = reg.nin + reg.nout
        self.nin = reg.nin
        self.dimnames, self.opdims = reg.dims()
        self.fixed = {}
        for i, d in enumerate(self.dimnames):
            if d.isdigit():
                self.fixed[1 + i] = int(d)
        self.coresteps = []
        n = self.nargs
        for ds in self.opdims:
            self.coresteps.append(list(range(n, n + len(ds))))
            n += len(ds)
        self.nsteps = n
        self.size = [loop.size(k) for k in range(self.nargs)]

    def owner(self, j):
        """Operand that step index j belongs to."""
        if j < self.nargs:
            return j
        for k, cs in enumerate(self.coresteps):
            if j in cs:
                return k
        return None

    def dim(self, eng, d):
        """Polynomial of core dimension index d (0 is the outer one)."""
        if d in self.fixed:
            return Poly.const(self.fixed[d])
        return eng.patom(('dim', d))

    def opnd_dims(self, eng, k):
        """[outer extent, core extents...] of operand k."""
        return [self.dim(eng, 0)] + [self.dim(eng, 1 + self.dimnames.index(d))
                                     for d in self.opdims[k]]


def fact_consts(facts):
    """{atom: constant} for facts `atom == c`."""
    out = {}
    for f in facts:
        if f[0] == 'eq':
            p = f[1]
            ks = [k for k in p.t if k != ()]
            if len(ks) == 1 and len(ks[0]) == 1 and abs(p.t[ks[0]]) == 1:
                out[ks[0][0]] = -p.cval() * p.t[ks[0]]
    return out


def fact_aliases(eng, facts):
    """{step atom: step atom} for facts `step_i == step_j`."""
    out = []
    for f in facts:
        if f[0] == 'eq' and () not in f[1].t and len(f[1].t) == 2:
            (k1, v1), (k2, v2) = f[1].t.items()
            if len(k1) == 1 and len(k2) == 1 and v1 == -v2 and abs(v1) == 1:
                out.append((k1[0], k2[0]))
    return out


def decompose(eng, lay, k, off, facts):
    """(I, [J...], R, why): element coordinates of byte offset `off` in operand k."""
    own = [k] + lay.coresteps[k]
    coef = {j: ZERO for j in own}
    rest = {}
    foreign = None
    alias = {}
    for a, b in fact_aliases(eng, facts):
        alias.setdefault(a, []).append(b)
        alias.setdefault(b, []).append(a)
    for m, c in off.t.items():
        steps = [a for a in m if eng.key(a)[0] == 'step']
        if not steps:
            rest[m] = c
            continue
        if len(steps) > 1:
            return None, None, None, 'offset is not linear in the strides'
        j = eng.key(steps[0])[1]
        if j not in coef:
            jj = [eng.key(b)[1] for b in alias.get(steps[0], ())
                  if eng.key(b)[0] == 'step' and eng.key(b)[1] in coef]
            if not jj:
                foreign = j
                continue
            j = jj[0]
        mm = list(m)
        mm.remove(steps[0])
        coef[j] = coef[j] + Poly({tuple(mm): c})
    if foreign is not None:
        o = lay.owner(foreign)
        return None, None, None, ('steps[%d] belongs to operand %s, not to operand %d'
                                  % (foreign, o, k))
    R = Poly(rest)
    J = [coef[j] for j in own]
    consts = fact_consts(facts)
    axes = []                       # (stride, axis) of the axes with a known stride
    for d in list(range(1, len(own))) + [0]:
        c = consts.get(eng.atom(('step', own[d])))
        if c:
            axes.append((c, d))
    axes.sort(key=lambda x: -abs(x[0]))
    if not R.is_const():
        left = {}
        for m, c in R.t.items():
            for s, d in axes:
                if m != () and c % s == 0:
                    J[d] = J[d] + Poly({m: c // s})
                    break
            else:
                left[m] = c
        R = Poly(left)
        if not R.is_const():
            return J[0], J[1:], R, 'offset does not follow the strides of operand %d' % k
    # a constant byte offset that is a whole number of elements along a contiguous axis
    r = R.cval()
    if not (0 <= r < lay.size[k]):
        for s, d in axes:
            if s > 0:
                J[d] = J[d] + Poly.const(r // s)
                r = r % s
                if 0 <= r < lay.size[k]:
                    break
    return J[0], J[1:], Poly.const(r), None


def ptr_cases(eng, v, facts, depth=0):
    """[(poly, extra facts)] resolving phis/selects that choose between pointers."""
    p = eng.sym(v)
    b, off = eng.base_of(p)
    if b is not None:
        k = eng.key(b)
        if k[0] == 'v' and depth < 4:
            ins = eng.inst_by_id(k[1])
            if ins.op == 'select':
                out = []
                for i, pol in ((1, True), (2, False)):
                    for q, f in ptr_cases(eng, ins.ops[i], facts, depth + 1):
                        out.append((q + off, f + eng.cond_facts(ins.ops[0], pol) +
                                    [('eq', Poly.atom(b) - q)]))
                return out
            if ins.op == 'phi' and ins.blk not in eng.latch_of:
                out = []
                for o, pb in zip(ins.ops, ins.x):
                    for q, f in ptr_cases(eng, o, facts, depth + 1):
                        out.append((q + off, f + eng.edge_facts(pb, ins.blk)
                                    + [x for x in eng.items(pb) if x[0] in ('eq', 'ge')]
                                    + [('eq', Poly.atom(b) - q)]))
                return out
    return [(p, [])]


def private_heap(eng, ins):
    """The memory that an instruction accesses was allocated by the function itself: its address
    comes from allocations only, possibly by way of local objects (a container) that keep it.
    """
    if ins.op == 'load':
        return private_value(eng, ins.ops[0])
    if ins.op == 'store' or mem_intrinsic(ins):
        return private_value(eng, ins.ops[1])
    return False


def private_value(eng, v):
    seen, work, heap = set(), [v], 0
    while work:
        v = work.pop()
        if isinstance(v, ir.Const):
            if v.kind in ('null', 'undef', 'poison', 'zero') or v.kind == 'int' and not v.val:
                continue
            return False
        if not isinstance(v, ir.Inst):
            return False
        if id(v) in seen:
            continue
        seen.add(id(v))
        if v.op in ('gep', 'bitcast', 'freeze'):
            work.append(v.ops[0])
        elif v.op == 'phi':
            work += v.ops
        elif v.op == 'select':
            work += v.ops[1:]
        elif v.op in ('call', 'invoke'):
            if callee_name(v) not in ALLOC:
                return False
            heap += 1
        elif v.op == 'load':
            p = v.ops[0]
            while isinstance(p, ir.Inst) and p.op in ('gep', 'bitcast'):
                p = p.ops[0]
            if not isinstance(p, ir.Inst) or p.op != 'alloca':
                return False
            if id(p) in seen:
                continue
            seen.add(id(p))
            vals = stored_in(eng, p)
            if vals is None:
                return False
            work += vals
        else:
            return False
    return heap > 0


def stored_in(eng, al):
    """The pointers that are stored in a local object, if nothing else can reach it."""
    addr, out = {id(al)}, []
    grew = True
    while grew:
        grew = False
        for i in eng.fn.insts():
            if i.op in ('gep', 'bitcast') and id(i.ops[0]) in addr and id(i) not in addr:
                addr.add(id(i))
                grew = True
    for i in eng.fn.insts():
        for k, o in enumerate(i.ops):
            if id(o) not in addr or i.op in ('gep', 'bitcast'):
                continue
            if i.op == 'load':
                continue
            if i.op == 'store' and k == 1:
                if i.ops[0].ty.k == 'ptr':
                    out.append(i.ops[0])
                continue
            n = callee_name(i) if i.op in ('call', 'invoke') else None
            if n and (n.startswith(('_ZNSt6vector', '_ZNSt12_Vector_base', 'llvm.memset',
                                    'llvm.lifetime'))):
                continue
            return None
    return out


def runs(eng, lay, a):
    """[(axis, elements per unit)] of trailing axes that are contiguous, when the access counts
    along all of them with one index (a coordinate that leaves its own axis), or None."""
    own = [a.opnd] + lay.coresteps[a.opnd]
    dims = lay.opnd_dims(eng, a.opnd)
    co = [a.I] + a.J
    consts = fact_consts(all_facts(a.ctx.items))
    size = unit = lay.size[a.opnd]
    group = []
    for d in range(len(own) - 1, -1, -1):
        if consts.get(eng.atom(('step', own[d]))) != unit:
            break
        group.append((d, unit // size))
        if not dims[d].is_const():
            break
        unit *= dims[d].cval()
    if len(group) < 2:
        return None
    for d, _ in group:
        if not (eng.prove(co[d], a.ctx) and eng.prove(dims[d] - co[d] - 1, a.ctx)):
            return group
    return None


def all_facts(items):
    return [f for f in items if f[0] == 'eq']


def known_eqs(eng, items):
    """Equality facts of a context, including those valid on all alternatives of a join."""
    return [f for f in items if f[0] == 'eq']


def mem_intrinsic(ins):
    n = callee_name(ins) if ins.op in ('call', 'invoke') else None
    if n and n.startswith(MEMFN):
        return 'set' if 'memset' in n else 'cpy'
    return None


def collect(eng, lay):
    """All memory accesses of the function."""
    out = []
    calls = []
    for b in eng.cfg.rpo:
        for ins in b.insts:
            if ins.op == 'load':
                _one(eng, lay, out, ins, ins.ops[0], ir.sizeof(ins.ty), 'r', None, ins.ty)
            elif ins.op == 'store':
                _one(eng, lay, out, ins, ins.ops[1], ir.sizeof(ins.ops[0].ty), 'w', None,
                     ins.ops[0].ty)
            elif ins.op in ('call', 'invoke'):
                m = mem_intrinsic(ins)
                if m:
                    ln = eng.sym(ins.ops[3])
                    _one(eng, lay, out, ins, ins.ops[1], None, 'w', ln, None)
                    if m == 'cpy':
                        _one(eng, lay, out, ins, ins.ops[2], None, 'r', ln, None)
                else:
                    calls.append(ins)
    return out, calls


def _one(eng, lay, out, ins, ptr, size, rw, length, ty):
    items = eng.items(ins.blk)
    for p, extra in ptr_cases(eng, ptr, items):
        a = Access()
        a.inst, a.rw, a.size, a.length, a.blk, a.ty = ins, rw, size, length, ins.blk, ty
        a.facts = extra
        a.ctx = Ctx(extra + items)
        b, off = eng.base_of(p)
        a.base, a.off = b, off
        a.opnd = None
        a.I = a.J = a.R = a.flat = None
        a.why = None
        if b is None:
            if p.is_const() and eng.unreachable(a.ctx):
                continue            # a null pointer that a test excludes
            a.kind = 'unknown'
        else:
            k = eng.key(b)
            a.kind = k[0]
            if k[0] == 'opnd':
                a.opnd = k[1]
                if k[1] < lay.nargs:
                    a.I, a.J, a.R, a.why = decompose(eng, lay, k[1], off,
                                                     all_facts(a.ctx.items))
                    if a.why is None and length is None:
                        a.flat = runs(eng, lay, a)
                else:
                    a.why = 'args[%d] does not exist' % k[1]
            elif k[0] == 'arg':
                a.kind = 'table'
                a.opnd = k[1]
        out.append(a)
