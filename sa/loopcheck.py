"""Proof obligations of one registered inner loop (or one non-inlined helper function)."""
import math
import os
import re
from fractions import Fraction
from . import ir
from .access import Layout, collect, mem_intrinsic, private_heap, private_value
from .cover import Cover
from .engine import Engine, Ctx, callee_name, ALLOC
from .sym import Poly, ZERO, ONE
from . import hooks

# The documentation of these functions requires C-contiguous operands.
CONTIGUOUS_BY_CONTRACT = {'sosfilter_ic_contig'}
# The documentation of these says that they accumulate in `out`.
ACCUMULATES = {'bincount', 'bincountw'}

FPW = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}


class Obl:
    """One obligation: what has to hold at one construct."""
    __slots__ = ('prop', 'rule', 'ok', 'where', 'src', 'detail', 'loop')

    def __init__(self, prop, rule, ok, where, src, detail, loop):
        self.prop, self.rule, self.ok, self.where = prop, rule, bool(ok), where
        self.src, self.detail, self.loop = src, detail, loop

    def tup(self):
        return (self.prop, self.rule, self.ok, self.where, self.src, self.detail, self.loop)


class Unit:
    """A function under analysis together with what is known about its operands."""

    def __init__(self, mod, loop, guarantees):
        self.mod, self.loop = mod, loop
        r = loop.reg
        self.name = r.name
        self.key = loop.key
        self.lay = Layout(loop)
        self.fn = mod.fn(loop.fn)
        cs = {}
        if r.name in CONTIGUOUS_BY_CONTRACT:
            for k, steps in enumerate(self.lay.coresteps):
                s = self.lay.size[k]
                for j, d in reversed(list(zip(steps, self.lay.opdims[k]))):
                    cs[j] = s
                    if d.isdigit():
                        s *= int(d)
                    else:
                        break
        self.eng = Engine(self.fn, nin=r.nin, nargs=r.nin + r.nout, fixed_dims=self.lay.fixed,
                          hook_facts=[hooks.dim_facts(guarantees, self.lay.dimnames)],
                          const_steps=cs)
        self.is_object = loop.is_object
        self.elementwise = not r.signature
        self._prep()

    def _prep(self):
        self.eng.houdini()
        self.acc, self.calls = collect(self.eng, self.lay)
        self._cover = None
        self.obls = []

    @property
    def cover(self):
        if self._cover is None:
            self._cover = Cover(self.eng, self.lay, self.acc)
        return self._cover

    def loc(self, ins):
        f, ln, fn = self.mod.loc(ins.dbg)
        if ln == 0:
            # nearest instruction of the block that has a position
            b = ins.blk
            i = b.insts.index(ins)
            for x in b.insts[i:] + b.insts[:i][::-1]:
                f, ln, fn = self.mod.loc(x.dbg)
                if ln:
                    break
        return f, ln, fn

    def add(self, prop, rule, ok, ins, detail=''):
        if ins is None:
            where, src = self.fn.name, self.fn.name
        else:
            f, ln, fn = self.loc(ins)
            f = relpath(f)
            where = '%s:%d (%s)' % (f, ln, fn)
            src = '%s:%s' % (f, re.sub(r'<.*', '', fn))
        self.obls.append(Obl(prop, rule, ok, where, src, detail, self.key))


class Helper(Unit):
    """A function that is called from loops and was not inlined."""

    def __init__(self, mod, fname, parent):
        self.mod, self.loop = mod, None
        self.name = fname
        self.key = '%s:%s' % (parent, fname)
        self.fn = mod.fn(fname)
        self.eng = Engine(self.fn, mode='helper')
        self.is_object = False
        self.elementwise = False

        class L:
            nargs = nin = 0
            coresteps, size, opdims, dimnames, fixed = [], [], [], [], {}
        self.lay = L()
        self._prep()


def relpath(f):
    f = f or '?'
    for pre in ('/repo/',):
        if f.startswith(pre):
            return f[len(pre):]
    m = re.search(r'/gen/([^/]+)/(?:ufunclab/)?(.*)$', f)
    if m:
        return '<generated %s>/%s' % (m.group(1), m.group(2))
    if f.startswith('/usr/'):
        return '<system>/' + os.path.basename(f)
    return f


# --------------------------------------------------------------------- rules
def p01(u):
    """Operand elements are addressed with their own strides and size."""
    e, lay = u.eng, u.lay
    for a in u.acc:
        if a.kind != 'opnd':
            continue
        if a.why:
            u.add('P01', 'own-strides', False, a.inst, '%s of operand %s: %s (byte offset %s)' %
                  ('write' if a.rw == 'w' else 'read', a.opnd, a.why, e.show(a.off)))
            continue
        sz = lay.size[a.opnd]
        r = a.R.cval()
        if a.length is not None:
            if a.length.is_const():
                ok = 0 <= r and r + a.length.cval() <= sz or \
                    _flat(u, a) is not None
            else:
                ok = r == 0 and _flat(u, a) is not None
            u.add('P01', 'whole-elements', ok, a.inst,
                  'block of %s bytes at operand %d' % (e.show(a.length), a.opnd))
            continue
        cplx = u.loop.types[a.opnd] in (14, 15, 16)
        ok = r == 0 and a.size == sz
        if cplx and a.size == sz // 2 and r in (0, sz // 2):
            ok = True
        u.add('P01', 'whole-elements', ok, a.inst,
              '%d bytes at byte %d of an element of %d bytes (operand %d)'
              % (a.size, r, sz, a.opnd))


def _flat(u, a):
    """(axis, count) when the block access runs along contiguous axes of the operand."""
    from .access import fact_consts
    e, lay = u.eng, u.lay
    sz = lay.size[a.opnd]
    consts = fact_consts([f for f in a.ctx.items if f[0] == 'eq'])
    own = [a.opnd] + lay.coresteps[a.opnd]
    dims = lay.opnd_dims(e, a.opnd)
    unit = sz
    for d in range(len(own) - 1, -1, -1):
        if consts.get(e.atom(('step', own[d]))) != unit:
            return None
        q = a.length.div(unit)
        inner_full = all(not ([a.I] + a.J)[x].t for x in range(d + 1, len(own)))
        if q is not None and inner_full:
            if d == 0 or e.prove(dims[d] - ([a.I] + a.J)[d] - q, a.ctx):
                return d, q
        if not dims[d].is_const():
            return None
        unit *= dims[d].cval()
    return None


def p02(u):
    """Bounds of every access."""
    e, lay = u.eng, u.lay
    for a in u.acc:
        k = a.kind
        if k == 'opnd':
            if a.why:
                u.add('P02', 'operand-bounds', False, a.inst, 'operand %s: %s' % (a.opnd, a.why))
                continue
            dims = lay.opnd_dims(e, a.opnd)
            co = [a.I] + a.J
            cnt = None
            if a.length is not None and not (a.length.is_const() and a.R.cval() +
                                             a.length.cval() <= lay.size[a.opnd]):
                fl = _flat(u, a)
                if fl is None:
                    u.add('P02', 'operand-bounds', False, a.inst,
                          'block of %s bytes is not known to stay inside operand %d'
                          % (e.show(a.length), a.opnd))
                    continue
                cnt = fl
            bad = []
            flat = dict(a.flat or ())
            if flat:
                # one index counts along contiguous axes
                c, n = ZERO, dims[min(flat)] * flat[min(flat)]
                for d in flat:
                    c = c + co[d] * flat[d]
                for q, t in ((c, '%s >= 0' % e.show(c)),
                             (n - c - 1, '%s < %s' % (e.show(c), e.show(n)))):
                    if not e.prove(q, a.ctx):
                        bad.append(t)
            for d, (c, n) in enumerate(zip(co, dims)):
                if d in flat:
                    continue
                if cnt is not None and d == cnt[0]:
                    last = n - c - cnt[1]
                elif cnt is not None and d > cnt[0]:
                    continue
                else:
                    last = n - c - 1
                if not e.prove(c, a.ctx):
                    bad.append('%s >= 0' % e.show(c))
                if not e.prove(last, a.ctx):
                    bad.append('%s < %s' % (e.show(c), e.show(n)))
            u.add('P02', 'operand-bounds', not bad, a.inst,
                  'operand %d: not shown: %s' % (a.opnd, '; '.join(bad)))
        elif k in ('glob', 'heap', 'vec', 'alloca'):
            size = _object_size(u, a.base)
            n = a.length if a.length is not None else Poly.const(
                10 if k == 'alloca' and a.ty is not None and a.ty.k == 'x86_fp80' else a.size)
            if size is None:
                if k == 'glob' and _foreign_global(u, a.base):
                    continue
                u.add('P02', '%s-bounds' % k, False, a.inst, 'object of unknown size')
                continue
            ok1, ok2 = e.prove(a.off, a.ctx), e.prove(size - a.off - n, a.ctx)
            if not (ok1 and ok2) and k == 'heap' and kept(e, [n, a.off]):
                u.add('P02', 'not-decided', True, a.inst, 'memory of a container')
                continue
            u.add('P02', '%s-bounds' % k, ok1 and ok2, a.inst,
                  'offset %s, %s bytes, object of %s bytes'
                  % (e.show(a.off), e.show(n), e.show(size)))
        elif k == 'table':
            if u.loop is None:
                continue            # judged at the call
            lim = {0: lay.nargs, 1: 1 + len(lay.dimnames), 2: lay.nsteps}.get(a.opnd)
            ok = lim is not None and a.rw == 'r' and a.off is not None and a.off.is_const() and \
                0 <= a.off.cval() < 8 * lim and a.off.cval() % 8 == 0
            u.add('P02', 'loop-arguments', ok, a.inst, 'entry %s of array argument %s'
                  % (e.show(a.off), a.opnd))
        else:
            if u.is_object and _object_memory(u, a):
                continue
            if private_heap(e, a.inst):
                u.add('P02', 'not-decided', True, a.inst, 'memory of a container')
                continue
            u.add('P02', 'known-object', False, a.inst,
                  'the object that is accessed is not known (%s)' % e.show(a.off))
    for c in u.calls:
        p02_call(u, c)


def p02_call(u, c):
    n = callee_name(c) or ''
    e = u.eng
    if n.startswith('_ZSt4sort') or n.startswith('_ZSt11nth_element') or \
            n.startswith('_ZSt11stable_sort') or n.startswith('_ZSt12partial_sort'):
        args = [o for o in c.ops[1:] if o.ty is not None and o.ty.k == 'ptr']
        ctx = e.ctx(c.blk)
        ok = len(args) >= 2
        if ok:
            b0, o0 = e.base_of(e.sym(args[0]))
            b1, o1 = e.base_of(e.sym(args[-1]))
            ok = b0 is not None and b0 == b1
            if ok:
                s = _object_size(u, b0)
                ok = s is not None and e.prove(o0, ctx) and e.prove(s - o1, ctx) and \
                    e.prove(o1 - o0, ctx)
        if not ok and all(private_value(e, x) for x in args) and any(
                kept(e, [e.sym(x)]) for x in args):
            u.add('P02', 'not-decided', True, c, 'memory of a container')
            return
        u.add('P02', 'library-range', ok, c, 'range passed to %s' % n)


def _object_size(u, base):
    e = u.eng
    k = e.key(base)
    if k[0] in ('heap', 'vec'):
        s = e.heap.get(base)
        return s[0] if s else None
    if k[0] == 'alloca':
        i = e.inst_by_id(k[1])
        cnt = i.ops[0].val if i.ops and isinstance(i.ops[0], ir.Const) else 1
        return Poly.const(ir.sizeof(i.x) * cnt)
    if k[0] == 'glob':
        g = u.mod.globals.get(k[1])
        if g is not None and g.init is not None:
            return Poly.const(ir.sizeof(g.ty))
    return None


def kept(e, ps):
    """Lengths or positions that a local object (a container) keeps."""
    for p in ps:
        for t in p.atoms():
            k = e.key(t)
            if kept(e, [x for x in k if isinstance(x, Poly)]):
                return True
            if k[0] == 'v':
                i = e.inst_by_id(k[1])
                if i.op in ('load', 'phi', 'select') and i.ty.k == 'ptr' and private_value(e, i):
                    return True
    return False


def _foreign_global(u, base):
    g = u.mod.globals.get(u.eng.key(base)[1])
    return g is not None and g.init is None


def _object_memory(u, a):
    """Access to a Python object header (reference counts, type) in an object loop."""
    e = u.eng
    if a.base is None:
        return False
    k = e.key(a.base)
    if k[0] == 'ld':
        return True
    if k[0] == 'v':
        i = e.inst_by_id(k[1])
        return i.op in ('load', 'phi', 'select', 'call')
    return False


def p03(u):
    """Writes go to outputs and to private memory only."""
    lay = u.lay
    for a in u.acc:
        if a.rw != 'w':
            continue
        if a.kind == 'opnd':
            u.add('P03', 'no-input-writes', a.opnd >= lay.nin, a.inst,
                  'operand %d is an input' % a.opnd)
        elif a.kind in ('heap', 'vec', 'alloca'):
            u.add('P03', 'no-input-writes', True, a.inst)
        elif a.kind == 'glob':
            u.add('P03', 'no-input-writes', True, a.inst)
        elif u.is_object and _object_memory(u, a):
            continue
        elif private_heap(u.eng, a.inst):
            u.add('P03', 'no-input-writes', True, a.inst)
        else:
            u.add('P03', 'no-input-writes', False, a.inst,
                  'write to memory that is not known to be an output')
    for c in u.calls:
        n = callee_name(c)
        if n is None:
            u.add('P03', 'no-input-writes', False, c, 'indirect call')
            continue
        if u.is_object or n.startswith(('Py', '_Py', 'llvm.', '_ZNSt6vector', '__cxa', '__clang')):
            continue
        for o in c.ops[1:]:
            if o.ty is not None and o.ty.k == 'ptr':
                b, _ = u.eng.base_of(u.eng.sym(o))
                if b is not None and u.eng.key(b)[0] == 'opnd' and u.eng.key(b)[1] < lay.nin:
                    u.add('P03', 'no-input-writes', False, c, 'an input is passed to %s' % n)


def p04(u):
    """Every element of every output is assigned on every path that returns normally."""
    if u.loop is None:
        return
    e, lay, C = u.eng, u.lay, u.cover
    if u.name in ACCUMULATES:
        return
    for k in range(lay.nin, lay.nargs):
        obj = e.atom(('opnd', k))
        dims = lay.opnd_dims(e, k)
        elem = [C.freshatom('e%d' % d) for d in range(len(dims))]
        F = []
        for x, d in zip(elem, dims):
            F += [('ge', x), ('ge', d - x - 1)]
        parts = [(0, lay.size[k])]
        if u.loop.types[k] in (14, 15, 16):
            h = lay.size[k] // 2
            parts = [(0, h), (h, h)]
        for b in e.cfg.rpo:
            if b.term.op == 'ret':
                for p, ps in parts:
                    ok = C.covered(obj, elem, p, ps, b, len(b.insts), F)
                    last = C.stores.get(obj)
                    u.add('P04', 'output-assigned', ok, last[-1].acc.inst if last else None,
                          'operand %d (output %d)%s: a path to the return leaves an element '
                          'unassigned' % (k, k - lay.nin, '' if len(parts) == 1 else
                                          ' byte %d' % p))


def p05(u):
    """Reads of mutable memory see values written by this call; no hidden state."""
    e, lay, C = u.eng, u.lay, u.cover
    for a in u.acc:
        if a.kind == 'glob':
            g = u.mod.globals.get(e.key(a.base)[1])
            if a.rw == 'w':
                u.add('P05', 'no-global-state', False, a.inst,
                      'write to the global %s' % e.key(a.base)[1])
            elif g is None or not g.const:
                ok = g is not None and _foreign_const(e.key(a.base)[1])
                u.add('P05', 'no-global-state', ok, a.inst,
                      'read of the mutable global %s' % e.key(a.base)[1])
            else:
                u.add('P05', 'no-global-state', True, a.inst)
            continue
        if a.rw != 'r' or not _mutable(u, a):
            continue
        if a.kind == 'opnd' and (u.name in ACCUMULATES or u.loop.types[a.opnd] == 17):
            continue
        u.add('P05', 'initialised-before-read', _initialised(u, a, None), a.inst,
              'read of %s at %s before it is assigned' % (_objname(u, a), e.show(a.off)))
    p05_undef(u)


FOREIGN_CONST = re.compile(r'^(PyExc_|_Py_|Py[A-Z]\w*_Type$|_ZT|_ZSt|__dso_handle|std)')


def _foreign_const(n):
    """Objects that belong to the interpreter or the C++ runtime (not hidden state)."""
    return bool(FOREIGN_CONST.match(n))


def _objname(u, a):
    return 'output operand %d' % a.opnd if a.kind == 'opnd' else 'a temporary (%s)' % a.kind


def _mutable(u, a):
    return a.kind in ('heap', 'vec', 'alloca') or (a.kind == 'opnd' and a.opnd >= u.lay.nin)


def _initialised(u, a, stop):
    """The memory read by access a is assigned on every path since `stop`."""
    e, C = u.eng, u.cover
    if a.kind in ('heap', 'vec'):
        if stop is None and e.heap.get(a.base, (None, False))[1]:
            return True
        if stop is not None and e.heap.get(a.base, (None, False))[1]:
            # allocated (and zeroed) within the same iteration
            d = e.key(a.base)
            if d[0] == 'heap':
                return e.inst_by_id(d[1]).blk in stop[0].body
            if d[0] == 'vec':
                return any(i.blk in stop[0].body for i, _ in e._vecs.get(d[1], ()))
    if a.kind == 'alloca' and _object_alloca(u, a.base):
        return True
    facts = [f for f in a.facts]
    pos = a.blk.insts.index(a.inst)
    if a.kind == 'opnd':
        if a.why or a.I is None:
            return False
        elem, part = [a.I] + a.J, a.R.cval()
        if a.length is not None:
            if not (a.length.is_const() and part + a.length.cval() <= u.lay.size[a.opnd]):
                return False
            ps = a.length.cval()
        else:
            ps = a.size
        return C.covered(a.base, elem, part, ps, a.blk, pos, facts, stop)
    if a.length is not None and not a.length.is_const():
        f = C.freshatom('b')
        g = 16
        for s in C.stores.get(a.base, ()):
            if s.size:
                g = min(g, s.size)
        n = a.length.div(g)
        if n is None:
            return False
        facts = facts + [('ge', f), ('ge', n - f - 1)]
        return C.covered(a.base, [a.off + f * g], 0, g, a.blk, pos, facts, stop)
    n = a.size if a.size is not None else a.length.cval()
    if e.key(a.base)[0] == 'alloca' and a.off.is_const():
        # every byte range of the object that is stored separately
        lo = a.off.cval()
        cuts = {lo, lo + n}
        for s in C.stores.get(a.base, ()):
            if s.coord[0].is_const():
                c = s.coord[0].cval()
                m = s.size if s.count is None else (s.count.cval() if s.count.is_const() else 0)
                for x in (c, c + m):
                    if lo < x < lo + n:
                        cuts.add(x)
        cs = sorted(cuts)
        return all(C.covered(a.base, [Poly.const(x)], 0, _padded(u, a, x, y), a.blk, pos, facts,
                             stop) for x, y in zip(cs, cs[1:]) if not _padding(u, a, x, y))
    return C.covered(a.base, [a.off], 0, n, a.blk, pos, facts, stop)


def _padded(u, a, x, y):
    return y - x


def _padding(u, a, x, y):
    """Bytes x..y are the padding of an extended-precision value."""
    t = u.eng.inst_by_id(u.eng.key(a.base)[1]).x
    return 'x86_fp80' in repr(t) and x % 16 >= 10


def _object_alloca(u, base):
    """C++ objects that are constructed and filled by calls that stay calls."""
    e = u.eng
    i = e.inst_by_id(e.key(base)[1])
    if 'vector' in repr(i.x):
        return True
    for x in u.fn.insts():
        if x.op in ('call', 'invoke') and not mem_intrinsic(x):
            for o in x.ops[1:]:
                if o.ty is not None and o.ty.k == 'ptr' and e.base_of(e.sym(o))[0] == base:
                    return True
    return False


def is_undef(o):
    """The value of a variable that was not assigned."""
    return isinstance(o, ir.Const) and o.kind in ('undef', 'poison') or \
        isinstance(o, ir.Inst) and o.op == 'freeze' and isinstance(o.ops[0], ir.Const) and \
        o.ops[0].kind in ('undef', 'poison')


def p05_undef(u):
    """Values that were never assigned do not reach a result, a branch or an address."""
    e = u.eng
    srcs = []
    for i in u.fn.insts():
        if i.blk not in e.cfg.reach:
            continue
        if i.op in ('phi', 'select'):
            for n, o in enumerate(i.ops):
                if is_undef(o):
                    srcs.append((i, n))
        elif i.op in ('insertvalue', 'insertelement', 'landingpad', 'freeze', 'resume'):
            continue
        else:
            for n, o in enumerate(i.ops):
                if not is_undef(o) or i.op in ('call', 'invoke') and n == 0:
                    continue
                if i.op in ('store', 'br', 'switch', 'ret', 'gep', 'call', 'invoke'):
                    u.add('P05', 'assigned-variables', e.unreachable(Ctx(e.items(i.blk))), i,
                          'use of a variable that was not assigned')
                else:
                    srcs.append((i, n))     # computed early for a path that does not use it
    uses = None
    for i, n in srcs:
        if uses is None:
            uses = {}
            for x in u.fn.insts():
                for o in x.ops:
                    if isinstance(o, ir.Inst):
                        uses.setdefault(o, []).append(x)
        facts = []
        if i.op == 'phi':
            p = i.x[n]
            if e.unreachable(Ctx(e.edge_facts(p, i.blk) + e.items(p))):
                continue
            for j in i.blk.insts:
                if j.op != 'phi':
                    break
                o = j.ops[j.x.index(p)]
                if j.ty.is_int() and j.ty.n > 1 or j.ty.k == 'ptr':
                    if not is_undef(o):
                        facts.append(('eq', e.sym(j) - e.sym(o)))
                elif j.ty.is_int() and isinstance(o, ir.Const) and o.kind == 'int':
                    facts.append(('bool', ('v', j.id), bool(o.val)))
            facts += e.edge_facts(p, i.blk)
        elif i.op == 'select' and n:
            facts += e.cond_facts(i.ops[0], n == 1)
        bad = _undef_flow(u, i, uses, facts)
        u.add('P05', 'assigned-variables', bad is None, bad or i,
              'a variable that is not assigned on every path is used here')


def _varies(e, f, L):
    """Does the fact speak of values that an iteration of the loop defines?"""
    if f[0] == 'bool':
        return f[1][0] != 'v' or e.inst_by_id(f[1][1]).blk in L.body
    return any(e.A.home[a] and e.A.home[a] in L.body for a in e._fact_atoms(f))


def _undef_flow(u, i, uses, facts, depth=0, seen=None, later=frozenset()):
    # `later`: the loops in which the value has reached a later iteration
    e = u.eng
    seen = set() if seen is None else seen
    for x in uses.get(i, ()):
        if (x, later) in seen or x.blk not in e.cfg.reach:
            continue
        seen.add((x, later))
        fs = list(facts)
        if x.op == 'phi':
            # feasible only over the edges that carry the value
            ok = False
            for o, p in zip(x.ops, x.x):
                if o is i:
                    atoms = set()
                    for f in fs:
                        atoms |= e._fact_atoms(f)
                    e._budget = 120
                    its = e.edge_facts(p, x.blk) + e.items(p)
                    if not e._prove(fs + [], atoms, its, 4):
                        ok = True
                        extra = []
                        L = next((l for l in e.cfg.loops if l.header is x.blk), None)
                        if L is not None and p in L.body:
                            keep = [f for f in fs if not _varies(e, f, L)]
                            keep.append(('ge', e.iv(L) - 1))
                            if depth < 24:
                                r = _undef_flow(u, x, uses, keep, depth + 1, seen,
                                                later | {L.header})
                                if r is not None:
                                    return r
                            continue
                        for j in x.blk.insts:
                            if j.op != 'phi':
                                break
                            if j.ty.is_int() and j.ty.n > 1:
                                q = j.ops[j.x.index(p)]
                                if not is_undef(q):
                                    extra.append(('eq', e.sym(j) - e.sym(q)))
                        if depth < 24:
                            r = _undef_flow(u, x, uses, fs + extra, depth + 1, seen, later)
                            if r is not None:
                                return r
            if not ok:
                continue
            continue
        if x.op == 'select' and x.ops[0] is not i and (x.ops[1] is i) != (x.ops[2] is i):
            fs += e.cond_facts(x.ops[0], x.ops[1] is i)
        atoms = set()
        for f in fs:
            atoms |= e._fact_atoms(f)
        e._budget = 120
        if fs and e._prove(fs + [], atoms, e.items(x.blk), 4):
            continue
        if x.op in ('store', 'br', 'switch', 'ret', 'gep'):
            return x
        if x.op in ('call', 'invoke'):
            return x
        if x.op in ('insertvalue', 'extractvalue', 'landingpad', 'resume'):
            continue
        if depth < 24:
            r = _undef_flow(u, x, uses, fs, depth + 1, seen, later)
            if r is not None:
                return r
    return None


def outer_loops(u):
    """Top-level loops whose counter selects the broadcast position."""
    e = u.eng
    out = []
    for L in e.cfg.loops:
        if L.parent is not None:
            continue
        iva = e.iv(L).single()
        if any(a.kind == 'opnd' and a.I is not None and iva in a.I.atoms() for a in u.acc):
            out.append(L)
    return out


def iteration_blocks(u, outs):
    """{loop: blocks that run as part of one of its iterations}: the body and what follows a
    `break` (the last iteration)."""
    e = u.eng
    inside = {b for L in outs for b in L.body}
    res = {}
    for L in outs:
        bs = set(L.body)
        for b in e.cfg.reach:
            if b in inside:
                continue
            x = b
            while x is not None and x is not e.cfg.entry:
                x = e.cfg.idom[x]
                if x in L.body:
                    bs.add(b)
                    break
                if x in inside:
                    break
        res[L] = bs
    return res


def p06(u):
    """Nothing is carried from one broadcast iteration to the next."""
    if u.loop is None:
        return
    e, lay = u.eng, u.lay
    outs = outer_loops(u)
    u.add('P06', 'outer-loop', bool(outs), None, 'no loop over the broadcast dimension found')
    IB = iteration_blocks(u, outs)
    for L in outs:
        iva = e.iv(L).single()
        # 1. header phis are affine in the counter (positions), nothing else
        for i in L.header.insts:
            if i.op != 'phi':
                break
            ok = False
            if i.ty.is_int() or i.ty.k == 'ptr':
                p = e.sym(i)
                a = p.single()
                ok = not (a is not None and e.key(a)[0] == 'v' and e.key(a)[1] == i.id) and \
                    all(not e.A.home[x] or e.A.home[x] not in L.body or x == iva
                        for x in p.atoms())
            if not ok and (_dead_phi(u, i, L) or
                           _undef_flow(u, i, _users(u), []) is None):
                ok = True
            u.add('P06', 'no-carried-value', ok, _phi_source(u, i, L),
                  'the value of %r is carried from one broadcast iteration to the next'
                  % (i.name,))
        # 2. all accesses of an iteration use the same position
        pos = None
        for a in u.acc:
            if a.kind != 'opnd' or a.blk not in IB[L]:
                continue
            if a.I is None:
                u.add('P06', 'same-position', False, a.inst, 'position not known: %s' % a.why)
                continue
            if pos is None:
                cf = a.I.coeff(iva)
                if cf is not None and cf[0].is_const() and abs(cf[0].cval()) == 1:
                    pos = a.I
            ok = pos is not None and (not (a.I - pos).t or e.prove_eq(a.I - pos, a.ctx) or
                                      _zero_step(u, a))
            u.add('P06', 'same-position', ok, a.inst,
                  'operand %d is used at broadcast position %s, others at %s'
                  % (a.opnd, e.show(a.I), e.show(pos)))
        # 3. memory read in an iteration was written in the same iteration
        gw = {a.base for a in u.acc if a.kind == 'glob' and a.rw == 'w' and a.blk in IB[L]}
        for a in u.acc:
            if a.kind == 'glob' and a.rw == 'r' and a.base in gw and a.blk in IB[L]:
                u.add('P06', 'no-carried-memory', False, a.inst,
                      'the global %s is read and written by the iterations'
                      % e.key(a.base)[1])
            if a.rw != 'r' or a.blk not in IB[L] or not _mutable(u, a):
                continue
            if a.kind == 'opnd' and (u.name in ACCUMULATES or u.loop.types[a.opnd] == 17):
                continue
            u.add('P06', 'no-carried-memory', _initialised(u, a, (L,)) or
                  _earlier_pass(u, a, L, outs), a.inst, 'read of %s that may hold a value of an earlier broadcast iteration'
                  % _objname(u, a))
    # 4. operand accesses outside the broadcast loops must not depend on a position
    for a in u.acc:
        if a.kind == 'opnd' and not any(a.blk in IB[L] for L in outs):
            ok = _zero_step(u, a)
            u.add('P06', 'same-position', ok, a.inst,
                  'operand %d is used outside the loop over the broadcast positions' % a.opnd)


def _earlier_pass(u, a, L, outs):
    """A separate loop over the same positions has stored this element before."""
    e = u.eng
    if a.kind != 'opnd' or a.I is None:
        return False
    iva = e.iv(L).single()
    for M in outs:
        if M is L or not e.cfg.dom(M.header, L.header) or \
                e.trip(M) is None or e.trip(L) is None or e.trip(M) != e.trip(L):
            continue
        ma = e.iv(M).single()
        for w in u.acc:
            if w.kind == 'opnd' and w.rw == 'w' and w.opnd == a.opnd and w.I is not None and \
                    w.size == a.size and w.blk in M.body and \
                    all(e.cfg.dom(w.blk, l) for l in M.latches) and \
                    w.I.coeff(ma) and a.I.coeff(iva) and \
                    w.I.coeff(ma)[0] == a.I.coeff(iva)[0] and \
                    w.I.coeff(ma)[1] == a.I.coeff(iva)[1] and \
                    w.off.coeff(ma) and a.off.coeff(iva) and \
                    w.off.coeff(ma)[0] == a.off.coeff(iva)[0] and \
                    w.off.coeff(ma)[1] == a.off.coeff(iva)[1]:
                return True
    return False


def _zero_step(u, a):
    e = u.eng
    s = e.patom(('step', a.opnd))
    return e.prove_eq(s, a.ctx)


def _phi_source(u, i, L):
    for o, b in zip(i.ops, i.x):
        if b in L.body and isinstance(o, ir.Inst) and o.op != 'phi':
            return o
    return i


def _dead_phi(u, i, L):
    """The carried value is never used before it is replaced (nothing reads the phi)."""
    seen, work = set(), [i]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in u.fn.insts():
            if any(o is x for o in y.ops):
                if y.op == 'phi':
                    work.append(y)
                else:
                    return False
    return True


def p07(u):
    """Element-wise loops read the inputs of an element before writing its outputs."""
    if u.loop is None or not u.elementwise:
        return
    e, lay = u.eng, u.lay
    outs = outer_loops(u)
    IB = iteration_blocks(u, outs)
    for L in outs:
        rd = [a for a in u.acc if a.kind == 'opnd' and a.rw == 'r' and a.opnd < lay.nin and
              a.blk in IB[L]]
        wr = [a for a in u.acc if a.kind == 'opnd' and a.rw == 'w' and a.blk in IB[L]]
        for w in wr:
            after = _after(u, w.inst, L, IB[L])
            bad = [r for r in rd if r.inst in after and
                   u.lay.size[r.opnd] == u.lay.size[w.opnd]]
            u.add('P07', 'read-before-write', not bad, bad[0].inst if bad else w.inst,
                  'input %s is read after output %d of the same element has been written'
                  % (bad[0].opnd if bad else '', w.opnd))
        # separate passes: a later loop reads elements whose outputs are already written
        for M in outs:
            if M is L or not _reaches(e, L, M):
                continue
            la, ma = e.iv(L).single(), e.iv(M).single()
            for r in u.acc:
                if r.kind != 'opnd' or r.rw != 'r' or r.opnd >= lay.nin or \
                        r.blk not in IB[M] or r.I is None:
                    continue
                bad = [w for w in wr if w.I is not None and
                       lay.size[w.opnd] == lay.size[r.opnd] and _same_range(w.I, la, r.I, ma)]
                u.add('P07', 'read-before-write', not bad, r.inst, 'input %d is read in a later '
                      'pass, after outputs of the same elements have been written' % r.opnd)
    for a in u.acc:
        if a.kind == 'opnd' and not any(a.blk in IB[L] for L in outs):
            u.add('P07', 'read-before-write', _zero_step(u, a) and a.rw == 'w', a.inst,
                  'an operand is accessed outside the loop over the elements')


def _reaches(e, L, M):
    seen, work = set(), [s for _, s in L.exits]
    while work:
        x = work.pop()
        if x is M.header:
            return True
        if x in seen or x not in e.cfg.reach:
            continue
        seen.add(x)
        work += x.succs
    return False


def _same_range(w, la, r, ma):
    """Both positions run over the elements from a constant start."""
    cw, cr = w.coeff(la), r.coeff(ma)
    return bool(cw and cr and cw[0].is_const() and cr[0].is_const() and
                cw[0].cval() * cr[0].cval() > 0 and cw[1].is_const() and cr[1].is_const())


def _after(u, ins, L, body):
    """Instructions that can run after ins within one iteration of L."""
    out = set()
    b = ins.blk
    out.update(b.insts[b.insts.index(ins) + 1:])
    seen, work = set(), [s for s in b.succs if s in body and s is not L.header]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        out.update(x.insts)
        work += [s for s in x.succs if s in body and s is not L.header]
    return out


# ------------------------------------------------------------------- P12-P15
def p12(u):
    """No narrowing of sizes, positions and offsets; counters are wide enough."""
    e = u.eng
    sizes = _size_values(u)
    _sizes_multiply(u, sizes)
    for i in u.fn.insts():
        if i.blk not in e.cfg.reach:
            continue
        if i.op == 'trunc' and i.ty.n > 1 and i.ops[0].ty.n > i.ty.n:
            p = e.sym(i.ops[0])
            if i.ops[0] not in sizes and not _loaded(i.ops[0]):
                continue
            if not _reaches_position(u, i, i.ops[0] not in sizes):
                continue
            h = 1 << (i.ty.n - 1)
            ctx = e.ctx(i.blk)
            ok = (e.prove(p + h, ctx) and e.prove(Poly.const(h - 1) - p, ctx)) or \
                (e.prove(p, ctx) and e.prove(Poly.const(2 * h - 1) - p, ctx))
            u.add('P12', 'no-truncation', ok, i, 'the %d-bit value %s is truncated to %d bits'
                  % (i.ops[0].ty.n, e.show(p), i.ty.n))
        elif i.op in ('fptosi', 'fptoui') and _fpw(i.ops[0].ty) < 8 and \
                _reaches_position(u, i, True):
            from . import fdom
            iv = fdom.interval(u, i.ops[0], e.ctx(i.blk))
            u.add('P12', 'no-truncation', -(1 << 24) <= iv.lo and iv.hi <= 1 << 24, i,
                  'a position is kept in a floating-point value of 24 bits')
    for L in e.cfg.loops:
        for i in L.header.insts:
            if i.op != 'phi':
                break
            if not (i.ty.is_int() and 1 < i.ty.n < 64):
                continue
            backs = [o for o, b in zip(i.ops, i.x) if b in L.body]
            ds = set()
            for b in backs:
                d = e.deltas(b, i, L, set())
                if d is None:
                    ds = None
                    break
                ds |= d
            if ds is None or ds == {ZERO}:
                continue
            ok = all(_no_wrap(e, l, L, e.sym(i), ds, 1 << (i.ty.n - 1)) for l in L.latches)
            u.add('P12', 'wide-counters', ok, backs[0] if isinstance(backs[0], ir.Inst) else i,
                  'the %d-bit counter %r can be driven past its range by an array dimension'
                  % (i.ty.n, i.name))
        u.add('P12', 'loops-analysed', True, L.header.insts[0])
    for i in u.fn.insts():
        if i.op == 'sext' and i.ops[0].ty.n > 1 and i.ty.n == 64 and i.blk in e.cfg.reach:
            # 32-bit arithmetic on sizes before widening
            s = i.ops[0]
            if isinstance(s, ir.Inst) and s.op in ('mul', 'add', 'sub', 'shl') and s.ty.n < 64:
                p = e.sym(s)
                if s in sizes:
                    h = 1 << (s.ty.n - 1)
                    ctx = e.ctx(i.blk)
                    ok = e.prove(Poly.const(h - 1) - p, ctx) and e.prove(p + h, ctx)
                    u.add('P12', 'wide-arithmetic', ok, i, '%d-bit arithmetic on %s'
                          % (s.ty.n, e.show(p)))


def _sizes_multiply(u, sizes):
    """Products of lengths fit in 64 bits only where one array has all those dimensions."""
    e, lay = u.eng, u.lay
    for i in u.fn.insts():
        if i.op != 'mul' or i not in sizes or i.blk not in e.cfg.reach or i.ty.n != 64:
            continue
        p = e.sym(i)
        bad = None
        for mono in p.t:
            ds = sorted(e.key(a)[1] for a in mono if e.key(a)[0] == 'dim')
            if len(ds) < 2:
                continue
            ok = u.loop is not None and any(
                _contained(ds, [0] + [1 + lay.dimnames.index(d) for d in od])
                for od in lay.opdims)
            if not ok:
                bad = mono
        if bad is None and len(p.t) == 1 and all(len(m) < 2 for m in p.t):
            continue
        if any(len([a for a in m if e.key(a)[0] == 'dim']) >= 2 for m in p.t):
            u.add('P12', 'no-overflow', bad is None, i, 'the product %s of lengths can exceed the '
                  'range of its type' % e.show(p))


def _contained(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


SIZE_OPS = {'add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'ashr',
            'lshr', 'sext', 'zext', 'trunc', 'freeze', 'phi'}


def _size_values(u):
    """Integer values that are derived from dimensions, strides or iteration counters.

    Element values are not, even though their addresses are.
    """
    e = u.eng
    src = set()
    for i in u.fn.insts():
        if i.blk not in e.cfg.reach or i.ty is None or not i.ty.is_int() or i.ty.n == 1:
            continue
        if i.op == 'load':
            a = e.sym(i).single()
            if a is not None and e.key(a)[0] in ('dim', 'step'):
                src.add(i)
        elif i.op == 'phi':
            L = e.latch_of.get(i.blk)
            if L is None or e.prove(Poly.const((1 << 31) - 1) - e.iv(L), e.ctx(i.blk)):
                continue
            ds = set()
            for o, b in zip(i.ops, i.x):
                if b in L.body:
                    d = e.deltas(o, i, L, set())
                    if d is None:
                        ds = None
                        break
                    ds |= d
            if ds and ds != {ZERO} and all(d.is_const() for d in ds):
                src.add(i)
    seen, work, users = set(), list(src), _users(u)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in users.get(x, ()):
            if y.op in SIZE_OPS and y.ty.is_int() and \
                    not (y.op in ('srem', 'urem') and y.ops[0] is not x):
                work.append(y)
            elif y.op == 'select' and y.ty.is_int() and y.ops[0] is not x:
                work.append(y)
    return seen


def _loaded(v, d=0):
    """A 64-bit integer element, possibly after some arithmetic."""
    if not isinstance(v, ir.Inst) or d > 4:
        return False
    if v.op == 'load':
        return v.ty.is_int() and v.ty.n == 64
    return v.op in ('add', 'sub', 'mul', 'freeze', 'sdiv', 'phi', 'select') and \
        any(_loaded(o, d + 1) for o in v.ops)


def _reaches_position(u, i, address=False):
    """The truncated value is used for an address, a comparison or a counter."""
    seen, work = set(), [i]
    users = _users(u)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in users.get(x, ()):
            if y.op == 'gep' or y.op in ('icmp', 'switch') and not address:
                return True
            if address and y.op not in ('add', 'sub', 'mul', 'sext', 'zext', 'phi', 'select',
                                        'shl', 'freeze'):
                continue
            if y.op in ('sitofp', 'uitofp'):
                return True
            if y.op in ('call', 'invoke') and not (callee_name(y) or '').startswith('Py'):
                return True
            if y.op == 'store':
                return True
            if y.op in ('add', 'sub', 'mul', 'sext', 'zext', 'phi', 'select', 'shl', 'sdiv',
                        'udiv', 'srem', 'urem', 'and', 'or', 'trunc', 'freeze'):
                work.append(y)
    return False


def _users(u):
    if not hasattr(u, '_usermap'):
        u._usermap = {}
        for x in u.fn.insts():
            for o in x.ops:
                if isinstance(o, ir.Inst):
                    u._usermap.setdefault(o, []).append(x)
    return u._usermap


def _no_wrap(e, l, L, p, ds, h):
    """Adding a step to the counter cannot leave the range of its type.

    Comparisons against dimensions do not bound the counter by a constant, so
    a counter that runs up to a dimension is not accepted.
    """
    ctx = Ctx(e.edge_facts(l, L.header) + e.items(l))
    for d in ds:
        if not d.is_const():
            return False
        c = d.cval()
        if c > 0 and not e.prove(Poly.const(h - 1 - c) - p, ctx):
            return False
        if c < 0 and not e.prove(p + h + c, ctx):
            return False
    return True


def p13(u):
    """No trapping division, no undefined conversion."""
    e = u.eng
    for i in u.fn.insts():
        if i.blk not in e.cfg.reach:
            continue
        if i.op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, b = e.sym(i.ops[0]), e.sym(i.ops[1])
            ctx = e.ctx(i.blk)
            ok = True
            why = ''
            if not (b.is_const() and b.cval() != 0):
                if not (e.prove(b - 1, ctx) or (i.op[0] == 's' and e.prove(-b - 1, ctx)) or
                        e.prove_ne(b, ctx)):
                    ok, why = False, 'the divisor %s may be zero' % e.show(b)
            if ok and i.op[0] == 's' and not (b.is_const() and b.cval() != -1) and \
                    i.ty.n >= 32 and not e.prove(b, ctx):
                if not (e.prove_ne(b + 1, ctx) or
                        e.prove(a + (1 << (i.ty.n - 1)) - 1, ctx)):
                    ok, why = False, ('the quotient of the smallest integer and %s may overflow'
                                      % e.show(b))
            u.add('P13', 'safe-division', ok, i, why)
        elif i.op in ('fptosi', 'fptoui'):
            ok, why = _conversion_ok(u, i)
            u.add('P13', 'safe-conversion', ok, i, why)


def _selected(u, i):
    """Conditions under which the value of a speculated conversion is used."""
    e, out, users = u.eng, [], _users(u)
    for _ in range(6):
        us = users.get(i, ())
        if len(us) != 1:
            return out
        y = us[0]
        if y.op == 'select' and y.ops[0] is not i and y.ops[1] is not y.ops[2]:
            out += e.cond_facts(y.ops[0], y.ops[1] is i)
        elif y.op == 'phi' and y.blk not in e.latch_of:
            p = [b for o, b in zip(y.ops, y.x) if o is i]
            if len(p) == 1:
                out += e.edge_facts(p[0], y.blk)
        elif y.op not in ('sitofp', 'uitofp', 'sext', 'zext', 'trunc', 'freeze', 'add', 'sub',
                          'fpext', 'fptrunc', 'fadd', 'fsub', 'fmul'):
            return out
        i = y
    return out


def _conversion_ok(u, i):
    from . import fdom
    n = i.ty.n
    lo, hi = (-(2 ** (n - 1)) - 1, 2 ** (n - 1)) if i.op == 'fptosi' else (-1, 2 ** n)
    iv = fdom.interval(u, i.ops[0], _selected(u, i) + list(u.eng.ctx(i.blk).items))
    if iv.nan:
        return False, 'the operand may be nan (%s)' % iv
    if not (iv.lo > lo and iv.hi < hi):
        return False, 'the operand may be out of range (%s)' % iv
    return True, ''


def p14(u):
    """Precision: backward slice of every floating-point result."""
    if u.loop is None:
        return
    e, lay = u.eng, u.lay
    prec = {23: 2, 11: 4, 12: 8, 13: 16, 14: 4, 15: 8, 16: 16}
    slices = {}
    for a in u.acc:
        if a.rw != 'w' or a.kind != 'opnd' or a.inst.op != 'store':
            continue
        T = prec.get(u.loop.types[a.opnd])
        if T is None:
            continue
        slices.setdefault(T, []).append(a.inst)
    for T, stores in slices.items():
        seen, work = set(), [s.ops[0] for s in stores]
        objs = set()
        while work:
            v = work.pop()
            if not isinstance(v, ir.Inst) or v in seen:
                continue
            seen.add(v)
            if v.op == 'fptrunc':
                w = _fpw(v.ty)
                src = _fpw(v.ops[0].ty)
                u.add('P14', 'no-narrowing', w >= T, v,
                      'a %d-byte floating-point value is rounded to %d bytes on the way to a '
                      '%d-byte result' % (src, w, T))
            elif v.op in ('sitofp', 'uitofp'):
                w = _fpw(v.ty)
                bits = {2: 11, 4: 24, 8: 53, 16: 64}[w]
                u.add('P14', 'no-narrowing', w >= T or v.ops[0].ty.n <= bits, v,
                      'an integer is converted to a %d-byte floating-point value on the way to '
                      'a %d-byte result' % (w, T))
            elif v.op in ('call', 'invoke'):
                if v.ty is not None and _fpw(v.ty) and _fpw(v.ty) < T:
                    u.add('P14', 'no-narrowing', callee_name(v) in ('npy_half_to_float',), v,
                          '%s computes in %d bytes for a %d-byte result'
                          % (callee_name(v), _fpw(v.ty), T))
            elif v.op == 'load':
                b, _ = e.base_of(e.sym(v.ops[0]))
                if b is not None and e.key(b)[0] in ('heap', 'alloca', 'vec', 'opnd') and \
                        b not in objs and not (e.key(b)[0] == 'opnd' and e.key(b)[1] < lay.nin):
                    objs.add(b)
                    for x in u.acc:
                        if x.rw == 'w' and x.base == b and x.inst.op == 'store':
                            work.append(x.inst.ops[0])
                if _fpw(v.ty) and _fpw(v.ty) < T and b is not None and \
                        e.key(b)[0] in ('heap', 'alloca', 'vec', 'glob'):
                    ok = e.key(b)[0] == 'glob' and _exact_table(u.mod, e.key(b)[1])
                    u.add('P14', 'no-narrowing', ok, v,
                          'an intermediate value is kept in %d bytes for a %d-byte result'
                          % (_fpw(v.ty), T))
                continue
            elif v.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
                w = _fpw(v.ty)
                if w and w < T and not _exact_small(v):
                    u.add('P14', 'no-narrowing', False, v,
                          'arithmetic in %d bytes for a %d-byte result' % (w, T))
            work += [o for o in v.ops if isinstance(o, ir.Inst)]
        u.add('P14', 'slices', True, stores[0])
        _constants(u, T, stores)


DATA_OPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'phi', 'select', 'fpext', 'freeze',
            'insertvalue', 'extractvalue', 'insertelement', 'extractelement', 'call', 'invoke'}


def _constants(u, T, stores):
    """Constants of the arithmetic are not rounded to a narrower type.

    A constant that has the full mantissa of a narrower type is the rounded value of a decimal
    literal (or macro) of that type, unless the sources spell exactly this value in full.
    """
    if T < 8:
        return
    bits = 53 if T == 16 else 24
    seen, work = set(), list(stores)
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for k, o in enumerate(v.ops):
            if v.op == 'store' and k or v.op in ('call', 'invoke') and k == 0 or \
                    v.op == 'select' and k == 0:
                continue
            if isinstance(o, ir.Inst):
                if o.op in DATA_OPS:
                    work.append(o)
                continue
            if not (isinstance(o, ir.Const) and o.kind == 'fp' and _fpw(o.ty) == T):
                continue
            n = _mantissa_bits(o.val)
            if n is None or not (bits - 12 <= n <= bits or T == 16 and 15 <= n <= 24):
                continue
            ok = abs(Fraction(o.val)) in _literals(u.mod, T)
            u.add('P14', 'full-constants', ok, v, 'the constant %s has only %d significant bits: '
                  'it is the value of a narrower type' % (float(o.val), n))


def _mantissa_bits(x):
    """Significant bits of a value that is not an integer."""
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        return None
    x = abs(Fraction(x))
    if x == 0 or x.denominator == 1:
        return None
    n = x.numerator
    return (n // (n & -n)).bit_length()


def _exact_table(mod, name):
    """A constant table of values that need few bits."""
    g = mod.globals.get(name)
    c = getattr(g, 'init', None)

    def ok(c):
        if c is None or not isinstance(c, ir.Const):
            return False
        if c.kind == 'zero' or c.kind == 'int':
            return True
        if c.kind == 'fp':
            return abs(c.val) < 1 << 24 and (_mantissa_bits(c.val) or 0) <= 12
        return c.kind == 'agg' and all(ok(x) for x in c.val)
    return ok(c)


LITERAL = re.compile(r'(?<![\w.])((?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)([lLfF]?)'
                     r'(?![\w.])')


def _literals(mod, T):
    """Values of the literals of a type in the sources of a module."""
    if not hasattr(mod, '_lits'):
        mod._lits = {}
    if T in mod._lits:
        return mod._lits[T]
    out, bits = set(), 64 if T == 16 else 53
    for t in list(mod.meta.values()):
        m = re.match(r'(?:distinct )?!DIFile\(filename: "([^"]*)", directory: "([^"]*)"', t)
        if not m:
            continue
        p = os.path.join(m.group(2), m.group(1))
        if p.startswith('/usr/') or not os.path.exists(p):
            continue
        for d, suf in LITERAL.findall(open(p, errors='replace').read()):
            if (suf in ('l', 'L')) == (T == 16) and suf not in ('f', 'F'):
                out.add(_round(Fraction(d), bits))
    mod._lits[T] = out
    return out


def _round(x, bits):
    if x == 0:
        return x
    e = 0
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length() - bits
    for sh in (e - 1, e, e + 1):
        s = x / Fraction(2) ** sh
        if 2 ** (bits - 1) <= s < 2 ** bits:
            return round(s) * Fraction(2) ** sh
    return x


def _exact_small(v):
    return False


def _fpw(t):
    if t is None:
        return None
    r = repr(t)
    for k, w in (('x86_fp80', 16), ('double', 8), ('float', 4), ('half', 2)):
        if k in r:
            return w
    return None


def p15(u):
    """A measure decreases in every loop."""
    e = u.eng
    for L in e.cfg.loops:
        ok = _ranked(u, L)
        u.add('P15', 'ranking', ok, L.header.term, 'no decreasing measure found for this loop')
    if u.loop is None:
        pass


def _ranked(u, L):
    e = u.eng
    hp = e._header_atoms(L)
    iva = e.iv(L).single()
    if not L.exits:
        return False
    # the iteration counter is bounded by something that does not vary in the loop
    bounds = []
    for b, s in L.exits:
        t = b.term
        if t.op != 'br' or len(t.ops) != 1:
            continue
        for f in _stay_facts(e, b, L):
            bounds.append(f)
    for f in e.invs[L]:
        bounds.append(f)
    for p in bounds:
        cf = p.coeff(iva)
        # p >= 0 holds in the loop and p decreases with the iteration number
        if cf is not None and cf[0].is_const() and cf[0].cval() < 0 and e.invariant(cf[1], L) and \
                all(e.prove(p, e.ctx(l)) for l in L.latches):
            return True
    # otherwise: a measure over the header variables that decreases on every latch
    cands = list(dict.fromkeys(bounds))
    for p in cands:
        if all(not (e.A.home[a] and e.A.home[a] in L.body) or a == iva or
               a in {x for _, x in hp} for a in p.atoms()):
            good = True
            for l in L.latches:
                m = {iva: e.iv(L) + 1}
                for i, a in hp:
                    m[a] = e.sym(i.ops[i.x.index(l)])
                q = e.subst(p, m)
                ctx = Ctx(e.edge_facts(l, L.header) + e.items(l))
                if not (e.prove(p - q - 1, ctx) and e.prove(p, ctx)):
                    good = False
                    break
            if good:
                return True
    return False


def _stay_facts(e, b, L):
    out = []
    for s in b.succs:
        if s in L.body:
            for f in e.edge_facts(b, s):
                if f[0] == 'ge':
                    out.append(f[1])
                elif f[0] == 'ne':
                    out += [f[1] - 1, -f[1] - 1, f[1], -f[1]]
                elif f[0] == 'ult':
                    out.append(f[2] - f[1] - f[3])
    return out


from . import order, reads, pointwise, reduce  # noqa: E402
from .dtype import p08     # noqa: E402

# (first position, last position - n) of what each output may hold; n is the first core dimension
POSITIONS = {
    ('argmin', 0): (0, -1), ('argmax', 0): (0, -1), ('argminmax', 0): (0, -1),
    ('min_argmin', 1): (0, -1), ('max_argmax', 1): (0, -1), ('argfirst', 0): (-1, -1),
    ('searchsortedl', 0): (0, 0), ('searchsortedr', 0): (0, 0),
    ('good_p16', 0): (0, -1), ('bad_p16', 0): (0, -1),      # self-test
}


def _no_failure(e, a, k):
    if k[0] == 'v':
        i = e.inst_by_id(k[1])
        if i.op == 'call' and callee_name(i) == 'PyObject_RichCompareBool':
            return [('ge', Poly.atom(a)), ('ge', Poly.const(1) - Poly.atom(a))]
    return []


def p16(u):
    """Positions that are returned lie in the range of their definition."""
    if u.loop is None:
        return
    e, lay, r = u.eng, u.lay, u.loop.reg
    if u.is_object:
        # what is stored when a comparison fails is not seen by the caller
        e.extra_axioms.append(_no_failure)
        e._prove_cache.clear()
    for a in u.acc:
        if a.rw != 'w' or a.kind != 'opnd' or a.opnd < r.nin:
            continue
        spec = POSITIONS.get((r.name, a.opnd - r.nin))
        if spec is None:
            continue
        if a.inst.op != 'store':
            u.add('P16', 'valid-position', False, a.inst, 'positions written by a block operation')
            continue
        v = e.sym(a.inst.ops[0])
        n = lay.dim(e, 1)
        bad = []
        ctx = a.ctx
        if not e.prove(v - spec[0], ctx):
            bad.append('%s >= %d' % (e.show(v), spec[0]))
        if not e.prove(n + spec[1] - v, ctx):
            bad.append('%s <= n%s' % (e.show(v), spec[1] or ''))
        u.add('P16', 'valid-position', not bad, a.inst, 'not shown: ' + '; '.join(bad))


ALL = {'P16': p16, 'P21': reduce.p21, 'P22': reduce.p22, 'P20': pointwise.p20, 'P18': order.p18, 'P19': reads.p19, 'P08': p08, 'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07,
       'P12': p12, 'P13': p13, 'P14': p14, 'P15': p15}
