"""P19: every element of every input sequence is used.

The must-write analysis of cover.py is run over the reads of an input: a symbolic element of the
operand has to be read on every path from the entry to a return. Paths that are chosen by the
data (an early exit, an element that is skipped because of a weight or a search) are exempt: only
branches that are decided by the counters, the dimensions and the strides are followed.
"""
from . import ir
from .cover import Cover
from .engine import callee_name
from .sym import Poly

# a sequence of one element is all the same, and ordered, and its extreme is at position 0,
# whatever the element is
ADJACENT = ('all_same', 'ordered', 'argmin', 'argmax', 'argminmax')
# a[0] of a second order section is 1 by definition
UNUSED = {'sosfilter': (0, 2, 3), 'sosfilter_ic': (0, 2, 3), 'sosfilter_ic_contig': (0, 2, 3)}
# tables that are searched, and points that are selected by an index
GATHERED = {'linear_interp1d': (1, 2), 'tri_area_indexed': (0,), 'searchsortedl': (0,),
            'searchsortedr': (0,)}
NESTED = ('and', 'sdiv', 'srem', 'ashr', 'lshr', 'shl', 'trunc', 'mul', 'or', 'xor')
STATIC = ('dim', 'iv', 'step', 'cd', 'frz', 'fresh')


class ReadCover(Cover):
    def __init__(self, u):
        class View:
            pass
        accs = []
        for a in u.acc:
            if a.kind != 'opnd' or a.rw != 'r' or a.base is None or a.opnd >= u.lay.nin:
                continue
            v = View()
            for f in ('inst', 'blk', 'base', 'kind', 'opnd', 'why', 'I', 'J', 'R', 'size',
                      'length', 'ctx', 'off', 'flat'):
                setattr(v, f, getattr(a, f, None))
            v.rw = 'w'
            accs.append(v)
        Cover.__init__(self, u.eng, u.lay, accs, budget=6000)
        self.exempt = {}
        self.shapes = {}

    def error_edge(self, p, s):
        return Cover.error_edge(self, p, s) or self.data_edge(p, s)

    def data_edge(self, p, s):
        """The data choose the edge, and with other data more elements are read."""
        x = self.exempt.get(p)
        if x is None:
            x = self.exempt[p] = self._exempt(p)
        return s in x

    def _exempt(self, b):
        t = b.term
        if t.op == 'switch':
            if self.static(t.ops[0]):
                return ()
            succs = list(dict.fromkeys([t.x[0]] + [x for _, x in t.x[1]]))
        elif t.op == 'br' and len(t.x) == 2 and not self.static_cond(t.ops[0]):
            succs = list(dict.fromkeys(t.x))
        else:
            return ()
        live = [x for x in succs if not self.vacuous(x) and not Cover.error_edge(self, b, x)]
        score = {x: self.score(b, x, self.reads) for x in live}
        return [x for x in live if any(
            score[y][0] > score[x][0] or
            score[y][0] == score[x][0] and score[y][1] and not score[x][1] for y in live)]

    def score(self, b, s, reads):
        """(loops that the edge stays in, reads on its side)."""
        e = self.eng
        n, L = 0, e.cfg.loop_of.get(b)
        depth = 0
        while L is not None:
            if s in L.body:
                depth += 1
            L = L.parent
        seen, work = set(), [s]
        while work:
            x = work.pop()
            if x in seen or x is b:
                continue
            seen.add(x)
            if x in reads:
                n += 1
            work += [y for y in x.succs if e.cfg.dom(s, y)]
        return depth, n

    def static(self, v, d=0):
        p = self.eng.sym(v)
        return all(self.static_atom(a) for a in p.atoms())

    def static_atom(self, a):
        k = self.eng.key(a)
        if k[0] in NESTED:
            return all(self.static_atom(y) for x in k if isinstance(x, Poly) for y in x.atoms())
        return k[0] in STATIC or k[0] == 'v' and self.shape(self.eng.inst_by_id(k[1]))

    def shape(self, v):
        """The value does not depend on the data: not on what it is computed from, and not on
        the branches that choose it."""
        r = self.shapes.get(v)
        if r is None:
            self.shapes[v] = True
            r = self.shapes[v] = self._shape(v)
        return r

    def _shape(self, v):
        e = self.eng
        if not isinstance(v, ir.Inst):
            return True
        if v.op == 'load':
            p = e.sym(v)
            return all(e.key(a)[0] in STATIC for a in p.atoms())
        if v.op == 'phi':
            if not all(self.shape(o) for o in v.ops):
                return False
            L = e.latch_of.get(v.blk)
            if L is not None:
                body = next(x.body for x in e.cfg.loops if x.header is v.blk)
                between = [b for b in body if any(s not in body for s in b.succs)]
            else:
                stop = e.cfg.idom[v.blk]
                between, work = {stop}, list(v.blk.preds)
                while work:
                    b = work.pop()
                    if b not in between:
                        between.add(b)
                        work += b.preds
            return all(self.steady(b) for b in between)
        if v.op in ('call', 'invoke'):
            n = callee_name(v)
            return bool(n) and n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin',
                                             'llvm.abs')) and all(
                self.shape(o) for o in v.ops[1:])
        if v.op in ('alloca', 'invoke', 'atomicrmw', 'cmpxchg', 'landingpad', 'extractvalue'):
            return False
        return all(self.shape(o) for o in v.ops)

    def steady(self, b):
        """The data do not choose where the block continues."""
        t = b.term
        if t.op == 'br' and len(t.x) == 2 or t.op == 'switch':
            live = [x for x in b.succs if not Cover.error_edge(self, b, x)]
            return len(live) < 2 or self.shape(t.ops[0])
        return True

    def static_cond(self, c, d=0):
        """The condition depends on counters, dimensions and strides only."""
        if isinstance(c, ir.Const):
            return True
        if not isinstance(c, ir.Inst) or d > 8:
            return False
        if c.op == 'icmp':
            p = self.eng.sym(c.ops[0]) - self.eng.sym(c.ops[1])
            return all(self.static_atom(a) for a in p.atoms())
        if c.op in ('and', 'or', 'xor', 'select', 'freeze'):
            return all(self.static_cond(o, d + 1) for o in c.ops
                       if not (isinstance(o, ir.Const)))
        return False


def p19(u):
    if u.loop is None:
        return
    for k in range(u.lay.nin):
        u.add('P19', 'operand-used', any(
            a.rw == 'r' and a.kind == 'opnd' and a.opnd == k for a in u.acc), None,
            'operand %d is never read' % k)
    judge(u, 'P19')


def judge(u, pid):
    e, lay = u.eng, u.lay
    C = None
    lo = 2 if u.name in ADJACENT else 1
    for k in range(lay.nin):
        dims = lay.opnd_dims(e, k)
        if len(dims) < 2 or k in GATHERED.get(u.name, ()):
            continue
        C = C or ReadCover(u)
        obj = e.atom(('opnd', k))
        if C.unknown.get(obj):
            u.add(pid, 'not-decided', True, None, 'reads at unknown positions')
            continue
        C.exempt, C.reads = {}, C.wblocks(obj)
        elem = [C.freshatom('e%d' % d) for d in range(len(dims))]
        F = [('ge', lay.dim(e, d + 1) - lo) for d in range(len(lay.dimnames))]
        for x, d in zip(elem, dims):
            F += [('ge', x), ('ge', d - x - 1)]
        F = [f for f in F if not f[1].is_const()]
        if u.name in UNUSED and UNUSED[u.name][0] == k:
            F.append(('ne', elem[UNUSED[u.name][1]] - UNUSED[u.name][2]))
        parts = [(0, lay.size[k])]
        if u.loop.types[k] in (14, 15, 16):
            h = lay.size[k] // 2
            parts = [(0, h), (h, h)]
        # short axes are enumerated
        short = [d for d in range(1, len(dims)) if dims[d].is_const() and dims[d].cval() <= 16]
        elems = [elem]
        for d in short:
            elems = [x[:d] + [Poly.const(c)] + x[d + 1:] for x in elems
                     for c in range(dims[d].cval())]
        for b in e.cfg.rpo:
            if b.term.op != 'ret':
                continue
            for x in elems:
                Fx = [f for f in ((f[0], e.subst(f[1], {y.single(): z for y, z in zip(elem, x)}))
                                  for f in F) if not (f[0] == 'ge' and f[1].is_const())]
                if any(f[0] == 'ne' and not f[1].t for f in Fx):
                    continue
                Fx = [f for f in Fx if not f[1].is_const()]
                for p, ps in parts:
                    ok = C.covered(obj, x, p, ps, b, len(b.insts), Fx)
                    last = C.stores.get(obj)
                    if not ok and any(not C.static_atom(a) for s in last or () if
                                      s.acc.why is None for c in s.coord for a in c.atoms()):
                        u.add(pid, 'not-decided', True, None, 'reads at computed positions')
                        continue
                    where = ', '.join(str(z.cval()) if z.is_const() else ':' for z in x[1:])
                    u.add(pid, 'element-used', ok, last[-1].acc.inst if last else None,
                          'operand %d[%s]%s: a path to the return leaves an element unread' % (
                              k, where, '' if len(parts) == 1 else ' byte %d' % p))
