"""Must-write analysis: is one element of an object assigned on every path to a point?

The query walks the control-flow graph backwards from the point, carrying linear
facts about the element.  At a store the element is compared with the store's
coordinates (a case split continues with the elements that differ); at the top
of a loop header the element is either written by an earlier, completed
iteration (the iteration that does it is solved for), or before the loop, or
the claim is closed by induction over the iterations.
"""
import sys
from . import ir
from .engine import Ctx, callee_name
from .sym import Poly, ZERO, ONE
from .access import fact_consts

sys.setrecursionlimit(20000)

ERR_SET = ('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory', 'PyErr_SetNone',
           'PyErr_SetObject', 'PyErr_BadArgument', '__cxa_throw', '_ZSt17__throw_bad_allocv',
           '_ZSt20__throw_length_errorPKc', 'PyErr_FormatV', 'PyErr_BadInternalCall',
           'PyErr_SetFromErrno')


class Store:
    """One write, reduced to coordinates."""
    __slots__ = ('acc', 'coord', 'part', 'size', 'count', 'axis', 'full')

    def pairs(self, elem):
        """[(axis, coordinate of the store, of the element)]; axes that are contiguous and
        counted with one index are one axis."""
        flat = dict(self.acc.flat or ())
        out = [(d, c, e) for d, (c, e) in enumerate(zip(self.coord, elem)) if d not in flat]
        if flat:
            c = e = ZERO
            for d, n in flat.items():
                c, e = c + self.coord[d] * n, e + elem[d] * n
            out.append((min(flat), c, e))
        return out


class Cover:
    def __init__(self, eng, lay, accs, budget=4000):
        self.eng, self.lay = eng, lay
        self.budget0 = budget
        self.stores = {}            # base atom -> [Store]
        self.byinst = {}            # inst -> [(base, Store)]
        self.unknown = {}           # base atom -> accesses that could not be used
        self.memo = {}
        self.quots = {}
        self.fresh = 0
        for a in accs:
            if a.rw != 'w' or a.base is None:
                continue
            s = self._store(a)
            if s is None:
                self.unknown.setdefault(a.base, []).append(a)
                continue
            self.stores.setdefault(a.base, []).append(s)
            self.byinst.setdefault(a.inst, []).append((a.base, s))
        self._multi = {}
        for i, l in self.byinst.items():
            if len(l) > 1:
                self._multi[i] = True
        self._wblocks = {}
        self._vac = {}
        self._between = {}

    def _store(self, a):
        s = Store()
        s.acc, s.count, s.axis, s.part, s.size = a, None, None, 0, a.size
        s.full = ()
        if a.kind == 'opnd':
            if a.why or a.I is None:
                return None
            s.coord = [a.I] + a.J
            s.part = a.R.cval()
            if a.length is not None:
                sz = self.lay.size[a.opnd]
                if s.part:
                    return None
                consts = fact_consts([f for f in a.ctx.items if f[0] == 'eq'])
                own = [a.opnd] + self.lay.coresteps[a.opnd]
                dims = self.lay.opnd_dims(self.eng, a.opnd)
                unit, s.full = sz, ()
                for d in range(len(own) - 1, -1, -1):
                    if consts.get(self.eng.atom(('step', own[d]))) != unit:
                        break
                    n = a.length.div(unit)
                    if n is not None and \
                            not any(s.coord[x].t for x in range(d + 1, len(own))):
                        s.axis, s.count = d, n
                        s.full = tuple(range(d + 1, len(own)))
                    if not dims[d].is_const():
                        break
                    unit *= dims[d].cval()
                s.size = sz
                if s.axis is None:
                    return s if a.length == Poly.const(sz) else None
        else:
            s.coord = [a.off]
            if a.length is not None:
                s.count, s.axis = a.length, 0
        return s

    # ------------------------------------------------------------- structure
    def wblocks(self, obj):
        w = self._wblocks.get(obj)
        if w is None:
            w = {s.acc.blk for s in self.stores.get(obj, ())}
            self._wblocks[obj] = w
        return w

    def vacuous(self, b):
        """The block sets a Python error or does not return."""
        v = self._vac.get(b)
        if v is None:
            v = False
            for i in b.insts:
                if i.op in ('call', 'invoke'):
                    n = callee_name(i) or ''
                    if n in ERR_SET:
                        v = True
            if b.term is not None and b.term.op in ('unreachable', 'resume'):
                v = True
            self._vac[b] = v
        return v

    def error_edge(self, p, s):
        """The edge is taken only when a Python call has failed."""
        t = p.term
        if t.op == 'switch':
            d, cases = t.x
            vals = [v for v, b in cases if b is s]
            x = t.ops[0]
            while isinstance(x, ir.Inst) and x.op in ('sext', 'trunc', 'freeze', 'zext') \
                    and x.ops[0].ty.n != 1:
                x = x.ops[0]
            if d is s or not vals or any(v != -1 for v in vals):
                return False
            n = callee_name(x) if isinstance(x, ir.Inst) and x.op in ('call', 'invoke') else None
            return bool(n) and n.startswith(('Py', '_Py'))
        if t.op != 'br' or len(t.x) != 2:
            return False
        pol = s is t.x[0]
        return self._error_cond(t.ops[0], pol)

    def _error_cond(self, c, pol, depth=0):
        if not isinstance(c, ir.Inst) or depth > 4:
            return False
        if c.op == 'xor':
            return self._error_cond(c.ops[0], not pol, depth + 1)
        if c.op == 'freeze':
            return self._error_cond(c.ops[0], pol, depth + 1)
        if c.op in ('select', 'or', 'and') and c.ty.is_int() and c.ty.n == 1:
            # a || b taken: both alternatives have to be errors
            if c.op == 'select':
                k = [o for o in c.ops[1:] if not isinstance(o, ir.Const)]
                isor = isinstance(c.ops[1], ir.Const)
                if len(k) != 1:
                    return False
                x, y = c.ops[0], k[0]
            else:
                x, y, isor = c.ops[0], c.ops[1], c.op == 'or'
            f = all if isor == pol else any
            return f(self._error_cond(o, pol, depth + 1) for o in (x, y))
        if c.op != 'icmp':
            return False
        x, y = c.ops
        if not (isinstance(y, ir.Const) and y.kind in ('int', 'null')):
            return False
        v = 0 if y.kind == 'null' else y.val
        while isinstance(x, ir.Inst) and x.op in ('sext', 'trunc', 'freeze', 'zext') \
                and x.ops[0].ty.n != 1:
            x = x.ops[0]
        if isinstance(x, ir.Inst) and x.op == 'phi':
            srcs = [o for o in x.ops if not isinstance(o, ir.Const)]
        else:
            srcs = [x]
        for x in srcs:
            if not (isinstance(x, ir.Inst) and x.op in ('call', 'invoke')):
                return False
            n = callee_name(x) or ''
            if not n.startswith(('Py', '_Py')):
                return False
            if n == 'PyErr_Occurred':
                if not (v == 0 and ((c.x == 'ne') == pol)):
                    return False
                continue
            if x.ty.k == 'ptr':
                if not (v == 0 and ((c.x == 'eq') == pol)):
                    return False
            elif v == -1:
                if not ((c.x == 'eq' and pol) or (c.x == 'ne' and not pol) or
                        (c.x == 'sgt' and not pol)):
                    return False
            elif v == 0:
                if not ((c.x == 'slt' and pol) or (c.x == 'sge' and not pol)):
                    return False
            else:
                return False
        return True

    def _alias(self, obj, f):
        """The fact says that the output and an input are at the same address (in-place
        call): the output then holds the input's values already."""
        if f[0] != 'eq' or len(f[1].t) < 2:
            return False
        pos = [m for m, c in f[1].t.items() if len(m) == 1 and c == 1 and
               self.eng.key(m[0])[0] == 'opnd']
        neg = [m for m, c in f[1].t.items() if len(m) == 1 and c == -1 and
               self.eng.key(m[0])[0] == 'opnd']
        if len(pos) != 1 or len(neg) != 1:
            return False
        a, b = pos[0][0], neg[0][0]
        o = [x for x in (a, b) if x != obj]
        return obj in (a, b) and len(o) == 1 and self.eng.readonly(o[0])

    def between(self, b):
        """Blocks strictly between idom(b) and b (b a join)."""
        r = self._between.get(b)
        if r is None:
            stop = self.eng.cfg.idom[b]
            r, work = set(), list(self.eng.cfg.preds(b))
            while work:
                x = work.pop()
                if x is stop or x in r or x is b:
                    continue
                r.add(x)
                work += self.eng.cfg.preds(x)
            self._between[b] = r
        return r

    # ------------------------------------------------------------------ facts
    def contradiction(self, F, items):
        rel = set()
        for f in F:
            rel |= self.eng._fact_atoms(f)
        for a in list(rel):
            rel |= self.eng.A.deps[a]
        self.eng._budget = 60
        key = ('contra', frozenset(F), tuple(items))
        r = self.eng._prove_cache.get(key)
        if r is None:
            r = self.eng._prove(list(F), rel, items, 3)
            self.eng._prove_cache[key] = r
        return r

    def prove(self, p, F, items):
        if p.is_const():
            return p.cval() >= 0
        return self.eng.prove(p, Ctx(list(F) + items), 4)

    def freshatom(self, tag):
        self.fresh += 1
        return self.eng.patom(('fresh', self.fresh, tag))

    def rename(self, L, F, polys):
        """Freeze everything that belongs to the current iteration of L."""
        m = {}
        n = self.fresh = self.fresh + 1

        def frz(p):
            need = False
            for a in p.atoms():
                if self._inside(a, L):
                    need = True
                    if a not in m:
                        m[a] = self.eng.patom(('frz', n, a))
            return self.eng.subst(p, m) if need else p

        out = []
        for f in F:
            if f[0] in ('ge', 'eq', 'ne'):
                out.append((f[0], frz(f[1])))
            elif f[0] == 'ult':
                out.append(('ult', frz(f[1]), frz(f[2]), f[3]))
            # other facts (float relations, booleans) are dropped
        return out, [frz(p) for p in polys]

    def _inside(self, a, L):
        h = self.eng.A.home[a]
        if h is not None and h in L.body:
            return True
        return any(self._inside(d, L) for d in self.eng.A.deps[a])

    # ------------------------------------------------------------------ query
    def covered(self, obj, elem, part, psize, block, pos, F=(), stop=None):
        """Every path from `stop` to instruction index pos of block assigns the element."""
        self.budget = self.budget0
        return self._q(obj, tuple(elem), part, psize, block, pos, tuple(F), stop)

    def _q(self, obj, elem, part, psize, block, pos, F, stop):
        key = (obj, elem, part, psize, block, pos, frozenset(F), stop)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            return False
        self.memo[key] = False
        r = self._query(obj, elem, part, psize, block, pos, F, stop)
        self.memo[key] = r
        return r

    def _query(self, obj, elem, part, psize, b, pos, F, stop):
        eng = self.eng
        if self.vacuous(b):
            return True
        wb = self.wblocks(obj)
        while True:
            if b in wb:
                items = eng.items(b)
                for i in reversed(b.insts[:pos]):
                    l = self.byinst.get(i)
                    if not l:
                        continue
                    for base, s in l:
                        if base != obj:
                            continue
                        r = self._match(s, elem, part, psize, F, items, len(l) > 1)
                        if r is True:
                            return True
                        if r:
                            k = b.insts.index(i)
                            return all(self._q(obj, elem, part, psize, b, k, F + x, stop)
                                       for x in r)
            L = eng.latch_of.get(b)
            if L is not None:
                if stop is not None and stop[0] is L:
                    return self._at_stop(stop, elem, F)
                return self._header(obj, elem, part, psize, L, F, stop)
            if b is eng.cfg.entry:
                return False
            preds = eng.cfg.preds(b)
            if len(preds) > 1:
                idom = eng.cfg.idom[b]
                btw = self.between(b)
                if not (btw & wb) and not any(self.vacuous(x) for x in btw) and \
                        not any(self.error_edge(p, b) for p in preds):
                    # nothing of interest between the dominator and here
                    b, pos = idom, len(idom.insts)
                    continue
                for p in preds:
                    if self.error_edge(p, b):
                        continue
                    fs = []
                    for i in b.insts:
                        if i.op != 'phi':
                            break
                        o = i.ops[i.x.index(p)]
                        if i.ty.is_int() and i.ty.n > 1 or i.ty.k == 'ptr':
                            q = eng.sym(i) - eng.sym(o)
                            if q.t:
                                fs.append(('eq', q))
                        elif i.ty.is_int() and isinstance(o, ir.Const) and o.kind == 'int':
                            fs.append(('bool', ('v', i.id), bool(o.val)))
                    ef = eng.edge_facts(p, b)
                    if any(self._alias(obj, f) for f in ef):
                        continue
                    fs += ef
                    F2 = self._add(F, fs)
                    if self.contradiction(F2, eng.items(p)):
                        continue
                    if not self._q(obj, elem, part, psize, p, len(p.insts), F2, stop):
                        return False
                return True
            p = preds[0]
            if self.error_edge(p, b):
                return True
            ef = eng.edge_facts(p, b)
            if ef:
                if any(self._alias(obj, f) for f in ef):
                    return True
                F = self._add(F, ef)
            b, pos = p, len(p.insts)
            if self.vacuous(b):
                return True

    def _add(self, F, fs):
        have = set(F)
        out = list(F)
        for f in fs:
            if f not in have:
                have.add(f)
                out.append(f)
        return tuple(out)

    def _match(self, s, elem, part, psize, F, items, multi):
        """True: covers; None: no information; list of fact tuples: the remaining cases."""
        if multi:
            return None
        if s.count is None and s.acc.kind == 'opnd' and \
                not (s.part <= part and part + psize <= s.part + s.size):
            return None
        diffs = []
        for d, c, e in s.pairs(elem):
            if d in s.full:
                continue            # the block covers the whole of this axis
            if s.count is not None and d == s.axis:
                lo, hi = e - c, c + s.count - psize - e
                if s.acc.kind == 'opnd':
                    hi = c + s.count - 1 - e
                for q in (lo, hi):
                    if not (q.is_const() and q.cval() >= 0):
                        diffs.append(('in', q))
                continue
            q = e - c
            if not q.t:
                continue
            if s.acc.kind != 'opnd' and q.is_const() and 0 <= q.cval() and \
                    q.cval() + psize <= s.size:
                continue
            if q.is_const():
                return None
            diffs.append(('eq', q))
        rest = []
        todo = []
        for kind, q in diffs:
            if kind == 'in':
                if not self.prove(q, F, items):
                    todo.append((kind, q))
            else:
                ge, le = self.prove(q, F, items), self.prove(-q, F, items)
                if not (ge and le):
                    todo.append((kind, q, ge, le))
        if not todo:
            return True
        # provably a different element: no information
        extra = tuple(('ge', x[1]) if x[0] == 'in' else ('eq', x[1]) for x in todo)
        if self.contradiction(self._add(F, extra), items):
            return None
        if len(todo) > 2:
            return None
        for x in todo:
            if x[0] == 'in':
                rest.append((('ge', -x[1] - 1),))
            else:
                if not x[3]:
                    rest.append((('ge', x[1] - 1),))
                if not x[2]:
                    rest.append((('ge', -x[1] - 1),))
        return [r for r in rest if not self.contradiction(self._add(F, r), items)] or True

    def _at_stop(self, stop, elem, F):
        """Reached the top of the iteration under consideration."""
        if len(stop) == 1:
            return False
        L, concl = stop[0], stop[1]
        items = self.eng.items(L.header)
        return all(self.prove(c, F, items) for c in concl)

    def _witnesses(self, obj, elem, part, psize, L):
        """Iterations of L that may write the element: [poly in the element's coordinates]."""
        eng = self.eng
        iva = eng.iv(L).single()
        out, free, split = [], False, {}
        for s in self.stores.get(obj, ()):
            if s.acc.blk not in L.body:
                continue
            got = False
            dep = False
            for d, c, e in s.pairs(elem):
                cf = c.coeff(iva)
                if cf is None:
                    dep = True
                    continue
                k, r = cf
                if not k.t:
                    continue
                dep = True
                if not k.is_const():
                    continue
                # inner counters: solve only what does not vary inside the iteration
                if any(self._inside(a, L) for a in r.atoms()):
                    continue
                if s.count is not None and d == s.axis:
                    continue
                t = (e - r).div(k.cval()) if k.cval() > 0 else (r - e).div(-k.cval())
                if t is not None:
                    got = True
                    if t not in out:
                        out.append(t)
                elif 2 <= abs(k.cval()) <= 8:
                    # an unrolled loop: e - r = k*q + s for a quotient q and a remainder s
                    x = e - r if k.cval() > 0 else r - e
                    n = abs(k.cval())
                    if n not in split:
                        key = ('quot', x, n)
                        if key not in self.quots:
                            self.quots[key] = self.freshatom('q%d' % n)
                        split[n] = (x, n, self.quots[key])
            if not dep:
                free = True
        return out, free, list(split.values())

    def _header(self, obj, elem, part, psize, L, F, stop):
        eng = self.eng
        if not any(b in L.body for b in self.wblocks(obj)):
            return self._before(obj, elem, part, psize, L, F, stop)
        items = eng.items(L.header)
        K = eng.iv(L)
        ts, free, split = self._witnesses(obj, elem, part, psize, L)
        split = split[:1]
        ts = ts + [q for _, _, q in split]
        if free:
            ts = ts + [ZERO]
            if K - 1 not in ts:
                ts.append(K - 1)
        cases = [F]
        for x, n, q in split:
            cases = [c for c in (self._add(f, (('eq', x - q * n - r),)) for f in cases
                                 for r in range(n)) if not self.contradiction(c, items)]
        for t in ts:
            nxt = []
            for Fc in cases:
                Ft = self._add(Fc, (('ge', t), ('ge', K - t - 1)))
                if self.contradiction(Ft, items):
                    nxt.append(Fc)
                    continue
                if not self._iteration(obj, elem, part, psize, L, t, Ft):
                    nxt.append(Fc)
                    continue
                for x in (('ge', -t - 1), ('ge', t - K)):
                    F2 = self._add(Fc, (x,))
                    if not self.contradiction(F2, items):
                        nxt.append(F2)
            cases = nxt
        for Fc in cases:
            if self._before(obj, elem, part, psize, L, Fc, stop):
                continue
            if self._induction(obj, elem, part, psize, L, Fc, stop):
                continue
            return False
        return True

    def _iteration(self, obj, elem, part, psize, L, t, F):
        """Iteration t of L, when completed, assigns the element."""
        eng = self.eng
        inv = tuple(('ge', p) for p in eng.invs[L]) + (('ge', eng.iv(L)),)
        F1, ps = self.rename(L, F + inv, list(elem) + [t])
        F1.append(('eq', eng.iv(L) - ps[-1]))
        e2 = tuple(ps[:-1])
        for l in L.latches:
            Fl = self._add(tuple(F1), eng.edge_facts(l, L.header))
            if self.error_edge(l, L.header):
                continue
            if self.contradiction(Fl, eng.items(l)):
                continue
            if not self._q(obj, e2, part, psize, l, len(l.insts), Fl, (L,)):
                return False
        return True

    def _before(self, obj, elem, part, psize, L, F, stop):
        eng = self.eng
        if not L.entries:
            return False
        for e in L.entries:
            F2 = self._add(F, eng.edge_facts(e, L.header))
            if not self._q(obj, elem, part, psize, e, len(e.insts), F2, stop):
                return False
        return True

    def _induction(self, obj, elem, part, psize, L, F, stop):
        """Close the claim by induction over the iterations of L."""
        eng = self.eng
        hp = eng._header_atoms(L)
        hatoms = {a for _, a in hp} | {eng.iv(L).single()}
        ea = set()
        for e in elem:
            ea |= e.atoms()
        concl = []
        for f in F:
            if f[0] == 'ge':
                concl.append(f[1])
            elif f[0] == 'eq':
                concl += [f[1], -f[1]]
        concl = [c for c in concl if c.atoms() & ea and
                 all(a in hatoms or not self._inside(a, L) for a in c.atoms())]
        if not concl or not any(c.atoms() & hatoms for c in concl):
            return False
        if any(self._inside(a, L) for a in ea):
            return False
        if stop is not None and len(stop) > 1 and stop[0] is L:
            return False
        concl = tuple(concl)
        iva = eng.iv(L).single()
        # base
        for e in L.entries:
            m = {iva: ZERO}
            for i, a in hp:
                m[a] = eng.sym(i.ops[i.x.index(e)])
            F2 = tuple(('ge', eng.subst(c, m)) for c in concl)
            F2 = self._add(F2, eng.edge_facts(e, L.header))
            if self.contradiction(F2, eng.items(e)):
                continue
            if not self._q(obj, elem, part, psize, e, len(e.insts), F2, stop):
                return False
        for l in L.latches:
            m = {iva: eng.iv(L) + 1}
            for i, a in hp:
                m[a] = eng.sym(i.ops[i.x.index(l)])
            F2 = tuple(('ge', eng.subst(c, m)) for c in concl)
            F2 = self._add(F2, eng.edge_facts(l, L.header))
            if self.error_edge(l, L.header) or self.contradiction(F2, eng.items(l)):
                continue
            if not self._q(obj, elem, part, psize, l, len(l.insts), F2, (L, concl)):
                return False
        return True
