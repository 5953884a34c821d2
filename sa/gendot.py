"""The gufuncs that gendot() creates at run time.

gendot_loop calls the inner loops of two other ufuncs. What such a call reads and writes follows
from the argument arrays (operand pointers, dimensions, steps) that are passed to it; the
arrays are recovered from the stores that reach the call.

The roles of the fields of the data block (which loop, which item size, ...) are recovered from
the function that fills it: a field that holds prodfunc->functions[i] is the product loop, a
field that holds itemsizes[2*i] the size of its results, and so on.
"""
from . import build, ir, loopcheck, pygendot
from .access import ptr_cases
from .contract import gep_zero, string_of
from .engine import Engine, Ctx, callee_name
from .loopcheck import relpath
from .sym import Poly, ZERO, ONE
import re

# PyUFuncObject (NumPy's public ABI)
UF_NIN, UF_FUNCTIONS, UF_DATA = 16, 32, 40
ARR_DATA, ARR_DIMS = 16, 32
MAXITEM = 32                    # the largest item of a numeric dtype (complex long double)


class Undecided(Exception):
    pass


class CellEngine(Engine):
    """Loads of memory that nobody writes while the function runs are named by their address."""

    def __init__(self, fn, slots=(), **kw):
        self.slots = dict(slots)        # alloca id -> position of the parsed argument
        self.roles = {}
        super().__init__(fn, **kw)

    def is_ptr_atom(self, a):
        k = self.key(a)
        if k[0] == 'cell':
            return k[2] == 'ptr'
        return super().is_ptr_atom(a)

    def aname(self, a):
        k = self.key(a)
        if k[0] == 'cell':
            r = self.role_of(a)
            if r:
                return r
            return 'argument %d' % k[1][1] if k[1].__class__ is tuple else \
                '*(%s)' % self.show(k[1])
        if k[0] == 'strlen':
            return 'strlen(%s)' % self.show(k[1])
        return super().aname(a)

    def _load(self, v):
        p = self.sym(v.ops[0])
        b, off = self.base_of(p)
        if b is not None:
            k = self.key(b)
            if k[0] == 'alloca' and k[1] in self.slots and not off.t:
                return self.patom(('cell', ('parsed', self.slots[k[1]]), repr(v.ty)))
            if k[0] == 'cell' or k[0] == 'arg' and k[1] == 3 and self.mode == 'loop':
                return self.patom(('cell', p, repr(v.ty)), p.atoms() | self._deps(p),
                                  self._home(p))
        return super()._load(v)

    def _eval(self, v):
        if v.op == 'call' and callee_name(v) == 'strlen':
            p = self.sym(v.ops[1])
            return self.patom(('strlen', p), p.atoms() | self._deps(p), self._home(p))
        return super()._eval(v)

    def role_of(self, a):
        k = self.key(a)
        if k[0] == 'cell' and isinstance(k[1], Poly) and self.mode == 'loop':
            b, off = self.base_of(k[1])
            if off.is_const():
                return self.roles.get(off.cval())
        return None

    def axioms(self, a):
        out = super().axioms(a)
        k = self.key(a)
        P = Poly.atom(a)
        if k[0] == 'strlen':
            out = out + [('ge', P)]
        elif k[0] == 'cell':
            r = self.role_of(a)
            if r in ('prod_size', 'sum_size'):
                out = out + [('ge', P - 1), ('ge', Poly.const(MAXITEM) - P)]
            elif r == 'nin':
                # gendot() accepts element-wise functions of two arguments and gufuncs of one
                out = out + [('ge', P - 1), ('ge', Poly.const(2) - P)]
            elif isinstance(k[1], Poly):
                c = self.chain(k[1])
                if c[0] == 'field' and c[1] == 8 and c[2] == ARR_DATA:
                    out = out + [('ge', P - 1), ('ge', Poly.const(MAXITEM) - P)]
                elif self.dims_of(k) is not None:
                    out = out + [('ge', P)]
        return out

    # ---- values of the creating function
    def chain(self, p):
        """('parsed', pos, off) | ('array', pos, off): data of the array argument pos, or
        ('ufunc', pos, field, off): element of a table of the ufunc argument pos."""
        b, off = self.base_of(p)
        if b is None:
            return (None,)
        k = self.key(b)
        if k[0] != 'cell':
            return (None,)
        if k[1].__class__ is tuple:
            return ('parsed', k[1][1], off)
        b2, off2 = self.base_of(k[1])
        if b2 is None or not off2.is_const():
            return (None,)
        k2 = self.key(b2)
        if k2[0] == 'cell' and k2[1].__class__ is tuple:
            return ('field', k2[1][1], off2.cval(), off)
        return (None,)

    def dims_of(self, k):
        """Position of the argument whose first dimension the cell k is."""
        if not isinstance(k[1], Poly):
            return None
        c = self.chain(k[1])
        if c[0] == 'field' and c[2] == ARR_DIMS and not c[3].t:
            return c[1]
        return None


def _where(mod, fn, ins):
    f, ln, name = mod.loc(ins.dbg)
    if ln == 0:
        b = ins.blk
        i = b.insts.index(ins)
        for x in b.insts[i:] + b.insts[:i][::-1]:
            f, ln, name = mod.loc(x.dbg)
            if ln:
                break
    f = relpath(f)
    return '%s:%d (%s)' % (f, ln, name), '%s:%s' % (f, name)


class Rows:
    def __init__(self, mod, fn, key):
        self.mod, self.fn, self.key, self.rows = mod, fn, key, []

    def add(self, prop, rule, ok, ins, detail):
        where, src = _where(self.mod, self.fn, ins)
        self.rows.append((prop, rule, bool(ok), where, src, detail, self.key))


class _WidthUnit:
    """What the width analysis needs to know about a loop that is created at run time."""
    loop = lay = None

    def __init__(self, rows, fn, e):
        self.rows, self.fn, self.eng, self.acc = rows, fn, e, []

    def add(self, prop, rule, ok, ins, detail=''):
        self.rows.add(prop, rule, ok, ins, detail)


# ------------------------------------------------------------- creation
def parse_slots(mod, fn):
    """{alloca id: position} of the variables that PyArg_ParseTuple* fills."""
    for i in fn.insts():
        n = callee_name(i) if i.op == 'call' else None
        if not n or 'PyArg_ParseTuple' not in n:
            continue
        k = 2 if 'Keywords' not in n else 3
        fmt = string_of(mod, i.ops[k])
        if fmt is None:
            return {}, i
        rest = i.ops[k + 1:] if 'Keywords' not in n else i.ops[k + 2:]
        out, pos, j = {}, 0, 0
        s = re.split(r'[:;]', fmt)[0].replace('|', '').replace('$', '')
        while s:
            m = re.match(r'O!|O&|[a-zA-Z]#?\*?', s)
            if not m:
                return {}, i
            t = m.group(0)
            s = s[len(t):]
            if t in ('O!', 'O&') or t.endswith('#'):
                j += 1
            if j >= len(rest):
                return {}, i
            v = rest[j] if not t.endswith('#') else rest[j - 1]
            if isinstance(v, ir.Inst) and v.op == 'alloca':
                out[v.id] = pos
            j += 1
            pos += 1
        return out, i
    return {}, None


def creation(mv, fn, call):
    """(rows, roles, loop function names) for the function that creates gufuncs."""
    mod = mv.mod
    slots, parse = parse_slots(mod, fn)
    e = CellEngine(fn, slots, mode='helper')
    e.houdini()
    R = Rows(mod, fn, '%s:%s' % (mv.name, fn.name))
    names = 'funcs data types ntypes nin nout identity name doc unused signature'.split()
    a = dict(zip(names, call.ops[1:]))
    loops = []
    roles = {}
    # the block that holds the tables
    base = {}
    heap = None
    for n in ('funcs', 'data', 'types', 'name', 'doc'):
        b, off = e.base_of(e.sym(a[n]))
        if b is not None and e.key(b)[0] == 'heap':
            heap = b
            base[n] = off
    if heap is None:
        return R.rows, roles, loops, None
    size = e.heap[heap][0]
    nl = e.sym(a['ntypes'])
    at = nl.single()
    if at is not None and e.key(at)[0] == 'trunc':
        nl = e.key(at)[1]
    structs = {}

    def inside(ins, off, ln, ctx, what):
        bad = []
        if not e.prove(off, ctx):
            bad.append('offset %s >= 0' % e.show(off))
        if not e.prove(size - off - ln, ctx):
            bad.append('%s bytes at offset %s end inside the %s bytes allocated'
                       % (e.show(ln), e.show(off), e.show(size)))
        R.add('P02', 'table-bounds', not bad, ins, '%s: not shown: %s' % (what, '; '.join(bad)))

    rowbytes = {}
    for b in e.cfg.rpo:
        for i in b.insts:
            if i.blk not in e.cfg.reach:
                continue
            ctx = e.ctx(b)
            if i.op == 'store':
                bb, off = e.base_of(e.sym(i.ops[1]))
                if bb != heap:
                    continue
                inside(i, off, Poly.const(ir.sizeof(i.ops[0].ty)), ctx, 'store')
                g = gep_zero(i.ops[0]) if isinstance(i.ops[0], ir.Const) else None
                if g and g in mod._fnraw:
                    loops.append(g)
                structs.setdefault('stores', []).append((i, off))
            elif i.op == 'call':
                n = callee_name(i) or ''
                if n.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                    bb, off = e.base_of(e.sym(i.ops[1]))
                    if bb == heap:
                        ln = e.sym(i.ops[3])
                        inside(i, off, ln, ctx, 'memcpy')
                        structs.setdefault('copies', []).append((i, off, ln))
                elif n.startswith('strcpy'):
                    bb, off = e.base_of(e.sym(i.ops[1]))
                    if bb == heap:
                        s = e.sym(i.ops[2])
                        inside(i, off, e.patom(('strlen', s)) + 1, ctx, 'strcpy')
            if i.op == 'load':
                c = e.chain(e.sym(i.ops[0]))
                if c[0] == 'field' and c[2] == ARR_DATA:
                    rowbytes.setdefault(c[1], []).append((i, c[3], ir.sizeof(i.ty), ctx))
    # the tables do not overlap
    ext = {'funcs': nl*8, 'data': nl*8, 'types': nl*3,
           'name': None, 'doc': None}
    cctx = e.ctx(call.blk)
    for n, ln in ext.items():
        if n not in base or ln is None:
            continue
        inside(call, base[n], ln, cctx, 'table %s' % n)
        for m in base:
            if m == n:
                continue
            ok = e.prove(base[m] - base[n] - ln, cctx) or \
                ext[m] is not None and e.prove(base[n] - base[m] - ext[m], cctx) or \
                ext[m] is None and e.prove(base[n] - base[m] - 1, cctx)
            R.add('P02', 'table-bounds', ok, call, 'the table %s (%s bytes at offset %s) is not '
                  'shown to be apart from %s (offset %s)'
                  % (n, e.show(ln), e.show(base[n]), m, e.show(base[m])))
    # fields of the structures that data[] points to
    dptr = None
    for i, off in structs.get('stores', ()):
        bb, o2 = e.base_of(e.sym(i.ops[0])) if i.ops[0].ty.k == 'ptr' else (None, None)
        if bb == heap:
            dptr = o2
    stride = None
    if dptr is not None:
        for L in e.cfg.loops:
            cf = dptr.coeff(e.iv(L).single())
            if cf is not None and cf[0].is_const() and cf[0].cval():
                stride = cf[0].cval()
    if dptr is None or stride is None:
        raise Undecided('the data blocks of the created gufuncs are not recognised')
    for i, off in structs.get('stores', ()):
        d = off - dptr
        if not d.is_const() or not 0 <= d.cval() < stride:
            continue
        r = _value_role(e, i.ops[0])
        if r and r.startswith('mixed '):
            R.add('P08', 'own-loop', False, i,
                  'the table of %sfunc is indexed with the loop number of the other function'
                  % r[6:].split('_')[0])
            r = r[6:]
        if r:
            roles[d.cval()] = r
    for i, off, ln in structs.get('copies', ()):
        d = off - dptr
        if d.is_const() and 0 <= d.cval() < stride:
            roles[d.cval()] = 'identity'
            # the copy stays inside the structure (inside the field: the structure ends there or
            # another field starts there)
            nxt = min([x for x in roles if x > d.cval()] + [stride])
            R.add('P02', 'table-bounds',
                  e.prove(Poly.const(nxt - d.cval()) - ln, e.ctx(i.blk)), i,
                  'not shown: %s bytes fit in the %d bytes of the field'
                  % (e.show(ln), nxt - d.cval()))
            c = e.chain(e.sym(i.ops[2]))
            if c[0] == 'field' and c[2] == ARR_DATA:
                rowbytes.setdefault(c[1], []).append((i, c[3], ln, e.ctx(i.blk)))
        else:
            c = e.chain(e.sym(i.ops[2]))
            if c[0] == 'field' and c[2] == ARR_DATA:
                rowbytes.setdefault(c[1], []).append((i, c[3], ln, None))
    return R.rows, roles, loops, (e, R, nl, rowbytes)


def _value_role(e, v):
    """What a stored value is, in terms of the parsed arguments."""
    while isinstance(v, ir.Inst) and v.op in ('sext', 'zext', 'trunc'):
        v = v.ops[0]
    if not (isinstance(v, ir.Inst) and v.op == 'load'):
        return None
    p = e.sym(v.ops[0])
    b, off = e.base_of(p)
    if b is not None and e.key(b)[0] == 'alloca' and e.key(b)[1] in e.slots:
        return {4: 'has_identity'}.get(e.slots[e.key(b)[1]])
    c = e.chain(p)
    if c[0] == 'parsed' and c[1] == 3 and c[2].is_const() and c[2].cval() == UF_NIN:
        return 'nin'
    if c[0] == 'field':
        pos, fld, o = c[1:]
        if pos in (2, 3) and fld in (UF_FUNCTIONS, UF_DATA):
            kind = {UF_FUNCTIONS: 'loop', UF_DATA: 'data'}[fld]
            col = _index_column(e, o)
            r = ('prod_' if pos == 2 else 'sum_') + kind
            return r if col == pos - 2 else None if col is None else 'mixed ' + r
        if pos == 8 and fld == ARR_DATA:
            # 8*(2*i + column)
            return {0: 'prod_size', 8: 'sum_size'}.get(o.t.get((), 0))
    return None


def _index_column(e, off):
    """Column of loop_indices that selects the entry at byte offset `off` of a table."""
    q = off.div(8)
    if q is None:
        return None
    a = q.single()
    while a is not None and e.key(a)[0] in ('zext', 'trunc'):
        a = e.key(a)[1].single()
    if a is None:
        return None
    k = e.key(a)
    if k[0] != 'cell' or not isinstance(k[1], Poly):
        return None
    c = e.chain(k[1])
    if c[0] == 'field' and c[1] == 6 and c[2] == ARR_DATA:
        return c[3].t.get((), 0)
    return None


# --------------------------------------------------------------- the loop
class LoopCall:
    """An indirect call of an inner loop with the arrays that it gets."""


def _root(v):
    """(alloca, constant byte offset) that pointer v designates."""
    from .engine import const_gep
    off = 0
    while isinstance(v, ir.Inst) and v.op == 'gep':
        o = const_gep(v)
        if o is None:
            return None, None
        off += o
        v = v.ops[0]
    if isinstance(v, ir.Inst) and v.op == 'alloca':
        return v, off
    return None, None


def _writes(e, fn):
    """{alloca: [(inst, offset or None, value)]}; value is an operand, or 0 for memset."""
    out = {}
    for i in fn.insts():
        if i.blk not in e.cfg.reach:
            continue
        if i.op == 'store':
            v = i.ops[1]
            r, off = _root(v)
            if r is not None:
                out.setdefault(r, []).append((i, off, i.ops[0]))
            else:
                b, o = e.base_of(e.sym(v))
                if b is not None and e.key(b)[0] == 'alloca':
                    out.setdefault(e.inst_by_id(e.key(b)[1]), []).append((i, None, None))
        elif i.op == 'call':
            n = callee_name(i) or ''
            if n.startswith('llvm.memset'):
                r, off = _root(i.ops[1])
                if r is not None:
                    out.setdefault(r, []).append((i, ('set', off), i.ops[2]))
            elif n.startswith(('llvm.memcpy', 'llvm.memmove')):
                r, off = _root(i.ops[1])
                if r is not None:
                    out.setdefault(r, []).append((i, None, None))
    return out


def _reaching(e, W, alloca, off, call):
    """Values that slot `off` of the array may hold at the call: [(inst, poly)]."""
    ws = W.get(alloca, [])
    if any(o is None for _, o, _ in ws):
        raise Undecided('an argument array is filled in a way that is not followed')
    here = {}
    for i, o, v in ws:
        if o == off or isinstance(o, tuple):
            here.setdefault(i.blk, []).append((i, v if o == off else ZERO))
    out, seen = [], set()

    def scan(b, upto):
        for i in reversed(b.insts[:upto]):
            for w, v in here.get(b, ()):
                if w is i:
                    out.append((i, v if isinstance(v, Poly) else e.sym(v)))
                    return
        for p in e.cfg.preds(b):
            if p not in seen:
                seen.add(p)
                scan(p, len(p.insts))
        if b is e.cfg.entry:
            out.append((None, None))
    scan(call.blk, call.blk.insts.index(call))
    return out


def analyse_loop(mv, fname, roles):
    mod = mv.mod
    fn = mod.fn(fname)
    e = CellEngine(fn, nin=2, nargs=3, mode='loop')
    e.roles = roles
    e.houdini()
    R = Rows(mod, fn, '%s:%s' % (mv.name, fname))
    inv = {r: o for o, r in roles.items()}
    need = ('prod_loop', 'sum_loop', 'prod_data', 'sum_data', 'prod_size', 'sum_size', 'nin')
    miss = [r for r in need if r not in inv]
    if miss:
        raise Undecided('no field of the data block is recognised as %s' % ', '.join(miss))

    # how the engine names the data argument
    da = None
    for i in fn.insts():
        if i.op == 'load':
            b, off = e.base_of(e.sym(i.ops[0]))
            if b is not None and e.key(b)[0] == 'arg' and e.key(b)[1] == 3:
                da = Poly.atom(b)
    if da is None:
        raise Undecided('the data argument is not used')

    def fld(role, ty='i64'):
        return e.patom(('cell', da + inv[role], ty))
    n, N = e.patom(('dim', 1)), e.patom(('dim', 0))
    st = [e.patom(('step', k)) for k in range(5)]
    psize, ssize = fld('prod_size'), fld('sum_size')
    W = _writes(e, fn)
    outer = [L for L in e.cfg.loops if L.parent is None]

    def loop_of(b):
        for L in outer:
            if b in L.body:
                return L
        return None
    calls = []
    for i in fn.insts():
        if i.op != 'call' or i.blk not in e.cfg.reach or isinstance(i.ops[0], ir.Const) or \
                len(i.ops) != 5:
            continue
        a = e.sym(i.ops[0]).single()
        r = e.role_of(a) if a is not None else None
        if r not in ('prod_loop', 'sum_loop'):
            R.add('P08', 'own-loop', False, i, 'the function that is called is not the loop of '
                  'prodfunc or of sumfunc that was selected for these types')
            continue
        c = LoopCall()
        c.inst, c.role, c.ctx, c.L = i, r[:-5], e.ctx(i.blk), loop_of(i.blk)
        c.elementwise = c.role == 'prod' or e.prove_eq(fld('nin') - 2, c.ctx)
        if c.role == 'sum' and not c.elementwise and not e.prove_ne(fld('nin') - 2, c.ctx):
            R.add('P08', 'own-loop', False, i, 'the loop of sumfunc is called the same way for '
                  'element-wise functions and for reductions')
            continue
        d = e.sym(i.ops[4]).single()
        R.add('P08', 'own-data', d is not None and e.role_of(d) == c.role + '_data', i,
              'the loop of %sfunc does not get the data of %sfunc' % (c.role, c.role))
        c.arr = []
        need = {'args': 3 if c.elementwise else 2, 'dims': 1 if c.elementwise else 2,
                'steps': 3}
        for k, nm in ((1, 'args'), (2, 'dims'), (3, 'steps')):
            root, off = _root(i.ops[k])
            if root is None:
                raise Undecided('an argument array is not a local array')
            vals = []
            for s in range(need[nm]):
                vs = _reaching(e, W, root, off + 8 * s, i)
                if any(x is None for x, _ in vs):
                    R.add('P05', 'initialised-before-read', False, i,
                          '%s[%d] may not be assigned when the loop of %sfunc is called'
                          % (nm, s, c.role))
                    vs = [x for x in vs if x[0] is not None]
                vals.append([q for x, p in vs for q in (_expand(e, p) if k == 1 else [p])])
            c.arr.append(vals)
        calls.append(c)
    if not calls:
        raise Undecided('no call of the loops of prodfunc and sumfunc found')

    def pos(ptr, k, ctx):
        """Broadcast position of pointer `ptr` in operand k, or None."""
        b, off = e.base_of(ptr)
        if b is None or e.key(b)[0] != 'opnd' or e.key(b)[1] != k:
            return None
        if not off.t:
            return ZERO
        cf = off.coeff(st[k].single())
        if cf is None or cf[1].t:
            return None
        return cf[0]

    def operand(c, ptrs, k, what):
        for p in ptrs:
            I = pos(p, k, c.ctx)
            R.add('P01', 'own-strides', I is not None, c.inst,
                  '%s of the call of %sfunc is %s, not operand %d at a multiple of its stride'
                  % (what, c.role, e.show(p), k))
            if I is None:
                continue
            okL = c.L is not None and e.iv(c.L) == I
            R.add('P06', 'same-position', okL, c.inst, '%s is used at broadcast position %s'
                  % (what, e.show(I)))
            R.add('P02', 'operand-bounds', e.prove(I, c.ctx) and e.prove(N - I - 1, c.ctx),
                  c.inst, '%s: not shown: 0 <= %s < %s' % (what, e.show(I), e.show(N)))

    def buffer(c, ptrs, cnt, size, what):
        """Each pointer is in the work buffer; cnt items are used from there."""
        out = []
        for p in ptrs:
            b, off = e.base_of(p)
            if b is not None and e.key(b)[0] in ('alloca', 'global'):
                raise Undecided('a work buffer that is not allocated on the heap')
            hp = b is not None and e.key(b)[0] == 'heap'
            R.add('P02', 'known-object', hp, c.inst, '%s (%s) is not the work buffer'
                  % (what, e.show(p)))
            if not hp:
                continue
            hs = e.heap[b][0]
            idx, rest = _items(off, psize)
            R.add('P02', 'heap-bounds', idx is not None and _prove_items(
                e, hs, psize, idx, cnt, c.ctx), c.inst,
                '%s: %s items of %s bytes at offset %s of the %s bytes allocated'
                % (what, e.show(cnt), e.show(psize), e.show(off), e.show(hs)))
            out.append((b, idx))
        return out
    filled = {}
    for c in calls:
        args, dims, steps = c.arr
        if c.role == 'prod':
            for D in dims[0]:
                R.add('P02', 'operand-bounds', e.prove(n - D, c.ctx), c.inst,
                      'prodfunc is applied to %s items, the operands have %s'
                      % (e.show(D), e.show(n)))
                full = e.prove(D - n, c.ctx)
                one = e.prove(ONE - D, c.ctx)
                for k in (0, 1):
                    operand(c, args[k], k, 'args[%d]' % k)
                    for s in steps[k]:
                        R.add('P01', 'own-strides', one or e.prove_eq(s - st[3 + k], c.ctx),
                              c.inst, 'items of operand %d are taken with stride %s, not %s'
                              % (k, e.show(s), e.show(st[3 + k])))
                for s in steps[2]:
                    R.add('P02', 'heap-bounds', one or not (s - psize).t or
                          e.prove_eq(s - psize, c.ctx), c.inst,
                          'results of prodfunc are stored %s bytes apart, their size is %s'
                          % (e.show(s), e.show(psize)))
                for b, idx in buffer(c, args[2], D, psize, 'the result of prodfunc'):
                    if full and idx is not None and not idx.t:
                        filled.setdefault(b, []).append(c)
            for p in args[2]:
                b, _ = e.base_of(p)
                R.add('P03', 'no-input-writes', not (b is not None and e.key(b)[0] == 'opnd' and
                                                     e.key(b)[1] < 2), c.inst,
                      'the result of prodfunc is stored in operand %s' % e.show(p))
    writers = {}

    def is_filled(b, inst, ctx, L, what):
        ok = any(_precedes(e, w.inst, inst) and w.L is L for w in filled.get(b, ()))
        R.add('P05', 'initialised-before-read', ok, inst,
              '%s reads the work buffer, which prodfunc has not filled in this iteration' % what)
    for c in calls:
        if c.role != 'sum':
            continue
        args, dims, steps = c.arr
        if c.elementwise:
            for D in dims[0]:
                R.add('P02', 'operand-bounds', e.prove_eq(D - 1, c.ctx), c.inst,
                      'sumfunc is applied to %s items at a time' % e.show(D))
            operand(c, args[0], 2, 'args[0]')
            operand(c, args[2], 2, 'args[2]')
            for b, idx in buffer(c, args[1], ONE, psize, 'args[1]'):
                is_filled(b, c.inst, c.ctx, c.L, 'sumfunc')
        else:
            for D in dims[0]:
                R.add('P02', 'operand-bounds', e.prove_eq(D - 1, c.ctx), c.inst,
                      'sumfunc is applied to %s rows at a time' % e.show(D))
            for D in dims[1]:
                R.add('P02', 'heap-bounds', e.prove(n - D, c.ctx), c.inst,
                      'sumfunc reads %s items, there are %s' % (e.show(D), e.show(n)))
                for b, idx in buffer(c, args[0], D, psize, 'args[0]'):
                    is_filled(b, c.inst, c.ctx, c.L, 'sumfunc')
                for s in steps[2]:
                    R.add('P02', 'heap-bounds', e.prove(ONE - D, c.ctx) or not (s - psize).t or
                          e.prove_eq(s - psize, c.ctx), c.inst,
                          'sumfunc reads items %s bytes apart, their size is %s'
                          % (e.show(s), e.show(psize)))
            operand(c, args[1], 2, 'args[1]')
            writers.setdefault(c.L, set()).add(c.inst)
        for p in args[2 if c.elementwise else 1]:
            b, _ = e.base_of(p)
            R.add('P03', 'no-input-writes', not (b is not None and e.key(b)[0] == 'opnd' and
                                                 e.key(b)[1] < 2), c.inst,
                  'the result of sumfunc is stored in %s' % e.show(p))
    # block copies
    for i in fn.insts():
        if i.op != 'call' or i.blk not in e.cfg.reach:
            continue
        nm = callee_name(i) or ''
        if not nm.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
            continue
        ctx, L = e.ctx(i.blk), loop_of(i.blk)
        c = LoopCall()
        c.inst, c.ctx, c.L, c.role = i, ctx, L, 'memcpy '
        dst, src, ln = e.sym(i.ops[1]), e.sym(i.ops[2]), e.sym(i.ops[3])
        b, off = e.base_of(dst)
        if b is None or e.key(b)[0] != 'opnd':
            continue
        if e.key(b)[1] < 2:
            R.add('P03', 'no-input-writes', False, i, 'operand %d is written' % e.key(b)[1])
            continue
        operand(c, [dst], 2, 'the destination')
        same = not (ln - ssize).t or e.prove_eq(ln - ssize, ctx) or \
            e.prove_eq(fld('nin') - 2, ctx) and not (ln - psize).t
        R.add('P01', 'whole-elements', same, i, '%s bytes are copied to an element of %s bytes'
              % (e.show(ln), e.show(ssize)))
        sb, so = e.base_of(src)
        if sb is not None and e.key(sb)[0] == 'heap':
            buffer(c, [src], ONE, psize, 'the source')
            is_filled(sb, i, ctx, L, 'the copy')
        elif sb is not None and Poly.atom(sb) == da:
            R.add('P02', 'known-object', 'identity' in inv and so.is_const() and
                  so.cval() == inv['identity'], i, 'the source is not the identity element')
        else:
            R.add('P02', 'known-object', False, i, 'the source %s is not known' % e.show(src))
        if same:
            writers.setdefault(L, set()).add(i)
    # an element-wise sumfunc reads its result operand: it has to be assigned before
    for c in calls:
        if c.role == 'sum' and c.elementwise:
            ok = any(_precedes(e, w, c.inst) for w in writers.get(c.L, ())
                     if w is not c.inst)
            R.add('P05', 'initialised-before-read', ok, c.inst,
                  'sumfunc reads the output element, which has not been assigned')
    # every output element is assigned
    for L in outer:
        uses = [c for c in calls if c.L is L] or L in writers
        if not uses:
            continue
        ws = {w.blk for w in writers.get(L, ())}
        path = _avoiding(e, L, ws)
        R.add('P04', 'output-assigned', path is None, (path or L.header).term,
              'an iteration can end without assigning the output element')
        ends = []
        for b, s in L.exits:
            ctx = Ctx(e.edge_facts(b, s) + e.items(b))
            ends.append(e.prove(e.iv(L) - N, ctx) or _error_follows(s))
        R.add('P04', 'output-assigned', bool(ends) and all(ends), L.header.term,
              'the loop over the broadcast positions may end before the last one')
    # widths of sizes and counters
    wu = _WidthUnit(R, fn, e)
    loopcheck.p12(wu)
    # no return without either one of the loops over the positions or an error
    hdrs = {L.header for L in outer if L in writers}
    ok, at = _returns_covered(e, hdrs)
    R.add('P04', 'output-assigned', ok, at.term if at is not None else fn.entry.term,
          'the function can return without running a loop over the broadcast positions')
    return R.rows, len(calls)


def _expand(e, p):
    """The pointers that p may be."""
    b, off = e.base_of(p)
    if b is None or e.key(b)[0] != 'v':
        return [p]
    v = e.inst_by_id(e.key(b)[1])
    return [q + off for q, _ in ptr_cases(e, v, [])]


def _items(off, size):
    """(index, rest): off == index*size."""
    a = size.single()
    cf = off.coeff(a)
    if not off.t:
        return ZERO, ZERO
    if cf is None or cf[1].t:
        return None, off
    return cf[0], ZERO


def _prove_items(e, total, size, idx, cnt, ctx):
    """idx >= 0 and (idx + cnt)*size <= total."""
    if not e.prove(idx, ctx):
        return False
    cf = total.coeff(size.single())
    if cf is None:
        return False
    k, rest = cf
    # total == k*size + rest
    return e.prove(k - idx - cnt, ctx) and (not rest.t or e.prove(rest, ctx))


def _precedes(e, a, b):
    """a runs before b whenever b runs, in the same iteration."""
    if a.blk is b.blk:
        return a.blk.insts.index(a) < b.blk.insts.index(b)
    return e.cfg.dom(a.blk, b.blk)


def _avoiding(e, L, ws):
    """A latch that an iteration of L can reach without running one of the blocks ws."""
    if L.header in ws:
        return None
    seen, work = {L.header}, [L.header]
    while work:
        b = work.pop()
        if b in L.latches:
            return b
        for s in b.succs:
            if s in L.body and s not in seen and s not in ws:
                ctx = Ctx(e.edge_facts(b, s) + e.items(b))
                if e.unreachable(ctx):
                    continue
                seen.add(s)
                work.append(s)
    return None


def _error_follows(b):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in x.insts:
            if i.op == 'call' and (callee_name(i) or '').startswith('PyErr_'):
                return True
        work += x.succs
    return False


def _returns_covered(e, hdrs):
    """No path from the entry to a return avoids both the loops and an error."""
    seen, work = {e.cfg.entry}, [e.cfg.entry]
    while work:
        b = work.pop()
        if b in hdrs:
            continue
        if any(i.op == 'call' and (callee_name(i) or '').startswith('PyErr_') for i in b.insts):
            continue
        if b.term.op == 'ret':
            return False, b
        for s in b.succs:
            if s not in seen:
                if e.unreachable(Ctx(e.edge_facts(b, s) + e.items(b))):
                    continue
                seen.add(s)
                work.append(s)
    return True, None


def row_bytes(x):
    """{argument position: bytes per row of the array that the creating function reads}."""
    out = {}
    if x is None:
        return out
    e, R, nl, uses = x
    ivs = [e.iv(L).single() for L in e.cfg.loops]
    for pos, l in uses.items():
        got = set()
        for i, off, ln, ctx in l:
            for iv in ivs:
                cf = off.coeff(iv)
                if cf is not None and cf[0].is_const() and cf[0].cval():
                    got.add(cf[0].cval())
            if isinstance(ln, Poly) and not off.t and nl.single() is not None:
                cf = ln.coeff(nl.single())
                if cf is not None and cf[0].is_const() and cf[0].cval() and not cf[1].t:
                    got.add(cf[0].cval())
        if len(got) == 1:
            out[pos] = got.pop()
    return out


def check_module(mv, pid):
    """Obligations of the gufuncs that this module creates at run time."""
    rows, st = [], {}
    if not mv.dynamic:
        return rows, st
    st['functions that create gufuncs'] = 0
    for fn, ins in mv.dynamic:
        try:
            r = creation(mv, fn, ins)
        except Undecided:
            continue
        rows += r[0]
        st['functions that create gufuncs'] += 1
        pr, ps = pygendot.analyse(build.REPO, row_bytes(r[3]))
        rows += pr
        for k, v in ps.items():
            st[k] = st.get(k, 0) + v
        for f in dict.fromkeys(r[2]):
            try:
                lr, nc = analyse_loop(mv, f, r[1])
            except Undecided:
                continue
            rows += lr
            st['calls of inner loops followed'] = st.get('calls of inner loops followed', 0) + nc
    return [x for x in rows if x[0] == pid], st
