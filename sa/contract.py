"""Recover, from the compiled module initialisers, what NumPy is told about each loop.

For every ufunc/gufunc: name, signature, nin, nout, the loop functions with the
type codes of their operands, and the process_core_dims hook.
"""
import re
from . import ir
from .build import AnalysisBroken

# type code -> (C kind, size in bytes); the order is NumPy's NPY_TYPES enum.
TYPECODES = {
    0: ('?', 'b', 1), 1: ('b', 'i', 1), 2: ('B', 'u', 1), 3: ('h', 'i', 2), 4: ('H', 'u', 2),
    5: ('i', 'i', 4), 6: ('I', 'u', 4), 7: ('l', 'i', 8), 8: ('L', 'u', 8),
    9: ('q', 'i', 8), 10: ('Q', 'u', 8), 11: ('f', 'f', 4), 12: ('d', 'f', 8),
    13: ('g', 'f', 16), 14: ('F', 'c', 8), 15: ('D', 'c', 16), 16: ('G', 'c', 32),
    17: ('O', 'o', 8), 21: ('M', 'i', 8), 22: ('m', 'i', 8), 23: ('e', 'f', 2),
}

UF_API = {1: ('FromFuncAndData', 'funcs data types ntypes nin nout identity name doc unused'),
          31: ('FromFuncAndDataAndSignature',
               'funcs data types ntypes nin nout identity name doc unused signature'),
          42: ('FromFuncAndDataAndSignatureAndIdentity',
               'funcs data types ntypes nin nout identity name doc unused signature ident'),
          2: ('RegisterLoopForType', 'ufunc usertype function arg_types data')}


class Loop:
    """One inner loop function together with the types of its operands."""

    def __init__(self, reg, idx, fn, types):
        self.reg, self.idx, self.fn, self.types = reg, idx, fn, types

    @property
    def key(self):
        return '%s:%s:%s' % (self.reg.module, self.reg.name, self.typestr)

    @property
    def typestr(self):
        c = ''.join(TYPECODES[t][0] if t in TYPECODES else '!' for t in self.types)
        return c[:self.reg.nin] + '->' + c[self.reg.nin:]

    @property
    def is_object(self):
        return 17 in self.types

    def size(self, k):
        return TYPECODES[self.types[k]][2]


class Reg:
    def __init__(self):
        self.problems = []

    def dims(self):
        """Names of the core dimensions in NumPy's order, and per operand dims."""
        if not self.signature:
            return [], [[] for _ in range(self.nin + self.nout)]
        names, ops = [], []
        sig = self.signature.replace(' ', '')
        for m in re.finditer(r'\(([^)]*)\)', sig):
            ds = [d for d in m.group(1).split(',') if d]
            for d in ds:
                if d not in names:
                    names.append(d)
            ops.append(ds)
        return names, ops


def strip(v):
    while isinstance(v, ir.Const) and v.kind == 'cast':
        v = v.val[1]
    return v


def const_int(v):
    return v.val if isinstance(v, ir.Const) and v.kind == 'int' else None


def gep_zero(v):
    """Global name that a constant pointer designates at offset 0."""
    v = strip(v)
    if isinstance(v, ir.Const):
        if v.kind == 'global':
            return v.val
        if v.kind == 'gep' and all(const_int(o) == 0 for o in v.val[1][1:]):
            return gep_zero(v.val[1][0])
    return None


def string_of(mod, v):
    g = gep_zero(v)
    if g is None or g not in mod.globals:
        return None
    init = mod.globals[g].init
    if init is None:
        return None
    if init.kind == 'str':
        return init.val.split(b'\0')[0].decode('latin1')
    if init.kind == 'zero':
        return ''
    return None


def array_of(mod, v):
    """List of constants in a constant array global."""
    g = gep_zero(v)
    if g is None or g not in mod.globals:
        return None
    gl = mod.globals[g]
    init = gl.init
    if init is None:
        return None
    if init.kind == 'str':
        return [ir.Const('int', ir.int_ty(8), b if b < 128 else b - 256) for b in init.val]
    if init.kind == 'zero':
        if gl.ty.k != 'array':
            return [ir.Const('null', gl.ty)]
        return [ir.Const('null', gl.ty.elt)] * gl.ty.n
    if init.kind == 'agg':
        return list(init.val)
    return [init]


def api_slot(call):
    """(table global, slot) when a call goes through PyUFunc_API / PyArray_API."""
    c = call.ops[0]
    if not (isinstance(c, ir.Inst) and c.op == 'load'):
        return None
    p = c.ops[0]
    k = 0
    if isinstance(p, ir.Inst) and p.op == 'gep':
        if len(p.ops) != 2 or const_int(p.ops[1]) is None:
            return None
        k = const_int(p.ops[1]) * ir.sizeof(p.x) // 8
        p = p.ops[0]
    if isinstance(p, ir.Inst) and p.op == 'load':
        g = gep_zero(p.ops[0])
        if g and ('PyUFunc_API' in g or 'PyArray_API' in g):
            return ('ufunc' if 'UFunc' in g else 'array', k)
    return None


def extract(mod, modname):
    regs = []
    dynamic = []
    for name in mod.fn_names():
        raw = mod._fnraw[name]
        if not any('PyUFunc_API' in l for l in raw):
            continue
        fn = mod.fn(name)
        byinst = {}
        for ins in fn.insts():
            if ins.op != 'call':
                continue
            sl = api_slot(ins)
            if not sl or sl[0] != 'ufunc' or sl[1] not in UF_API:
                continue
            kind, names = UF_API[sl[1]]
            if kind == 'RegisterLoopForType':
                dynamic.append((fn, ins))
                continue
            a = dict(zip(names.split(), ins.ops[1:]))
            r = Reg()
            r.module, r.kind, r.call, r.initfn = modname, kind, ins, fn
            r.name = string_of(mod, a['name'])
            r.signature = string_of(mod, a['signature']) if 'signature' in a else None
            r.ntypes = const_int(a['ntypes'])
            r.nin, r.nout = const_int(a['nin']), const_int(a['nout'])
            r.nin_const = r.nin
            fs = array_of(mod, a['funcs'])
            ts = array_of(mod, a['types'])
            r.process_core_dims = None
            r.raw = a
            if r.name is None or fs is None or ts is None or r.ntypes is None:
                dynamic.append((fn, ins))
                continue
            if r.signature is not None:
                l, _, rr = r.signature.partition('->')
                snin, snout = len(re.findall(r'\(', l)), len(re.findall(r'\(', rr))
                if r.nin is not None and (r.nin, r.nout) != (snin, snout):
                    r.problems.append('signature %r has %d inputs and %d outputs, but nin=%s '
                                      'nout=%s are registered' % (r.signature, snin, snout,
                                                                  r.nin, r.nout))
                r.nin, r.nout = snin, snout
            n = r.nin + r.nout
            if len(fs) < r.ntypes:
                r.problems.append('ntypes is %d but only %d loop functions are listed'
                                  % (r.ntypes, len(fs)))
            if len(ts) < r.ntypes * n:
                r.problems.append('ntypes*nargs is %d but the type table has %d entries'
                                  % (r.ntypes * n, len(ts)))
            r.loops = []
            r.nfuncs, r.ntypecodes = len(fs), len(ts)
            for i in range(min(r.ntypes, len(fs))):
                tys = [const_int(t) if const_int(t) is not None else 0
                       for t in ts[i * n:(i + 1) * n]]
                if len(tys) < n:
                    continue
                f = gep_zero(fs[i])
                r.loops.append(Loop(r, i, f, tys))
            byinst[ins] = r
            regs.append(r)
        # process_core_dims hook: a function pointer stored in the new object
        for ins in fn.insts():
            if ins.op == 'store':
                g = gep_zero(ins.ops[0])
                if g and g in mod._fnraw:
                    p = ins.ops[1]
                    base = p
                    while isinstance(base, ir.Inst) and base.op == 'gep':
                        base = base.ops[0]
                    for r in _origins(base, byinst):
                        r.process_core_dims = g
    return regs, dynamic


def _origins(v, byinst, seen=None):
    seen = seen or set()
    if id(v) in seen:
        return []
    seen.add(id(v))
    if v in byinst:
        return [byinst[v]]
    if isinstance(v, ir.Inst) and v.op in ('phi', 'select'):
        ops = v.ops if v.op == 'phi' else v.ops[1:]
        out = []
        for o in ops:
            out += _origins(o, byinst, seen)
        return out
    return []
