"""P08: the code treats every operand as the dtype that it is registered for."""
from . import ir
from .contract import TYPECODES
from .engine import callee_name

FLOAT_IR = {2: 'half', 4: 'float', 8: 'double', 16: 'x86_fp80'}
TRANSPARENT = ('phi', 'select', 'freeze')


def spec(t):
    """(class, component size, signed) of a type code: class in i, u, b, f, o, h."""
    if t not in TYPECODES:
        return None
    c, k, size = TYPECODES[t]
    if c == 'e':
        return ('h', 2)
    if k == 'c':
        return ('f', size // 2)
    return (k, size)


def accepts(sp, ty):
    """Can an operand of this spec be accessed as the IR type ty (apart from pure copies)?"""
    k, size = sp
    if ty.k == 'ptr':
        return k == 'o'
    if ty.is_float():
        return k == 'f' and FLOAT_IR.get(size) == ty.k
    if ty.is_int():
        return k in ('i', 'u', 'b', 'h') and ty.n == 8 * size
    if ty.k == 'vector':
        return accepts(sp, ty.elt)
    return False


def p08(u):
    if u.loop is None:
        return
    e, lay, types = u.eng, u.lay, u.loop.types
    users = u_users(u)
    specs = [spec(t) for t in types]
    loads = {}
    for a in u.acc:
        if a.kind != 'opnd' or a.opnd >= len(specs):
            continue
        sp, code = specs[a.opnd], TYPECODES[types[a.opnd]][0]
        if a.inst.op == 'load':
            ok = accepts(sp, a.ty) or _copy_only(a.inst, users, sp)
            u.add('P08', 'access-type', ok, a.inst,
                  'operand %d is registered as %r but is read as %r' % (a.opnd, code, a.ty))
            if ok:
                loads.setdefault(a.inst, a.opnd)
        elif a.inst.op == 'store':
            v = a.inst.ops[0]
            ok = accepts(sp, a.ty) or _copied_value(v, u, specs, sp)
            u.add('P08', 'access-type', ok, a.inst,
                  'operand %d is registered as %r but is written as %r' % (a.opnd, code, a.ty))
            if ok:
                _stored(u, a, sp, code)
        elif a.rw == 'w' and _mem(a.inst) == 'set':
            v = a.inst.ops[2]
            z = isinstance(v, ir.Const) and v.kind == 'int' and \
                (v.val == 0 or sp[0] in 'iub')
            u.add('P08', 'access-type', z and sp[0] != 'o', a.inst,
                  'operand %d (%r) is filled bytewise' % (a.opnd, code))
    # both components of a complex result
    for k in range(lay.nin, min(lay.nargs, len(specs))):
        sp = specs[k]
        ws = [a for a in u.acc if a.kind == 'opnd' and a.opnd == k and a.rw == 'w']
        if not sp or sp[0] != 'f' or lay.size[k] != 2 * sp[1] or not ws:
            continue
        known = all(a.size == sp[1] and a.R is not None and a.R.is_const() for a in ws)
        ok = not known or len({a.R.cval() for a in ws}) > 1
        u.add('P08', 'complex-components', ok, ws[0].inst,
              'only one component of the complex operand %d is written' % k)
    _copies(u, specs)
    for ins, k in loads.items():
        _uses(u, ins, k, specs[k], TYPECODES[types[k]][0], users, loads, types)
    # the result of an integer reduction has the kind that it is registered with
    u.add('P08', 'loops-checked', True, None)


def u_users(u):
    m = {}
    for x in u.fn.insts():
        for o in x.ops:
            if isinstance(o, ir.Inst):
                m.setdefault(o, []).append(x)
    return m


def _mem(ins):
    from .access import mem_intrinsic
    return mem_intrinsic(ins)


def _copies(u, specs):
    """memcpy between operands: same kind on both sides."""
    by = {}
    for a in u.acc:
        if a.inst.op in ('call', 'invoke') and a.kind == 'opnd' and a.opnd < len(specs) and \
                _mem(a.inst) == 'cpy':
            by.setdefault(a.inst, {}).setdefault(a.rw, set()).add(a.opnd)
    for ins, d in by.items():
        for w in d.get('w', ()):
            for r in d.get('r', ()):
                u.add('P08', 'access-type', specs[w] == specs[r], ins,
                      'operand %d (%s) is copied bytewise to operand %d (%s)'
                      % (r, specs[r], w, specs[w]))


def _copy_only(ins, users, sp):
    """The loaded bits are only stored again, or reinterpreted as the right type."""
    seen, work = set(), [ins]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in users.get(v, ()):
            if x.op in TRANSPARENT and not (x.op == 'select' and x.ops[0] is v):
                work.append(x)
            elif x.op == 'store' and x.ops[0] is v:
                pass            # judged where it is stored
            elif x.op == 'bitcast' and (accepts(sp, x.ty)):
                pass
            elif x.op in ('extractvalue', 'extractelement'):
                if accepts(sp, x.ty):
                    continue
                work.append(x)
            else:
                return False
    return sp[0] in ('f', 'h', 'i', 'u', 'b')


def _copied_value(v, u, specs, sp):
    """A value with another IR type whose bits come from memory with the same kind."""
    e = u.eng
    seen, work = set(), [v]
    while work:
        x = work.pop()
        if isinstance(x, ir.Const):
            if x.kind in ('undef', 'poison', 'zero') or (x.kind == 'int' and x.val == 0):
                continue
            return False
        if x in seen:
            continue
        seen.add(x)
        if not isinstance(x, ir.Inst):
            return False
        if x.op == 'phi' or x.op == 'freeze':
            work += x.ops
        elif x.op == 'select':
            work += x.ops[1:]
        elif x.op == 'bitcast':
            if not accepts(sp, x.ops[0].ty):
                return False
        elif x.op == 'load':
            b, _ = e.base_of(e.sym(x.ops[0]))
            k = e.key(b) if b is not None else ('?',)
            if k[0] == 'opnd' and k[1] < len(specs):
                if specs[k[1]] != sp:
                    return False
            elif k[0] not in ('alloca', 'heap', 'vec', 'glob'):
                return False
        elif x.op in ('insertvalue', 'insertelement'):
            if not accepts(sp, x.ops[1].ty):
                return False
            work.append(x.ops[0])
        elif x.op in ('call', 'invoke'):
            pass
        else:
            return False
    return True


def _stored(u, a, sp, code):
    """Conversions and truth values of what is stored."""
    v0 = a.inst.ops[0]
    seen, work = set(), [v0]
    while work:
        v = work.pop()
        if not isinstance(v, ir.Inst) or v in seen:
            if sp[0] == 'b' and isinstance(v, ir.Const) and v.kind == 'int':
                u.add('P08', 'bool-values', v.val in (0, 1), a.inst,
                      'the value %s is stored in a bool' % v.val)
            continue
        seen.add(v)
        if v.op == 'phi' or v.op == 'freeze':
            work += v.ops
            continue
        if v.op == 'select':
            work += v.ops[1:]
            continue
        if v.op in ('fptosi', 'fptoui'):
            want = 'u' if v.op == 'fptoui' else 'i'
            u.add('P08', 'signedness', sp[0] == want and v.ty.n == 8 * sp[1], a.inst,
                  'a floating-point value is converted to %s%d for an operand registered as %r'
                  % (want, v.ty.n, code))
        elif sp[0] == 'h':
            u.add('P08', 'access-type', v.op in ('call', 'load', 'and', 'or', 'xor', 'bitcast',
                                                 'trunc'), a.inst,
                  'the result of %s is stored as a half precision number' % v.op)
        if sp[0] == 'b':
            u.add('P08', 'bool-values', _is_bool(u, v), a.inst,
                  'the result of %s is stored in a bool without being reduced to 0 or 1' % v.op)


def _is_bool(u, v, depth=0):
    if isinstance(v, ir.Const):
        return v.kind == 'int' and v.val in (0, 1)
    if not isinstance(v, ir.Inst) or depth > 8:
        return False
    if v.ty.is_int() and v.ty.n == 1:
        return True
    if v.op == 'zext':
        return _is_bool(u, v.ops[0], depth + 1)
    if v.op == 'trunc':
        return _is_bool(u, v.ops[0], depth + 1) or \
            (v.ops[0].ty.n > 8 and _is_flag_call(v.ops[0]))
    if v.op in ('and',):
        return any(_is_bool(u, o, depth + 1) for o in v.ops)
    if v.op in ('or', 'xor'):
        return all(_is_bool(u, o, depth + 1) for o in v.ops)
    if v.op in ('phi', 'freeze'):
        return all(_is_bool(u, o, depth + 1) for o in v.ops if o is not v)
    if v.op == 'select':
        return all(_is_bool(u, o, depth + 1) for o in v.ops[1:])
    if v.op == 'load':
        e = u.eng
        b, _ = e.base_of(e.sym(v.ops[0]))
        k = e.key(b) if b is not None else ('?',)
        if k[0] == 'opnd':
            return k[1] < len(u.loop.types) and u.loop.types[k[1]] == 0
        return k[0] in ('alloca', 'heap', 'vec')
    if v.op in ('call', 'invoke'):
        return _is_flag_call(v)
    return False


def _is_flag_call(v):
    return isinstance(v, ir.Inst) and v.op in ('call', 'invoke') and \
        (callee_name(v) or '').startswith(('npy_half_is', 'PyObject_RichCompareBool'))


SIGNED = {'sext', 'sitofp'}
UNSIGNED = {'zext', 'uitofp'}


def _uses(u, ins, k, sp, code, users, loads, types):
    """How the loaded value is used."""
    kind, size = sp
    if kind not in ('i', 'u', 'b', 'h'):
        u.add('P08', 'uses', True, ins)
        return
    seen, work = set(), [ins]
    bad = None
    while work and bad is None:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in users.get(v, ()):
            if x.op in TRANSPARENT:
                if all(_same_kind(o, u, sp, types, loads)
                       for o in (x.ops[1:] if x.op == 'select' else x.ops)
                       if o is not v and o not in seen):
                    work.append(x)
                continue
            if kind == 'h':
                if x.op in ('sitofp', 'uitofp'):
                    bad = (x, 'the bits of a half precision number are converted as an integer')
                elif x.op in ('icmp',) and x.x not in ('eq', 'ne') and \
                        all(_from(o, loads) is not None for o in x.ops):
                    bad = (x, 'half precision numbers are compared as integers')
                continue
            s = x.op in SIGNED
            if s or x.op in UNSIGNED:
                if kind == 'b' and not s:
                    continue
                if (kind == 'i') != s:
                    bad = (x, 'a value of dtype %r is used as %s integer'
                           % (code, 'a signed' if s else 'an unsigned'))
                continue
            if x.op in ('sdiv', 'srem', 'udiv', 'urem') and x.ops[0] is v and \
                    x.ty.n == 8 * size:
                if (kind == 'i') != (x.op[0] == 's'):
                    bad = (x, 'a value of dtype %r is divided as %s integer'
                           % (code, 'a signed' if x.op[0] == 's' else 'an unsigned'))
                continue
            if x.op == 'icmp' and x.x[0] in 'su' and len(x.x) == 3:
                other = x.ops[1] if x.ops[0] is v else x.ops[0]
                kk = _from(other, loads)
                if kk is not None and spec(types[kk]) == sp and (kind == 'i') != (x.x[0] == 's'):
                    bad = (x, 'values of dtype %r are compared as %s integers'
                           % (code, 'signed' if x.x[0] == 's' else 'unsigned'))
    u.add('P08', 'signedness' if kind != 'h' else 'uses', bad is None, bad[0] if bad else ins,
          bad[1] + ' (operand %d)' % k if bad else '')


def _from(v, loads, depth=0):
    """Operand that a value was loaded from, through phis and selects."""
    if v in loads:
        return loads[v]
    if isinstance(v, ir.Inst) and v.op in TRANSPARENT and depth < 4:
        for o in (v.ops[1:] if v.op == 'select' else v.ops):
            if o is not v:
                k = _from(o, loads, depth + 1)
                if k is not None:
                    return k
    return None


def _same_kind(o, u, sp, types, loads):
    """The other value that reaches a join has the same dtype as far as is known."""
    if isinstance(o, ir.Const):
        return True
    k = _from(o, loads)
    return k is not None and spec(types[k]) == sp


def table_obligations(regs):
    """Registration tables: one loop per advertised signature, consistent lengths."""
    rows = []

    def add(rule, ok, reg, detail, key=None):
        rows.append(('P08', rule, bool(ok), '%s.%s (type tables)' % (reg.module, reg.name),
                     '%s.%s' % (reg.module, reg.name), detail, key or reg.name))
    for r in regs:
        add('table-shape', not r.problems, r, '; '.join(r.problems))
        extra = r.nfuncs > r.ntypes and r.ntypecodes > r.ntypes * (r.nin + r.nout)
        add('table-shape', not extra, r, 'the tables have %d loops and %d type codes but only '
            '%d signatures are registered' % (r.nfuncs, r.ntypecodes, r.ntypes))
        seen = {}
        for l in r.loops:
            add('loop-present', l.fn is not None, r, 'no loop function for %s' % l.typestr, l.key)
            add('type-codes', all(t in TYPECODES for t in l.types), r,
                'unknown type code in entry %d' % l.idx, l.key)
            ins = tuple(l.types[:r.nin])
            add('distinct-signatures', ins not in seen, r,
                'the input types of %s are registered twice; the second entry can never be '
                'selected' % l.typestr, l.key)
            seen[ins] = l
    return rows


def advertised_obligations(regs, adv):
    """The configuration files and the compiled tables list the same signatures."""
    rows = []
    for r in regs:
        want = adv.get((r.module, r.name))
        if want is None:
            continue
        norm = {s.replace('p', 'l').replace('P', 'L') for s in want}
        have = {l.typestr for l in r.loops}
        for s in sorted(norm | have):
            ok = s in norm and s in have
            rows.append(('P08', 'advertised-types', ok, '%s.%s (type tables)' % (r.module, r.name),
                         '%s.%s' % (r.module, r.name),
                         '%s is in the configuration but no such loop is registered' % s
                         if s in norm else
                         'a loop is registered for %s, which the configuration does not list' % s,
                         '%s:%s:%s' % (r.module, r.name, s)))
    return rows
