"""A reader for the subset of LLVM-18 textual IR that clang produces here."""
import re
from fractions import Fraction

# --------------------------------------------------------------------------
# types
# --------------------------------------------------------------------------


class Ty:
    __slots__ = ('k', 'n', 'elt', 'fields', 'name', 'packed')

    def __init__(self, k, n=0, elt=None, fields=None, name=None, packed=False):
        self.k, self.n, self.elt, self.fields = k, n, elt, fields
        self.name, self.packed = name, packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.elt)
        if self.k == 'struct':
            return self.name or '{%s}' % ', '.join(map(repr, self.fields or ()))
        return self.k

    def is_int(self):
        return self.k == 'int'

    def is_float(self):
        return self.k in FLOAT_SIZES


FLOAT_SIZES = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}
_SIMPLE = {k: Ty(k) for k in ('void', 'ptr', 'float', 'double', 'x86_fp80', 'half',
                              'fp128', 'label', 'metadata', 'token')}
_INTS = {}


def int_ty(n):
    if n not in _INTS:
        _INTS[n] = Ty('int', n)
    return _INTS[n]


def align_of(t):
    if t.k == 'int':
        b = max(1, (t.n + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if t.k == 'ptr':
        return 8
    if t.k in FLOAT_SIZES:
        return FLOAT_SIZES[t.k]
    if t.k == 'array':
        return align_of(t.elt)
    if t.k == 'vector':
        return sizeof(t)
    if t.k == 'struct':
        if t.packed:
            return 1
        return max([align_of(f) for f in t.fields or ()] or [1])
    return 1


def sizeof(t):
    if t.k == 'int':
        return align_of(t) if t.n > 8 else 1
    if t.k == 'ptr':
        return 8
    if t.k in FLOAT_SIZES:
        return FLOAT_SIZES[t.k]
    if t.k in ('array', 'vector'):
        return t.n * sizeof(t.elt)
    if t.k == 'struct':
        off = 0
        for f in t.fields or ():
            if not t.packed:
                a = align_of(f)
                off = (off + a - 1) // a * a
            off += sizeof(f)
        if not t.packed:
            a = align_of(t)
            off = (off + a - 1) // a * a
        return off
    return 0


def field_offset(t, i):
    off = 0
    for j, f in enumerate(t.fields):
        if not t.packed:
            a = align_of(f)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += sizeof(f)
    raise IndexError(i)


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------


class Const:
    """A constant: kind in int, fp, null, undef, poison, zero, agg, str, global, gep."""
    __slots__ = ('kind', 'ty', 'val')

    def __init__(self, kind, ty, val=None):
        self.kind, self.ty, self.val = kind, ty, val

    def __repr__(self):
        v = self.val
        if isinstance(v, Fraction) and v.numerator.bit_length() + v.denominator.bit_length() > 9000:
            v = (hash(v), v.numerator.bit_length() - v.denominator.bit_length())
        return '<%s %r>' % (self.kind, v)


class Arg:
    __slots__ = ('name', 'ty', 'idx')

    def __init__(self, name, ty, idx):
        self.name, self.ty, self.idx = name, ty, idx

    def __repr__(self):
        return '%' + self.name


class Inst:
    __slots__ = ('op', 'name', 'ty', 'ops', 'blk', 'x', 'dbg', 'flags', 'id')
    # x: opcode specific extra information

    def __init__(self, op, name, ty, ops, x=None, flags=()):
        self.op, self.name, self.ty, self.ops, self.x = op, name, ty, ops, x
        self.flags = flags
        self.dbg = None
        self.blk = None
        self.id = 0

    def __repr__(self):
        return '%%%s=%s' % (self.name, self.op)


class Block:
    __slots__ = ('name', 'insts', 'preds', 'succs', 'fn', 'id')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.insts, self.preds, self.succs = [], [], []
        self.id = 0

    def __repr__(self):
        return 'bb:' + self.name

    @property
    def term(self):
        return self.insts[-1]


class Function:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.args, self.blocks, self.retty = [], [], None
        self.dbg = None
        self.internal = False

    @property
    def entry(self):
        return self.blocks[0]

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def display(self):
        return self.mod.subprogram_name(self.dbg) or self.name

    def __repr__(self):
        return 'fn:' + self.name


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'linkage', 'mod')

    def __init__(self, name, ty, init, const, linkage):
        self.name, self.ty, self.init, self.const, self.linkage = name, ty, init, const, linkage

    def __repr__(self):
        return '@' + self.name


_TOK = re.compile(r'''\s*(?:
    (?P<loc>%"(?:[^"]*)"|%[-a-zA-Z$._0-9]+)
  | (?P<glob>@"(?:[^"]*)"|@[-a-zA-Z$._0-9]+)
  | (?P<meta>![0-9]+|!\{|![a-zA-Z.]+)
  | (?P<cstr>c"(?:[^"]*)")
  | (?P<str>"(?:[^"]*)")
  | (?P<num>0x[KMLHR]?[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?)
  | (?P<attr>\#[0-9]+)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
  | (?P<punct>\.\.\.|[][(){}<>=,*:!|])
)''', re.X)


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = _TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise ValueError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


_PARAM_ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'nonnull', 'signext',
                'zeroext', 'returned', 'noalias', 'immarg', 'readnone', 'inreg', 'nofree',
                'writable', 'dead_on_unwind', 'allocptr', 'nonull', 'swiftself'}
_PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                    'allocalign', 'range', 'nofpclass', 'elementtype', 'captures',
                    'initializes', 'preallocated', 'inalloca', 'memory'}
_FLAGS = {'nsw', 'nuw', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
          'contract', 'afn', 'reassoc', 'inbounds', 'samesign', 'nusw'}
_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
        'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_CASTS = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
          'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


class Parser:
    def __init__(self, mod, toks, fn=None, vals=None):
        self.m, self.t, self.p = mod, toks, 0
        self.fn, self.vals = fn, vals

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.p += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ValueError('expected %r, got %r in %r' % (v, self.peek(), self.t[:14]))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v in _SIMPLE:
                t = _SIMPLE[v]
            elif v[0] == 'i' and v[1:].isdigit():
                t = int_ty(int(v[1:]))
            elif v == 'opaque':
                t = Ty('struct', fields=[], name='opaque')
            else:
                raise ValueError('type? %r in %r' % (v, self.t[:12]))
        elif k == 'loc':
            t = self.m.struct(v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = Ty('array', n, self.type())
            self.expect(']')
        elif v == '<':
            if self.peek()[1] == '{':
                t = self.type()
                t.packed = True
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                t = Ty('vector', n, self.type())
                self.expect('>')
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('struct', fields=fs)
        else:
            raise ValueError('type? %r' % (v,))
        # function type suffix
        if self.peek()[1] == '(' and self.peek()[0] == 'punct':
            save = self.p
            try:
                self.p += 1
                while not self.accept(')'):
                    if self.accept('...') or self.accept(','):
                        continue
                    self.type()
                return Ty('func', elt=t)
            except ValueError:
                self.p = save
        return t

    # ---- values
    def const(self, ty):
        k, v = self.next()
        if k == 'num':
            if ty.is_float():
                return Const('fp', ty, parse_fp(v, ty))
            return Const('int', ty, int(v))
        if k == 'loc':
            name = v[1:].strip('"')
            return self.vals(name, ty)
        if k == 'glob':
            return Const('global', ty, v[1:].strip('"'))
        if k == 'cstr':
            return Const('str', ty, unescape(v[2:-1]))
        if v == 'true':
            return Const('int', ty, 1)
        if v == 'false':
            return Const('int', ty, 0)
        if v in ('null', 'undef', 'poison'):
            return Const(v, ty)
        if v == 'none':
            return Const('null', ty)
        if v == 'zeroinitializer':
            return Const('zero', ty)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                c = self.const(ty)
                self.expect('>')
                return c
            elts = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    elts.append(self.const(t))
                    if self.accept(close):
                        break
                    self.expect(',')
            return Const('agg', ty, elts)
        if v == 'getelementptr':
            inb = False
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                self.p += 1
                inb = True
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append(self.const(t))
                if self.accept(')'):
                    break
                self.expect(',')
            return Const('gep', ty, (bt, ops))
        if v in _CASTS:
            self.expect('(')
            t = self.type()
            c = self.const(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return Const('cast', ty, (v, c, t2))
        if v in _BIN or v in ('icmp', 'select'):
            # constant expression: skip the parenthesis
            while self.peek()[1] != '(':
                self.p += 1
            depth = 0
            while True:
                w = self.next()[1]
                depth += (w == '(') - (w == ')')
                if depth == 0:
                    break
            return Const('expr', ty, v)
        if v in ('dso_local_equivalent', 'blockaddress', 'no_cfi'):
            return Const('expr', ty, v)
        if k == 'meta' or v == 'asm':
            return Const('meta', ty, v)
        raise ValueError('const? %r %r' % (k, v))

    def typed(self):
        t = self.type()
        while self.peek()[1] in _PARAM_ATTRS or self.peek()[1] in _PARAM_ATTRS_ARG:
            w = self.next()[1]
            if w in _PARAM_ATTRS_ARG:
                if self.peek()[0] == 'num':
                    self.p += 1
                elif self.accept('('):
                    depth = 1
                    while depth:
                        x = self.next()[1]
                        depth += (x == '(') - (x == ')')
        return self.const(t)

    def metadata_arg(self):
        depth = 0
        while self.p < len(self.t):
            v = self.peek()[1]
            if depth == 0 and v in (',', ')'):
                return Const('meta', None)
            depth += (v in ('(', '!{', '{')) - (v in (')', '}'))
            self.p += 1


def unescape(s):
    return re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]),
                  s.encode('latin1'))


def parse_fp(v, ty):
    """Return a float, or for x86_fp80 an exact Fraction / float special."""
    import struct
    if v.startswith('0xK'):
        bits = int(v[3:], 16)
        se, man = bits >> 64, bits & ((1 << 64) - 1)
        sign = -1 if se >> 15 else 1
        e = se & 0x7fff
        if e == 0x7fff:
            return sign * float('inf') if (man & ((1 << 63) - 1)) == 0 else float('nan')
        if man == 0:
            return 0.0 * sign
        return Fraction(sign * man) * Fraction(2) ** (e - 16383 - 63)
    if v.startswith('0x') and v[2] not in 'KMLHR':
        return struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]
    return float(v)


class Module:
    def __init__(self, path, name=None):
        self.path, self.name = path, name
        self.structs, self.globals, self.functions, self.decls = {}, {}, {}, {}
        self.meta = {}
        self._meta_cache = {}
        self._fnlines = {}
        with open(path) as f:
            self._parse(f.read().split('\n'))

    def struct(self, name):
        if name not in self.structs:
            self.structs[name] = Ty('struct', fields=None, name='%' + name)
        return self.structs[name]

    def _parse(self, lines):
        i, n = 0, len(lines)
        fnraw = []
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            c = ln[0]
            if c == '!':
                eq = ln.find(' = ')
                if eq > 0:
                    self.meta[ln[1:eq]] = ln[eq + 3:]
            elif c == '%':
                m = re.match(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                s = self.struct(m.group(1).strip('"'))
                t = Parser(self, tokenize(m.group(2))).type()
                s.fields, s.packed = t.fields, t.packed
            elif c == '@':
                self._global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self._fnlines[m.group(1).strip('"')] = (i, j)
                fnraw.append((m.group(1).strip('"'), lines[i:j]))
                i = j
            i += 1
        self._fnraw = dict(fnraw)

    def fn(self, name):
        """Parse a function body on demand."""
        f = self.functions.get(name)
        if f is None and name in self._fnraw:
            f = self._function(name, self._fnraw[name])
            self.functions[name] = f
        return f

    def fn_names(self):
        return list(self._fnraw)

    def _global(self, ln):
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        toks = tokenize(rest)
        p = Parser(self, toks)
        linkage, const = set(), False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                p.p += 1
                const = v == 'constant'
                break
            if v in ('alias', 'ifunc'):
                return
            if v is None:
                return
            linkage.add(v)
            p.p += 1
        ty = p.type()
        init = None
        if 'external' not in linkage and p.peek()[1] not in (None, ','):
            init = p.const(ty)
        g = Global(name, ty, init, const, linkage)
        g.mod = self
        self.globals[name] = g

    # ---- functions
    def _function(self, name, lines):
        f = Function(name, self)
        head = lines[0]
        f.internal = ' internal ' in head or ' linkonce_odr ' in head
        m = re.search(r'!dbg !(\d+)', head)
        f.dbg = m.group(1) if m else None
        at = head.index('@' + name) if '@' + name in head else head.index('@"' + name)
        par = head.index('(', at + len(name))
        p = Parser(self, tokenize(head[par:]))
        p.expect('(')
        vals = {}
        fwd = {}
        unnamed = 0
        # arguments
        idx = 0
        while not p.accept(')'):
            if p.accept('...') or p.accept(','):
                continue
            t = p.type()
            nm = None
            while True:
                k, v = p.peek()
                if k == 'loc':
                    nm = v[1:].strip('"')
                    p.p += 1
                    break
                if v in (',', ')'):
                    break
                if v == '(':
                    depth = 0
                    while True:
                        w = p.next()[1]
                        depth += (w == '(') - (w == ')')
                        if depth == 0:
                            break
                else:
                    p.p += 1
            if nm is None:
                nm = str(unnamed)
                unnamed += 1
            elif nm.isdigit():
                unnamed = int(nm) + 1
            a = Arg(nm, t, idx)
            idx += 1
            vals[nm] = a
            f.args.append(a)
        # return type: text between attributes and '@'
        rt = tokenize(head[len('define'):at])
        q = 0
        while q < len(rt):
            try:
                pp = Parser(self, rt)
                pp.p = q
                t = pp.type()
                if pp.p == len(rt):
                    f.retty = t
                    break
            except (ValueError, IndexError):
                pass
            q += 1

        blocks = {}

        def block(nm):
            if nm not in blocks:
                blocks[nm] = Block(nm, f)
            return blocks[nm]

        class Fwd:
            __slots__ = ('name', 'ty')

        def getval(nm, ty):
            if nm in vals:
                return vals[nm]
            if nm not in fwd:
                w = Fwd()
                w.name, w.ty = nm, ty
                fwd[nm] = w
            return fwd[nm]

        cur = None
        i = 1
        n = len(lines)
        order = []
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            if ln[0] not in ' \t':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = block(m.group(1).strip('"'))
                    order.append(cur)
                continue
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime.' in s:
                continue
            if cur is None:
                cur = block('entry0')
                order.append(cur)
            if s.startswith('switch') and s.endswith('['):
                parts = [s]
                while True:
                    l2 = lines[i].strip()
                    i += 1
                    parts.append(l2)
                    if l2.startswith(']'):
                        break
                s = ' '.join(parts)
            elif (' = landingpad' in s or ' invoke ' in ' ' + s):
                while i < n and re.match(r'^\s+(to label|catch|filter|cleanup)', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = self._inst(s, f, getval, block)
            if ins is None:
                continue
            ins.blk = cur
            cur.insts.append(ins)
            if ins.name is not None:
                vals[ins.name] = ins
        f.blocks = order
        # resolve forward references
        def res(v):
            if isinstance(v, Fwd):
                return vals[v.name]
            return v
        k = 0
        for bi, b in enumerate(f.blocks):
            b.id = bi
            for ins in b.insts:
                ins.id = k
                k += 1
                ins.ops = [res(o) for o in ins.ops]
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(t.x)
            elif t.op == 'switch':
                b.succs = [t.x[0]] + [bb for _, bb in t.x[1]]
            elif t.op == 'invoke':
                b.succs = [t.x['normal'], t.x['unwind']]
            for s_ in b.succs:
                if b not in s_.preds:
                    s_.preds.append(b)
        return f

    def _inst(self, s, f, getval, block):
        # split off the metadata suffix
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = m.group(1)
        s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', s)
        s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+(?=\s|$)', '', s) if ', !' in s else s
        name = None
        m = re.match(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
        if m:
            name, s = m.group(1).strip('"'), m.group(2)
        p = Parser(self, tokenize(s), f, getval)
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        flags = []
        while p.peek()[1] in _FLAGS:
            flags.append(p.next()[1])
        ins = None
        if op in _BIN:
            t = p.type()
            a = p.const(t)
            p.expect(',')
            b = p.const(t)
            ins = Inst(op, name, t, [a, b])
        elif op == 'fneg':
            t = p.type()
            ins = Inst(op, name, t, [p.const(t)])
        elif op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            t = p.type()
            a = p.const(t)
            p.expect(',')
            b = p.const(t)
            ins = Inst(op, name, int_ty(1), [a, b], pred)
        elif op in _CASTS:
            a = p.typed()
            p.expect('to')
            ins = Inst(op, name, p.type(), [a])
        elif op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            ins = Inst('load', name, t, [p.typed()])
        elif op == 'store':
            p.accept('volatile')
            v = p.typed()
            p.expect(',')
            ins = Inst('store', None, _SIMPLE['void'], [v, p.typed()])
        elif op == 'getelementptr':
            t = p.type()
            ops = []
            while p.accept(','):
                ops.append(p.typed())
            ins = Inst('gep', name, _SIMPLE['ptr'], ops, t)
        elif op == 'phi':
            t = p.type()
            inc = []
            ops = []
            while True:
                p.expect('[')
                ops.append(p.const(t))
                p.expect(',')
                inc.append(block(p.next()[1][1:].strip('"')))
                p.expect(']')
                if not p.accept(','):
                    break
            ins = Inst('phi', name, t, ops, inc)
        elif op == 'select':
            c = p.typed()
            p.expect(',')
            a = p.typed()
            p.expect(',')
            b = p.typed()
            ins = Inst('select', name, a.ty if not hasattr(a, 'ops') else a.ty, [c, a, b])
        elif op == 'br':
            if p.accept('label'):
                ins = Inst('br', None, _SIMPLE['void'], [], [block(p.next()[1][1:].strip('"'))])
            else:
                c = p.typed()
                p.expect(',')
                p.expect('label')
                a = block(p.next()[1][1:].strip('"'))
                p.expect(',')
                p.expect('label')
                b = block(p.next()[1][1:].strip('"'))
                ins = Inst('br', None, _SIMPLE['void'], [c], [a, b])
        elif op == 'switch':
            v = p.typed()
            p.expect(',')
            p.expect('label')
            d = block(p.next()[1][1:].strip('"'))
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t = p.type()
                c = p.const(t)
                p.expect(',')
                p.expect('label')
                cases.append((c.val, block(p.next()[1][1:].strip('"'))))
            ins = Inst('switch', None, _SIMPLE['void'], [v], (d, cases))
        elif op == 'ret':
            if p.accept('void'):
                ins = Inst('ret', None, _SIMPLE['void'], [])
            else:
                ins = Inst('ret', None, _SIMPLE['void'], [p.typed()])
        elif op in ('unreachable',):
            ins = Inst('unreachable', None, _SIMPLE['void'], [])
        elif op == 'resume':
            ins = Inst('resume', None, _SIMPLE['void'], [])
        elif op == 'landingpad':
            t = p.type()
            ins = Inst('landingpad', name, t, [], re.findall(
                r'\bcleanup\b|catch ptr [^\s,]+|filter ', s))
        elif op in ('call', 'invoke'):
            while True:
                k, v = p.peek()
                if k == 'word' and (v in _PARAM_ATTRS or v in ('fastcc', 'ccc', 'cc')):
                    p.p += 1
                elif k == 'word' and v in _PARAM_ATTRS_ARG:
                    p.p += 1
                    if p.peek()[0] == 'num':
                        p.p += 1
                    elif p.accept('('):
                        depth = 1
                        while depth:
                            x = p.next()[1]
                            depth += (x == '(') - (x == ')')
                else:
                    break
            t = p.type()
            if t.k == 'func':
                t = t.elt
            k, v = p.next()
            if v == 'asm':
                callee = Const('asm', None)
                while p.peek()[1] != '(':
                    p.p += 1
            elif k == 'glob':
                callee = Const('global', _SIMPLE['ptr'], v[1:].strip('"'))
            elif k == 'loc':
                callee = getval(v[1:].strip('"'), _SIMPLE['ptr'])
            else:
                p.p -= 1
                callee = p.const(_SIMPLE['ptr'])
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.accept(','):
                    continue
                if p.peek()[1] == 'metadata':
                    args.append(p.metadata_arg())
                    continue
                args.append(p.typed())
            x = {}
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.p += 1
                p.expect('to')
                p.expect('label')
                x['normal'] = block(p.next()[1][1:].strip('"'))
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = block(p.next()[1][1:].strip('"'))
            ins = Inst(op, name, t, [callee] + args, x)
        elif op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(',') and p.peek()[1] != 'align':
                cnt = p.typed()
            ins = Inst('alloca', name, _SIMPLE['ptr'], [cnt] if cnt is not None else [], t)
        elif op == 'extractvalue':
            a = p.typed()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            t = a.ty
            if t is not None:
                for k_ in idx:
                    t = t.fields[k_] if t.k == 'struct' else t.elt
            ins = Inst('extractvalue', name, t, [a], idx)
        elif op == 'insertvalue':
            a = p.typed()
            p.expect(',')
            b = p.typed()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            ins = Inst('insertvalue', name, a.ty, [a, b], idx)
        elif op == 'extractelement':
            a = p.typed()
            p.expect(',')
            b = p.typed()
            ins = Inst('extractelement', name, a.ty.elt, [a, b])
        elif op == 'insertelement':
            a = p.typed()
            p.expect(',')
            b = p.typed()
            p.expect(',')
            c = p.typed()
            ins = Inst('insertelement', name, a.ty, [a, b, c])
        elif op == 'freeze':
            a = p.typed()
            ins = Inst('freeze', name, a.ty, [a])
        else:
            ins = Inst('?' + op, name, _SIMPLE['void'], [], s)
        ins.flags = tuple(flags)
        ins.dbg = dbg
        return ins

    # ---- debug info
    def _md(self, k):
        return self.meta.get(k, '')

    def subprogram_name(self, k):
        if k is None:
            return None
        m = re.search(r'name: "([^"]*)"', self._md(k))
        return m.group(1) if m else None

    def loc(self, k):
        """(file, line, function name) of a DILocation, innermost frame."""
        if k is None:
            return ('?', 0, '?')
        c = self._meta_cache.get(k)
        if c:
            return c
        t = self._md(k)
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        m = re.search(r'scope: !(\d+)', t)
        fn, file = '?', '?'
        sc = m.group(1) if m else None
        depth = 0
        while sc is not None and depth < 60:
            st = self._md(sc)
            if file == '?':
                mf = re.search(r'file: !(\d+)', st)
                if mf:
                    mm = re.search(r'filename: "([^"]*)"', self._md(mf.group(1)))
                    if mm:
                        file = mm.group(1)
            if 'DISubprogram' in st:
                fn = self.subprogram_name(sc) or '?'
                break
            m = re.search(r'scope: !(\d+)', st)
            sc = m.group(1) if m else None
            depth += 1
        c = (file, line, fn)
        self._meta_cache[k] = c
        return c

    def inline_stack(self, k):
        """[(file,line,fn)...] innermost first."""
        out = []
        depth = 0
        while k is not None and depth < 40:
            out.append(self.loc(k))
            m = re.search(r'inlinedAt: !(\d+)', self._md(k))
            k = m.group(1) if m else None
            depth += 1
        return out
