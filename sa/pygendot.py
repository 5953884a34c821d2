"""How ufunclab/_gendot_wrap.py selects the loops that a gendot gufunc combines.

The function is interpreted with symbolic type strings: prodfunc.types holds 'pq->r', and
sumfunc.types 'st->u' (element-wise) or 's->u' (gufunc); each loop is followed for one entry.
Equality tests split the path. At the call of the extension module the arguments are compared
with what its code (gendotmodule.c) does with them.
"""
import ast
import os

MAXSTATES = 4000


class Stop(Exception):
    """The function does something that is not interpreted."""


class Sym:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class SS:
    """A string whose characters are symbols or known."""

    def __init__(self, chars):
        self.c = tuple(chars)

    def __repr__(self):
        return ''.join(map(str, self.c))


class T:
    """A term: ('size', sym), ('array', elems, dtype), ..."""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


UNK = T('unknown')
FREE = T('free')        # a value that has nothing to do with the types


class Func:
    """A ufunc argument."""

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class St:
    def __init__(self, env, eq=(), ne=(), unk=False):
        self.env, self.eq, self.ne = env, eq, ne
        self.unk = unk          # the path depends on a condition that is not interpreted

    def fork(self, eq=(), ne=(), unk=False, **kw):
        e = dict(self.env)
        e.update(kw)
        return St(e, self.eq + tuple(eq), self.ne + tuple(ne), self.unk or unk)

    def rep(self, s):
        d = {}

        def find(x):
            while x in d:
                x = d[x]
            return x
        for a, b in self.eq:
            a, b = find(a), find(b)
            if a is not b and a != b:
                if isinstance(a, str):
                    a, b = b, a
                d[a] = b
        return find(s)

    def same(self, a, b):
        """True, False or None."""
        a, b = self.rep(a), self.rep(b)
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        for x, y in self.ne:
            x, y = self.rep(x), self.rep(y)
            if (x, y) in ((a, b), (b, a)):
                return False
        return None


class Interp:
    def __init__(self, tree, path):
        self.path = path
        self.defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.glob = {}
        self.imports = {}
        self.target = None
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and n in tree.body:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.glob[t.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ('from', n.module, a.name)
                    if n.module and n.module.split('.')[-1] == '_gendot':
                        self.target = a.asname or a.name
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name] = ('mod', a.name)
        self.calls = []
        self.n = 0
        self.depth = 0

    # -------------------------------------------------------- statements
    def block(self, body, st):
        """Yields (kind, state, value)."""
        if not body:
            yield 'fall', st, None
            return
        for kind, s, v in self.stmt(body[0], st):
            if kind == 'fall':
                yield from self.block(body[1:], s)
            else:
                yield kind, s, v

    def stmt(self, n, st):
        self.n += 1
        if self.n > 200000:
            raise Stop('too many steps')
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                yield 'fall', st, None
                return
            c = n.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                    isinstance(c.func.value, ast.Name) and c.func.attr in ('append', 'extend'):
                nm = c.func.value.id
                cur = st.env.get(nm)
                for v, s in self.ev(c.args[0], st):
                    if isinstance(cur, list):
                        add = [v] if c.func.attr == 'append' else v
                        if not isinstance(add, (list, tuple)):
                            raise Stop('extend')
                        yield 'fall', s.fork(**{nm: list(s.env[nm]) + list(add)}), None
                    else:
                        yield 'fall', s, None
                return
            for v, s in self.ev(c, st):
                yield 'fall', s, None
        elif isinstance(n, ast.Assign):
            for v, s in self.ev(n.value, st):
                for t in n.targets:
                    s = self.assign(t, v, s)
                yield 'fall', s, None
        elif isinstance(n, ast.AnnAssign):
            if n.value is None:
                yield 'fall', st, None
                return
            for v, s in self.ev(n.value, st):
                yield 'fall', self.assign(n.target, v, s), None
        elif isinstance(n, ast.AugAssign):
            e = ast.BinOp(_load(n.target), n.op, n.value)
            for v, s in self.ev(e, st):
                yield 'fall', self.assign(n.target, v, s), None
        elif isinstance(n, ast.If):
            for t, s in self.cond(n.test, st):
                yield from self.block(n.body if t else n.orelse, s)
        elif isinstance(n, ast.Return):
            if n.value is None:
                yield 'ret', st, None
            else:
                for v, s in self.ev(n.value, st):
                    yield 'ret', s, v
        elif isinstance(n, ast.Raise):
            yield 'raise', st, None
        elif isinstance(n, ast.For):
            for it, s in self.ev(n.iter, st):
                if isinstance(it, (list, tuple)):
                    yield from self.each(n, list(it), s)
                    continue
                el = self.element(it)
                for kind, z, v in self.block(n.body, self.assign(n.target, el, s)):
                    if kind in ('continue', 'break', 'fall'):
                        yield 'fall', z, None
                    else:
                        yield kind, z, v
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield type(n).__name__.lower(), st, None
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
            yield 'fall', st, None
        elif isinstance(n, ast.Try):
            # exceptions inside are not followed: the handlers only report errors
            yield from self.block(n.body + n.orelse + n.finalbody, st)
        elif isinstance(n, ast.With):
            yield from self.block(n.body, st)
        else:
            raise Stop(type(n).__name__)

    def each(self, n, items, s):
        if not items:
            yield 'fall', s, None
            return
        for kind, z, v in self.block(n.body, self.assign(n.target, items[0], s)):
            if kind in ('continue', 'fall'):
                yield from self.each(n, items[1:], z)
            elif kind == 'break':
                yield 'fall', z, None
            else:
                yield kind, z, v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return st.fork(**{t.id: v})
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SS) and len(v.c) == len(t.elts):
                v = [SS([x]) for x in v.c]
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts):
                v = [UNK] * len(t.elts)
            for x, y in zip(t.elts, v):
                st = self.assign(x, y, st)
            return st
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t.value
            if isinstance(b, ast.Name) and isinstance(st.env.get(b.id), (list, dict)):
                return st.fork(**{b.id: UNK})
            return st
        raise Stop('assignment')

    def element(self, it):
        """The element of a sequence for which the loop is followed."""
        if isinstance(it, T):
            if it.op == 'types':
                return it.a[1]
            if it.op == 'enumerate':
                return (T('index', it.a[0]), self.element(it.a[0])) if not (
                    isinstance(it.a[0], T) and it.a[0].op == 'types') else \
                    (T('index', it.a[0].a[0]), it.a[0].a[1])
            if it.op == 'range' and isinstance(it.a[0], T) and it.a[0].op == 'len':
                return T('index', it.a[0].a[0])
            if it.op == 'product':
                return tuple(self.element(x) for x in it.a)
        if isinstance(it, (list, tuple)):
            if len(it) == 1:
                return it[0]
            if not it:
                return UNK
        return UNK

    # -------------------------------------------------------- conditions
    def cond(self, n, st):
        """Yields (bool, state)."""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(i, s):
                if i == len(n.values):
                    yield isand, s
                    return
                for t, z in self.cond(n.values[i], s):
                    if t == isand:
                        yield from go(i + 1, z)
                    else:
                        yield t, z
            yield from go(0, st)
            return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for t, s in self.cond(n.operand, st):
                yield not t, s
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('all', 'any') and len(n.args) == 1 and n.func.id not in self.defs:
            isall = n.func.id == 'all'

            def each(vals, s):
                if not vals:
                    yield isall, s
                    return
                for t, z in self.truth(vals[0], s):
                    if t == isall:
                        yield from each(vals[1:], z)
                    else:
                        yield t, z
            for v, s in self.ev(n.args[0], st):
                if isinstance(v, (list, tuple)):
                    yield from each(list(v), s)
                else:
                    yield from self.truth(UNK, s)
            return
        for v, s in self.ev(n, st):
            yield from self.truth(v, s)

    def truth(self, v, s):
        if isinstance(v, (bool, int, str)) or v is None or isinstance(v, (list, tuple)):
            yield bool(v), s
        elif isinstance(v, T) and v.op == 'cmp':
            yield from self.decide(v, s)
        elif isinstance(v, SS):
            yield len(v.c) > 0, s
        else:
            free = v is FREE or isinstance(v, T) and v.op in ('identity', 'len')
            yield True, s.fork(unk=not free)
            yield False, s.fork(unk=not free)

    def decide(self, v, s):
        kind, a, b = v.a
        if kind in ('ne', 'notin'):
            for t, z in self.decide(T('cmp', {'ne': 'eq', 'notin': 'in'}[kind], a, b), s):
                yield not t, z
            return
        if kind == 'eq':
            if len(a.c) != len(b.c):
                yield False, s
                return
            open_ = []
            for x, y in zip(a.c, b.c):
                r = s.same(x, y)
                if r is False:
                    yield False, s
                    return
                if r is None:
                    open_.append((x, y))
            if not open_:
                yield True, s
                return
            yield True, s.fork(eq=open_)
            yield False, s.fork(ne=open_ if len(open_) == 1 else (), unk=len(open_) > 1)
            return
        # one character (a) in a string (b)
        rs = [(x, s.same(a.c[0], x)) for x in b.c] if len(a.c) == 1 else None
        if rs is None:
            yield True, s.fork(unk=True)
            yield False, s.fork(unk=True)
            return
        if any(r for _, r in rs):
            yield True, s
            return
        op = [(a.c[0], x) for x, r in rs if r is None]
        if not op:
            yield False, s
            return
        # (which of several characters it is makes no difference to the rules)
        yield True, s.fork(eq=op if len(op) == 1 else (), unk=len(op) > 1)
        yield False, s.fork(ne=op)

    # ------------------------------------------------------- expressions
    def evs(self, nodes, st):
        if not nodes:
            yield (), st
            return
        x = nodes[0]
        star = isinstance(x, ast.Starred)
        for v, s in self.ev(x.value if star else x, st):
            for r, z in self.evs(nodes[1:], s):
                if star:
                    if isinstance(v, SS):
                        v = [SS([c]) for c in v.c]
                    if not isinstance(v, (list, tuple)):
                        raise Stop('*')
                    yield tuple(v) + r, z
                else:
                    yield (v,) + r, z

    def ev(self, n, st):
        """Yields (value, state)."""
        self.n += 1
        if self.n > 200000:
            raise Stop('too many steps')
        if isinstance(n, ast.Constant):
            yield n.value, st
        elif isinstance(n, ast.Name):
            if n.id in st.env:
                yield st.env[n.id], st
            elif n.id in self.glob:
                yield (self.glob[n.id].value if isinstance(self.glob[n.id], ast.Constant)
                       else T('global', n.id)), st
            elif n.id in self.imports:
                yield T('import',) if False else T('name', *self.imports[n.id]), st
            elif n.id in self.defs:
                yield T('def', n.id), st
            else:
                yield T('builtin', n.id), st
        elif isinstance(n, (ast.Tuple, ast.List)):
            for v, s in self.evs(n.elts, st):
                yield (v if isinstance(n, ast.Tuple) else list(v)), s
        elif isinstance(n, ast.Attribute):
            for v, s in self.ev(n.value, st):
                yield self.attr(v, n.attr), s
        elif isinstance(n, ast.Subscript):
            for v, s in self.ev(n.value, st):
                if isinstance(n.slice, ast.Slice):
                    for (a, b, c), z in self.evs([x or ast.Constant(None) for x in (
                            n.slice.lower, n.slice.upper, n.slice.step)], s):
                        yield self.slice_(v, a, b, c), z
                else:
                    for i, z in self.ev(n.slice, s):
                        yield self.index(v, i), z
        elif isinstance(n, ast.BoolOp) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for t, s in self.cond(n, st):
                yield t, s
        elif isinstance(n, ast.UnaryOp):
            for v, s in self.ev(n.operand, st):
                yield (-v if isinstance(v, int) and isinstance(n.op, ast.USub) else UNK), s
        elif isinstance(n, ast.Compare):
            yield from self.compare(n, st)
        elif isinstance(n, ast.BinOp):
            for (a, b), s in self.evs([n.left, n.right], st):
                yield self.binop(n.op, a, b), s
        elif isinstance(n, ast.IfExp):
            for t, s in self.cond(n.test, st):
                yield from self.ev(n.body if t else n.orelse, s)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            yield from self.comp(n, st)
        elif isinstance(n, ast.Call):
            yield from self.call(n, st)
        elif isinstance(n, (ast.JoinedStr, ast.Lambda, ast.Dict, ast.DictComp, ast.SetComp,
                            ast.Set)):
            yield UNK, st
        else:
            raise Stop(type(n).__name__)

    def comp(self, n, st):
        gens = n.generators

        def go(i, s):
            if i == len(gens):
                for v, z in self.ev(n.elt, s):
                    yield [v], z
                return
            g = gens[i]
            for it, z in self.ev(g.iter, s):
                if isinstance(it, SS):
                    it = [SS([c]) for c in it.c]
                elif isinstance(it, str):
                    it = list(it)
                if isinstance(it, (list, tuple)):
                    # every element
                    def each(k, y, acc):
                        if k == len(it):
                            yield acc, y
                            return
                        for ok, w in conds(g.ifs, self.assign(g.target, it[k], y)):
                            if ok:
                                for r, u in go(i + 1, w):
                                    yield from each(k + 1, u, acc + r)
                            else:
                                yield from each(k + 1, w, acc)
                    yield from each(0, z, [])
                else:
                    el = self.element(it)
                    for ok, w in conds(g.ifs, self.assign(g.target, el, z)):
                        if ok:
                            yield from go(i + 1, w)
                        else:
                            yield [], w

        def conds(ifs, s):
            if not ifs:
                yield True, s
                return
            for t, z in self.cond(ifs[0], s):
                if t:
                    yield from conds(ifs[1:], z)
                else:
                    yield False, z
        for v, s in go(0, st):
            yield v, St(dict(st.env), s.eq, s.ne, s.unk)

    def attr(self, v, a):
        if isinstance(v, Func):
            if a == 'types':
                return T('types', v.name, v.attrs['types'])
            if a in v.attrs:
                return v.attrs[a]
            return UNK
        if isinstance(v, T):
            if v.op == 'name' and v.a[0] == 'mod' and v.a[1] == 'numpy':
                return T('np', a)
            if v.op == 'np':
                return T('np', v.a[0] + '.' + a)
            if v.op == 'dtype':
                if a == 'itemsize':
                    return T('size', v.a[0])
                if a == 'type':
                    return T('type', v.a[0])
                if a == 'num':
                    return T('code', v.a[0])
                if a == 'char':
                    return SS([v.a[0]])
                return UNK
            if v.op == 'name' and v.a[0] == 'mod' and v.a[1] == 'itertools':
                return T('itertools', a)
            if v.op == 'name':
                return T('other', a)
        return T('method', v, a)

    def slice_(self, v, a, b, c):
        try:
            if isinstance(v, SS):
                return SS(v.c[slice(a, b, c)])
            if isinstance(v, (str, list, tuple)):
                return v[slice(a, b, c)]
        except TypeError:
            pass
        return UNK

    def index(self, v, i):
        if isinstance(v, SS) and isinstance(i, int) and -len(v.c) <= i < len(v.c):
            return SS([v.c[i]])
        if isinstance(v, (str, list, tuple)) and isinstance(i, int) and -len(v) <= i < len(v):
            return v[i]
        if isinstance(v, T) and v.op == 'types' and isinstance(i, T) and i.op == 'index':
            if i.a[0] == v.a[0]:
                return v.a[1]
            return UNK
        if isinstance(v, T) and v.op == 'global' and isinstance(i, T) and i.op == 'type':
            d = self.glob.get(v.a[0])
            if isinstance(d, ast.Dict) and self.typedict(d):
                return T('code', i.a[0])
        return UNK

    def typedict(self, d):
        """Is this dict the map from scalar types to NumPy's type numbers?"""
        if hasattr(self, '_td'):
            return self._td is d
        want = {'bool_': 0, 'int8': 1, 'uint8': 2, 'int16': 3, 'uint16': 4, 'int32': 5,
                'uint32': 6, 'int64': 7, 'uint64': 8, 'longlong': 9, 'ulonglong': 10,
                'float32': 11, 'float64': 12, 'complex64': 14, 'complex128': 15, 'object_': 17,
                'bytes_': 18, 'str_': 19, 'void': 20, 'datetime64': 21, 'timedelta64': 22,
                'float16': 23}
        self.tdbad = []
        for k, v in zip(d.keys, d.values):
            if isinstance(k, ast.Attribute) and k.attr in want:
                if isinstance(v, ast.Constant):
                    if v.value != want[k.attr]:
                        self.tdbad.append((v, k.attr))
        self._td = d
        return True

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, (SS, str)) and isinstance(b, (SS, str)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SS(_chars(a) + _chars(b))
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and \
                    isinstance(b, tuple):
                return a + b
            if isinstance(a, int) and isinstance(b, int):
                return a + b
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and isinstance(y, SS):
                    return SS(y.c * x)
            if isinstance(a, int) and isinstance(b, (int, str)) or \
                    isinstance(a, str) and isinstance(b, int):
                return a * b
        if isinstance(op, ast.Sub) and isinstance(a, int) and isinstance(b, int):
            return a - b
        return UNK

    def compare(self, n, st):
        if len(n.ops) != 1:
            # a < b < c
            parts, left = [], n.left
            for o, r in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left, [o], [r]))
                left = r
            yield from self.ev(ast.BoolOp(ast.And(), parts), st)
            return
        op = n.ops[0]
        for (a, b), s in self.evs([n.left, n.comparators[0]], st):
            yield self._cmp(op, a, b), s

    def _cmp(self, op, a, b):
        known = (int, str, bool, type(None))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                x = a if b is None else b
                if isinstance(x, T):
                    return FREE if x.op in ('free', 'identity') else UNK if x.op == 'unknown' else isinstance(op, ast.IsNot)
                r = x is None
                return r if isinstance(op, ast.Is) else not r
            return UNK
        if isinstance(a, T) and a.op == 'len' and isinstance(b, int) or \
                isinstance(b, T) and b.op == 'len' and isinstance(a, int):
            L = a if isinstance(a, T) else b
            k = L.a[1]
            if k is None:
                return UNK
            a, b = (k, b) if isinstance(a, T) else (a, k)
        if isinstance(a, known) and isinstance(b, known) or isinstance(a, (list, tuple)) and \
                isinstance(b, known):
            try:
                if isinstance(op, ast.Eq):
                    return a == b
                if isinstance(op, ast.NotEq):
                    return a != b
                if isinstance(op, ast.Lt):
                    return a < b
                if isinstance(op, ast.LtE):
                    return a <= b
                if isinstance(op, ast.Gt):
                    return a > b
                if isinstance(op, ast.GtE):
                    return a >= b
                if isinstance(op, ast.In):
                    return a in b
                if isinstance(op, ast.NotIn):
                    return a not in b
            except TypeError:
                return UNK
        if isinstance(a, (SS, str)) and isinstance(b, (SS, str)):
            k = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'in', ast.NotIn: 'notin'}.get(type(op))
            if k:
                return T('cmp', k, SS(_chars(a)), SS(_chars(b)))
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'dtype' and \
                isinstance(op, (ast.Eq, ast.NotEq)):
            return T('cmp', 'eq' if isinstance(op, ast.Eq) else 'ne', SS([a.a[0]]), SS([b.a[0]]))
        return UNK

    def call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == self.target:
            for args, s in self.evs(n.args, st):
                kw = {}
                for k in n.keywords:
                    if k.arg is None:
                        raise Stop('**')
                    for v, s in self.ev(k.value, s):
                        kw[k.arg] = v
                        break
                self.calls.append((n, args, kw, s))
                yield UNK, s
            return
        for f, s0 in self.ev(n.func, st):
            for args, s1 in self.evs(n.args, s0):
                def kws(i, s, acc):
                    if i == len(n.keywords):
                        yield acc, s
                        return
                    for v, z in self.ev(n.keywords[i].value, s):
                        yield from kws(i + 1, z, {**acc, n.keywords[i].arg: v})
                for kw, s in kws(0, s1, {}):
                    if isinstance(f, T) and f.op == 'def' and self.depth < 6:
                        yield from self.inline(self.defs[f.a[0]], args, kw, s)
                    else:
                        yield self.apply(f, args, kw), s

    def inline(self, fn, args, kw, s):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        if len(args) > len(names) or a.vararg or a.kwarg:
            raise Stop('call of %s' % fn.name)
        env.update(kw)
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = d.value if isinstance(d, ast.Constant) else UNK
        for x in a.kwonlyargs:
            env.setdefault(x.arg, UNK)
        self.depth += 1
        try:
            outs = list(self.block(fn.body, St(env, s.eq, s.ne, s.unk)))
        finally:
            self.depth -= 1
        for kind, z, v in outs:
            if kind in ('ret', 'fall'):
                yield (v if kind == 'ret' else None), St(dict(s.env), z.eq, z.ne, z.unk)

    def apply(self, f, args, kw):
        if not isinstance(f, T):
            return UNK
        if f.op == 'method':
            v, m = f.a
            if isinstance(v, SS):
                if m == 'replace' and args and args[0] == ' ':
                    return SS([c for c in v.c if c != ' '])
                if m in ('strip', 'lstrip', 'rstrip') and not args:
                    return v
                if m == 'split' and args and isinstance(args[0], str):
                    return _split(v, args[0])
                if m in ('partition', 'rpartition') and args and isinstance(args[0], str):
                    p = _split(v, args[0])
                    if isinstance(p, list) and len(p) == 2:
                        return (p[0], args[0], p[1])
                return UNK
            if isinstance(v, str):
                try:
                    if m in ('replace', 'split', 'strip', 'isidentifier', 'startswith', 'endswith',
                             'partition', 'lower', 'upper', 'count', 'index', 'find', 'isspace'):
                        return getattr(v, m)(*args)
                    if m == 'join' and args and isinstance(args[0], (list, tuple)) and all(
                            isinstance(x, (str, SS)) for x in args[0]):
                        if all(isinstance(x, str) for x in args[0]):
                            return v.join(args[0])
                        out = []
                        for i, x in enumerate(args[0]):
                            out += (_chars(v) if i else []) + _chars(x)
                        return SS(out)
                except Exception:
                    return UNK
            if isinstance(v, T) and v.op == 'array' and m == 'astype' and args:
                return T('array', v.a[0], _dt(args[0]))
            if isinstance(v, T) and v.op == 'global' and m in ('get',) and args:
                return self.index(v, args[0])
            return UNK
        if f.op == 'np':
            nm = f.a[0]
            if nm == 'dtype' and args and isinstance(args[0], (SS, str)):
                c = _chars(args[0])
                if len(c) == 1:
                    return T('dtype', c[0])
                return UNK
            if nm in ('array', 'asarray', 'fromiter') and args:
                d = kw.get('dtype', args[1] if len(args) > 1 else None)
                return T('array', args[0], _dt(d))
            if nm in ('zeros', 'empty', 'full') and args:
                d = kw.get('dtype', args[1 if nm != 'full' else 2]
                           if len(args) > (1 if nm != 'full' else 2) else None)
                return T('alloc', args[0], _dt(d))
            return UNK
        if f.op == 'builtin':
            nm = f.a[0]
            if nm == 'enumerate' and args:
                return T('enumerate', args[0])
            if nm == 'len' and args:
                x = args[0]
                if isinstance(x, T) and x.op == 'types':
                    return T('len', x.a[0], x.a[1] and self.ntypes.get(x.a[0]))
                if isinstance(x, SS):
                    return len(x.c)
                if isinstance(x, str):
                    return len(x)
                return T('len', None, None)
            if nm == 'range' and len(args) == 1:
                return T('range', args[0])
            if nm in ('list', 'tuple') and args:
                x = args[0]
                if isinstance(x, SS):
                    x = [SS([c]) for c in x.c]
                if isinstance(x, (list, tuple)):
                    return list(x) if nm == 'list' else tuple(x)
                return x
            if nm == 'list' or nm == 'tuple':
                return [] if nm == 'list' else ()
            if nm == 'isinstance':
                return isinstance(args[0], Func) if args else UNK
            if nm == 'zip' and args and all(isinstance(x, list) for x in args):
                return [tuple(t) for t in zip(*args)]
            if nm in ('int', 'bool', 'str') and args and isinstance(args[0], (int, str, T)):
                return args[0]
            if nm == 'set' and args and isinstance(args[0], SS):
                return T('set', args[0])
        if f.op == 'itertools' and f.a[0] == 'product':
            return T('product', *args)
        if f.op == 'name' and f.a[-1] == 'product':
            return T('product', *args)
        return UNK

    ntypes = {}


def _load(t):
    return ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else t


def _chars(v):
    return list(v.c) if isinstance(v, SS) else list(v)


def _split(v, sep):
    out, cur, c = [], [], list(v.c)
    i = 0
    while i < len(c):
        if c[i:i + len(sep)] == list(sep):
            out.append(SS(cur))
            cur = []
            i += len(sep)
        else:
            cur.append(c[i])
            i += 1
    out.append(SS(cur))
    return out


DT = {'uint8': (1, 256), 'ubyte': (1, 256), 'int8': (1, 128), 'byte': (1, 128),
      'uint16': (2, 65536), 'int16': (2, 32768), 'uint32': (4, 2**32), 'int32': (4, 2**31),
      'int64': (8, 2**63), 'uint64': (8, 2**64), 'intp': (8, 2**63), 'uintp': (8, 2**64),
      'int_': (8, 2**63), 'int': (8, 2**63), 'B': (1, 256), 'b': (1, 128), 'p': (8, 2**63),
      'longlong': (8, 2**63), 'u1': (1, 256), 'i8': (8, 2**63), None: (8, 2**63)}


def _dt(d):
    if isinstance(d, T) and d.op in ('np', 'builtin'):
        return d.a[0].split('.')[-1]
    if isinstance(d, str) or d is None:
        return d
    if isinstance(d, T) and d.op == 'dtype':
        return d.a[0]
    return '?'


def _run(path, prod, sums, ntypes):
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    it = Interp(tree, path)
    it.ntypes = ntypes
    fn = it.defs.get('gendot')
    if fn is None or it.target is None:
        raise Stop('no function gendot that calls the extension module')
    names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    env = {a.arg: UNK for a in fn.args.kwonlyargs}
    env.update(dict(zip(names, [prod, sums] + [FREE] * 8)))
    kinds = [k for k, s, v in it.block(fn.body, St(env))]
    return it, fn, kinds


def analyse(repo, rowbytes=None):
    """(rows, stats). rowbytes: {argument position: bytes per row that the C code reads}."""
    path = os.path.join(repo, 'ufunclab', '_gendot_wrap.py')
    if not os.path.exists(path):
        return [], {}
    rel = os.path.relpath(path, repo)
    rows = {}

    def add(prop, rule, ok, node, fname, detail):
        k = (prop, rule, '%s:%d (%s)' % (rel, getattr(node, 'lineno', 0), fname),
             '%s:%s' % (rel, fname), detail, '%s:%s' % (rel, fname))
        rows[k] = rows.get(k, True) and bool(ok)
    st = {'gendot: paths to the extension module': 0}
    p, q, r, s, t, u = (Sym(x) for x in 'pqrstu')
    prod = Func('prodfunc', {'nin': 2, 'nout': 1, 'signature': None, 'identity': T('identity'),
                             'types': SS([p, q, '-', '>', r]), '__name__': 'f', 'nargs': 3})
    for nin in (2, 1):
        if nin == 2:
            sf = {'nin': 2, 'nout': 1, 'signature': None, 'types': SS([s, t, '-', '>', u])}
        else:
            sf = {'nin': 1, 'nout': 1, 'signature': '(n)->()', 'types': SS([s, '-', '>', u])}
        sums = Func('sumfunc', {**sf, 'identity': T('identity'), '__name__': 'g',
                                'nargs': nin + 1})
        try:
            it, fn, kinds = _run(path, prod, sums, {'prodfunc': 256, 'sumfunc': 256})
        except (Stop, RecursionError):
            st['gendot: not interpreted'] = 1
            continue
        kind = 'an element-wise sumfunc' if nin == 2 else 'a gufunc as sumfunc'
        for d in getattr(it, 'tdbad', ()):
            add('P08', 'gendot-types', False, d[0], 'gendot', 'the type number of np.%s is not %d'
                % (d[1], d[0].value))
        npaths = 0
        for node, args, kw, z in it.calls:
            args = list(args)
            for k, nm in enumerate(('name', 'doc', 'prodfunc', 'sumfunc', 'sumfunc_has_identity',
                                    'sumfunc_identity_array', 'loop_indices', 'typecodes',
                                    'itemsizes')):
                if k >= len(args):
                    args.append(kw.get(nm, UNK))
            li, tc, sz = args[6:9]
            if not all(isinstance(x, T) and x.op == 'array' and isinstance(x.a[0], (list, tuple))
                       for x in (li, tc, sz)):
                st['gendot: arguments not followed'] = 1
                continue
            n = {len(x.a[0]) for x in (li, tc, sz)}
            add('P02', 'gendot-tables', len(n) == 1 or z.unk, node, 'gendot',
                'the tables of indices, type codes and item sizes do not have the same number '
                'of rows')
            if n != {1}:
                continue
            npaths += 1

            def eq(a, b):
                # a path that depends on something that is not interpreted decides nothing
                return z.same(a, b) is True or z.unk and z.same(a, b) is None
            add('P08', 'gendot-dispatch',
                eq(s, r) and (nin == 1 or eq(t, r)), node, 'gendot',
                'with %s, a loop of sumfunc is selected whose inputs are not the result of '
                'the loop of prodfunc' % kind)
            if nin == 2:
                add('P08', 'gendot-dispatch', eq(u, s), node, 'gendot',
                    'with %s, a loop of sumfunc is selected whose result is not of the dtype of '
                    'its first input, to which it is fed back' % kind)
            for x, what in ((p, 'input'), (q, 'input'), (r, 'result')):
                add('P05', 'gendot-objects', z.same(x, 'O') is False or z.unk and z.same(x, 'O') is None,
                    node, 'gendot',
                    'a loop of prodfunc with an object %s can be selected: the work buffer is not '
                    'initialised' % what)
            row = li.a[0][0]
            if isinstance(row, (list, tuple)) and len(row) == 2 and all(
                    isinstance(x, T) and x.op == 'index' for x in row):
                add('P08', 'gendot-dispatch', [x.a[0] for x in row] == ['prodfunc', 'sumfunc'],
                    node, 'gendot', 'the loop indices are not (prodfunc, sumfunc)')
                w = DT.get(li.a[1])
                if w:
                    add('P02', 'gendot-indices', w[1] >= 256, node, 'gendot',
                        'an index of a loop does not fit in %s' % li.a[1])
            row = tc.a[0][0]
            if isinstance(row, (list, tuple)) and all(isinstance(x, T) and x.op == 'code'
                                                      for x in row):
                ok = len(row) == 3 and all(eq(a.a[0], b) for a, b in zip(row, (p, q, u)))
                add('P08', 'gendot-types', ok, node, 'gendot', 'the type codes %s are not those of '
                    'the inputs of prodfunc (%s, %s) and the result of sumfunc (%s)'
                    % (row, p, q, u))
            row = sz.a[0][0]
            if isinstance(row, (list, tuple)) and all(isinstance(x, T) and x.op == 'size'
                                                      for x in row):
                ok = len(row) == 2 and all(eq(a.a[0], b) for a, b in zip(row, (r, u)))
                for prop in ('P02', 'P08'):
                    add(prop, 'gendot-sizes', ok, node, 'gendot', 'the item sizes %s are not those '
                        'of the results of prodfunc (%s) and sumfunc (%s)' % (row, r, u))
            for k, nm in ((5, 'identities'), (6, 'loop indices'), (7, 'type codes'),
                          (8, 'item sizes')):
                x = args[k]
                if rowbytes is None or k not in rowbytes or not isinstance(x, T):
                    continue
                if x.op == 'array':
                    width, cnt = DT.get(x.a[1]), x.a[0] and len(x.a[0][0])
                elif x.op == 'alloc' and isinstance(x.a[0], (tuple, list)) and \
                        len(x.a[0]) == 2 and isinstance(x.a[0][1], int):
                    width, cnt = DT.get(x.a[1]), x.a[0][1]
                else:
                    continue
                if width and cnt:
                    add('P02', 'gendot-rows', width[0]*cnt == rowbytes[k], node, 'gendot',
                        'the rows of the %s have %d bytes, the extension module takes them to '
                        'have %d' % (nm, width[0]*cnt, rowbytes[k]))
        st['gendot: paths to the extension module'] += npaths
    # what has to be rejected
    for what, pa, sa, nt in (
            ('a prodfunc with one input', {'nin': 1, 'types': SS([p, '-', '>', r])}, {}, {}),
            ('a prodfunc with two results', {'nout': 2}, {}, {}),
            ('a gufunc as prodfunc', {'signature': '(n),(n)->()'}, {}, {}),
            ('a sumfunc with three inputs', {}, {'nin': 3}, {}),
            ('a sumfunc with two results', {}, {'nout': 2}, {}),
            ('a gufunc with two inputs as sumfunc', {}, {'signature': '(n),(n)->()'}, {}),
            ('a gufunc with two core dimensions as sumfunc', {},
             {'nin': 1, 'signature': '(m,n)->()'}, {}),
            ('a gufunc with a vector result as sumfunc', {},
             {'nin': 1, 'signature': '(n)->(n)'}, {}),
            ('a prodfunc with 257 loops', {}, {}, {'prodfunc': 257}),
            ('a sumfunc with 257 loops', {}, {}, {'sumfunc': 257})):
        P_ = Func('prodfunc', {**prod.attrs, **pa})
        S_ = Func('sumfunc', {'nin': 2, 'nout': 1, 'signature': None, '__name__': 'g',
                              'identity': T('identity'), 'types': SS([s, t, '-', '>', u]), **sa})
        try:
            it, fn, kinds = _run(path, P_, S_, {'prodfunc': 1, 'sumfunc': 1, **nt})
        except (Stop, RecursionError):
            continue
        wide = '257' in what and it.calls and all(
            isinstance(a[6], T) and a[6].op == 'array' and DT.get(a[6].a[1], (1, 0))[1] > 257
            for _, a, _, _ in it.calls if len(a) > 6)
        prop = 'P02'
        unk = it.calls and all(c[3].unk for c in it.calls)
        add(prop, 'gendot-accepts', not it.calls or wide or unk, fn, 'gendot',
            '%s is not rejected' % what)
    return [k[:2] + (ok,) + k[2:5] + (k[5],) for k, ok in rows.items()], st


def check(repo, rowbytes=None):
    return analyse(repo, rowbytes)


if __name__ == '__main__':
    import sys
    rows, st = check(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for x in rows:
        print(x)
    print(st)
