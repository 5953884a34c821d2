"""The Python wrappers (ufunclab/*.py): abstract interpretation of their syntax trees.

Every function is interpreted path by path with values that record what they may share memory
with (an array argument, an array that the call allocated, an object of the module), how a size
was computed, and which dtype an array was created with. Local functions are followed at their
calls. Loops are followed for zero, one and two iterations.
"""
import ast
import glob
import os

# array functions whose result may share memory with their first argument
VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d',
         'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'squeeze', 'moveaxis', 'rollaxis',
         'swapaxes', 'transpose', 'broadcast_to', 'expand_dims', 'flip', 'fliplr', 'flipud',
         'rot90', 'require', 'asarray_chkfinite', 'real', 'imag', 'diagonal', 'as_strided',
         'sliding_window_view', 'permute_dims', 'matrix_transpose', 'split', 'array_split'}
VIEWMETH = {'reshape', 'ravel', 'squeeze', 'swapaxes', 'transpose', 'view', 'diagonal'}
VIEWATTR = {'T', 'mT', 'real', 'imag', 'flat', 'data', 'base'}
MUTMETH = {'sort', 'fill', 'put', 'itemset', 'partition', 'resize', 'setfield', 'append', 'extend',
           'insert', 'clear', 'reverse', 'remove', 'pop', '__setitem__', '__iadd__', '__isub__',
           '__imul__'}
MUTFUNC = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle'}
CREATE = {'zeros': 'full', 'ones': 'full', 'full': 'full', 'empty': 'empty', 'ndarray': 'empty',
          'zeros_like': 'full', 'ones_like': 'full', 'full_like': 'full', 'empty_like': 'empty',
          'array': 'full', 'copy': 'full', 'arange': 'full', 'repeat': 'full', 'tile': 'full',
          'concatenate': 'full', 'stack': 'full'}
NPSCALAR = {'max', 'min', 'amax', 'amin', 'sum', 'nanmax', 'nanmin', 'ptp', 'argmax', 'argmin',
            'count_nonzero', 'prod'}
BINUF = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'mod',
         'remainder', 'maximum', 'minimum', 'fmax', 'fmin', 'logical_and', 'logical_or',
         'bitwise_and', 'bitwise_or', 'hypot', 'arctan2', 'copysign', 'nextafter'}
UNUF = {'negative', 'absolute', 'abs', 'sqrt', 'square', 'exp', 'log', 'sign', 'floor', 'ceil',
        'rint', 'trunc', 'conjugate', 'conj', 'isnan', 'isfinite', 'reciprocal', 'invert'}
NARROWINT = {'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'intc', 'uintc', 'short',
             'ushort', 'byte', 'ubyte', 'float16', 'float32', 'half', 'single'}
NARROWCH = set('bBhHiIef')
FLOATW = {'float16': 'e', 'half': 'e', 'float32': 'f', 'single': 'f', 'float64': 'd',
          'double': 'd', 'float': 'd', 'float_': 'd', 'complex64': 'F', 'csingle': 'F',
          'complex128': 'D', 'cdouble': 'D', 'complex': 'D', 'longdouble': 'g', 'clongdouble': 'G'}
RANK = {'e': 1, 'f': 2, 'd': 3, 'g': 4, 'F': 2, 'D': 3, 'G': 4}
TYPECODES = {'Character': 'c', 'Integer': 'bhilqnp', 'UnsignedInteger': 'BHILQNP',
             'Float': 'efdg', 'Complex': 'FDG', 'AllInteger': 'bBhHiIlLqQnNpP',
             'AllFloat': 'efdgFDG', 'Datetime': 'Mm',
             'All': '?bhilqnpBHILQNPefdgFDGSUVOMm'}
KINDS = {'b': '?', 'i': 'bhilqnp', 'u': 'BHILQNP', 'f': 'efdg', 'c': 'FDG', 'O': 'O', 'S': 'S',
         'U': 'U', 'V': 'V', 'M': 'M', 'm': 'm'}
ALLCH = frozenset('?bhilqnpBHILQNPefdgFDGSUVOMm')
ACCUMULATES = {'bincount', 'bincountw'}
MAXPATHS = 3000


class TooComplex(Exception):
    pass


class V:
    __slots__ = ('al', 'kind', 'items', 'tags', 'dt', 'fn', 'const')

    def __init__(self, al=(), kind=None, items=None, tags=(), dt=None, fn=None, const=NotImplemented):
        self.al, self.kind, self.items = frozenset(al), kind, items
        self.tags, self.dt, self.fn, self.const = frozenset(tags), dt, fn, const

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in V.__slots__}
        d.update(kw)
        return V(**d)


def join(a, b):
    return V(a.al | b.al, a.kind if a.kind == b.kind else (a.kind or b.kind),
             a.items if a.items == b.items else None, a.tags | b.tags,
             a.dt if a.dt == b.dt else None, a.fn if a.fn == b.fn else None,
             a.const if a.const == b.const else NotImplemented)


NONE = V(const=None)


class State:
    def __init__(self):
        self.env, self.filled, self.facts = {}, {}, set()
        self.chars, self.notnone, self.maybe_empty = {}, set(), False
        self.wrote, self.handlers = set(), ()

    def copy(self):
        s = State()
        s.env, s.filled, s.facts = dict(self.env), dict(self.filled), set(self.facts)
        s.chars, s.notnone, s.maybe_empty = dict(self.chars), set(self.notnone), self.maybe_empty
        s.handlers = self.handlers
        return s


class Module:
    def __init__(self, path, repo):
        self.rel = os.path.relpath(path, repo)
        with open(path) as f:
            self.tree = ast.parse(f.read(), path)
        self.name = self.rel[:-3].replace(os.sep, '.')
        self.defs, self.imports, self.globals = {}, {}, {}
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.imports[a.asname or a.name.split('.')[0]] = (a.name, None)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.imports[a.asname or a.name] = (
                    ('.' * st.level + (st.module or '')), a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.globals[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                for x in getattr(st, f, ()):
                    self._top(x)
            for h in getattr(st, 'handlers', ()):
                for x in h.body:
                    self._top(x)


def gufunc_arity(repo):
    """{name: number of inputs} as declared in src/*/define_*.py."""
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, 'src', '*', 'define_*.py'))):
        with open(p) as f:
            tree = ast.parse(f.read(), p)
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('UFunc', 'Func'):
                kw = {k.arg: k.value for k in n.keywords}
                nm, sg = kw.get('name'), kw.get('signature')
                if isinstance(nm, ast.Constant) and isinstance(sg, ast.Constant) and \
                        isinstance(sg.value, str) and '->' in sg.value:
                    out[nm.value] = sg.value.split('->')[0].count('(')
    return out


class Rows:
    def __init__(self):
        self.rows = {}

    def add(self, prop, rule, ok, mod, fn, node, detail):
        where = '%s:%d (%s)' % (mod.rel, getattr(node, 'lineno', 0), fn)
        k = (prop, rule, where, detail)
        self.rows[k] = self.rows.get(k, True) and bool(ok)

    def list(self, mods):
        out = []
        for (prop, rule, where, detail), ok in self.rows.items():
            src = '%s:%s' % (where.split(':')[0], where.split('(')[1][:-1])
            out.append((prop, rule, ok, where, src, detail, src))
        return out


class Interp:
    def __init__(self, mod, root, rows, arity):
        self.mod, self.root, self.R, self.arity = mod, root, rows, arity
        self.fname = root.name
        self.paths = 0
        self.stack = []
        self.arrays = self._array_params(root)
        self.accum = self.other = False
        self.nalloc = 0
        self.stats = {'paths': 0, 'calls': 0}

    def add(self, prop, rule, ok, node, detail):
        self.R.add(prop, rule, ok, self.mod, self.fname, node, detail)

    def _array_params(self, fn):
        names = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.attr in ('shape', 'dtype', 'ndim', 'size', 'flags', 'strides', 'itemsize') \
                    and n.value.id in names:
                out.add(n.value.id)
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
                if (nm in VIEWS or nm in CREATE or nm in NPSCALAR) and n.args and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id in names:
                    out.add(n.args[0].id)
                elif isinstance(f, ast.Name) and self._resolve(f.id)[0] == 'gufunc':
                    for a in n.args:
                        if isinstance(a, ast.Name) and a.id in names:
                            out.add(a.id)
        return out

    def _resolve(self, name):
        if name in self.mod.defs:
            return ('def', self.mod.defs[name])
        if name in self.mod.imports:
            m, attr = self.mod.imports[name]
            if m == 'numpy' and attr is None:
                return ('np', '')
            if m == 'numpy':
                return ('np', attr)
            if m.split('.')[0] in ('ufunclab', '') and attr is not None and \
                    ('._' in m or m.startswith('.')):
                return ('gufunc', attr)
            return ('other', '%s.%s' % (m, attr) if attr else m)
        if name in self.mod.globals:
            v = self.mod.globals[name]
            if isinstance(v, ast.Name):
                return self._resolve(v.id)
            return ('global', name)
        return ('builtin', name)

    # ------------------------------------------------------------- entry
    def run(self):
        st = State()
        self._bind_params(self.root, st)
        outs = self.block(self.root.body, [st])
        for kind, s, v, node in outs:
            self.stats['paths'] += 1
            if kind in ('ret', 'fall'):
                self._at_return(s, v if v is not None else NONE, node or self.root)

    def _bind_params(self, fn, st):
        a = fn.args
        pos = a.posonlyargs + a.args
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(pos, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            st.env[p.arg] = V({('param', p.arg)}, 'raw')
            if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                st.env[p.arg] = V({('param', p.arg), ('global', p.arg)}, 'raw')
        if a.vararg:
            st.env[a.vararg.arg] = V()
        if a.kwarg:
            st.env[a.kwarg.arg] = V()

    def _at_return(self, s, v, node):
        vals = [v] + (list(v.items) if v.items else [])
        for x in vals:
            for o in x.al:
                if o[0] == 'alloc' and o in s.filled and not s.maybe_empty:
                    self.add('P04', 'wrapper-result-assigned', s.filled[o], node,
                             'an array made by np.empty is returned before it is filled')
                    self.add('P05', 'wrapper-initialised', s.filled[o], node,
                             'an array made by np.empty is returned before it is filled')
        if 'out' in s.notnone and not s.maybe_empty and not (self.accum and not self.other):
            self.add('P04', 'wrapper-result-assigned', s.filled.get(('param', 'out'), False), node,
                     'the array that the caller passes as out is not assigned')
        elif 'out' in s.notnone and not s.maybe_empty:
            self.add('P04', 'wrapper-result-assigned', s.filled.get(('param', 'out'), False), node,
                     'the array that the caller passes as out is not updated')

    # -------------------------------------------------------- statements
    def block(self, stmts, states):
        """[(kind, state, value, node)]; kind: fall, ret, break, continue, raise."""
        live, done = states, []
        for st in stmts:
            nxt = []
            for s in live:
                for r in self.stmt(st, s):
                    if r[0] == 'fall':
                        nxt.append(r[1])
                    else:
                        done.append(r)
            live = nxt
            if len(live) + len(done) > MAXPATHS:
                raise TooComplex(self.fname)
        return [('fall', s, None, None) for s in live] + done

    def stmt(self, n, s):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is not None:
            return m(n, s)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return [('fall', s, None, None)]

    def s_Return(self, n, s):
        if isinstance(n.value, ast.IfExp):
            return self.s_If(ast.copy_location(ast.If(n.value.test, [
                ast.copy_location(ast.Return(n.value.body), n)], [
                ast.copy_location(ast.Return(n.value.orelse), n)]), n), s)
        return [('ret', s, self.ev(n.value, s) if n.value else NONE, n)]

    def s_Raise(self, n, s):
        if n.exc is not None:
            self.ev(n.exc, s)
        return [('raise', s, n, n)]

    def s_Break(self, n, s):
        return [('break', s, None, n)]

    def s_Continue(self, n, s):
        return [('continue', s, None, n)]

    def s_FunctionDef(self, n, s):
        s.env[n.name] = V(fn=('def', n))
        return [('fall', s, None, None)]

    def s_Global(self, n, s):
        for x in n.names:
            s.env.pop(x, None)
        s.env['%globals'] = s.env.get('%globals', V(items=())).with_(
            items=tuple(s.env.get('%globals', V(items=())).items) + tuple(n.names))
        return [('fall', s, None, None)]

    def s_Assign(self, n, s):
        if isinstance(n.value, ast.IfExp):
            return self.s_If(ast.copy_location(ast.If(n.value.test, [
                ast.copy_location(ast.Assign(n.targets, n.value.body), n)], [
                ast.copy_location(ast.Assign(n.targets, n.value.orelse), n)]), n), s)
        v = self.ev(n.value, s)
        for t in n.targets:
            self.assign(t, v, s, n)
        return [('fall', s, None, None)]

    def s_AnnAssign(self, n, s):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, s), s, n)
        return [('fall', s, None, None)]

    def s_AugAssign(self, n, s):
        r = self.ev(n.value, s)
        if isinstance(n.target, ast.Name):
            cur = self.ev(ast.Name(n.target.id, ast.Load()), s)
            self.mutate(cur, n, s, 'the operator %s=' % type(n.op).__name__, True)
            if cur.kind == 'arr' or any(o[0] == 'param' and o[1] in self.arrays for o in cur.al):
                s.env[n.target.id] = cur
            else:
                s.env[n.target.id] = self.binop(n.op, cur, r, n)
        else:
            self.assign(n.target, r, s, n)
        return [('fall', s, None, None)]

    def assign(self, t, v, s, node):
        if isinstance(t, ast.Name):
            g = s.env.get('%globals')
            if g is not None and t.id in g.items:
                self._state(node, s, v, 'the global variable %s' % t.id)
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, V(v.al, None, None, v.tags), s, node)
                elif v.items is not None and i < len(v.items) and \
                        not any(isinstance(y, ast.Starred) for y in t.elts[:i]):
                    self.assign(x, v.items[i], s, node)
                else:
                    self.assign(x, V(v.al, None, None, v.tags), s, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            self.ev(t.slice, s)
            self.mutate(b, node, s, 'an assignment to its elements', False)
            for o in b.al:
                if o[0] == 'global':
                    self._state(node, s, v, 'a module-level object')
            if _whole(t.slice):
                for o in b.al:
                    s.filled[o] = True
            if isinstance(t.value, ast.Name) and b.kind == 'seq':
                # an element of a list of sizes
                s.env[t.value.id] = b.with_(items=None, tags=b.tags | v.tags)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, s)
            self.mutate(b, node, s, 'an assignment to its attribute %s' % t.attr, False)
            if b.fn is not None or any(o[0] == 'global' for o in b.al):
                self._state(node, s, v, 'an attribute of a module-level object')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s, node)

    def _state(self, node, s, v, what):
        self.add('P05', 'wrapper-state', v.kind != 'arr', node,
                 'an array is kept in %s: a later call can use what this one left' % what)

    def mutate(self, v, node, s, how, aug):
        """The object is changed in place."""
        for o in v.al:
            if o[0] == 'param' and o[1] != 'out':
                if v.kind == 'arr' or o[1] in self.arrays:
                    self.add('P03', 'wrapper-input-writes', False, node,
                             'the argument %s is modified by %s' % (o[1], how))
            elif o[0] == 'global' and (v.kind == 'arr' or not aug and v.kind == 'garr'):
                self.add('P05', 'wrapper-state', False, node,
                         'an array of the module is modified by %s' % how)
        if not v.al or all(o[0] not in ('param',) or o[1] == 'out' for o in v.al):
            self.add('P03', 'wrapper-input-writes', True, node, 'the object changed here is not '
                     'an input')

    def s_Expr(self, n, s):
        self.ev(n.value, s)
        return [('fall', s, None, None)]

    def s_If(self, n, s):
        a, b = self.refine(n.test, s)
        out = []
        if a is not None:
            out += self.block(n.body, [a])
        if b is not None:
            out += self.block(n.orelse, [b]) if n.orelse else [('fall', b, None, None)]
        return out

    def s_For(self, n, s):
        it = self.ev(n.iter, s)
        elt = join(V(), it.items[0]) if it.items else V(it.al, None, None, it.tags)
        if it.items:
            for x in it.items[1:]:
                elt = join(elt, x)
        outs = []
        live = [s]
        for k in range(3):
            nxt = []
            for x in live:
                outs_here = [('fall', x.copy(), None, None)]
                outs += self.block(n.orelse, [outs_here[0][1]]) if n.orelse else outs_here
                if k == 2:
                    continue
                y = x.copy()
                self.assign(n.target, elt, y, n)
                for kind, z, v, nd in self.block(n.body, [y]):
                    if kind in ('fall', 'continue'):
                        nxt.append(z)
                    elif kind == 'break':
                        outs.append(('fall', z, None, None))
                    else:
                        outs.append((kind, z, v, nd))
            live = nxt[:40]
        return outs

    s_AsyncFor = s_For

    def s_While(self, n, s):
        outs, live = [], [s]
        for k in range(3):
            nxt = []
            for x in live:
                a, b = self.refine(n.test, x)
                if b is not None:
                    outs += self.block(n.orelse, [b]) if n.orelse else [('fall', b, None, None)]
                if a is None or k == 2:
                    continue
                for kind, z, v, nd in self.block(n.body, [a]):
                    if kind in ('fall', 'continue'):
                        nxt.append(z)
                    elif kind == 'break':
                        outs.append(('fall', z, None, None))
                    else:
                        outs.append((kind, z, v, nd))
            live = nxt[:40]
        return outs

    def s_With(self, n, s):
        for it in n.items:
            v = self.ev(it.context_expr, s)
            c = it.context_expr
            f = c.func if isinstance(c, ast.Call) else None
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if nm == 'suppress' and isinstance(c, ast.Call):
                calls = self._numeric_calls(n.body)
                self.add('P17', 'wrapper-handlers', not calls, n,
                         'contextlib.suppress discards an exception raised by %s'
                         % (calls or ['?'])[0])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s, n)
        return self.block(n.body, [s])

    def s_Try(self, n, s):
        start = s.copy()
        outs = self.block(n.body, [s])
        res = []
        for kind, z, v, nd in outs:
            if kind == 'fall' and n.orelse:
                res += self.block(n.orelse, [z])
            elif kind == 'raise' and n.handlers:
                res.append((kind, z, v, nd))
            else:
                res.append((kind, z, v, nd))
        calls = self._numeric_calls(n.body)
        for h in n.handlers:
            x = start.copy()
            if h.name:
                x.env[h.name] = V(kind='exc')
            hs = self.block(h.body, [x])
            self._handler(n, h, hs, calls)
            res += hs
        if n.finalbody:
            fin = []
            for kind, z, v, nd in res:
                for k2, z2, v2, nd2 in self.block(n.finalbody, [z]):
                    if k2 == 'fall':
                        fin.append((kind, z2, v, nd))
                    else:
                        fin.append((k2, z2, v2, nd2))
                        self.add('P17', 'wrapper-handlers', k2 == 'raise', nd2 or n,
                                 'the finally block discards an exception in flight')
            res = fin
        return res

    s_TryStar = s_Try

    def _numeric_calls(self, body):
        """Names of the compiled functions that statements call."""
        out = []
        for st in body:
            for c in ast.walk(st):
                if isinstance(c, ast.Call):
                    f = c.func
                    if isinstance(f, ast.Name):
                        r = self._resolve(f.id)
                        if r[0] == 'gufunc':
                            out.append(r[1])
                        elif r[0] == 'def' and r[1] is not self.root and \
                                self._calls_gufunc(r[1], set()):
                            out.append(f.id)
        return out

    def _calls_gufunc(self, fn, seen):
        if fn in seen:
            return False
        seen.add(fn)
        names = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                if c.func.id in names:
                    return True
                r = self._resolve(c.func.id)
                if r[0] == 'gufunc' or r[0] == 'def' and self._calls_gufunc(r[1], seen):
                    return True
        return False

    def _handler(self, n, h, hs, calls):
        broad = h.type is None or any(getattr(t, 'id', getattr(t, 'attr', '')) in (
            'Exception', 'BaseException') for t in (
                h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))
        silent = [r for r in hs if r[0] != 'raise']
        if calls:
            self.add('P17', 'wrapper-handlers', not silent, h,
                     'the handler discards an exception raised by %s' % calls[0])
            other = [r for r in hs if r[0] == 'raise' and r[3].exc is not None and not (
                isinstance(r[3].exc, ast.Name) and r[3].exc.id == h.name)]
            self.add('P17', 'wrapper-handlers', not other, h,
                     'the handler replaces an exception raised by %s' % calls[0])
        elif broad:
            self.add('P17', 'wrapper-handlers', not silent, h,
                     'the handler discards every exception')

    # -------------------------------------------------------- conditions
    def refine(self, t, s):
        """(state if true or None, state if false or None)."""
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                cur, falses = s, []
                for x in t.values:
                    if cur is None:
                        break
                    cur, f = self.refine(x, cur)
                    if f is not None:
                        falses.append(f)
                return cur, self._merge(falses)
            cur, trues = s, []
            for x in t.values:
                if cur is None:
                    break
                tr, cur = self.refine(x, cur)
                if tr is not None:
                    trues.append(tr)
            return self._merge(trues), cur
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.refine(t.operand, s)
            return b, a
        if isinstance(t, ast.Name):
            v = self.ev(t, s)
            if isinstance(v.const, tuple) and v.const and v.const[0] == 'cond':
                a, b = self._refine_in(v.const[1], v.const[2], s)
                for x, val in ((a, True), (b, False)):
                    if x is not None:
                        x.env[t.id] = V(const=val)
                return a, b
            if v.const is not NotImplemented and not isinstance(v.const, tuple):
                return (s, None) if v.const else (None, s)
        if isinstance(t, ast.Constant):
            return (s, None) if t.value else (None, s)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            return self._compare(t, s)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            r = self._resolve(t.func.id)
            if r[0] == 'def' and len(self.stack) < 5:
                body = [x for x in r[1].body if not (isinstance(x, ast.Expr) and
                                                     isinstance(x.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value:
                    env = self._args(r[1], t, s)
                    if env is not None:
                        return self._refine_in(body[0].value, env, s)
                self.ev(t, s)
                a, b = s.copy(), s.copy()
                for v in [self.ev(x, s) for x in t.args]:
                    for o in v.al:
                        for m in ast.walk(r[1]):
                            if isinstance(m, ast.Attribute):
                                for st in (a, b):
                                    st.facts.add((o, _attrname(m.attr)))
                return a, b
        self.ev(t, s)
        a, b = s.copy(), s.copy()
        self._mention(t, a, True)
        self._mention(t, b, False)
        return a, b

    def _refine_in(self, expr, env, s):
        saved = s.env
        s.env = env
        self.stack.append(None)
        try:
            a, b = self.refine(expr, s)
        finally:
            self.stack.pop()
        s.env = saved
        for x in (a, b):
            if x is not None:
                x.env = dict(saved)
        return a, b

    def _merge(self, states):
        states = [x for x in states if x is not None]
        if not states:
            return None
        r = states[0].copy()
        for x in states[1:]:
            r.facts &= x.facts
            r.notnone &= x.notnone
            r.maybe_empty |= x.maybe_empty
            for k in set(r.env) & set(x.env):
                if r.env[k] is not x.env[k]:
                    r.env[k] = join(r.env[k], x.env[k])
            # an allocation that is not in one of the states has not been made there
            for k in set(r.filled) | set(x.filled):
                d = k[0] == 'alloc'
                r.filled[k] = r.filled.get(k, d) and x.filled.get(k, d)
            for k in list(r.chars):
                r.chars[k] = r.chars[k] | x.chars[k] if k in x.chars else ALLCH
        return r

    def _mention(self, t, s, pol):
        """A test of attributes of arrays that is not interpreted further."""
        for m in ast.walk(t):
            if isinstance(m, ast.Attribute):
                b = self._chain_value(m, s)
                if b is None:
                    continue
                at = _attrname(m.attr)
                for o in b.al:
                    if at == 'dtype' or not pol and at in ('aligned', 'native'):
                        continue
                    s.facts.add((o, at))
                    if at == 'size':
                        s.maybe_empty = s.maybe_empty or not pol
            elif isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Constant) and \
                    str(m.slice.value).upper() in ('ALIGNED', 'A', 'CARRAY', 'BEHAVED') and pol:
                b = self._chain_value(m, s)
                for o in (b.al if b else ()):
                    s.facts.add((o, 'aligned'))
            elif isinstance(m, ast.Name):
                v = s.env.get(m.id)
                if v is not None and v.kind == 'dtype' and v.dt and v.dt[0] == 'of':
                    pass

    def _chain_value(self, m, s):
        while isinstance(m, (ast.Attribute, ast.Subscript)):
            m = m.value
        if isinstance(m, ast.Name):
            return s.env.get(m.id)
        return None

    def _compare(self, t, s):
        op, L, Rn = t.ops[0], t.left, t.comparators[0]
        a, b = s.copy(), s.copy()
        lv, rv = self.ev(L, a), self.ev(Rn, a)
        b.filled.update(a.filled)
        # None
        for x, v, y in ((L, lv, Rn), (Rn, rv, L)):
            if isinstance(y, ast.Constant) and y.value is None and \
                    isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                yes, no = (a, b) if isinstance(op, (ast.Is, ast.Eq)) else (b, a)
                if v.const is None:
                    return (yes, None) if yes is a else (None, yes)
                if v.kind == 'arr' or v.items is not None or \
                        any(o[0] == 'param' and o[1] in s.notnone for o in v.al):
                    return (no, None) if no is a else (None, no)
                if isinstance(x, ast.Name):
                    for o in v.al:
                        if o[0] == 'param':
                            no.notnone.add(o[1])
                            if x.id in no.env:
                                pass
                    yes.env[x.id] = NONE
                return a, b
        # dtype
        tr, fa = (a, b)
        if isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot)):
            tr, fa = b, a
        cs = None
        for x, v, y, w in ((L, lv, Rn, rv), (Rn, rv, L, lv)):
            if v.kind in ('dtchar', 'dtkind', 'dtype') and v.dt and v.dt[0] == 'of' and \
                    isinstance(op, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                cs = self._charset(y, w, v.kind)
                for o in v.dt[1]:
                    cur = tr.chars.get(o, ALLCH)
                    if cs is not None:
                        tr.chars[o] = cur & cs
                        fa.chars[o] = cur - cs
                    else:
                        if not (w.dt and w.dt[0] == 'loop'):
                            tr.chars[o] = fa.chars[o] = frozenset()
                    if v.kind == 'dtype' and isinstance(op, (ast.Eq, ast.NotEq)):
                        tr.facts.add((o, 'dtype'))
                break
        else:
            self._mention(t, tr, True)
            self._mention(t, fa, False)
        # lengths
        if isinstance(op, (ast.Eq, ast.LtE, ast.Lt)) and isinstance(Rn, ast.Constant) and \
                Rn.value == (1 if isinstance(op, ast.Lt) else 0) and not isinstance(Rn.value, bool):
            a.maybe_empty = True
        if isinstance(op, ast.NotEq) and isinstance(Rn, ast.Constant) and Rn.value == 0:
            b.maybe_empty = True
        return a, b

    def _charset(self, node, v, kind):
        c = v.const
        if kind == 'dtype':
            ch = _dtype_const(v)
            return frozenset(ch) if ch else None
        if isinstance(c, str):
            if kind == 'dtkind':
                return frozenset(''.join(KINDS.get(k, '') for k in c))
            return frozenset(c)
        if v.items is not None and all(isinstance(x.const, str) for x in v.items):
            s = ''.join(x.const for x in v.items)
            return frozenset(''.join(KINDS.get(k, '') for k in s)) if kind == 'dtkind' \
                else frozenset(s)
        return None

    # ------------------------------------------------------- expressions
    def ev(self, n, s):
        if n is None:
            return NONE
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n, s)
        tags, al = set(), set()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return V(al, None, None, tags)

    def e_Constant(self, n, s):
        return V(const=n.value, kind='str' if isinstance(n.value, str) else None)

    def e_Name(self, n, s):
        if n.id in s.env:
            return s.env[n.id]
        r = self._resolve(n.id)
        if r[0] == 'global':
            v = self.mod.globals[n.id]
            if isinstance(v, ast.Constant):
                return V(const=v.value, kind='str' if isinstance(v.value, str) else None)
            kind = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr in CREATE:
                kind = 'arr'
            if isinstance(v, (ast.Tuple, ast.List)) and all(
                    isinstance(x, ast.Constant) for x in v.elts):
                return V({('global', n.id)}, 'seq',
                         tuple(V(const=x.value) for x in v.elts))
            return V({('global', n.id)}, kind)
        return V(fn=r)

    def e_Attribute(self, n, s):
        b = self.ev(n.value, s)
        if b.fn is not None and b.fn[0] in ('np', 'other'):
            return V(fn=(b.fn[0], (b.fn[1] + '.' + n.attr).lstrip('.')))
        if b.fn is not None:
            return V(fn=('attr', b.fn, n.attr))
        if n.attr in VIEWATTR:
            return V(b.al, b.kind if b.kind != 'raw' else 'arr', dt=b.dt)
        if n.attr == 'dtype':
            if b.dt is not None and b.dt[0] == 'const':
                return V(kind='dtype', dt=b.dt)
            if b.dt is not None and b.dt[0] == 'loop':
                return V(kind='dtype', dt=b.dt)
            return V(kind='dtype', dt=('of', b.al) if b.al else None)
        if b.kind == 'dtype':
            if n.attr == 'char':
                return V(kind='dtchar', dt=b.dt)
            if n.attr == 'kind':
                return V(kind='dtkind', dt=b.dt)
            if n.attr == 'type':
                return V(kind='dtype', dt=b.dt)
            return V()
        if n.attr == 'shape':
            return V(kind='seq')
        if n.attr in ('ndim', 'size', 'nbytes', 'itemsize'):
            return V(kind='int')
        return V(fn=('meth', b, n.attr))

    def e_Subscript(self, n, s):
        b = self.ev(n.value, s)
        i = self.ev(n.slice, s)
        if b.fn is not None and b.fn == ('np', 'typecodes'):
            if isinstance(i.const, str) and i.const in TYPECODES:
                return V(const=TYPECODES[i.const], kind='str')
            return V()
        if b.items is not None and isinstance(i.const, int) and \
                -len(b.items) <= i.const < len(b.items):
            return b.items[i.const]
        if b.kind == 'seq':
            if isinstance(n.slice, ast.Slice):
                return V(kind='seq', tags=b.tags)
            return V(kind='int', tags=b.tags)
        if b.kind == 'loopdtypes':
            return V(kind='dtype', dt=b.dt)
        if b.al:
            k = b.kind
            if k == 'arr' and (isinstance(n.slice, ast.Constant) and isinstance(
                    n.slice.value, int)):
                return V(b.al, 'arr', dt=b.dt)
            return V(b.al, k, None, b.tags, b.dt)
        return V(tags=b.tags, kind=b.kind if b.kind == 'str' else None)

    def e_BinOp(self, n, s):
        return self.binop(n.op, self.ev(n.left, s), self.ev(n.right, s), n)

    def binop(self, op, a, b, n):
        tags = a.tags | b.tags
        if a.kind == 'seq' or b.kind == 'seq' or a.items is not None or b.items is not None:
            items = None
            if a.items is not None and b.items is not None and isinstance(op, ast.Add):
                items = tuple(a.items) + tuple(b.items)
            return V(a.al | b.al, 'seq', items, tags)
        if 'arr' in (a.kind, b.kind):
            return V(self._alloc(), 'arr', None, tags)
        if 'nps' in (a.kind, b.kind):
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.Pow)):
                tags = tags | {('ovf', getattr(n, 'lineno', 0))}
            return V((), 'nps', None, tags)
        if 'str' in (a.kind, b.kind):
            return V(kind='str')
        raw = [x for x in (a, b) if x.kind == 'raw' and any(
            o[0] == 'param' and o[1] in self.arrays for o in x.al)]
        if raw:
            return V((), None, None, tags)
        return V((), 'int' if 'int' in (a.kind, b.kind) else None, None, tags)

    def e_UnaryOp(self, n, s):
        v = self.ev(n.operand, s)
        if isinstance(n.op, ast.Not):
            return V()
        if isinstance(v.const, (int, float)) and isinstance(n.op, ast.USub):
            return V(const=-v.const)
        return V(self._alloc() if v.kind == 'arr' else (), v.kind, None, v.tags)

    def e_BoolOp(self, n, s):
        r = None
        for x in n.values:
            v = self.ev(x, s)
            r = v if r is None else join(r, v)
        return r.with_(const=('cond', n, dict(s.env)))

    def e_Compare(self, n, s):
        self.ev(n.left, s)
        for c in n.comparators:
            self.ev(c, s)
        return V(const=('cond', n, dict(s.env)))

    def e_IfExp(self, n, s):
        a, b = self.refine(n.test, s.copy())
        va = self.ev(n.body, a) if a is not None else None
        vb = self.ev(n.orelse, b) if b is not None else None
        for x in (a, b):
            if x is not None:
                for k, f in x.filled.items():
                    s.filled[k] = s.filled.get(k, False) or f
        if va is None or vb is None:
            return va or vb or V()
        return join(va, vb)

    def e_NamedExpr(self, n, s):
        v = self.ev(n.value, s)
        self.assign(n.target, v, s, n)
        return v

    def e_Tuple(self, n, s):
        items, tags, al = [], set(), set()
        known = True
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, s)
                if v.items is not None:
                    items += v.items
                else:
                    known = False
                tags |= v.tags
                al |= v.al
                continue
            v = self.ev(x, s)
            items.append(v)
            tags |= v.tags
        return V(al, 'seq', tuple(items) if known else None, tags)

    e_List = e_Tuple
    e_Set = e_Tuple

    def _comp(self, n, s):
        t = s.copy()
        for g in n.generators:
            it = self.ev(g.iter, t)
            elt = V(it.al, None, None, it.tags)
            if it.items:
                elt = it.items[0]
                for x in it.items[1:]:
                    elt = join(elt, x)
            self.assign(g.target, elt, t, n)
            for c in g.ifs:
                self.ev(c, t)
        if isinstance(n, ast.DictComp):
            self.ev(n.key, t)
            self.ev(n.value, t)
            return V()
        v = self.ev(n.elt, t)
        return V(v.al if v.kind in ('arr', 'raw') else (), 'seq', None, v.tags)

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = _comp

    def e_Starred(self, n, s):
        return self.ev(n.value, s)

    def e_Lambda(self, n, s):
        return V()

    def e_JoinedStr(self, n, s):
        return V(kind='str')

    def _alloc(self, s=None, filled=True):
        self.nalloc += 1
        o = ('alloc', self.nalloc)
        if s is not None:
            s.filled[o] = filled
        return {o}

    # ------------------------------------------------------------- calls
    def e_Call(self, n, s):
        self.stats['calls'] += 1
        f = self.ev(n.func, s)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, s)
                if v.items is not None:
                    args += v.items
                else:
                    args.append(V(v.al, None, None, v.tags))
            else:
                args.append(self.ev(a, s))
        kw = {k.arg: self.ev(k.value, s) for k in n.keywords}
        fn = f.fn
        tags = frozenset().union(*[a.tags for a in args], *[a.tags for a in kw.values()])
        if fn is None:
            # a value that may be a function (an argument of the wrapper)
            self._generic(n, args, kw, s)
            return V(tags=tags)
        if fn[0] == 'attr' and fn[1][0] in ('gufunc',) and fn[2] == 'resolve_dtypes':
            return V(kind='loopdtypes', dt=('loop', fn[1][1]))
        if fn[0] == 'meth':
            return self._method(n, fn[1], fn[2], args, kw, s)
        if fn[0] == 'def':
            return self._inline(n, fn[1], s)
        if fn[0] == 'np':
            return self._numpy(n, fn[1], args, kw, s, tags)
        if fn[0] == 'gufunc':
            return self._gufunc(n, fn[1], args, kw, s)
        if fn[0] == 'attr' and fn[1][0] == 'gufunc' and fn[2] == '__call__':
            return self._gufunc(n, fn[1][1], args, kw, s)
        if fn[0] == 'attr' and fn[1][0] == 'gufunc' and fn[2] in ('at',) and args:
            self.mutate(args[0].with_(kind='arr'), n, s, 'ufunc.at', False)
        if fn[0] == 'builtin':
            nm = fn[1]
            if nm in ('int', 'len', 'range', 'index', 'float', 'str', 'repr', 'isinstance'):
                if nm == 'int' and args:
                    # int() of a value that was already computed with overflow stays wrong
                    return V((), 'int', None, {t for t in args[0].tags if t[0] in
                                               ('ovf', 'narrow')})
                return V(kind='int' if nm == 'len' else None,
                         tags={t for t in tags if t[0] in ('ovf', 'narrow')}
                         if nm == 'range' else ())
            if nm in ('max', 'min', 'abs', 'sum', 'round'):
                k = 'nps' if any(a.kind == 'nps' for a in args) else None
                return V((), k, None, tags)
            if nm in ('tuple', 'list', 'sorted', 'reversed'):
                if args:
                    return V(args[0].al if args[0].items is None else (), 'seq', args[0].items,
                             args[0].tags)
                return V(kind='seq')
            if nm in ('zip', 'enumerate', 'map', 'filter', 'iter', 'next'):
                al = frozenset().union(*[a.al for a in args])
                return V(al, None, None, tags)
        if fn[0] == 'other':
            if fn[1] == 'operator.index' and args:
                return V((), 'int', None, {t for t in args[0].tags if t[0] in ('ovf', 'narrow')})
            if fn[1].startswith('copy.'):
                return V(self._alloc(s), 'arr')
            if fn[1] in ('math.prod',):
                return V((), 'int', None, tags)
        self._generic(n, args, kw, s)
        return V(tags=())

    def _generic(self, n, args, kw, s):
        o = kw.get('out')
        if o is not None:
            for x in (o.items or (o,)):
                self.mutate(x.with_(kind='arr') if x.al else x, n, s,
                            'a call that stores its result there', False)
                for a in x.al:
                    s.filled[a] = True

    def _method(self, n, b, name, args, kw, s):
        tags = b.tags.union(*[a.tags for a in args])
        arrlike = b.kind == 'arr' or any(o[0] == 'param' and o[1] in self.arrays for o in b.al)
        if name in MUTMETH and (b.al or b.kind == 'arr'):
            self.mutate(b, n, s, 'its method %s()' % name, False)
            if name == 'fill':
                for o in b.al:
                    s.filled[o] = True
            if name in ('append', 'extend', 'insert'):
                for v in args:
                    for o in b.al:
                        if o[0] == 'global':
                            self._state(n, s, v, 'a module-level object')
            return V()
        if name in ('setdefault', 'update', 'add'):
            for o in b.al:
                if o[0] == 'global':
                    for v in list(args) + list(kw.values()):
                        self._state(n, s, v, 'a module-level object')
                    return V(b.al, 'arr' if any(v.kind == 'arr' for v in args) else None)
            return V()
        if name in ('get',) and any(o[0] == 'global' for o in b.al):
            return V(b.al)
        if name == 'setflags' and arrlike:
            self.mutate(b, n, s, 'setflags()', False)
        if name == 'byteswap' and arrlike and (
                args and args[0].const is not False or
                'inplace' in kw and kw['inplace'].const is not False):
            self.mutate(b, n, s, 'byteswap()', False)
        if name == 'newbyteorder':
            return b.with_(dt=None)
        if name == 'resolve_dtypes':
            return V(kind='loopdtypes', dt=('loop', None))
        if arrlike:
            if name in VIEWMETH:
                return V(b.al, 'arr', None, tags, None if name == 'view' else b.dt)
            if name == 'astype':
                return self._converted(n, b, args[0] if args else kw.get('dtype', V()), kw, s, tags)
            if name in NPSCALAR and 'axis' not in kw and not args:
                return V((), 'nps', None, tags)
            if name == 'item':
                return V((), 'int', None, tags)
            if name in ('copy', '__copy__', '__deepcopy__'):
                return V(self._alloc(s), 'arr', None, tags, b.dt)
            if name in ('tolist',):
                return V()
            self._generic(n, args, kw, s)
            return V(self._alloc(s), 'arr', None, tags)
        if b.kind == 'nps':
            if name == 'item':
                return V((), 'int', None, {t for t in tags if t[0] in ('ovf', 'narrow')})
            if name == 'astype':
                return self._scalar_cast(n, b, args[0] if args else V())
            return V((), None, None, tags)
        self._generic(n, args, kw, s)
        return V(tags=tags)

    def _scalar_cast(self, n, b, d):
        ch = _dtype_const(d)
        if ch and ch in NARROWCH:
            return V((), 'nps', None, b.tags | {('narrow', n.lineno)})
        return V((), 'nps' if ch else None, None, b.tags)

    def _converted(self, n, b, d, kw, s, tags, view=False):
        """A conversion of an array to dtype d."""
        self._precision(n, b, d, s)
        ch = _dtype_const(d)
        dt = ('const', ch) if ch else d.dt if d.kind == 'dtype' else None
        if b.kind == 'nps':
            return self._scalar_cast(n, b, d)
        c = kw.get('copy')
        if view or c is not None and c.const is not True:
            return V(b.al | frozenset(self._alloc(s)), 'arr', None, tags, dt)
        return V(self._alloc(s), 'arr', None, tags, dt)

    def _precision(self, n, b, d, s):
        ch = _dtype_const(d)
        if ch is None or ch not in RANK:
            return
        for o in b.al:
            if o[0] == 'param' and o[1] != 'out' and o[1] in self.arrays:
                have = s.chars.get(o, ALLCH)
                wide = [c for c in have if RANK.get(c, 0) > RANK[ch]]
                self.add('P14', 'wrapper-precision', not wide, n,
                         'the argument %s is converted to %s, which is narrower than the dtypes '
                         'it may have' % (o[1], ch))

    def _numpy(self, n, name, args, kw, s, tags):
        base = name.split('.')[-1]
        if name.endswith('.at') and args:
            self.mutate(args[0].with_(kind='arr'), n, s, 'ufunc.at', False)
            return V()
        if base in MUTFUNC and args:
            self.mutate(args[0].with_(kind='arr'), n, s, 'np.%s()' % base, False)
            if base == 'copyto' and 'where' not in kw and len(args) < 4:
                for o in args[0].al:
                    s.filled[o] = True
            return V()
        if base == 'nan_to_num' and args and (
                'copy' in kw and kw['copy'].const is not True or
                len(args) > 1 and args[1].const is not True):
            self.mutate(args[0].with_(kind='arr'), n, s, 'np.nan_to_num(copy=False)', False)
            return V(args[0].al, 'arr')
        self._generic(n, args, kw, s)
        nin = 2 if base in BINUF else 1 if base in UNUF else None
        if nin is not None and len(args) > nin:
            self.mutate(args[nin].with_(kind='arr'), n, s, 'np.%s()' % base, False)
            for o in args[nin].al:
                s.filled[o] = True
        if base == 'dtype':
            a = args[0] if args else V()
            ch = _dtype_const(a)
            return V(kind='dtype', dt=('const', ch) if ch else a.dt if a.kind == 'dtype' else None)
        if base in VIEWS and args:
            a = args[0]
            if a.kind == 'seq':
                return V(a.al, 'seq', None, a.tags)
            d = kw.get('dtype') or (args[1] if base in ('asarray', 'asanyarray',
                                                        'ascontiguousarray') and len(args) > 1
                                    else None)
            if d is not None and d.const is not None:
                return self._converted(n, a, d, kw, s, tags, view=True)
            return V(a.al, 'arr', None, a.tags, a.dt)
        if base in CREATE:
            return self._create(n, base, args, kw, s, tags)
        if base in NPSCALAR and 'axis' not in kw and len(args) == 1:
            return V((), 'nps', None, tags)
        if base in NARROWINT:
            return V((), 'nps', None, tags | ({('narrow', n.lineno)} if base != 'float16' else
                                              set()))
        if base in ('intp', 'int64', 'uint64', 'uintp', 'longlong', 'int_'):
            return V((), 'nps', None, {t for t in tags if t[0] in ('ovf', 'narrow')})
        if base in ('broadcast_shapes', 'shape'):
            return V(kind='seq')
        if base == 'broadcast_arrays':
            al = frozenset().union(*[a.al for a in args])
            return V(al, 'seq')
        if base in ('size', 'ndim'):
            return V(kind='int')
        if base in BINUF | UNUF:
            if 'out' in kw and kw['out'].al:
                return kw['out']
            if any(a.kind == 'arr' for a in args):
                return V(self._alloc(s), 'arr', None, tags)
            if any(a.kind == 'nps' for a in args):
                t = tags | ({('ovf', n.lineno)} if base in ('add', 'subtract', 'multiply') else
                            set())
                return V((), 'nps', None, t)
        return V(self._alloc(s), 'arr' if base in BINUF | UNUF else None, None, tags)

    def _create(self, n, base, args, kw, s, tags):
        kind = CREATE[base]
        a0 = args[0] if args else kw.get('shape', V())
        if base in ('zeros', 'empty', 'ones', 'full', 'ndarray'):
            bad = sorted({t for t in a0.tags if t[0] in ('ovf', 'narrow')})
            for x in (a0.items or ()):
                bad += [t for t in x.tags if t[0] in ('ovf', 'narrow')]
            self.add('P12', 'wrapper-sizes', not bad, n,
                     'a length is computed %s (line %d)' % (
                         'in the dtype of the data' if bad and bad[0][0] == 'ovf' else
                         'with fewer than 64 bits', bad[0][1]) if bad else
                     'the shape of an array')
        d = kw.get('dtype')
        if d is None and base in ('zeros', 'empty', 'ones', 'array') and len(args) > 1:
            d = args[1]
        if d is None and base == 'full' and len(args) > 2:
            d = args[2]
        ch = _dtype_const(d) if d is not None else None
        dt = ('const', ch) if ch else d.dt if d is not None and d.kind == 'dtype' else None
        if d is None and base in ('zeros', 'empty', 'ones'):
            dt = ('const', 'd')
        if d is None and base.endswith('_like'):
            dt = a0.dt or ('of', a0.al)
        al = self._alloc(s, kind != 'empty')
        if base == 'array' and args:
            if d is not None:
                self._precision(n, a0, d, s)
            c = kw.get('copy')
            if c is not None and c.const is not True:
                al = al | set(a0.al)
            if a0.kind == 'seq' and dt is None:
                return V(al, 'arr', None, tags)
        return V(al, 'arr', None, tags, dt)

    def _gufunc(self, n, name, args, kw, s):
        """A call of a compiled function of the library."""
        nin = self.arity.get(name)
        out = kw.get('out')
        if out is not None and out.items is not None and len(out.items) == 1:
            out = out.items[0]
        if nin is not None and len(args) > nin:
            if out is None:
                out = args[nin]
            args = args[:nin]
        given = out is not None and out.const is not None
        if name in ACCUMULATES:
            self.accum = True
        elif nin is not None:
            self.other = True
        if given:
            if out.items is None:
                self.mutate(out.with_(kind='arr'), n, s, 'a call of %s that stores its result '
                            'there' % name, False)
        if name in ACCUMULATES:
            self._accumulator(n, name, out if given else None, s)
        if given:
            for o in out.al:
                s.filled[o] = True
            for x in (out.items or ()):
                for o in x.al:
                    s.filled[o] = True
            # the dtype of an array that the wrapper makes for a floating-point result
            self._result_dtype(n, name, args, out, s)
            return out.with_(kind='arr')
        if nin is None:
            # a function of an extension module that is not a ufunc
            self._generic(n, args, kw, s)
            return V()
        self._narrow_kw(n, args, kw, s)
        return V(self._alloc(s), 'arr')

    def _narrow_kw(self, n, args, kw, s):
        d = kw.get('dtype')
        if d is not None:
            for a in args:
                self._precision(n, a, d, s)

    def _result_dtype(self, n, name, args, out, s):
        if out.dt is None or not any(o[0] == 'alloc' for o in out.al):
            return
        if name == 'bincount' and out.dt[0] == 'const':
            self.add('P12', 'wrapper-sizes', out.dt[1] not in NARROWCH, n,
                     'counts, which can be as large as the array, are kept in %s' % out.dt[1])
        if out.dt[0] == 'const' and out.dt[1] in RANK and args:
            for a in args[1:] if name == 'bincountw' else args[:1]:
                for o in a.al:
                    if o[0] != 'param':
                        continue
                    have = s.chars.get(o, ALLCH)
                    wide = [c for c in have if RANK.get(c, 0) > RANK[out.dt[1]]]
                    self.add('P14', 'wrapper-precision', not wide, n,
                             'the result for %s is stored in %s, which is narrower than the '
                             'dtypes it may have' % (o[1], out.dt[1]))

    def _accumulator(self, n, name, out, s):
        what = '%s adds to the contents of out, ' % name
        if out is None:
            for p, r in (('P04', 'wrapper-result-assigned'), ('P05', 'wrapper-initialised')):
                self.add(p, r, False, n, what + 'which is not given')
            return
        for o in out.al:
            ok = o[0] != 'alloc' or s.filled.get(o, True)
            for p, r in (('P04', 'wrapper-result-assigned'), ('P05', 'wrapper-initialised')):
                self.add(p, r, ok, n, what + 'which np.empty made')
            if o[0] == 'global':
                continue
            same = out.dt is not None and (out.dt[0] == 'loop' or
                                           out.dt[0] == 'const' and name == 'bincount' and
                                           out.dt[1] in 'lqp')
            miss = [] if same else [a for a in ('dtype', 'native', 'aligned')
                                    if (o, a) not in s.facts and not
                                    (a == 'aligned' and o[0] == 'alloc') and not
                                    (a == 'native' and o[0] == 'alloc' and out.dt is not None and
                                     out.dt[0] == 'const')]
            self.add('P05', 'wrapper-initialised', not miss, n,
                     what + 'which may be a temporary array that is not initialised (no test of: '
                     '%s)' % ', '.join(miss))

    def _args(self, fn, call, s):
        """Environment of an inlined call."""
        a = fn.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env, vals = {}, []
        for x in call.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, s)
                if v.items is None:
                    return None
                vals += v.items
            else:
                vals.append(self.ev(x, s))
        if len(vals) > len(pos):
            if a.vararg is None:
                return None
            env[a.vararg.arg] = V((), 'seq', tuple(vals[len(pos):]))
        for p, v in zip(pos, vals):
            env[p] = v
        for k in call.keywords:
            if k.arg is None:
                return None
            env[k.arg] = self.ev(k.value, s)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                d = defaults.get(p)
                v = self.ev(d, s) if d is not None else V()
                if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                    v = v.with_(al=v.al | {('global', p)})
                env[p] = v
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = V((), 'seq', ())
        if a.kwarg:
            env.setdefault(a.kwarg.arg, V())
        return env

    def _inline(self, n, fn, s):
        if fn in self.stack or len(self.stack) > 5:
            return V()
        env = self._args(fn, n, s)
        if env is None:
            return V()
        saved, sfn = s.env, self.fname
        self.stack.append(fn)
        self.fname = fn.name
        x = s.copy()
        x.env = env
        try:
            outs = self.block(fn.body, [x])
        finally:
            self.stack.pop()
            self.fname = sfn
        rets = []
        for kind, z, v, nd in outs:
            if kind in ('ret', 'fall'):
                rets.append((v if v is not None else NONE, z))
        for d in fn.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', '')
            if nm in ('lru_cache', 'cache'):
                for v, z in rets:
                    self.fname = fn.name
                    self.add('P05', 'wrapper-state', v.kind != 'arr', fn,
                             'an array is kept in the cache of %s: a later call can use what this '
                             'one left' % fn.name)
                    self.fname = sfn
        if not rets:
            # the call always raises
            return V()
        r = None
        for v, z in rets:
            r = v if r is None else join(r, v)
        m = self._merge([z for v, z in rets])
        s.filled, s.facts, s.chars = m.filled, m.facts, m.chars
        s.notnone, s.maybe_empty = m.notnone, m.maybe_empty
        s.env = saved
        return r


def _attrname(a):
    if a in ('isnative', 'byteorder', 'isbuiltin'):
        return 'native'
    if a in ('aligned', 'carray', 'behaved', 'fnc'):
        return 'aligned'
    return a


def _whole(sl):
    if isinstance(sl, ast.Constant) and sl.value is Ellipsis:
        return True
    if isinstance(sl, ast.Slice):
        return sl.lower is None and sl.upper is None and sl.step is None
    if isinstance(sl, ast.Tuple):
        return not sl.elts or all(_whole(x) for x in sl.elts)
    return False


def _dtype_const(v):
    """Type character of a value that names a dtype."""
    if v is None:
        return None
    if v.kind == 'dtype' and v.dt is not None and v.dt[0] == 'const':
        return v.dt[1]
    if isinstance(v.const, str):
        c = v.const.lstrip('=<>|')
        if len(c) == 1 and c in ALLCH:
            return c
        c = {'f2': 'float16', 'f4': 'float32', 'f8': 'float64', 'c8': 'complex64',
             'c16': 'complex128', 'i4': 'int32', 'i8': 'int64', 'u4': 'uint32', 'u8': 'uint64',
             'i2': 'int16', 'u2': 'uint16', 'i1': 'int8', 'u1': 'uint8'}.get(c, c)
        return _named(c)
    if v.fn is not None and v.fn[0] in ('np', 'builtin'):
        return _named(v.fn[1].split('.')[-1])
    return None


def _named(c):
    if c in FLOATW:
        return FLOATW[c]
    return {'int8': 'b', 'uint8': 'B', 'byte': 'b', 'ubyte': 'B', 'int16': 'h', 'uint16': 'H',
            'short': 'h', 'ushort': 'H', 'int32': 'i', 'uint32': 'I', 'intc': 'i', 'uintc': 'I',
            'int64': 'l', 'uint64': 'L', 'int': 'l', 'int_': 'l', 'intp': 'l', 'uintp': 'L',
            'long': 'l', 'ulong': 'L', 'longlong': 'q', 'ulonglong': 'Q', 'uint': 'L',
            'bool': '?', 'bool_': '?', 'object': 'O', 'object_': 'O'}.get(c)


def check(repo):
    """All rows of the Python part, and what was analysed."""
    R = Rows()
    st = {'Python functions interpreted': 0, 'Python paths': 0, 'Python calls': 0}
    arity = gufunc_arity(repo)
    mods = []
    for p in sorted(glob.glob(os.path.join(repo, 'ufunclab', '*.py'))):
        mods.append(Module(p, repo))
    for m in mods:
        for name, fn in m.defs.items():
            if name.startswith('_') and not (name.startswith('__') and name.endswith('__')):
                continue            # followed where they are called
            it = Interp(m, fn, R, arity)
            try:
                it.run()
            except (TooComplex, RecursionError):
                st['Python functions too complex'] = st.get('Python functions too complex', 0) + 1
                continue
            st['Python functions interpreted'] += 1
            st['Python paths'] += it.stats['paths']
            st['Python calls'] += it.stats['calls']
    return R.list(mods), st


def tree_check(pid):
    def f(repo):
        rows, st = check(repo)
        return [r for r in rows if r[0] == pid], st
    return f


if __name__ == '__main__':
    import sys
    rows, st = check(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for r in rows:
        if not r[2] or len(sys.argv) > 2:
            print(r)
    print(st, len(rows))
