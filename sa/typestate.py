"""Path-sensitive typestate analysis of resources: GIL, temporary buffers, references.

Every path of a function is followed over the control-flow graph with an abstract state
(which buffers are allocated/checked/freed, how many references are owned, whether the GIL
is held, whether an exception is set); states that agree are merged, so loops terminate.
Branches on tests of a tracked pointer, and on constants that reach a phi, are decided.
"""
import re
from . import ir
from .contract import api_slot, gep_zero, string_of
from .engine import callee_name
from .build import AnalysisBroken, KEEP_CALL, _find_numpy_include

ALLOC_M = {'malloc', 'calloc', 'PyMem_RawMalloc', 'PyMem_RawCalloc', 'PyMem_Malloc',
           'PyMem_Calloc', 'PyObject_Malloc', 'aligned_alloc', 'strdup'}
FREE = {'free', 'PyMem_RawFree', 'PyMem_Free', 'PyObject_Free'}
CXX_NEW = re.compile(r'^_Zn[wa]m')
CXX_DEL = re.compile(r'^_Zd[la]Pv')
THROWING = re.compile(r'^(_Zn[wa]m(?!.*nothrow)|_ZSt\d+__throw_|__cxa_throw|__cxa_rethrow|'
                      r'_ZNSt6vectorI.*(6resizeE|17_M_default_append|7reserveE|9push_back|'
                      r'M_realloc_insert|C[12]E))')
CATCHES = ('_ZTISt9bad_alloc', '_ZTISt9exception', 'null')
# Calls that a thread may make without the GIL.
NO_GIL = re.compile(r'^(PyGILState_|PyMem_Raw|PyEval_(Save|Restore|Acquire|Release)|'
                    r'PyOS_|Py_FatalError|_?Py_IsFinal|PyThread_)')
NO_GIL_API = {'PyUFunc_clearfperr', 'PyUFunc_checkfperr', 'PyUFunc_getfperr',
              'PyDataMem_NEW', 'PyDataMem_FREE', 'PyDataMem_RENEW', 'PyDataMem_NEW_ZEROED'}
NEW_REF = re.compile(
    r'^(PyNumber_(?!Check|AsSsize_t)|PyObject_(Call|Get(Attr|Item|Iter)|Repr|Str|Type$|'
    r'RichCompare$|Vectorcall|GenericGetAttr|Dir)|PyLong_From|PyFloat_From|PyComplex_From|'
    r'PyUnicode_(From|Decode|Concat|Join|Format)|PyBytes_From|PyBool_From|Py_BuildValue|'
    r'_Py_BuildValue|Py_VaBuildValue|PyTuple_(New|Pack|GetSlice)|PyList_(New|AsTuple|GetSlice)|'
    r'PyDict_(New|Copy|Keys|Values|Items)|PySet_New|PySequence_(GetItem|Fast|List|Tuple|Concat)|'
    r'PyMapping_GetItem|PyIter_Next|PyImport_Import|PyCapsule_New|PyModule_(Create|New)|'
    r'PyErr_NewException|PySlice_New|PyArray_(DescrFromType|ResultType|DescrNew|FromAny|'
    r'SimpleNew|New|Empty|Zeros|NewCopy|Return|Cast|View|Copy|EnsureArray|DescrNewByteorder|'
    r'DescrFromTypeObject|DescrFromScalar|PromoteTypes|MinScalarType)|'
    r'PyUFunc_From|Py_(X)?NewRef)')
ALWAYS_NULL = {'PyErr_NoMemory', 'PyErr_Format', 'PyErr_SetFromErrno'}
STEALS = {'PyTuple_SetItem': 2, 'PyList_SetItem': 2, 'PyModule_AddObject': 2}
IMMORTAL = re.compile(r'^(_Py_(None|True|False|NotImplemented|EllipsisObject)|Py\w+_Type$)')
REFOP = re.compile(r'^(?:_ZL\d+)?(Py_X?(?:INCREF|DECREF))(?:P7_object)?$')
NEWREFOP = re.compile(r'^(?:_ZL\d+)?_?(Py_X?NewRef)(?:P7_object)?$')
# API functions that return an int (or C value) and set an exception on failure:
# name -> (value on failure, values on success)
FALLIBLE = {'PyObject_RichCompareBool': (-1, (0, 1)), 'PyObject_IsTrue': (-1, (0, 1)),
            'PyObject_Not': (-1, (0, 1)), 'PyArg_ParseTuple': (0, (1,)),
            'PyArg_ParseTupleAndKeywords': (0, (1,)), 'PyArg_UnpackTuple': (0, (1,)),
            'PyObject_Print': (-1, (0,)), 'PyObject_Cmp': (-1, (0,)),
            'PyLong_AsLong': (-1, (None,)), 'PyLong_AsLongLong': (-1, (None,)),
            'PyLong_AsSsize_t': (-1, (None,)), 'PyFloat_AsDouble': (None, (None,)),
            'PyTuple_SetItem': (-1, (0,)), 'PyList_SetItem': (-1, (0,)),
            'PyList_Append': (-1, (0,)), 'PyDict_SetItem': (-1, (0,)),
            'PyDict_SetItemString': (-1, (0,)), 'PyObject_SetAttrString': (-1, (0,)),
            'PySequence_Size': (-1, (None,)), 'PyObject_Size': (-1, (None,))}
# may be called while an exception is set
WITH_ERROR = re.compile(r'^(PyErr_|PyGILState_|PyMem_|PyObject_Free|PyType_IsSubtype|'
                        r'_?Py_(Dealloc|DECREF|INCREF|X|SET_REFCNT)|PyThread|PyEval_)')
ERRSET = re.compile(r'^PyErr_(Set|Format|NoMemory|BadArg|BadInternal|Restore)')

_slots = {}


def api_names():
    """{('array'|'ufunc', slot): name} from the NumPy headers."""
    if not _slots:
        inc = _find_numpy_include() + '/numpy/'
        for kind, f in (('array', '__multiarray_api.h'), ('ufunc', '__ufunc_api.h')):
            t = open(inc + f).read()
            for m in re.finditer(r'#define (\w+)\s*\\?\s*(?:[^#]*?)Py(?:Array|UFunc)_API\[(\d+)\]',
                                 t):
                _slots[kind, int(m.group(2))] = m.group(1)
    return _slots


def fallible_name(n):
    """PyArg_ParseTuple for _PyArg_ParseTuple_SizeT."""
    if n and n.startswith('_Py') and n.endswith('_SizeT'):
        return n[1:-6]
    return n


def call_target(ins):
    """Name of what a call calls: function, NumPy API entry, or None (unknown pointer)."""
    n = callee_name(ins)
    if n:
        return n
    sl = api_slot(ins)
    if sl:
        return api_names().get(sl, 'Py?api%s' % (sl,))
    return None


class State:
    __slots__ = ('env', 'objs', 'gil', 'err', 'slots', 'conds')

    def __init__(self):
        self.env, self.objs, self.slots, self.conds = {}, {}, {}, {}
        self.gil, self.err = 0, None

    def copy(self):
        s = State()
        s.env, s.objs, s.slots = dict(self.env), dict(self.objs), dict(self.slots)
        s.conds = dict(self.conds)
        s.gil, s.err = self.gil, self.err
        return s

    def key(self):
        return (frozenset((id(k), v if not isinstance(v, ir.Inst) else id(v))
                          for k, v in self.env.items()),
                frozenset((id(k), v) for k, v in self.objs.items()),
                frozenset((k, id(v)) for k, v in self.slots.items()),
                frozenset(self.conds.items()), self.gil, self.err)


NULL = 'null'


def ir_base(v):
    while isinstance(v, ir.Inst) and v.op in ('gep', 'bitcast'):
        v = v.ops[0]
    return v


class Explorer:
    """Explore one function; events are (property, rule, ok, inst, detail)."""

    def __init__(self, fn, mod, gil_at_entry, is_loop, object_loop=False, result=None,
                 track_conds=False, limit=20000):
        self.result = result    # 'object': returns a new object or NULL; 'status': 0 or an error
        self.fn, self.mod = fn, mod
        self.gil0, self.is_loop, self.object_loop = gil_at_entry, is_loop, object_loop
        self.track_conds, self.limit = track_conds, limit
        self.events = {}
        self.nstates = 0
        self.nexits = 0
        self._kids = {}
        self._reload = {}
        self._live = None

    # ------------------------------------------------------------- reporting
    def ev(self, prop, rule, ok, ins, detail=''):
        k = (prop, rule, ins, detail if not ok else '')
        self.events[k] = self.events.get(k, True) and bool(ok)

    # ------------------------------------------------------------- evaluation
    def root(self, v, st, deep=False):
        """The tracked object that a value designates (deep: also pointers into it)."""
        d = 0
        while isinstance(v, ir.Inst) and d < 60:
            d += 1
            if v in st.env:
                r = st.env[v]
                if isinstance(r, ir.Inst) or isinstance(r, ir.Arg):
                    v = r
                    if v in st.objs:
                        return v
                    continue
                return None
            if v in st.objs:
                return v
            if v.op in ('bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                v = v.ops[0]
            elif deep and v.op == 'gep':
                v = v.ops[0]
            elif deep and v.op in ('phi', 'select'):
                return None
            else:
                return None
        return None

    def eval(self, v, st, d=0):
        """Constant value (int), NULL, 'nonnull' or None when not known."""
        if isinstance(v, ir.Const):
            if v.kind == 'int':
                return v.val
            if v.kind in ('null',):
                return NULL
            if v.kind == 'zero':
                return NULL if v.ty.k == 'ptr' else 0
            if v.kind in ('global', 'gep', 'cast'):
                return 'nonnull'
            return None
        if not isinstance(v, ir.Inst) or d > 12:
            return None
        if v in st.env:
            r = st.env[v]
            if isinstance(r, (int, str)):
                return r
            return self.eval(r, st, d + 1)
        r = self.root(v, st)
        if r is not None:
            o = st.objs[r]
            if o[1] == 'null':
                return NULL
            if o[1] in ('live', 'freed', 'escaped', 'gone', 'held'):
                return 'nonnull'
            return None
        op = v.op
        if v in st.conds:
            return st.conds[v]
        if op == 'icmp':
            a, b = self.eval(v.ops[0], st, d + 1), self.eval(v.ops[1], st, d + 1)
            if a is None or b is None:
                return None
            if isinstance(a, int) and isinstance(b, int):
                bits = v.ops[0].ty.n if v.ops[0].ty.is_int() else 64
                ua, ub = a % (1 << bits), b % (1 << bits)
                sa = ua - (1 << bits) if ua >> (bits - 1) else ua
                sb = ub - (1 << bits) if ub >> (bits - 1) else ub
                p = v.x
                return int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub,
                            'ugt': ua > ub, 'uge': ua >= ub, 'slt': sa < sb, 'sle': sa <= sb,
                            'sgt': sa > sb, 'sge': sa >= sb}[p])
            if {a, b} <= {NULL, 'nonnull'} and (a == NULL or b == NULL) and v.x in ('eq', 'ne'):
                return int((a == b) == (v.x == 'eq'))
            return None
        if op in ('zext', 'sext', 'trunc', 'freeze'):
            a = self.eval(v.ops[0], st, d + 1)
            if isinstance(a, int):
                n0 = v.ops[0].ty.n
                if op == 'zext':
                    return a % (1 << n0)
                if op == 'sext':
                    a %= 1 << n0
                    return a - (1 << n0) if a >> (n0 - 1) else a
                if op == 'trunc':
                    return a % (1 << v.ty.n)
                return a
            return None
        if op in ('and', 'or', 'xor') and v.ty.is_int() and v.ty.n == 1:
            a, b = self.eval(v.ops[0], st, d + 1), self.eval(v.ops[1], st, d + 1)
            if isinstance(a, int):
                a &= 1
            if isinstance(b, int):
                b &= 1
            if op == 'and':
                if a == 0 or b == 0:
                    return 0
            elif op == 'or':
                if a == 1 or b == 1:
                    return 1
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            return None
        if op == 'select':
            c = self.eval(v.ops[0], st, d + 1)
            if isinstance(c, int):
                return self.eval(v.ops[1] if c & 1 else v.ops[2], st, d + 1)
            a, b = self.eval(v.ops[1], st, d + 1), self.eval(v.ops[2], st, d + 1)
            return a if a is not None and a == b else None
        if op in ('call', 'invoke') and call_target(v) in ALWAYS_NULL:
            return NULL
        return None

    def assume(self, c, val, st):
        """Refine the state with the outcome of a condition; False when impossible."""
        if not isinstance(c, ir.Inst):
            return True
        if c.op == 'icmp' and c.x in ('eq', 'ne'):
            for a, b in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                if self.eval(b, st) == NULL:
                    r = self.root(a, st)
                    if r is not None:
                        isnull = (c.x == 'eq') == bool(val)
                        k, s, n = st.objs[r]
                        if s == 'unk':
                            st.objs[r] = (k, 'null' if isnull else 'live', 0 if isnull else n)
                            if isnull and k == 'ref':
                                st.err = st.err or 'other'
                        return True
        if c.op == 'xor' and c.ty.n == 1 and self.eval(c.ops[1], st) in (1, -1):
            return self.assume(c.ops[0], 1 - val, st)
        if c.op == 'and' and val:
            return self.assume(c.ops[0], 1, st) and self.assume(c.ops[1], 1, st)
        if c.op == 'or' and not val:
            return self.assume(c.ops[0], 0, st) and self.assume(c.ops[1], 0, st)
        if c.op == 'freeze':
            return self.assume(c.ops[0], val, st)
        if self.track_conds:
            st.conds[c] = int(val)
        return True

    def addr_key(self, p, st):
        """Structural key of an address."""
        def go(v, d):
            if isinstance(v, ir.Const):
                return ('c', v.kind, str(v.val)[:60])
            if isinstance(v, ir.Inst):
                if v.op in ('gep',) and d < 8:
                    return ('gep', str(v.x), tuple(go(o, d + 1) for o in v.ops))
                if v.op in ('bitcast', 'freeze'):
                    return go(v.ops[0], d + 1)
                return ('i', v.id)
            return ('a', getattr(v, 'name', ''))
        return go(p, 0)

    def pointer_kind(self, p, st):
        """Where an address points: alloca, operand (object slot), heap, arg, other."""
        d = 0
        v = p
        while isinstance(v, ir.Inst) and d < 40:
            d += 1
            r = self.root(v, st)
            if r is not None:
                return ('ref' if st.objs[r][0] == 'ref' else 'heap'), r
            if v.op in ('gep', 'bitcast', 'freeze'):
                v = v.ops[0]
            elif v.op == 'alloca':
                return 'alloca', v
            elif v.op == 'load':
                q = v.ops[0]
                while isinstance(q, ir.Inst) and q.op == 'gep':
                    q = q.ops[0]
                if isinstance(q, ir.Arg) and q.idx == 0 and self.is_loop:
                    return 'opnd', v
                return 'load', v
            elif v.op == 'phi':
                nxt = [o for o in v.ops if o is not v and isinstance(o, (ir.Inst, ir.Arg))]
                nxt = [o for o in nxt if not self._derived_from(o, v)]
                if not nxt:
                    return 'other', v
                v = nxt[0]
            elif v.op == 'select':
                v = v.ops[1]
            else:
                return 'other', v
        if isinstance(v, ir.Arg):
            return 'arg', v
        if isinstance(v, ir.Const) and v.kind == 'global':
            return 'global', v
        return 'other', v

    def _derived_from(self, o, v, d=0):
        while isinstance(o, ir.Inst) and o.op in ('gep', 'bitcast', 'freeze') and d < 20:
            o = o.ops[0]
            d += 1
        return o is v

    # -------------------------------------------------------------- execution
    def run(self):
        f = self.fn
        st = State()
        st.gil = self.gil0
        entry = f.blocks[0]
        work = [(entry, None, st)]
        seen = set()
        while work:
            b, pred, st = work.pop()
            if pred is not None:
                st = self.enter(b, pred, st)
            k = (b, st.key())
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            if self.nstates > self.limit:
                raise AnalysisBroken('too many states in %s' % f.name)
            for s, nst in self.block(b, st):
                work.append((s, b, nst))
        return self

    def enter(self, b, pred, st):
        new = {}
        for i in b.insts:
            if i.op != 'phi':
                break
            for o, pb in zip(i.ops, i.x):
                if pb is pred:
                    r = self.root(o, st)
                    if r is not None:
                        new[i] = r
                    else:
                        rd = self.root(o, st, deep=True) if i.ty.k == 'ptr' else None
                        if rd is not None:
                            new[i] = ('in', rd)
                        else:
                            c = self.eval(o, st) if (i.ty.is_int() or i.ty.k == 'ptr') else None
                            new[i] = c
                    break
        for i, v in new.items():
            if v is None or isinstance(v, tuple):
                st.env.pop(i, None)
            else:
                st.env[i] = v
            if isinstance(v, tuple):
                st.env[i] = v[1] if False else 'nonnull'
                st.slots[('into', i.id)] = v[1]
            else:
                st.slots.pop(('into', i.id), None)
            if self.track_conds:
                # conditions on the previous value of the phi no longer hold
                for c in [c for c in st.conds if self._uses(c, i)]:
                    del st.conds[c]
        for i in new:
            for k in [k for k in st.slots if k[0] == 'slot' and i.id in self.key_ids(k[1])]:
                del st.slots[k]
        # forget what is not used any more
        live = self.live(b)
        for k in [k for k in st.slots if (k[1] not in live.ids if k[0] == 'into' else
                                          not self.key_ids(k[1]) <= live.ids)]:
            del st.slots[k]
        refd = set()
        for v in live:
            r = self.root(v, st, deep=True)
            if r is not None:
                refd.add(r)
        for v in [v for v in st.env if v not in live]:
            del st.env[v]
        for k, r in st.slots.items():
            if k[0] == 'into' or r in st.objs and st.objs[r][2] != 0:
                refd.add(r)
        for r in [r for r in st.objs if r not in refd]:
            k, s, n = st.objs[r]
            # nothing can be done with the object any more: judge it now
            if k == 'ref':
                self.settle(r, st)
            elif s in ('freed', 'escaped'):
                self.ev('P11', 'released', True, r)
            elif s == 'null':
                if st.err != 'mem':
                    continue
                self.ev('P11', 'memory-error', True, r)
            else:
                self.ev('P11', 'released', False, r, 'a path loses the buffer without '
                        'releasing it')
            del st.objs[r]
        for c in [c for c in st.conds if c not in live]:
            del st.conds[c]
        return st

    def key_ids(self, key):
        """Ids of the instructions that an address key is made of."""
        r = self._kids.get(key)
        if r is None:
            out = set()

            def go(k):
                if isinstance(k, tuple):
                    if len(k) == 2 and k[0] == 'i':
                        out.add(k[1])
                    else:
                        for x in k:
                            go(x)
            go(key)
            r = self._kids[key] = frozenset(out)
        return r

    def _uses(self, c, i, d=0):
        if c is i:
            return True
        if not isinstance(c, ir.Inst) or d > 6 or c.op == 'phi':
            return False
        return any(self._uses(o, i, d + 1) for o in c.ops)

    def live(self, b):
        if self._live is None:
            self._compute_live()
        return self._live[b]

    def _compute_live(self):
        class L(set):
            pass
        use, deff = {}, {}
        for b in self.fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op != 'phi':
                    for o in i.ops:
                        if isinstance(o, ir.Inst) and o not in d:
                            u.add(o)
                d.add(i)
            use[b], deff[b] = u, d
        out = {b: set() for b in self.fn.blocks}
        inn = {b: set() for b in self.fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.fn.blocks):
                o = set()
                for s in b.succs:
                    o |= {x for x in inn[s] if not (x.op == 'phi' and x.blk is s)}
                    for i in s.insts:
                        if i.op != 'phi':
                            break
                        for v, pb in zip(i.ops, i.x):
                            if pb is b and isinstance(v, ir.Inst):
                                o.add(v)
                n = use[b] | (o - deff[b]) | {i for i in b.insts if i.op == 'phi'}
                if o != out[b] or n != inn[b]:
                    out[b], inn[b] = o, n
                    ch = True
        # conditions used in later blocks
        self._live = {}
        for b in self.fn.blocks:
            l = L(inn[b])
            l.ids = {x.id for x in l}
            self._live[b] = l

    def block(self, b, st, start=0):
        st = st.copy()
        for idx in range(start, len(b.insts)):
            i = b.insts[idx]
            if i.op == 'phi':
                continue
            if self.track_conds and i in st.conds:
                del st.conds[i]
            if i.op in ('call', 'invoke'):
                self.call(i, st)
                if i.op == 'invoke':
                    out = [(i.x['normal'], st)]
                    n = call_target(i) or '?'
                    if THROWING.match(n) or n == '?' or n.startswith('_Z'):
                        s2 = st.copy()
                        r = self.root(i, s2)
                        if r is i:
                            s2.objs.pop(i, None)
                        out.append((i.x['unwind'], s2))
                    return out
                fl = FALLIBLE.get(fallible_name(call_target(i)))
                if not fl and i in st.objs and st.objs[i] == ('ref', 'unk', 1) and \
                        NEW_REF.match(call_target(i) or ''):
                    # the operation fails, or it succeeds
                    out = []
                    for state, err in (('null', 'other'), ('live', st.err)) + \
                            ((('null', None),) if call_target(i) == 'PyIter_Next' else ()):
                        s2 = st.copy()
                        s2.objs[i] = ('ref', state, int(state == 'live'))
                        s2.err = err
                        out += self.block(b, s2, idx + 1)
                    return out
                if fl:
                    out = []
                    for val, err in [(fl[0], 'other')] + [(v, None) for v in fl[1]]:
                        s2 = st.copy()
                        if val is not None and i.ty.is_int():
                            s2.env[i] = val % (1 << i.ty.n)
                        if err:
                            s2.err = err
                        out += self.block(b, s2, idx + 1)
                    return out
            elif i.op == 'load':
                self.load(i, st)
            elif i.op == 'store':
                self.store(i, st)
            elif i.op == 'ret':
                self.ret(i, st)
                return []
            elif i.op in ('unreachable', 'resume'):
                return []
            elif i.op == 'br':
                if len(i.x) == 1:
                    return [(i.x[0], st)]
                c = i.ops[0]
                v = self.eval(c, st)
                out = []
                for k, s in enumerate(i.x):
                    val = 1 - k
                    if v is not None and isinstance(v, int) and (v & 1) != val:
                        continue
                    n = st.copy()
                    if v is None and not self.assume(c, val, n):
                        continue
                    out.append((s, n))
                return out
            elif i.op == 'switch':
                v = self.eval(i.ops[0], st)
                d, cases = i.x
                if isinstance(v, int):
                    for cv, s in cases:
                        x = cv.val if isinstance(cv, ir.Const) else cv
                        if (x - v) % (1 << i.ops[0].ty.n) == 0:
                            return [(s, st)]
                    return [(d, st)]
                out, seen = [], set()
                for s in [d] + [s for _, s in cases]:
                    if s not in seen:
                        seen.add(s)
                        out.append((s, st.copy()))
                return out
            else:
                if i in st.env:
                    del st.env[i]
        return []

    # ------------------------------------------------------------ transitions
    def deref(self, ins, ptr, st, what):
        """A memory access through ptr."""
        k, r = self.pointer_kind(ptr, st)
        if k not in ('heap', 'ref'):
            # a pointer phi into a tracked buffer
            v = ptr
            while isinstance(v, ir.Inst) and v.op in ('gep', 'bitcast'):
                v = v.ops[0]
            if isinstance(v, ir.Inst) and ('into', v.id) in st.slots:
                r = st.slots[('into', v.id)]
                if r not in st.objs:
                    return
                k = 'heap' if st.objs[r][0] == 'heap' else 'ref'
            else:
                return
        kind, s, n = st.objs[r]
        if kind == 'ref':
            self.ev('P10', 'used-after-release', s != 'gone', ins,
                    '%s of an object after its last reference was released' % what)
        if kind == 'heap':
            self.ev('P11', 'checked-before-use', s != 'unk', ins,
                    '%s of a buffer whose allocation was not tested' % what)
            self.ev('P11', 'use-after-release', s != 'freed', ins,
                    '%s of a buffer that has been released' % what)
            self.ev('P11', 'checked-before-use', s != 'null', ins,
                    '%s through the null pointer of a failed allocation' % what)

    def load(self, i, st):
        self.deref(i, i.ops[0], st, 'read')
        if i.ty.k == 'ptr':
            if i in st.env:
                del st.env[i]
            k, _ = self.pointer_kind(i.ops[0], st)
            if i in st.objs:
                self.retire(i, st, i)
            if self.object_loop and k == 'opnd':
                key = ('slot', self.addr_key(i.ops[0], st))
                old = st.slots.get(key)
                if isinstance(old, ir.Const):
                    return
                if old is not None and old in st.objs and old is not i:
                    st.env[i] = old
                    return
                st.objs[i] = ('ref', 'live?', 0)
                st.slots[key] = i
            elif i in st.objs:
                del st.objs[i]

    def retire(self, r, st, at):
        """A new value replaces r: nothing may be owned through it any more."""
        kind, s, n = st.objs.pop(r)
        for v in [v for v, x in st.env.items() if x is r]:
            del st.env[v]
        for k in [k for k, x in st.slots.items() if x is r]:
            del st.slots[k]
        if kind == 'heap' and s in ('live', 'unk'):
            self.ev('P11', 'released', False, r, 'the buffer is lost when the next one is '
                    'allocated')
        if kind == 'ref':
            self.settle(r, st, (kind, s, n))

    def settle(self, r, st, o=None, returned=False):
        """No reference may be owned or owed when the last use of the object has passed."""
        k, s, n = o or st.objs[r]
        if s == 'null':
            n = 0
        elif returned:
            n -= 1
        self.ev('P10', 'balanced', n == 0, r, '' if n == 0 else
                'a reference is leaked' if n > 0 else 'a borrowed reference is returned'
                if returned else 'a reference is released too often')

    def store(self, i, st):
        v, p = i.ops
        self.deref(i, p, st, 'write')
        if v.ty is None or v.ty.k != 'ptr':
            return
        k, pr = self.pointer_kind(p, st)
        r = self.root(v, st)
        if k == 'alloca':
            if r is not None and (st.objs[r][0] == 'ref' or self.reloaded(pr)):
                st.objs.pop(r)          # followed no further
            return
        if self.object_loop and k == 'opnd' and self.object_slot(p):
            key = ('slot', self.addr_key(p, st))
            old = st.slots.pop(key, None)
            self.ev('P10', 'overwritten', isinstance(old, ir.Const) or
                    old is not None and old in st.objs, i,
                    'the reference that the output held is overwritten without being released')
            if old is not None and old in st.objs:
                kk, s, n = st.objs[old]
                st.objs[old] = (kk, s, n + 1)
            if r is not None and st.objs[r][0] == 'ref':
                kk, s, n = st.objs[r]
                self.ev('P10', 'used-after-release', s != 'gone', i,
                        'an object is stored after its last reference was released')
                st.objs[r] = (kk, 'held' if s == 'live' else s, n - 1)
                st.slots[key] = r
            else:
                c = self.eval(v, st)
                im = isinstance(v, ir.Const) and v.kind == 'global' and IMMORTAL.match(v.val)
                if r is None and c != NULL and not im:
                    self.ev('P10', 'balanced', False, i,
                            'a reference that is not owned is stored in the output')
                if isinstance(v, ir.Const):
                    st.slots[key] = v
            return
        if r is not None:
            kk, s, n = st.objs[r]
            if kk == 'ref':
                st.objs[r] = (kk, 'held' if s == 'live' else s, n - 1 if n > 0 else n)
            else:
                st.objs[r] = (kk, 'escaped', n)

    def reloaded(self, al):
        """Is a pointer read back from this stack object?"""
        if al not in self._reload:
            self._reload[al] = any(
                i.op == 'load' and i.ty.k == 'ptr' and ir_base(i.ops[0]) is al
                for b in self.fn.blocks for i in b.insts)
        return self._reload[al]

    def object_slot(self, p):
        return True

    def mkref(self, v, st):
        """Track a value that is not tracked yet as a borrowed reference."""
        if isinstance(v, ir.Const):
            return None
        d = 0
        while isinstance(v, ir.Inst) and v.op in ('bitcast', 'freeze') and d < 9:
            v = v.ops[0]
            d += 1
        if isinstance(v, ir.Inst) and v in st.env:
            return None
        st.objs[v] = ('ref', 'live?', 0)
        return v

    def call(self, i, st):
        n = call_target(i)
        args = i.ops[1:]
        if i in st.env:
            del st.env[i]
        if n is None:
            for a in args:
                if a.ty is not None and a.ty.k == 'ptr':
                    self.deref(i, a, st, 'use')
            return
        m = REFOP.match(n)
        if m:
            op = m.group(1)
            if self.is_loop:
                self.gil_needed(i, op, st)
            v = args[0]
            if isinstance(v, ir.Const) and v.kind == 'global' and IMMORTAL.match(str(v.val)):
                return
            if self.eval(v, st) == NULL:
                self.ev('P10', 'not-null', op.startswith('Py_X'), i,
                        '%s of a null pointer' % op)
                return
            r = self.root(v, st)
            if r is None:
                if isinstance(v, ir.Inst) and v.op in ('phi', 'select'):
                    r = self.mkref(v, st)
                else:
                    r = self.mkref(v, st)
                if r is None:
                    return
            k, s, c = st.objs[r]
            if k != 'ref':
                return
            self.ev('P10', 'not-null', s != 'unk' or op.startswith('Py_X'), i,
                    '%s of a result that was not tested for failure' % op)
            if s == 'null':
                return
            self.ev('P10', 'used-after-release', s != 'gone', i,
                    '%s of an object after its last reference was released' % op)
            c += 1 if op.endswith('INCREF') else -1
            if c == 0 and s == 'live' and isinstance(r, ir.Inst) and \
                    r.op in ('call', 'invoke') and NEW_REF.match(call_target(r) or ''):
                s = 'gone'
            st.objs[r] = (k, s, c)
            self.ev('P10', 'refcount-operations', True, i)
            return
        m = NEWREFOP.match(n)
        if m:
            r = self.root(args[0], st) or self.mkref(args[0], st)
            if r is not None and st.objs[r][0] == 'ref':
                k, s, c = st.objs[r]
                st.objs[r] = (k, s, c + 1)
                st.env[i] = r
            return
        # --- GIL
        if n == 'PyGILState_Ensure' or n == 'PyEval_RestoreThread' or n == 'PyEval_AcquireThread':
            st.gil = min(st.gil + 1, 4)
            return
        if n in ('PyGILState_Release', 'PyEval_SaveThread', 'PyEval_ReleaseThread'):
            self.ev('P09', 'balanced', st.gil > (self.gil0 if n == 'PyGILState_Release' else 0),
                    i, 'the GIL is released without having been acquired')
            st.gil = max(st.gil - 1, 0)
            return
        if re.match(r'^_?Py', n):
            self.gil_needed(i, n, st)
        if re.match(r'^_?Py', n) and not WITH_ERROR.match(n):
            self.ev('P17', 'stops-at-error', st.err is None, i,
                    '%s is called while an exception is set' % n)
        if n == 'PyErr_Occurred':
            if st.err:
                st.env[i] = 'nonnull'
            return
        if ERRSET.match(n):
            exc = args[0] if args else None
            what = 'other'
            if n == 'PyErr_NoMemory':
                what = 'mem'
            elif isinstance(exc, ir.Inst) and exc.op == 'load':
                g = gep_zero(exc.ops[0])
                if g == 'PyExc_MemoryError':
                    what = 'mem'
            st.err = what
        if n == 'PyErr_Clear':
            if self.is_loop or self.result:
                self.ev('P17', 'not-discarded', st.err is None, i, 'an exception is discarded')
            st.err = None
        # --- C++ exceptions
        if THROWING.match(n):
            self.throwing(i, n)
        # --- buffers
        if n in ALLOC_M or CXX_NEW.match(n) or n in ('realloc',):
            if i in st.objs:
                self.retire(i, st, i)
            st.objs[i] = ('heap', 'live' if CXX_NEW.match(n) and 'nothrow' not in n else 'unk', 0)
            self.ev('P11', 'allocations', True, i)
            return
        if n in FREE or CXX_DEL.match(n):
            r = self.root(args[0], st)
            if r is not None and st.objs[r][0] == 'heap':
                k, s, c = st.objs[r]
                self.ev('P11', 'released-once', s != 'freed', i, 'the buffer is released twice')
                self.ev('P11', 'released-once', s != 'escaped', i,
                        'the buffer is released although another object owns it')
                if s != 'null':
                    st.objs[r] = (k, 'freed', c)
            elif r is None:
                k, q = self.pointer_kind(args[0], st)
                if k == 'heap':
                    self.ev('P11', 'released-once', False, i, 'the pointer that is released is '
                            'not the one that was allocated')
            return
        for a in args:
            if a.ty is not None and a.ty.k == 'ptr':
                self.deref(i, a, st, 'use')
        # --- references
        if n in STEALS and len(args) > STEALS[n]:
            r = self.root(args[STEALS[n]], st)
            if r is not None and st.objs[r][0] == 'ref':
                k, s, c = st.objs[r]
                st.objs[r] = (k, s, c - 1)
        if n in ('Py_BuildValue', '_Py_BuildValue_SizeT') and args:
            f = string_of(self.mod, args[0]) or ''
            k = 1
            for ch in f:
                if ch in '()[]{}, :':
                    continue
                if ch == 'N' and k < len(args):
                    r = self.root(args[k], st)
                    if r is not None and st.objs[r][0] == 'ref':
                        kk, s, c = st.objs[r]
                        st.objs[r] = (kk, s, c - 1)
                if ch not in '#*!&':
                    k += 1
        if NEW_REF.match(n) and i.ty.k == 'ptr':
            if i in st.objs:
                self.retire(i, st, i)
            st.objs[i] = ('ref', 'unk', 1)
            self.ev('P10', 'new-references', True, i)

    def gil_needed(self, i, n, st):
        if NO_GIL.match(n) or n in NO_GIL_API:
            return
        self.ev('P09', 'gil-held', st.gil > 0, i, '%s is called without holding the GIL' % n)

    def throwing(self, i, n):
        if not self.is_loop:
            return
        ok = False
        if i.op == 'invoke':
            lp = [x for x in i.x['unwind'].insts if x.op == 'landingpad']
            ok = bool(lp) and any(any(c in cl for c in CATCHES) for cl in lp[0].x
                                  if cl.startswith('catch'))
        self.ev('P11', 'allocation-failure-caught', ok, i,
                'the C++ exception of a failed allocation leaves the loop')

    def outcomes(self, v, st, d=0):
        """Values that a result which depends on a condition takes."""
        c = self.eval(v, st)
        if isinstance(c, int):
            return {c}
        if not isinstance(v, ir.Inst) or d > 4:
            return set()
        if v.op == 'freeze':
            return self.outcomes(v.ops[0], st, d + 1)
        if v.op in ('sext', 'zext') and v.ops[0].ty.n == 1:
            return {0, -1 if v.op == 'sext' else 1}
        if v.op == 'select':
            return self.outcomes(v.ops[1], st, d + 1) | self.outcomes(v.ops[2], st, d + 1)
        return set()

    def ret(self, i, st):
        self.nexits += 1
        self.ev('P09', 'balanced', st.gil == self.gil0, i,
                'the GIL is still held when the function returns' if st.gil > self.gil0 else
                'the GIL is not held when the function returns')
        rv = i.ops[0] if i.ops else None
        rr = None
        if self.result is not None and rv is not None:
            v = self.eval(rv, st)
            if self.result == 'object':
                if v == NULL:
                    self.ev('P17', 'null-means-error', st.err is not None, i,
                            'NULL is returned without an exception')
                else:
                    self.ev('P17', 'result-means-success', st.err is None, i,
                            'a result is returned although an exception is set')
            elif isinstance(v, int):
                self.ev('P17', 'hook-result', (v != 0) == (st.err is not None), i,
                        'an error is returned without an exception' if v else
                        'success is returned although an exception is set')
            else:
                self.ev('P17', 'hook-result', st.err is None, i, 'the result does not tell '
                        'that an exception is set')
                if st.err is None and any(self.outcomes(rv, st)):
                    self.ev('P17', 'hook-result', False, i,
                            'an error is returned without an exception')
        if rv is not None and rv.ty is not None and rv.ty.k == 'ptr':
            rr = self.root(rv, st)
        for r, (k, s, n) in st.objs.items():
            if k == 'heap':
                if r is rr:
                    continue
                self.ev('P11', 'released', s not in ('live', 'unk'), r,
                        'a path to the return leaves the buffer allocated')
                if s == 'null':
                    self.ev('P11', 'memory-error', st.err == 'mem', r,
                            'the function returns after a failed allocation without raising '
                            'MemoryError')
            else:
                self.settle(r, st, returned=r is rr)


def explore(fn, mod, gil, is_loop, object_loop=False, result=None):
    """Events of a function; possible violations are confirmed with correlated branches."""
    e = Explorer(fn, mod, gil, is_loop, object_loop, result).run()
    if all(e.events.values()):
        return e
    try:
        e2 = Explorer(fn, mod, gil, is_loop, object_loop, result, track_conds=True,
                      limit=60000).run()
    except AnalysisBroken:
        return e
    return e2


def loop_functions(mv):
    """{function: [registered loops]}; loops that are registered at run time: None."""
    loops = {}
    for r in mv.regs:
        for l in r.loops:
            if l.fn:
                loops.setdefault(l.fn, []).append(l)
    for n in referenced(open(mv.path).read()):
        if n in mv.mod._fnraw and n not in loops and is_loop_type(mv.mod, n):
            loops[n] = None
    return loops


def referenced(text):
    """Names of the functions that the module still refers to after inlining."""
    out = set()
    for line in text.splitlines():
        if line.startswith(('define ', 'declare ', '!', ';')):
            head = re.match(r'define .*?@("?[\w.$]+"?)\(', line)
            for m in re.finditer(r'@"?([\w.$]+)"?', line):
                if line.startswith('define ') and head and m.group(1) != head.group(1).strip('"'):
                    out.add(m.group(1))
            continue
        if '@' in line:
            d = re.match(r'@"?([\w.$]+)"? =', line)
            for m in re.finditer(r'@"?([\w.$]+)"?', line):
                if not (d and m.start() == 0):
                    out.add(m.group(1))
    return out


def is_loop_type(mod, n):
    """A function with the parameters of an inner loop that is not registered statically."""
    f = mod.fn(n)
    return len(f.args) == 4 and all(a.ty.k == 'ptr' for a in f.args) and \
        not any(i.op == 'ret' and i.ops for b in f.blocks for i in b.insts)


def check_module(mv, pid):
    """Obligations of one property in all the functions of a module."""
    rows = []
    st = {'functions explored': 0, 'abstract states': 0, 'returns reached': 0}
    loops = loop_functions(mv)
    hooks = {r.process_core_dims for r in mv.regs if r.process_core_dims}
    used = referenced(open(mv.path).read())
    for n in mv.mod.fn_names():
        if REFOP.match(n) or KEEP_CALL.match(n) or n.startswith('PyInit') or \
                n not in loops and n not in used:
            continue
        fn = mv.mod.fn(n)
        isl = n in loops
        ls = loops.get(n)
        obj = bool(ls) and all(l.is_object for l in ls)
        res = 'status' if n in hooks else 'object' if not isl and \
            any(i.op == 'ret' and i.ops and i.ops[0].ty.k == 'ptr'
                for b in fn.blocks for i in b.insts) else None
        e = explore(fn, mv.mod, 1 if obj or not isl else 0, isl, obj, res)
        st['functions explored'] += 1
        st['abstract states'] += e.nstates
        st['returns reached'] += e.nexits
        for (p, r, i, d), ok in e.events.items():
            if p == pid:
                rows.append((p, r, ok, where(mv.mod, i), source_key(mv.mod, i), d,
                             '%s:%s' % (mv.name, n)))
    return rows, st


def source_key(mod, i):
    return call_target(i) or i.op if isinstance(i, ir.Inst) and i.op in ('call', 'invoke') \
        else getattr(i, 'op', 'argument')


def where(mod, i):
    f, l = mod.loc(i.dbg)[:2] if isinstance(i, ir.Inst) else ('', 0)
    return '%s:%s' % (f, l)
