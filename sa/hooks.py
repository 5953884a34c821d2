"""What a process_core_dims hook guarantees about the core dimensions when it succeeds."""
from . import ir
from .engine import Engine, Ctx, callee_name
from .sym import Poly

MAXLOW = 3


def guarantees(mod, hook):
    """{core dimension index: lower bound} that holds whenever the hook returns 0.

    NumPy passes sizes that are already fixed by the inputs (>= 0).
    """
    fn = mod.fn(hook)
    e = Engine(fn, mode='hook')
    e.houdini()
    written = set()
    for i in fn.insts():
        if i.op == 'store':
            b, off = e.base_of(e.sym(i.ops[1]))
            if b is not None and e.key(b) == ('arg', 1):
                written.add(off.cval() // 8 if off.is_const() else None)
    cds = {}
    for a, k in enumerate(e.A.keys):
        if k[0] == 'cd':
            cds[k[1]] = a
    rets = []
    for b in e.cfg.rpo:
        if b.term.op == 'ret' and b.term.ops:
            rets += _ret_cases(e, b.term.ops[0], b, [], 0)
    out = {}
    for k in range(8):
        if k in written or None in written:
            continue
        low = None
        for c in range(1, MAXLOW + 1):
            if rets and all(e.prove(e.patom(('cd', k)) - c, ctx) for ctx in rets):
                low = c
        if low:
            out[k] = low
    return out


def _ret_cases(e, v, blk, facts, depth):
    """Contexts in which the function returns 0 (or an unknown value)."""
    if isinstance(v, ir.Const):
        return [Ctx(facts + e.items(blk))] if v.kind != 'int' or v.val == 0 else []
    if isinstance(v, ir.Inst) and v.op == 'phi' and depth < 6 and v.blk not in e.latch_of:
        out = []
        for o, p in zip(v.ops, v.x):
            out += _ret_cases(e, o, p, facts + e.edge_facts(p, v.blk), depth + 1)
        return out
    if isinstance(v, ir.Inst) and v.op == 'select' and depth < 6:
        return (_ret_cases(e, v.ops[1], blk, facts + e.cond_facts(v.ops[0], True), depth + 1) +
                _ret_cases(e, v.ops[2], blk, facts + e.cond_facts(v.ops[0], False), depth + 1))
    return [Ctx(facts + [('eq', e.sym(v))] + e.items(blk))]


def dim_facts(reg_guarantees, dimnames):
    """Engine hook facts for a loop: lower bounds of dimensions[]."""
    low = {0: 1}
    for k, c in reg_guarantees.items():
        low[k + 1] = c

    def f(eng, d):
        c = low.get(d)
        return [('ge', eng.patom(('dim', d)) - c)] if c else []
    return f
