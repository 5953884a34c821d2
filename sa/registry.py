"""The checks: which rules decide which property, and what they rest on."""
import os
import shutil
import subprocess
import tempfile
from . import build, config, contract, dtype, gendot, ir, loopcheck, pysrc, typestate
from .build import AnalysisBroken

TRUST_IR = ['clang 18 front end (the IR means what the C/C++ source means)',
            'the LLVM passes sroa, always-inline, simplifycfg, early-cse, instsimplify, '
            'loop-simplify and adce preserve behaviour',
            'the analysis in /verif/sa (symbolic evaluation, linear arithmetic, invariants)',
            'NumPy calls a loop with the operand layout that the registration declares '
            '(strides, dimensions[0] >= 1, core dimensions >= 0, process_core_dims obeyed) and '
            'resolves partial overlap of operands by copying']


class Check:
    needs_ir = True
    refs = False            # keep Py_INCREF/Py_DECREF as calls in the IR
    tree = None
    level = 'proof'
    trusted = TRUST_IR
    assumptions = ['integer arithmetic on addresses does not wrap around within one operand',
                   'the build of /repo compiles the sources that ufunclab/meson.build lists']
    floors = {}
    explanation = ''
    fixtures = ()

    def module(self, mv):
        return [], {}

    def selftest(self):
        pass


# --------------------------------------------------------------- self-test
class FakeReg:
    def __init__(self, name, signature, nin, nout, fn, types):
        self.name, self.signature, self.nin, self.nout = name, signature, nin, nout
        self.module, self.process_core_dims, self.problems = 'selftest', None, []
        self.loops = [contract.Loop(self, 0, fn, types)]

    dims = contract.Reg.dims


RED, ELT2 = '(n)->()', None


def fixture_module(name='selftest.c'):
    tmp = tempfile.mkdtemp(prefix='ufunclab-st-')
    try:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), name)
        bc, ll = os.path.join(tmp, 'st.bc'), os.path.join(tmp, 'st.ll')
        build._run([build.CLANG, '-std=c11', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang',
                    '-disable-lifetime-markers', '-g', '-fno-discard-value-names',
                    '-ffp-contract=off', '-fno-math-errno', '-emit-llvm', '-c', src, '-o', bc,
                    '-w'])
        build._run([build.OPT, '-S', '-passes=' + build.PASSES, bc, '-o', ll])
        return ir.Module(ll)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_fixture(mod, fn, sig, nin, nout, types, rule):
    reg = FakeReg(fn, sig, nin, nout, fn, types)
    u = loopcheck.Unit(mod, reg.loops[0], {})
    rule(u)
    return [o for o in u.obls if not o.ok]


class LoopRule(Check):
    """A rule that is applied to every registered loop and to the helpers they call."""

    def __init__(self, pid, explanation, floors, bad, level='proof', assumptions=()):
        self.pid, self.explanation, self.floors, self.bad = pid, explanation, floors, bad
        self.level = level
        self.assumptions = Check.assumptions + list(assumptions)

    def module(self, mv):
        rows, st = [], {'loops analysed': 0, 'basic blocks': 0, 'memory accesses': 0,
                        'call sites': 0, 'implications decided': 0, 'helper functions': 0}
        for u in mv.units():
            loopcheck.ALL[self.pid](u)
            rows += [o.tup() for o in u.obls]
            st['loops analysed' if u.loop is not None else 'helper functions'] += 1
            st['basic blocks'] += len(u.eng.cfg.rpo)
            st['memory accesses'] += len(u.acc)
            st['call sites'] += len(u.calls)
            st['implications decided'] += u.eng.nprove
        r, s = gendot.check_module(mv, self.pid)
        st.update(s)
        return rows + r, st

    def selftest(self):
        mod = fixture_module()
        rule = loopcheck.ALL[self.pid]
        tests = [('good_sum', RED, 1, 1, [12, 12], False)] + list(self.bad)
        for fn, sig, nin, nout, types, expect in tests:
            got = run_fixture(mod, fn, sig, nin, nout, types, rule)
            if bool(got) != expect:
                raise AnalysisBroken('self-test: rule %s %s on %s' % (
                    self.pid, 'is silent' if expect else 'fires', fn))


class DtypeRule(LoopRule):
    def module(self, mv):
        rows, st = super().module(mv)
        rows += dtype.table_obligations(mv.regs)
        rows += dtype.advertised_obligations(mv.regs, config.advertised(build.REPO))
        return rows, st


class TypestateRule(Check):
    """Path exploration of every function of every module; one property of the three."""
    refs = True

    def __init__(self, pid, explanation, floors, expect, assumptions=(), skip=()):
        self.skip = skip
        self.pid, self.explanation, self.floors, self.expect = pid, explanation, floors, expect
        self.assumptions = Check.assumptions + list(assumptions)

    def module(self, mv):
        if mv.name in self.skip:
            return [], {}
        return typestate.check_module(mv, self.pid)

    def selftest(self):
        mod = fixture_module('selftest_ref.c')
        for fn, gil, obj, want in self.expect:
            e = typestate.explore(mod.fn(fn), mod, gil, True, obj)
            got = {r for (p, r, _, _), ok in e.events.items() if p == self.pid and not ok}
            if want is None and got or want is not None and want not in got:
                raise AnalysisBroken('self-test: %s on %s reports %s, not %s' % (
                    self.pid, fn, sorted(got), want))


def bad(fn, sig=RED, nin=1, nout=1, types=(12, 12), expect=True):
    return (fn, sig, nin, nout, list(types), expect)


CHECKS = {}

CHECKS['P01'] = LoopRule(
    'P01', 'For every load, store and memory intrinsic of every registered inner loop the address '
    'is evaluated to a polynomial over the operand pointers, the strides, the dimensions and the '
    'iteration counters. Rule own-strides: an address inside operand k is args[k] + i*steps[k] + '
    'sum(j_d * core stride d of k); any other stride (or a multiple of a constant, unless the path '
    'has tested that the stride equals it) is a violation. Rule whole-elements: the access covers '
    'exactly one item of the registered dtype (or one component of a complex item).',
    {'whole-elements': 2300, 'loops analysed': 400}, [bad('bad_p01_stride'), bad('bad_p01_unit')])
CHECKS['P02'] = LoopRule(
    'P02', 'Every coordinate of every access is proved to lie in [0, extent) from the branch '
    'conditions that dominate it, inferred loop invariants and the guarantees of the '
    'process_core_dims hook; table and buffer accesses are compared with the object size.',
    {'operand-bounds': 2300, 'loop-arguments': 3500, 'alloca-bounds': 20, 'glob-bounds': 4,
     'vec-bounds': 4, 'heap-bounds': 4}, [bad('bad_p02')])
CHECKS['P03'] = LoopRule(
    'P03', 'Points-to classification of the target of every store, memory intrinsic and call '
    'argument of every loop: it has to be an output operand or memory that the call owns.',
    {'no-input-writes': 900}, [bad('bad_p03')])
CHECKS['P04'] = LoopRule(
    'P04', 'Backward must-write analysis: for a symbolic element of each output and for each '
    'return of each loop, every path from the entry assigns the element (case splits on the '
    'iterations that can assign it; induction over loops). Paths on which a Python error has '
    'been set are exempt.', {'output-assigned': 330}, [bad('bad_p04')])
CHECKS['P05'] = LoopRule(
    'P05', 'Reads of buffers, of stack objects and of outputs are proved to follow a write of the '
    'same bytes on every path (same analysis as P04); undefined SSA values (variables that a path '
    'leaves unassigned) must not flow, over feasible paths, into stores, branches or addresses; '
    'no loop reads or writes a global variable that is not constant.',
    {'initialised-before-read': 80, 'no-global-state': 40, 'loops analysed': 400},
    [bad('bad_p05_state'), bad('bad_p05_undef'), bad('bad_p05_heap')])
CHECKS['P06'] = LoopRule(
    'P06', 'Loop-carried dependence analysis of the loop over the broadcast dimension: its header '
    'variables are affine in the iteration number; all operands are used at the position of '
    'the iteration; all mutable memory that is read has been written in the same iteration.',
    {'outer-loop': 380, 'no-carried-value': 1500, 'same-position': 2300}, [bad('bad_p06')])
CHECKS['P07'] = LoopRule(
    'P07', 'Ordering analysis of element-wise loops: within one iteration no read of an input '
    'operand is reachable from a write of an output operand.',
    {'read-before-write': 90},
    [bad('bad_p07', None, 1, 2, (12, 12, 12)), bad('good_p07', None, 1, 2, (12, 12, 12), False)])
CHECKS['P08'] = DtypeRule(
    'P08', 'The type tables that the module initialisers pass to NumPy are compared with the code '
    'of each loop: every load and store of operand k has the IR type of the registered dtype '
    '(pure bit copies between equal dtypes excepted); integers are extended, converted, divided '
    'and compared with the signedness of the dtype; what is stored in a bool is 0 or 1; every '
    'entry has a loop function and distinct input types; the configuration files list exactly '
    'the registered signatures.',
    {'access-type': 2300, 'signedness': 700, 'loop-present': 450, 'bool-values': 60,
     'advertised-types': 200},
    [bad('p08_min', types=(5, 5), expect=False), bad('p08_min', types=(6, 6)),
     bad('p08_min', types=(11, 11)), bad('p08_min', types=(5, 6), expect=False)])
CHECKS['P12'] = LoopRule(
    'P12', 'Width analysis: no value derived from a dimension, a stride or an iteration counter '
    'is truncated to fewer bits unless it is proved to fit, and no counter narrower than 64 bits '
    'can be driven past its range.', {'loops-analysed': 900}, [bad('bad_p12')])
CHECKS['P13'] = LoopRule(
    'P13', 'Every integer division is proved to have a divisor that is not zero (and not -1 with '
    'the smallest dividend); the operand of every floating-point to integer conversion is proved '
    'to be a number inside the range of the target type, with an interval domain refined by the '
    'dominating comparisons.', {'safe-division': 30, 'safe-conversion': 12},
    [bad('bad_p13_div', types=(7, 7)), bad('bad_p13_conv')])
CHECKS['P14'] = LoopRule(
    'P14', 'Backward slice of the value of every store to a floating-point output, through '
    'registers, buffers, calls: no rounding to, arithmetic in, or call computing in a type '
    'narrower than the output.', {'slices': 200}, [bad('bad_p14')], level='other')
CHECKS['P15'] = LoopRule(
    'P15', 'For every natural loop a ranking function is found: an integer expression bounded '
    'below in the loop that decreases on every path back to its header.',
    {'ranking': 950}, [bad('bad_p15')])

CHECKS['P09'] = TypestateRule(
    'P09', 'Every path of every function is explored with the state of the GIL (not held on entry '
    'to a loop that has no object operand, held elsewhere). Rule gil-held: each call of a Python '
    'or NumPy C API function, and each reference count operation, happens with the GIL held '
    '(PyGILState_*, PyMem_Raw* and the documented exceptions aside). Rule balanced: each release '
    'matches an acquisition and each return has the state of the entry.',
    {'balanced': 600, 'gil-held': 120},
    [('p09_good', 0, False, None), ('p09_nogil', 0, False, 'gil-held'),
     ('p09_unreleased', 0, False, 'balanced'), ('p09_released_twice', 0, False, 'balanced')],
    ['NumPy releases the GIL around a loop exactly when no operand of the loop is of dtype '
     'object'])
CHECKS['P10'] = TypestateRule(
    'P10', 'Every path of every function is explored with the number of references that the '
    'function owns of each object (results of API calls that return new references, elements of '
    'object operands, increments, decrements, stores to object outputs, returned objects, stolen '
    'references); a failing API call is followed separately. Rule balanced: no reference is owned '
    'or owed at the end of a path. Rule overwritten: the reference that an output element held is '
    'released when it is replaced. Rule not-null: no count of a possibly null result is changed.',
    {'balanced': 60, 'refcount-operations': 35, 'new-references': 20, 'overwritten': 5},
    [('p10_good', 1, True, None), ('p10_leak', 1, True, 'balanced'),
     ('p10_borrowed', 1, True, 'balanced'), ('p10_overwrite', 1, True, 'overwritten'),
     ('p10_null', 1, True, 'not-null')],
    ['module initialisation (run once) is not part of the property'])
CHECKS['P11'] = TypestateRule(
    'P11', 'Every path of every function is explored with the state of each allocated buffer '
    '(untested, null, live, released, handed over); both outcomes of every allocation are '
    'followed. Rules: tested before use, used only while live, released exactly once on every path '
    'to a return, MemoryError set on the failure path, C++ allocation failures caught inside the '
    'loop.',
    {'allocations': 4, 'checked-before-use': 30, 'released': 4, 'released-once': 4,
     'memory-error': 3, 'allocation-failure-caught': 6},
    [('p11_good', 0, False, None), ('p11_unchecked', 0, False, 'checked-before-use'),
     ('p11_leak', 0, False, 'released'), ('p11_twice', 0, False, 'released-once'),
     ('p11_after', 0, False, 'use-after-release'), ('p11_silent', 0, False, 'memory-error')])
CHECKS['P17'] = TypestateRule(
    'P17', 'Every path of every loop, shape hook and function is explored with the state of the '
    'Python error indicator; each API call that can fail is followed with both outcomes. Rule '
    'stops-at-error: no API call other than clean-up and error handling happens while an exception '
    'is set. Rule not-discarded: no loop clears an exception. Rules hook-result, null-means-error, result-means-success: what a function returns '
    'agrees with the error indicator.',
    {'stops-at-error': 20, 'hook-result': 8, 'null-means-error': 1, 'result-means-success': 1},
    [('p10_good', 1, True, None), ('p17_ignored', 1, True, 'stops-at-error'),
     ('p17_next_row', 1, True, 'stops-at-error'),
     ('p17_discard', 1, True, 'not-discarded')],
    ['ufunc_inspector, which only prints, is not part of the property'],
    skip=('_ufunc_inspector',))
CHECKS['P16'] = LoopRule(
    'P16', 'The value of every store to an output that holds positions (argmin, argmax, argminmax, '
    'min_argmin, max_argmax, argfirst, searchsortedl, searchsortedr) is proved to lie in the range '
    'of the definition from the branch conditions and inferred loop invariants.',
    {'valid-position': 80},
    [bad('good_p16', types=(12, 7), expect=False), bad('bad_p16', types=(12, 7))],
    assumptions=['the shape hook of the reductions rejects empty core dimensions (checked: the '
                 'guarantees of the hooks are derived from their code)'])

CHECKS['P18'] = LoopRule(
    'P18', 'Abstract interpretation of one iteration of the loops that select by comparing, in the '
    'domain of order relations: for each way in which the element can compare with the values it '
    'is compared with (less, equal, greater, unordered), the conditions of the iteration are '
    'decided and its effect (which carried values are updated, whether the walk ends, what is '
    'stored) is compared with the transfer function of the definition; the initial values and '
    'the values stored after the last iteration close the induction. Rule element-used: the '
    'whole sequence takes part.',
    {'kernels-decided': 60, 'element-used': 60},
    [bad('good_p18', types=(12, 7), expect=False), bad('bad_p18', types=(12, 7))])
CHECKS['P19'] = LoopRule(
    'P19', 'Backward must-read analysis: a symbolic element of each input sequence is read on '
    'every path from the entry of the loop to its return (case splits on the iterations that can '
    'read it; induction over loops). Only branches decided by counters, dimensions and strides '
    'are followed; a branch that the data decide is taken in the direction that reads more. Rule '
    'operand-used: each input operand is read.',
    {'element-used': 400, 'operand-used': 600}, [bad('bad_p19')])
CHECKS['P20'] = LoopRule(
    'P20', 'Abstract interpretation of the loop body in the domain of rational functions over the '
    'operands and uninterpreted (or elementary) functions, for each case of the documented '
    'formula (an order relation between operands and constants): the normal form of what is '
    'stored must be the documented expression. Normal forms that differ are a violation only if '
    'random interpretation (evaluation of both forms, not of the code, at random values that '
    'satisfy the case and the branch conditions) separates them.',
    {'formula': 250},
    [bad('good_p20', sig='(),()->()', nin=2, types=(12, 12, 12), expect=False),
     bad('bad_p20', sig='(),()->()', nin=2, types=(12, 12, 12))],
    assumptions=['rounding is not modelled: a formula is an expression over the reals'])

CHECKS['P21'] = LoopRule(
    'P21', 'Loop summarisation: the loops over the elements of a row are replaced by closed forms '
    '(recurrences of sums, products and extrema, with conditional terms, are solved by induction '
    'over the iteration counter), and what a path of the kernel stores becomes an expression over '
    'the elements and sums, products and extrema of them, under the conditions of the path. The '
    'expressions of the paths are compared with the documented quantity by random interpretation '
    '(evaluation of the expressions, not of the code, for random lengths and sequences): rule '
    'quantity fails if a path whose summary is exact gives another quantity.',
    {'quantity': 40},
    [bad('good_p21', types=(12, 12), expect=False), bad('bad_p21', types=(12, 12))],
    level='other',
    assumptions=['sequences are finite numbers (no NaN or infinite elements)',
                 'rounding and overflow are not modelled',
                 'equality of two closed forms is decided by evaluation at random sequences'])

for _p in ('P03', 'P04', 'P05', 'P12', 'P14', 'P17'):
    CHECKS[_p].tree = pysrc.tree_check(_p)
    CHECKS[_p].floors['Python functions interpreted'] = 4
CHECKS['P22'] = LoopRule(
    'P22', 'Loop summarisation with recurrences: what one iteration does to the values that it '
    'carries and to the memory that it updates (outputs, or work memory that the call owns) is '
    'abstracted to a transfer function (expressions over the state, the elements and the counters, '
    'for each path); positions that an inner loop reads are proved not to be written by another of '
    'its iterations. The summary of a kernel, i.e. its initial state, transfer functions and '
    'stores, is compared with the recurrence of the documentation by random interpretation (the '
    'abstract recurrences are evaluated for random states and sequences, not the code): rule '
    'recurrence fails if a path whose summary is exact gives another sequence.',
    {'recurrence': 40},
    [bad('good_p22', sig='(n)->(n),(m)', nout=2, types=(12, 12, 12), expect=False),
     bad('bad_p22', sig='(n)->(n),(m)', nout=2, types=(12, 12, 12))],
    level='other',
    assumptions=['sequences are finite numbers (no NaN or infinite elements)',
                 'allocations succeed, and the operands do not overlap',
                 'rounding and overflow are not modelled',
                 'equality of two recurrences is decided by evaluation at random sequences'])
