"""The properties, in one place.  `python3-vt -m sa.props` rewrites properties.jsonl."""
import json
import os

LOOPS = ['src', 'tools/cxxgen', 'tools/conv_template.py', 'ufunclab/meson.build']


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}


GEN = ('generated *_loop functions', 'tools/cxxgen/gufuncgen.py, tools/cxxgen/generate_ufunc_extmod.py')

PROPS = [
    P('P01', 'Every operand is addressed through its own strides and item size',
      'For every ufunc and gufunc, every supported dtype and every memory layout of the operands '
      '(any stride: negative, zero, padded, transposed, broadcast), each element that a call reads '
      'or writes is a whole, correctly sized element of one operand, found with the strides that '
      'NumPy passed for that same operand. No result depends on how the operands happen to be laid '
      'out in memory.',
      ['inputs', 'configurations'],
      'all stride vectors and all shapes of all operands of every registered loop',
      'The tests use mostly contiguous arrays of one or two layouts; a loop that uses the wrong '
      'operand\'s stride, or assumes unit stride on one path, agrees with them on every contiguous '
      'input.',
      ['src', 'src/util/strided.hpp', 'tools/cxxgen'],
      [GEN, ('get()/set() of strided.hpp', 'src/util/strided.hpp'),
       ('hand written loops', 'src/*/*.c.src, src/*/*_gufunc.h, src/*/*.c')]),
    P('P02', 'No access outside the operands, the tables and the work buffers',
      'Whatever the shapes and the values of the inputs are (empty core dimensions, NaN, '
      'out-of-range or negative indices, extreme integers), a call never reads or writes outside '
      'the arrays it was given, the constant tables it uses, or the temporary buffers it allocates.',
      ['inputs', 'configurations'],
      'all dimension sizes, all input values, every loop of every module',
      'Out-of-bounds reads rarely crash and the tests never run with a checker; the values that '
      'trigger them (length 0 or 1, index equal to n, NaN keys) are mostly absent from the tests.',
      ['src'],
      [('index guards', 'src/bincount/bincount_gufunc.h, src/one_hot/one_hot_gufunc.h, '
        'src/tri_area/tri_area_gufunc.h'),
       ('binary searches', 'src/searchsorted/searchsorted_gufunc.c.src, '
        'src/linear_interp1d/linear_interp1d_gufunc.c.src'),
       ('table guards', 'src/logfactorial/logfactorial.c, src/loggamma1p/loggamma1p.c'),
       ('process_core_dims hooks', 'src/minmax, src/mad, src/corr, src/meanvar, src/vnorm, '
        'src/wjaccard')]),
    P('P03', 'Inputs are never modified',
      'Calling any function of the library leaves every input array bit-for-bit as it was; only '
      'output operands are written.',
      ['inputs', 'configurations'],
      'all inputs, dtypes and layouts of every loop',
      'Tests check returned values and do not compare the inputs before and after the call.',
      ['src'],
      [('stores go to output operands only', 'src/*'), GEN]),
    P('P04', 'Every element of every output is assigned',
      'When a call returns without raising, every element of every output array has been assigned '
      'by that call, for every shape (including core dimensions of length 0), every dtype and every '
      'input value: no element is left with the memory contents it had before. The only exception '
      'is the documented accumulation of bincount in out.',
      ['inputs', 'configurations'],
      'all shapes, all input values and all branches of every loop',
      'An unassigned element usually reads as zero or as a stale value in a fresh array, so a test '
      'that hits it can still pass; most branches (invalid parameter, empty input) are not tested.',
      ['src', 'tools/cxxgen'],
      [('stores on each path', 'src/*'), GEN,
       ('zero-initialised accumulation target', 'ufunclab/_wrapped.py')]),
    P('P05', 'Results never come from uninitialised memory or from hidden state',
      'No value that a call computes depends on memory that the call has not initialised, nor on '
      'anything left behind by an earlier call: the numeric code keeps no mutable global state, so '
      'the same inputs always give the same result, also when several threads call the library.',
      ['inputs', 'histories', 'schedules'],
      'all inputs, all sequences of calls, all thread interleavings of calls on distinct outputs',
      'A stale read gives plausible numbers, and one call in a fresh process hides static state.',
      ['src'],
      [('temporary buffers are filled before use', 'src/sosfilter/sosfilter_gufunc.h, '
        'src/mad/mad_gufunc.h, src/gendot/gendotmodule.c'),
       ('only const tables at file scope', 'src/*')]),
    P('P06', 'Each row of a broadcast call is computed independently of the others',
      'When a function is applied to many rows or elements in one call, the result for one of them '
      'depends only on the inputs of that one: no accumulator, buffer, index or flag is carried '
      'from one broadcast iteration to the next, and every iteration uses all operands at the same '
      'broadcast position.',
      ['inputs', 'configurations'],
      'all numbers of rows, all contents of the other rows',
      'Most tests call a function with one row, or with rows for which a carried value makes no '
      'difference.',
      ['src', 'tools/cxxgen'],
      [('outer loop of every inner-loop function', 'tools/cxxgen/gufuncgen.py, src/*'),
       ('per-row initialisation', 'src/*/*_gufunc.h')]),
    P('P07', 'Element-wise functions may be called in place',
      'For every element-wise function, using one of the inputs as the output array gives the same '
      'result as using a separate output: all inputs for an element are read before any output of '
      'that element is written, and elements are processed one at a time.',
      ['inputs'],
      'every element-wise function, dtype and input used as out',
      'No test calls the functions in place.',
      ['tools/cxxgen/generate_ufunc_extmod.py', 'src'],
      [('generated element-wise loops', 'tools/cxxgen/generate_ufunc_extmod.py'),
       ('hand written element-wise loops', 'src/abssq, src/debye1, src/log1p, src/logfactorial, '
        'src/loggamma1p, src/issnan')]),
    P('P08', 'Each loop treats its operands as the dtypes it is registered for',
      'For every registered type signature, the code that runs reads and writes each operand as '
      'exactly that dtype: the size, the integer or floating kind and the signedness agree, the '
      'number of inputs, outputs and core dimensions agree with the declared signature, and every '
      'advertised signature has its own loop.',
      ['inputs', 'configurations'],
      'every entry of every type table',
      'Tests exercise a few dtypes of each function; a swapped or mistyped table entry only shows '
      'for the dtype concerned, sometimes only for values beyond half of its range.',
      ['tools/cxxgen', 'src', 'ufunclab/meson.build'],
      [('type tables and loop tables', 'tools/cxxgen/*.py, src/*/*_ufunc.c, src/*/*.c.src'),
       ('ufunc_config / define_*_extmod.py', 'src/*')]),
    P('P09', 'The Python C API is only used while holding the GIL',
      'No loop that NumPy runs without the GIL touches Python objects or the Python error state '
      'without first acquiring the GIL, and whatever is acquired is released exactly once on every '
      'path.',
      ['schedules', 'inputs', 'fault_sequences'],
      'all paths through every loop registered for non-object dtypes',
      'A missing acquire crashes only when another thread runs at that moment or when the error '
      'path is taken; tests do neither.',
      ['src'],
      [('NPY_ALLOW_C_API / PyGILState_Ensure around errors', 'src/sosfilter/sosfilter_gufunc.h, '
        'src/gendot/gendotmodule.c, src/ordered, src/percentileofscore, src/first')]),
    P('P10', 'Object loops neither leak nor over-release references',
      'After any call on object arrays, and after creating ufuncs at run time, every reference '
      'that the code acquired has been released or stored, and no borrowed reference has been '
      'released: reference counts are balanced on every path, including the paths where a Python '
      'operation fails.',
      ['inputs', 'fault_sequences', 'histories'],
      'all paths of every object loop and of the functions that create Python objects',
      'Tests look at values, not at reference counts, and never make an element operation raise.',
      ['src/cross/cross_gufunc.h', 'src/first/first_gufunc.h', 'src/minmax/minmax_gufunc.h',
       'src/peaktopeak/peaktopeak_gufunc.c.src', 'src/all_same/all_same_gufunc.h',
       'src/ordered/ordered_gufunc.h', 'src/gendot/gendotmodule.c',
       'src/ufunc-inspector/ufunc_inspector.c'],
      [('Py_INCREF / Py_DECREF / Py_XSETREF in the object loops', 'src/*')]),
    P('P11', 'Temporary buffers are checked, never leaked, never used after release',
      'Every temporary buffer that a call allocates is tested for allocation failure before it is '
      'used (with MemoryError raised on failure), and is released exactly once on every path, '
      'after its last use.',
      ['fault_sequences', 'inputs'],
      'all paths, allocation failure at every allocation',
      'Tests never make an allocation fail and do not measure leaks.',
      ['src/sosfilter/sosfilter_gufunc.h', 'src/gendot/gendotmodule.c', 'src/mad/mad_gufunc.h',
       'src/ufunc-inspector/ufunc_inspector.c'],
      [('malloc/calloc/free pairs, std::vector', 'src/*')]),
    P('P12', 'Sizes and positions are never truncated',
      'Array lengths, indices and byte offsets keep their full 64-bit width from the shape and '
      'strides that NumPy passes to the address that is formed, so arrays with more than 2**31 '
      'elements, or spanning more than 2**31 bytes, work like small ones.',
      ['inputs'],
      'all lengths and strides up to the address space',
      'A test would need arrays of several gigabytes.',
      ['src', 'tools/cxxgen'],
      [('npy_intp loop counters', 'src/*, tools/cxxgen/*.py')]),
    P('P13', 'No input makes the arithmetic trap or undefined',
      'For every input value, integer division never has a zero divisor nor the overflowing '
      'quotient, and a floating-point value is converted to an integer only when the integer type '
      'can hold it: NaN, infinities and huge values never crash the interpreter or give a '
      'compiler-dependent result.',
      ['inputs'],
      'all values of all numeric inputs',
      'The trapping operands (zero or -1 divisors, NaN, values past 2**63) are single points that '
      'the tests do not contain.',
      ['src/convert_to_base/convert_to_base_gufunc.h', 'src/expint1/expint1.h',
       'src/unwrap/unwrap_gufunc.h', 'src/normal/erfcx_funcs.cxx', 'src/debye1', 'src/logfactorial',
       'src'],
      [('guards before / and %, and before casts', 'src/*')]),
    P('P14', 'Computations are done at least in the precision of their dtype',
      'A result of double precision never passes through single precision, and a result of '
      'extended precision never passes through double or single precision, anywhere between the '
      'inputs and the output; the same holds for complex values.',
      ['inputs'],
      'all paths from the inputs to the outputs of the double and long double loops',
      'The tests of the long double loops are few and use tolerances that a loss of 11 bits can '
      'pass.',
      ['src', 'tools/cxxgen'],
      [('templates instantiated per type; std:: overloads; l-suffixed math functions', 'src/*')]),
    P('P15', 'Every call terminates',
      'Every loop in the numeric code terminates for every input, including NaN, infinities, '
      'extreme integers, unsorted or empty arrays.',
      ['inputs'],
      'all input values and all shapes, every loop in the compiled code',
      'A hang appears only for the specific input (NaN, midpoint rounding, unsigned counter) that '
      'defeats the exit condition.',
      ['src'],
      [('loop variants', 'src/*')]),
    P('P16', 'Positions returned by the library are valid positions',
      'Every position that argmin, argmax, argminmax, min_argmin or max_argmax returns for a '
      'sequence of length n lies in 0..n-1, every position that argfirst returns in -1..n-1, and '
      'every position that searchsortedl or searchsortedr returns in 0..n, for every input '
      'including NaN, ties and unsorted data.',
      ['inputs'],
      'all lengths and all contents of the sequences',
      'The tests check a few sequences; the bound has to hold for NaN, ties and unsorted input '
      'as well.',
      ['src/minmax/minmax_gufunc.h', 'src/first/first_gufunc.h',
       'src/searchsorted/searchsorted_gufunc.c.src'],
      [('arg results', 'src/minmax/minmax_gufunc.h, src/first/first_gufunc.h'),
       ('binary search bounds', 'src/searchsorted/searchsorted_gufunc.c.src')]),
    P('P17', 'Errors raised during a call reach the caller unchanged',
      'When an operation on an element raises, or an argument is rejected, the computation stops: '
      'no further Python operation is carried out while that exception is set, so the caller '
      'receives exactly that exception; a shape hook or function that reports failure has set an '
      'exception, and one that reports success has not.',
      ['inputs', 'fault_sequences'],
      'every operation that can fail, on every path, in every row of a broadcast call',
      'The tests never make an element operation raise; an ignored exception surfaces later as a '
      'SystemError or as the wrong exception.',
      ['src', 'tools/cxxgen/gufuncgen.py'],
      [('results of PyObject_RichCompareBool and PyNumber_*', 'src/*'),
       ('generated object loops', 'tools/cxxgen/gufuncgen.py'),
       ('process_core_dims functions', 'src/*')]),
    P('P18', 'Searches and selections return the first element or position that qualifies',
      'argmin, argmax, argminmax, min_argmin, max_argmax and minmax return the least and the '
      'greatest element and the position of its first occurrence; first and argfirst return the '
      'first element that satisfies the comparison with the target (or `otherwise`, -1); all_same '
      'and ordered report exactly whether every (adjacent) pair satisfies the relation; '
      'searchsortedl and searchsortedr return the leftmost and the rightmost insertion point of a '
      'sorted array; hysteresis_relay switches above the high and below the low threshold and '
      'keeps its state in between. All elements take part, for every dtype and length; ties, '
      'repeated values and (where the comparison is with one element) NaN included.',
      ['inputs'],
      'all sequences: every order relation between the current element and what it is compared '
      'with, at every position',
      'The tests use a few short sequences; a wrong tie rule, a skipped element or a wrong '
      'branch for one relation or one operator shows only for specific data.',
      ['src/minmax', 'src/first', 'src/all_same', 'src/ordered', 'src/searchsorted',
       'src/hysteresis_relay'],
      [('min and max kernels', 'src/minmax/minmax_gufunc.h'),
       ('first, argfirst', 'src/first/first_gufunc.h'),
       ('all_same, ordered', 'src/all_same/all_same_gufunc.h, src/ordered/ordered_gufunc.h'),
       ('binary searches', 'src/searchsorted/searchsorted_gufunc.c.src'),
       ('hysteresis_relay', 'src/hysteresis_relay/hysteresis_relay_gufunc.h')]),
    P('P19', 'Every element of every input sequence takes part in the result',
      'Unless the data themselves end the computation (an early match, a weight, an error), each '
      'element of each input sequence, the first and the last included, is used for every '
      'length, and every operand and parameter of a function has an influence on its code: no '
      'element is skipped because of a loop bound, an unrolled loop, a stride or a fast path.',
      ['inputs'],
      'all shapes and strides of all functions that take sequences; every element',
      'A loop that misses the last element of some lengths, or a fast path that ignores an '
      'operand, gives plausible numbers; the tests sample a few lengths and layouts.',
      ['src', 'tools/cxxgen'],
      [('loops over core dimensions', 'src/*'),
       ('generated loops', 'tools/cxxgen/gufuncgen.py')]),
    P('P20', 'Element-wise functions equal their documented piecewise formulas',
      'In every region of their domain (below, at, between and above the thresholds; zero, '
      'negative and positive parameters; the limiting parameter values; NaN and infinities where '
      'the documentation names them) the element-wise functions evaluate the documented formula: '
      'deadzone, step, linearstep, smoothstep3, invsmoothstep3, smoothstep5, trapezoid_pulse, '
      'hyperbolic_ramp, exponential_ramp, the semivariograms, logistic, logistic_deriv, '
      'log_logistic, swish, yeo_johnson and its inverse, pow1pm1, abs_squared, nan_to_num, '
      'hypot3, next_greater, next_less, the normal distribution functions, cross2 and cross3.',
      ['inputs'],
      'all values of all operands: every case of the formula, as an identity between expressions',
      'The tests evaluate a few points per function and dtype; a wrong branch condition or a '
      'wrong term in one region, or in one dtype, passes them.',
      ['src/deadzone', 'src/step', 'src/trapezoid_pulse', 'src/ramp', 'src/semivar',
       'src/logistic', 'src/yeo_johnson', 'src/pow1pm1', 'src/abs_squared', 'src/abssq',
       'src/nan_to_num', 'src/hypot3', 'src/next', 'src/normal', 'src/cross'],
      [('step functions', 'src/step/step.h'),
       ('trapezoid_pulse', 'src/trapezoid_pulse/trapezoid_pulse.h'),
       ('yeo_johnson', 'src/yeo_johnson/yeo_johnson.h'), ('ramps', 'src/ramp/ramp.h'),
       ('semivariograms', 'src/semivar/semivar.h'), ('logistic', 'src/logistic/logistic.h'),
       ('cross2, cross3', 'src/cross/cross_gufunc.h')]),
    P('P21', 'Reductions compute the documented quantity for every length',
      'For finite input sequences of every length that the function accepts, real or complex '
      'and of every dtype, the reductions evaluate (up to rounding) the quantity that the '
      'documentation defines: meanvar (with any ddof), vnorm (each kind of order), rms, vdot, '
      'kbnsum, pearson_corr, wjaccard, multivariate_logbeta, percentileofscore (each kind), '
      'softmax, tri_area, tri_area_indexed, peaktopeak, the geometric, harmonic and power means and their weighted '
      'variants. Short sequences, constant sequences, zeros, repeated '
      'values and ties are no exception: the special cases in the code agree with the definition.',
      ['inputs'],
      'all finite sequences of every length: every path of the kernel, summarised in closed form',
      'The tests compare a few short sequences; a wrong special case, a wrong tie rule or a wrong '
      'divisor shows only for particular lengths, values or dtypes.',
      ['src/meanvar', 'src/vnorm', 'src/kbnsum', 'src/corr', 'src/wjaccard',
       'src/multivariate_logbeta', 'src/percentileofscore', 'src/softmax', 'src/tri_area',
       'src/means', 'src/peaktopeak'],
      [('meanvar', 'src/meanvar/meanvar_gufunc.h'), ('vnorm, rms, vdot', 'src/vnorm/vnorm_gufunc.h'),
       ('pearson_corr', 'src/corr/corr_gufunc.h'),
       ('percentileofscore', 'src/percentileofscore/percentileofscore_gufunc.h'),
       ('softmax', 'src/softmax/softmax_gufunc.h'), ('tri_area', 'src/tri_area/tri_area_gufunc.h')]),
    P('P22', 'Filters and sequence functions follow their defining recurrence',
      'For finite inputs of every length the recursive functions produce the sequence that their '
      'recurrence defines, up to rounding: sosfilter, sosfilter_ic, sosfilter_ic_contig (cascaded '
      'transposed direct form II sections, with initial and final conditions), backlash and '
      'backlash_sum (with the final states), unwrap (each value is moved by the multiple of the '
      'period that is closest to its predecessor; everything from an infinite element after the '
      'first one on is nan), nextn_greater and nextn_less (successive '
      'neighbours), convert_to_base (successive digits, for k >= 0 and base >= 2), bincount and '
      'bincountw (each bin of the given out array grows by the count or weight), one_hot. This '
      'holds for contiguous and strided operands alike.',
      ['inputs', 'histories'],
      'all finite input sequences of every length: the transfer function of every iteration',
      'The tests filter a few short signals with one or two sections and contiguous arrays; a '
      'wrong state update in the strided variant, in a later section or at the end of the signal '
      'passes them.',
      ['src/sosfilter', 'src/backlash', 'src/unwrap', 'src/nextn', 'src/convert_to_base',
       'src/bincount', 'src/one_hot'],
      [('sosfilter', 'src/sosfilter/sosfilter_gufunc.h'),
       ('backlash', 'src/backlash/backlash_gufunc.h'), ('unwrap', 'src/unwrap/unwrap_gufunc.h'),
       ('convert_to_base', 'src/convert_to_base/convert_to_base_gufunc.h'),
       ('bincount', 'src/bincount/bincount_gufunc.h')]),
]


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)


if __name__ == '__main__':
    main()
