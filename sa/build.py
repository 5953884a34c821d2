"""Build LLVM IR for every extension module that /repo's meson.build builds.

The module list, the source lists and the code generators are read from the
repository itself (ufunclab/meson.build and tools/), so the analysed program is
the one the real build compiles.  Everything is written to a scratch directory.
"""
import os, re, sys, ast, json, shutil, subprocess, tempfile, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
CLANG = 'clang-18'
CLANGXX = 'clang++-18'
OPT = 'opt-18'
LINK = 'llvm-link-18'
NM = 'llvm-nm-18'


class AnalysisBroken(Exception):
    """The tree can not be analysed (anchor vanished, does not compile, ...)."""


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def _find_numpy_include():
    cands = [os.path.join('/opt/venv/lib', d, 'site-packages/numpy/_core/include')
             for d in sorted(os.listdir('/opt/venv/lib')) if d.startswith('python3')]
    for c in cands:
        if os.path.isdir(c):
            return c
    raise AnalysisBroken('numpy headers not found')


def _pylist(text, name, path):
    m = re.search(r'^%s\s*=\s*\[(.*?)^\]' % re.escape(name), text, re.S | re.M)
    if not m:
        raise AnalysisBroken('list %s not found in %s' % (name, path))
    body = re.sub(r'#.*', '', m.group(1))
    return ast.literal_eval('[' + body + ']')


def module_specs(repo=REPO):
    """Return a list of dicts describing the extension modules of meson.build."""
    path = os.path.join(repo, 'ufunclab', 'meson.build')
    text = open(path).read()
    specs = []
    for d in _pylist(text, 'gufunc_cxx_src_dirs', path):
        specs.append(dict(kind='cxxgufunc', dir=d, module='_' + d))
    for d in _pylist(text, 'ufunc_cxx_src_dirs_simple', path):
        specs.append(dict(kind='cxxufunc', dir=d,
                          module=d if d == 'semivar' else '_' + d))
    if re.search(r"generate_ufuncs\.py',\s*\n\s*'\.\./src/normal/", text):
        specs.append(dict(kind='cxxufunc', dir='normal', module='normal',
                          extra=['erfcx_funcs.cxx']))
    for d in _pylist(text, 'numpy_templated_c_gufunc_dirs', path):
        specs.append(dict(kind='ctmpl', dir=d, module='_' + d,
                          src=d + '_gufunc.c.src'))
    for d in _pylist(text, 'numpy_templated_c_ufunc_dirs', path):
        specs.append(dict(kind='ctmpl', dir=d, module='_' + d,
                          src=d + '_ufunc.c.src'))
    for m in re.finditer(r'^modules\s*=\s*\[(.*?)^\]', text, re.S | re.M):
        body = re.sub(r'#.*', '', m.group(1))
        for name, srcs in ast.literal_eval('[' + body + ']'):
            specs.append(dict(kind='plain', module=name,
                              srcs=[s for s in srcs if not s.endswith('.h')]))
    return specs


def cflags(repo, gen):
    return ['-I' + gen, '-I' + os.path.join(gen, 'p'), '-I' + os.path.join(repo, 'ufunclab'),
            '-I' + _find_numpy_include(), '-I/usr/include/python3.12',
            '-I/usr/include/x86_64-linux-gnu/python3.12',
            '-fvisibility=hidden', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64',
            '-fPIC', '-w']


SIMPLIFYCFG = ('simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup;'
               'no-sink-common-insts;no-hoist-common-insts;keep-loops;'
               'bonus-inst-threshold=0>')
# The first run inlines and turns variables into SSA values; the second simplifies.
PASSES1 = 'forceattrs,function(sroa),always-inline,globaldce,function(sroa)'
PASSES = ('function(%s,early-cse,instsimplify,sroa,%s,'
          'loop-simplify,lcssa,loop-unroll<O2;full-unroll-max=8;no-partial;no-peeling;no-runtime;'
          'no-upperbound>,sroa,early-cse,instsimplify,%s,jump-threading,loop-simplify,instsimplify,adce)'
          % (SIMPLIFYCFG, SIMPLIFYCFG, SIMPLIFYCFG))

# C++ library functions that are modelled, not analysed.
KEEP_CALL = re.compile(r'^(_ZSt4sort|_ZSt11stable_sort|_ZSt13__introsort_loop'
                       r'|_ZNSt6vectorI.*(6resizeE|D[012]Ev|17_M_default_append|C[12]Em|6assignEm|aSEOS)'
                       r'|__clang_call_terminate)')


# In the `refs` variant of the IR the reference count operations stay calls too.
REF_CALL = re.compile(r'^(_ZL\d+)?Py_X?(INCREF|DECREF)(P7_object)?$|'
                      r'^(_ZL\d+)?_?Py_(X?NewRef|SET_REFCNT)(P7_object)?$')


def _force_attrs(linked, out, refs=False):
    text = _run([NM, '--defined-only', '--format=just-symbols', linked])
    csv = linked[:-3] + '.attrs.csv'
    remove = ['-force-remove-attribute=noinline']
    with open(csv, 'w') as f:
        for name in text.split():
            if refs and REF_CALL.match(name):
                remove.append('-force-remove-attribute=%s:alwaysinline' % name)
                f.write(name + ',noinline\n')
            elif not KEEP_CALL.match(name):
                f.write(name + ',alwaysinline\n')
    if refs:
        remove[0:1] = ['-force-remove-attribute=%s:noinline' % n for n in text.split()
                       if not REF_CALL.match(n)]
    return csv, remove


_ALLOCA = re.compile(r'  (%[-\w.$]+) = alloca (float|double|x86_fp80|i\d+|ptr), align \d+')


def _rewrite(path, f):
    with open(path) as h:
        text = h.read()
    with open(path, 'w') as h:
        h.write(f(text))


def mark_unassigned(text):
    """Give each scalar variable an opaque initial value, `freeze undef`.  No pass can then pick
    a convenient value for a variable that a path leaves unassigned."""
    out, n = [], 0
    for line in text.split('\n'):
        out.append(line)
        m = _ALLOCA.match(line)
        if m:
            n += 1
            out.append('  %%sa.undef.%d = freeze %s undef' % (n, m.group(2)))
            out.append('  store %s %%sa.undef.%d, ptr %s' % (m.group(2), n, m.group(1)))
    return '\n'.join(out)


def unmark_memory(text):
    """Variables that stay in memory: their initialisation is followed in memory."""
    return '\n'.join(l for l in text.split('\n')
                     if not re.match(r'  store \w+ %sa\.undef\.', l))


def build_one(spec, repo, out, refs=False):
    """Generate and compile one module; return the path of its optimized IR."""
    mod = spec['module']
    gen = os.path.join(out, 'gen', mod, 'ufunclab')
    shutil.rmtree(os.path.join(out, 'gen', mod), ignore_errors=True)
    os.makedirs(os.path.join(gen, 'p'))
    # `#include "../src/util/strided.hpp"` is relative to the generated file.
    link = os.path.join(out, 'gen', mod, 'src')
    os.symlink(os.path.join(repo, 'src'), link)
    srcdir = os.path.join(repo, 'src', spec.get('dir', ''))
    tools = os.path.join(repo, 'tools')
    env_py = [VENV_PY, '-B']
    if spec['kind'] == 'cxxgufunc':
        _run(env_py + [os.path.join(tools, 'cxxgen', 'generate_gufunc.py'), srcdir, gen],
             cwd=repo)
        srcs = [os.path.join(gen, mod + '.cxx')]
    elif spec['kind'] == 'cxxufunc':
        _run(env_py + [os.path.join(tools, 'cxxgen', 'generate_ufuncs.py'), srcdir, gen],
             cwd=repo)
        srcs = sorted(os.path.join(gen, f) for f in os.listdir(gen)
                      if f.endswith('.cxx'))
    elif spec['kind'] == 'ctmpl':
        _run(env_py + [os.path.join(tools, 'conv_template.py'),
                       os.path.join(srcdir, spec['src']), gen], cwd=repo)
        srcs = [os.path.join(gen, spec['src'][:-4])]
    else:
        srcs = [os.path.normpath(os.path.join(repo, 'ufunclab', s)) for s in spec['srcs']]
    for s in srcs:
        if not os.path.exists(s):
            raise AnalysisBroken('source %s of module %s not found' % (s, mod))
    bcs = []
    for i, s in enumerate(srcs):
        cxx = s.endswith(('.cxx', '.cpp', '.hpp'))
        bc = os.path.join(out, '%s.%d.bc' % (mod, i))
        cmd = [CLANGXX if cxx else CLANG] + \
              (['-std=c++17'] if cxx else ['-std=c99']) + \
              ['-O1', '-funroll-loops', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-g', '-fno-discard-value-names',
               '-ffp-contract=off', '-fno-math-errno',
               '-emit-llvm', '-c', s, '-o', bc] + cflags(repo, gen)
        _run(cmd)
        bcs.append(bc)
    linked = os.path.join(out, mod + '.linked.bc')
    _run([LINK, '-o', linked] + bcs)
    opt = os.path.join(out, mod + '.ll')
    csv, remove = _force_attrs(linked, out, refs)
    first, second = os.path.join(out, mod + '.1.ll'), os.path.join(out, mod + '.2.ll')
    _run([OPT, '-S', '-passes=', linked, '-o', first])
    _rewrite(first, mark_unassigned)
    _run([OPT, '-S', '-passes=' + PASSES1, '-forceattrs-csv-path=' + csv] + remove +
         [first, '-o', second])
    _rewrite(second, unmark_memory)
    _run([OPT, '-S', '-passes=' + PASSES, second, '-o', opt])
    os.remove(first)
    os.remove(second)
    return dict(spec, linked=linked, srcs_abs=srcs, gen=gen, opt=opt)


def build_all(out, repo=REPO, only=None, jobs=8, refs=False):
    specs = [s for s in module_specs(repo) if only is None or s['module'] in only]
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda s: build_one(s, repo, out, refs), specs))


if __name__ == '__main__':
    import time
    t = time.time()
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    refs = '--refs' in sys.argv
    r = build_all(out, only=[x for x in sys.argv[2:] if x[0] != '-'] or None, refs=refs)
    print(len(r), 'modules', time.time() - t)
