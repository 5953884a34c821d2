"""Driver: decide one property of the current tree.

usage: python3-vt -m sa.check P01 [--thorough] [--keep DIR] [--ir DIR]

exit 0: holds; exit 1 + VIOLATION lines: broken; exit 2: the tree could not be analysed.
"""
import argparse
import collections
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing import Pool

from . import build, contract, hooks, ir, loopcheck
from .build import AnalysisBroken
from .engine import callee_name
from .registry import CHECKS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXLINES = 25


class ModuleView:
    """One compiled extension module: IR, registrations, units."""

    def __init__(self, path, name, spec=None):
        self.path, self.name, self.spec = path, name, spec
        self.mod = ir.Module(path)
        self.regs, self.dynamic = contract.extract(self.mod, name)
        self._g = {}

    def guarantees(self, reg):
        h = reg.process_core_dims
        if not h:
            return {}
        if h not in self._g:
            self._g[h] = hooks.guarantees(self.mod, h)
        return self._g[h]

    def units(self):
        helpers = set()
        for r in self.regs:
            for l in r.loops:
                if l.fn is None or l.fn not in self.mod._fnraw:
                    continue        # reported by P08
                u = loopcheck.Unit(self.mod, l, self.guarantees(r))
                yield u
                for c in u.calls:
                    n = callee_name(c)
                    if n in self.mod._fnraw and n not in helpers and \
                            not build.KEEP_CALL.match(n):
                        helpers.add(n)
                        yield loopcheck.Helper(self.mod, n, l.key)


def _job(args):
    path, name, pid = args
    try:
        mv = ModuleView(path, name)
        res = CHECKS[pid].module(mv)
        return name, res, None
    except AnalysisBroken as ex:
        return name, None, str(ex)
    except Exception:
        return name, None, traceback.format_exc()[-3000:]


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run(pid, tier, irdir=None):
    chk = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = None
    try:
        rows, stats = [], collections.Counter()
        if chk.needs_ir:
            if irdir is None:
                tmp = tempfile.mkdtemp(prefix='ufunclab-ir-')
                irdir = tmp
                built = build.build_all(irdir, refs=chk.refs)
                names = [b['module'] for b in built]
            else:
                names = sorted(f[:-3] for f in os.listdir(irdir) if f.endswith('.ll'))
            # the biggest modules first
            jobs = [(os.path.join(irdir, n + '.ll'), n, pid) for n in names]
            jobs.sort(key=lambda j: -os.path.getsize(j[0]))
            stats['modules analysed'] = len(jobs)
            with Pool(min(8, os.cpu_count() or 1)) as pool:
                for name, res, err in pool.imap_unordered(_job, jobs, chunksize=1):
                    if err is not None:
                        raise AnalysisBroken('module %s: %s' % (name, err))
                    obls, st = res
                    rows += obls
                    stats.update(st)
        if chk.tree is not None:
            obls, st = chk.tree(build.REPO)
            rows += obls
            stats.update(st)
        return finish(chk, pid, tier, seed, rows, stats, t0)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def construct_key(o):
    """rule + construct + loop, independent of line numbers."""
    prop, rule, ok, where, src, detail, loop = o
    return '%s|%s|%s' % (rule, re.sub(r'\s+', '', src), loop)


def finish(chk, pid, tier, seed, rows, stats, t0):
    rows.sort(key=lambda o: (o[1], o[3], o[6], o[5]))
    perrule = collections.Counter()
    okrule = collections.Counter()
    for o in rows:
        perrule[o[1]] += 1
        okrule[o[1]] += o[2]
    bad = [o for o in rows if not o[2]]
    kf = known_findings(pid)
    hit, viol = set(), []
    for o in bad:
        k = construct_key(o)
        m = [f for f in kf if f[0] == k]
        if m:
            hit.add(m[0])
        else:
            viol.append(o)
    if not viol:
        for r, floor in chk.floors.items():
            n = perrule[r] if r in perrule else stats.get(r, 0)
            if n < floor:
                raise AnalysisBroken('rule %s: only %d instances found, at least %d expected; the '
                                     'constructs that it judges are not where it looks for them'
                                     % (r, n, floor))
    for k, text in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    # group the violations by construct
    groups = collections.OrderedDict()
    for o in viol:
        groups.setdefault((o[1], o[3], o[5]), []).append(o)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(pid + '.violation-'):
            os.unlink(os.path.join(evdir, f))
    vlist = []
    for n, ((rule, where, detail), os_) in enumerate(groups.items()):
        if n >= MAXLINES:
            print('... and %d more' % (len(groups) - n))
            break
        rel = 'evidence/%s.violation-%d.json' % (pid, n + 1)
        rec = {'property': pid, 'rule': rule, 'construct': where, 'detail': detail,
               'loops': [o[6] for o in os_][:50], 'key': construct_key(os_[0]),
               'replay': 'cd /verif && python3-vt -m sa.check %s' % pid}
        with open(os.path.join(HERE, rel), 'w') as f:
            json.dump(rec, f, indent=1)
        vlist.append(rec)
        print('VIOLATION property=%s replay=%s' % (pid, rel))
        print('    rule %s at %s: %s  [%s%s]' % (rule, where, detail, os_[0][6],
                                                ' and %d more' % (len(os_) - 1)
                                                if len(os_) > 1 else ''))
    wall = time.time() - t0
    loops = sorted({o[6] for o in rows})
    cov = {
        'explanation': chk.explanation,
        'rules': {r: {'instances': perrule[r], 'holding': okrule[r]} for r in sorted(perrule)},
        'measured': dict(sorted(stats.items())),
        'functions_with_obligations': len(loops),
        'samples': [{'rule': o[1], 'construct': o[3], 'function': o[6]}
                    for o in _samples(rows, seed)],
    }
    if chk.level == 'proof':
        cov.update({
            'obligations': len(rows), 'discharged': sum(1 for o in rows if o[2]),
            'checker_cmd': 'cd /verif && python3-vt -m sa.check %s' % pid,
            'trusted_base': chk.trusted,
        })
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk.level, 'coverage': cov,
          'assumptions': chk.assumptions, 'wall_s': round(wall, 2)}
    if vlist:
        ev['violations'] = vlist
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations in %d functions, %d violated, %d known findings, %.1f s'
          % (pid, len(rows), len(loops), len(viol), len(hit), wall))
    return 1 if viol else 0


def _samples(rows, seed, n=6):
    """A few obligations per run, spread over the rules."""
    byrule = collections.OrderedDict()
    for o in rows:
        byrule.setdefault(o[1], []).append(o)
    out = []
    for r, l in byrule.items():
        h = int(hashlib.sha1(('%s%d' % (r, seed)).encode()).hexdigest(), 16)
        out.append(l[h % len(l)])
    return out[:max(n, len(byrule))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--ir', help='use IR that was built before (development only)')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    os.environ['VERIF_TIER'] = tier
    try:
        CHECKS[a.property].selftest()
        return run(a.property, tier, a.ir)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, ex))
        return 2


if __name__ == '__main__':
    sys.exit(main())
