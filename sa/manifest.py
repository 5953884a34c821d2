"""Writes /verif/MANIFEST.json from the registry: python3-vt -m sa.manifest"""
import json
import os
from .registry import CHECKS
from .props import PROPS

NOTE = {}
TECH = {
    'P01': 'symbolic address evaluation over LLVM IR (stride provenance of every access)',
    'P02': 'bounds proofs over LLVM IR: loop invariants and linear arithmetic on dominating conditions',
    'P03': 'points-to / effect analysis of every store over LLVM IR',
    'P04': 'definite-assignment (must-write) dataflow over array elements',
    'P05': 'initialised-before-read dataflow, undef-flow and global-state effect analysis',
    'P06': 'loop-carried dependence analysis of the broadcast loop',
    'P07': 'read/write ordering analysis inside one iteration',
    'P08': 'type analysis: registration tables against the IR types and the signedness of uses',
    'P09': 'path-sensitive typestate analysis of the GIL',
    'P10': 'path-sensitive ownership (reference count) analysis',
    'P11': 'path-sensitive typestate analysis of heap buffers',
    'P12': 'width (truncation) dataflow on values derived from dimensions and strides',
    'P13': 'interval/guard analysis at divisions and float-to-int conversions',
    'P14': 'backward value slices with a precision lattice',
    'P16': 'range proofs over LLVM IR: loop invariants and dominating conditions',
    'P17': 'path-sensitive typestate analysis of the Python error indicator',
    'P18': 'abstract interpretation of comparison loops in the domain of order relations',
    'P19': 'must-read dataflow over array elements',
    'P20': 'abstract interpretation in the domain of rational functions (value numbering; '
           'random interpretation confirms differences)',
    'P21': 'loop summarisation: recurrences solved in closed form with sums, products and extrema; '
           'random interpretation compares the closed forms with the definition',
    'P22': 'loop summarisation: transfer functions over carried values and memory; random '
           'interpretation compares the recurrences with the definition',
    'P15': 'ranking-function synthesis for every natural loop',
}
# properties that this family cannot decide here, or that have no check (yet)
NA = {}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({
                'property': i,
                'quick_cmd': 'python3-vt -m sa.check %s' % i,
                'thorough_cmd': 'python3-vt -m sa.check %s --thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH[i], 'level': c.level,
                'level_note': NOTE.get(i) or c.explanation})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa', 'checks': checks,
         'not_applicable': na,
         'notes': 'Every check compiles /repo\'s sources to LLVM IR (or parses its Python and C '
                  'sources) in a temporary directory and decides the property from that; nothing '
                  'of /repo is executed. See DESIGN.md.'}
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
