"""Writes MANIFEST.json from engine/specs.py."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import specs

PROPS = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'P35': 'Global accuracy on arbitrary smooth problems is a statement about the exact flow of a differential equation and '
           'an unbounded number of steps; no bounded solver query over the code expresses it. The local ingredients are '
           'decided by P01-P03 and P05-P09.',
    'P36': 'Backward stability bounds rounding errors. The encoding treats symbolic doubles as exact reals; bit-precise '
           'floating-point queries for elimination already exceed the solver for 2x2 systems, so this cannot be decided here.',
}
LEVEL_NOTE = ('Bounded symbolic execution of the compiled code: every path within the stated bounds is enumerated and each '
              'check on it is discharged by the solver for all values (reals for f64); counterexamples are replayed '
              'natively before they are reported.')
checks, na = [], []
for p in PROPS:
    if p in specs.SPECS:
        checks.append({
            'property': p, 'quick_cmd': 'python3-vt check.py %s --quick' % p,
            'thorough_cmd': 'python3-vt check.py %s --thorough' % p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': 'symbolic execution of LLVM IR with SMT (real arithmetic), native replay',
            'level': 'model_checking', 'level_note': LEVEL_NOTE + ' Bounds: ' + specs.SPECS[p]['bounds'] + '.'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', '^Expose private'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup',
     'hooks': {'guard': 'cfg(cyphus_verif)', 'enable': 'RUSTFLAGS="--cfg cyphus_verif" (set by engine/build.py)',
               'source_commits': hook},
     'checks': checks, 'not_applicable': na,
     'notes': 'check.py builds the harnesses in harness/ against /repo, emits LLVM IR and runs the symbolic executor in '
              'engine/ on it. tools/ regenerates properties.jsonl and this file.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
