"""Writes MANIFEST.json from the table below (which properties are claimed, and why the others are not)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from claims import CLAIMED, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
BASE = ('Contracts on the real functions, compiled from /repo on every run; every path of the LLVM IR is executed symbolically and each postcondition and '
        'memory-safety obligation is discharged by z3/cvc5 for all inputs admitted by the precondition. Trusted: clang, the IR executor in /verif/vc, the solvers, models of libc/libstdc++ externals; '
        'floating point is treated as real arithmetic. ')
checks = []
for p in props:
    if p in CLAIMED:
        checks.append({'property': p, 'quick_cmd': 'python3-vt vc/check.py %s' % p, 'thorough_cmd': 'python3-vt vc/check.py %s --tier thorough' % p,
                       'technique': 'contract-based deductive verification: pre/postconditions on the real C++ code, verification conditions generated from its LLVM IR, discharged by SMT',
                       'level': 'other' if CLAIMED[p].startswith('BOUNDED') else 'proof', 'level_note': BASE + CLAIMED[p]})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')} for p in props if p not in CLAIMED]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
