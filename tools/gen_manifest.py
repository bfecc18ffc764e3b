#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from mvc/props.py (claimed) and properties.jsonl (the rest)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/mvc')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in props.PROPS:
        checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + i,
            'technique': 'contract-based deductive verification: function contracts on the AST of the real code, obligations discharged by polynomial normal forms and z3/cvc5',
            'level': 'proof',
            'level_note': props.NOTE.get(i, '') + ' For all grids and inputs, no bound; double treated as mathematical reals, int as unbounded; trusts clang\'s AST and the obligation generator mvc. '
                'A concrete oracle harness on the compiled code cross-checks and replays; it stands in (labelled bounded, evidence level "other") for units a change puts out of reach of the verifier.'})
na = [{'property': i, 'reason': props.NA.get(i, 'contracts not yet written')} for i in ids if i not in props.PROPS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
