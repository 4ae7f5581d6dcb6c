#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(V, 'lib', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'./run {i}', thorough_cmd=f'VERIF_TIER=thorough ./run {i}', evidence_file=f'evidence/{i}.json',
                           technique=n.get('technique', 'TLA+ specification checked with TLC; recorded runs of the code validated against it'),
                           level='model_checking',
                           level_note=n.get('note', 'Exhaustive for the stated constants on the specification; the code is bound by validating recorded runs (exhaustive small '
                                                    'inputs plus seeded random ones) against it. Trusts TLC and the recording harness in checks/ and lib/.')))
    else:
        na.append(dict(property=i, reason='no check yet'))
m = dict(version=1, setup_cmd='java -version && /opt/venv/bin/python -c "import numpy, h5py, fitsio, astropy"', checks=checks, not_applicable=na,
         notes='TLA+ with TLC; see DESIGN.md. No hooks: everything is observed at public functions, files and messages.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
