#!/usr/bin/env python3
"""Generate MANIFEST.json from the driver table in run.py and properties.jsonl."""
import json
from pathlib import Path
import re

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / 'properties.jsonl').read_text().splitlines() if x.strip()]
src = (V / 'run.py').read_text()
drivers = dict(re.findall(r"'([A-Z]\d\d)': '(\w+)'", src))
SPECS = {
    'gemfiles': ('DMSession.tla/DM.tla', 'writer state machine and DM file format'),
}
for line in (V / 'tools' / 'specs.txt').read_text().splitlines():
    if line.strip():
        k, a, b = line.split('|')
        SPECS[k] = (a, b)
checks, na = [], []
for p in props:
    i = p['id']
    if i in drivers:
        spec, what = SPECS[drivers[i]]
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python run.py {i} quick',
            'thorough_cmd': f'/opt/venv/bin/python run.py {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'TLA+ specification, TLC model checking and trace validation',
            'level': 'model_checking',
            'level_note': f'{what} specified in spec/{spec}; TLC checks the model exhaustively '
                          'in small bounds and judges every recorded library execution; '
                          'conformance is bounded by the executions generated.',
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet (work in progress)'})
(V / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'java -version && test -f /opt/veriftools/tla/tla2tools.jar',
    'hooks': {'guard': 'GEMPAKIO_VERIF', 'enable': 'no hooks were added to /repo; the variable '
              'is reserved and unused', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'run.py PID quick|thorough; specifications in spec/, drivers in harness/.',
}, indent=1) + '\n')
