#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from rules import RULES
PY = '/opt/venv/bin/python'
m = dict(version=1, setup_cmd=f'{PY} harness/selftest.py',
         checks=[dict(property=p, quick_cmd=f'{PY} harness/check.py {p}', thorough_cmd=f'VERIF_TIER=thorough {PY} harness/check.py {p}',
                      technique=t, level='model_checking',
                      level_note=r + ' Assumes TLC, the exact-rational override (self-tested in setup) and the third-party libraries.')
                 for p, (t, r) in RULES.items()],
         not_applicable=[], notes='TLA+ and TLC; no hooks in /repo. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
