"""Writes MANIFEST.json.  Levels are listed in LEVEL below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
import sys
sys.path.insert(0, V)
try:
    from contracts.levels import LEVEL, NOTE
except ImportError:
    LEVEL, NOTE = {}, {}
checks = []
for i in ids:
    lv = LEVEL.get(i, 'exploration')
    checks.append(dict(
        property=i, quick_cmd='/opt/venv/bin/python check.py ' + i, thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py ' + i,
        technique='contract-based deductive verification of the real code (VC generation from the source in /repo, z3), executable contracts as witness search and bounded stand-in'
        if lv == 'proof' else 'executable contracts on the real code (bounded stand-in for the deductive check)',
        level=lv, level_note=NOTE.get(i, 'Contracts evaluated on generated inputs of the real code: bounded, not proved.')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy"', checks=checks, not_applicable=[],
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
