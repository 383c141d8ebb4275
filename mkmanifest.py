#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os
from specs import SPECS, TITLES
here = os.path.dirname(os.path.abspath(__file__))
NA = {}
m = {'version': 1,
     'setup_cmd': 'python3 -c "import specs, check" && g++ --version && clang++ --version',
     'checks': [], 'not_applicable': [],
     'notes': 'Each check compiles its monitors against /repo/include (the library is header-only), runs them in 8 processes and judges the recorded executions; check.py replay FILE re-runs a reported case. No hooks are needed in /repo.'}
for pid in TITLES:
    if pid in SPECS:
        s = SPECS[pid]
        m['checks'].append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s quick' % pid,
            'thorough_cmd': 'python3 check.py %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': s.get('technique', 'runtime monitoring of generated calls against an exact oracle'),
            'level': s.get('level', 'exploration'),
            'level_note': s.get('note', 'Held on the executions generated; says nothing about inputs that were not run. Trusts: ' + '; '.join(s.get('assumptions', [])) + '.')})
    else:
        m['not_applicable'].append({'property': pid, 'reason': NA.get(pid, 'monitor not built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
