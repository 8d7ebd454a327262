#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the explorers present."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

TECHNIQUE = {
    'exploration': 'exhaustive bounded enumeration of inputs on the real code '
                   'against a reference model',
    'model_checking': 'exhaustive enumeration of operation histories on the '
                      'real code, step by step against an explicit reference '
                      'model',
}
SPECIAL = {
    'C19': 'stateless model checking of real threads under a controlled '
           'scheduler, all schedules up to a preemption bound',
}
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(HERE, 'mc', 'props', pid.lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': pid, 'reason': 'no check built yet'})
        continue
    src = open(path).read()
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 mcheck.py %s quick' % pid,
        'thorough_cmd': 'python3 mcheck.py %s thorough' % pid,
        'technique': SPECIAL.get(pid, TECHNIQUE[level]),
        'level': level,
        'level_note':
            'Every case within the stated bounds (see BOUNDS in mc/props/%s.py'
            ' and the evidence file) is executed on the real code and compared'
            ' with the reference model in the same file; nothing is sampled. '
            'Trusts the reference model, Jython, and says nothing beyond the '
            'bounds.' % pid.lower(),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 mcheck.py setup',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'All checks run the unmodified library from /repo under Jython; '
             'no hooks are needed. mcheck.py replay FILE re-runs a recorded '
             'counterexample without the explorer.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
