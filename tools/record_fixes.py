#!/usr/bin/env python3
"""Adds missing fix: commits of /repo to known_findings.json.

Usage: record_fixes.py 'part of subject=C11' ...
"""
import json
import subprocess
import sys

path = '/verif/known_findings.json'
data = json.load(open(path))
have = set(f.split()[2] for f in data['fixed'])
log = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
for line in reversed(log):
    h, subject = line.split(' ', 1)
    if not subject.startswith('fix:') or h in have:
        continue
    props = [a.rsplit('=', 1)[1] for a in sys.argv[1:]
             if a.rsplit('=', 1)[0] in subject]
    if len(props) != 1:
        sys.exit('which property? %s' % line)
    data['fixed'].append('fixed: property=%s %s %s' % (
        props[0], h, subject[5:]))
with open(path, 'w') as f:
    json.dump(data, f, indent=1)
    f.write('\n')
