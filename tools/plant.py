#!/usr/bin/env python3
"""Plant a bug: python3 plant.py SPEC.py

SPEC.py defines id, property, needs, breaks, edits = [(file, old, new)], demo.
Confirms in a scratch copy that the tests pass and the demo tells the trees
apart, then writes /verif/seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('PLANT_REPO', '/repo')
BASE = '4d16785'
DEMO_SH = '''#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 JYTHONPATH="$PWD:/opt/jylib"
exec timeout 250 jython -B "$here/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True)


def foreign(repo):
    """Removed lines that are not of the original repository."""
    own = []
    path = None
    for line in sh('git diff -U0', repo).stdout.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            at = line.split()[1][1:].split(',')
            start, n = int(at[0]), int(at[1]) if len(at) > 1 else 1
            for i in range(start, start + n):
                blame = sh('git blame -s -L%d,%d HEAD -- %s' % (i, i, path),
                           repo).stdout
                if not blame.startswith('^' + BASE[:6]):
                    own.append(blame.strip())
    return own


def plant(spec):
    scratch = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.check_call(['cp', '-a', REPO, repo])
        sh('find . -name "*\\$py.class" -delete', repo)
        out = os.path.join(scratch, 'seed')
        os.mkdir(out)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write('# -*- coding: utf-8 -*-\n' + spec['demo'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        for name in spec.get('files', ()):
            shutil.copy(name, out)
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree\n' + r.stdout[-2000:]
        for path, old, new in spec['edits']:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times: %s' % (s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode == 0:
            return 'demo passes with the change'
        demo_out = r.stdout[-300:]
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   JYTHONPATH='%s:/opt/jylib' % repo)
        r = sh('timeout 170 jython -B -m pytest -q -x -p no:cacheprovider '
               '--disable-warnings --tb=short tests', repo, env)
        if r.returncode != 0:
            return 'tests fail\n' + r.stdout[-1500:]
        diff = sh('git diff', repo).stdout
        own = foreign(repo)
        if own:
            return 'changes lines of later commits: %s' % own
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': spec['property'], 'needs': spec['needs'],
                       'what_it_breaks': spec['breaks']}, f, indent=1)
            f.write('\n')
        dest = os.path.join(os.environ.get('SEEDED', '/verif/seeded'),
                            spec['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        return 'planted %s (demo: %s)' % (spec['id'], demo_out.strip()[-200:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        for spec in ns.get('specs') or [ns]:
            print(spec['id'], '->', plant(spec))
            sys.stdout.flush()
