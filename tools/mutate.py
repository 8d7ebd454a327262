#!/usr/bin/env python3
"""Measure the checks with small syntactic changes to flatland.

  mutate.py list   N SEED OUT.json        pick N changes, spread over functions
  mutate.py tests  IN.json LANES          keep the ones the test suite misses
  mutate.py checks IN.json LANES WORKERS  run the quick checks on those
                                          (the first MUTATE_PROPS of each file)

Everything happens in scratch clones of /repo under /tmp; results are written
back to the JSON file, so an interrupted run can be continued.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get('MUTATE_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {
    'schema/paths.py': 'C16 C05',
    'schema/base.py': 'C27 C06 C05 C01 C13 C14 C28 C07 C25 C21 C16 C08 C02 C30 C29',
    'schema/containers.py': 'C03 C04 C27 C01 C02 C21 C20 C05 C28 C14 C06 C18 C16',
    'schema/properties.py': 'C13 C30 C14 C28',
    'schema/util.py': 'C30 C20 C17 C29',
    'schema/compound.py': 'C18 C27 C01 C06 C14 C28 C21 C02',
    'schema/scalars.py': 'C08 C09 C17 C27 C30 C21 C14 C01 C28 C05 C11',
    'schema/forms.py': 'C15 C14 C28 C05 C01',
    'util/deferred.py': 'C19 C29 C30',
    'util/base.py': 'C30 C20 C27 C03 C04 C29 C28',
    'util/__init__.py': 'C29',
    'out/generic.py': 'C11 C12 C10 C26',
    'out/util.py': 'C10 C11 C26',
    'out/markup.py': 'C12 C10 C11 C26',
    'out/genshi.py': 'C26 C12 C10 C11',
    'validation/number.py': 'C22 C25',
    'validation/base.py': 'C25 C22 C07 C06',
    'validation/containers.py': 'C22 C25 C06',
    'validation/scalars.py': 'C22 C23 C24 C25',
    'validation/string.py': 'C22 C25',
    'validation/network.py': 'C23 C25 C22',
    'ext/creditcard.py': 'C24 C25',
}
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
        ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}


class Source(object):
    def __init__(self, path):
        self.path = path
        with open(os.path.join(REPO, path), 'rb') as f:
            self.text = f.read()
        self.starts = [0]
        for line in self.text.splitlines(True):
            self.starts.append(self.starts[-1] + len(line))

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset,
                self.starts[node.end_lineno - 1] + node.end_col_offset)

    def get(self, node):
        a, b = self.span(node)
        return self.text[a:b].decode('utf8')


def candidates(src):
    tree = ast.parse(src.text)
    out = []

    def edit(where, node, new, kind):
        a, b = src.span(node)
        old = src.text[a:b].decode('utf8')
        if old != new:
            out.append(dict(file=src.path, where=where, line=node.lineno,
                            start=a, end=b, old=old, new=new, kind=kind))

    def walk(node, where):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                walk(child, where + '.' + child.name)
                continue
            visit(child, where)
            walk(child, where)

    def visit(n, where):
        g = src.get
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP.get(type(n.ops[0]))
            if op:
                edit(where, n, '%s %s %s' % (
                    g(n.left), op, g(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp) and len(n.values) >= 2:
            word = ' or ' if isinstance(n.op, ast.And) else ' and '
            edit(where, n, '(' + word.join(
                '(%s)' % g(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                word = ' and ' if isinstance(n.op, ast.And) else ' or '
                edit(where, n, '(' + word.join(
                    '(%s)' % g(v) for v in rest) + ')', 'boolop-drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            edit(where, n, '(%s)' % g(n.operand), 'not')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                edit(where, n, str(not v), 'bool')
            elif isinstance(v, int):
                edit(where, n, str(v + 1), 'int')
        elif isinstance(n, ast.Name) and n.id in ('True', 'False'):
            edit(where, n, 'False' if n.id == 'True' else 'True', 'bool')
        elif isinstance(n, ast.IfExp):
            edit(where, n, '(%s)' % g(n.body), 'ifexp')
            edit(where, n, '(%s)' % g(n.orelse), 'ifexp')
        elif isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
                edit(where, n.test, 'not (%s)' % g(n.test), 'negate')
            if isinstance(n, ast.If):
                edit(where, n.test, 'False', 'if-false')
                edit(where, n.test, 'True', 'if-true')
        elif isinstance(n, ast.Break):
            edit(where, n, 'continue', 'break')
        elif isinstance(n, ast.Continue):
            edit(where, n, 'break', 'continue')
        elif isinstance(n, ast.Return) and n.value is not None:
            edit(where, n, 'return None', 'return')
        elif isinstance(n, ast.Raise):
            edit(where, n, 'pass', 'raise')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = '-' if isinstance(n.op, ast.Add) else '+'
            edit(where, n, '%s %s %s' % (g(n.left), op, g(n.right)), 'arith')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            if where:
                edit(where, n, 'pass', 'drop')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            edit(where, n, 'pass', 'drop')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                edit(where, n, g(n.lower) + ' + 1:', 'slice')
        if isinstance(n, ast.Call):
            if len(n.args) > 1 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                parts = [g(a) for a in n.args]
                if len(parts) == 2 and not n.keywords:
                    edit(where, n, '%s(%s, %s)' % (
                        g(n.func), parts[1], parts[0]), 'swap-args')
            for i, kw in enumerate(n.keywords):
                if kw.arg and not n.args and len(n.keywords) > 1:
                    rest = [k for j, k in enumerate(n.keywords) if j != i]
                    edit(where, n, '%s(%s)' % (g(n.func), ', '.join(
                        ('%s=%s' % (k.arg, g(k.value)) if k.arg
                         else '**' + g(k.value)) for k in rest)), 'drop-kw')
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if isinstance(h.type, ast.Tuple):
                    for i in range(len(h.type.elts)):
                        rest = [e for j, e in enumerate(h.type.elts)
                                if j != i]
                        edit(where, h.type, '(%s,)' % ', '.join(
                            g(e) for e in rest), 'except')

    walk(tree, '')
    return out


def pick(n, seed, dest):
    rng = random.Random(seed)
    by_func = {}
    for name in sorted(PROPS):
        src = Source('flatland/' + name)
        for c in candidates(src):
            by_func.setdefault((c['file'], c['where']), []).append(c)
    skip = set()
    for other in sys.argv[5:]:
        for c in json.load(open(other)):
            skip.add((c['file'], c['line'], c['old'], c['new']))
    groups = [v for k, v in sorted(by_func.items())]
    for g in groups:
        g[:] = [c for c in g
                if (c['file'], c['line'], c['old'], c['new']) not in skip]
        rng.shuffle(g)
    print('candidates', sum(map(len, groups)), 'functions', len(groups))
    chosen = []
    while len(chosen) < n and any(groups):
        rng.shuffle(groups)
        for g in groups:
            # larger functions get proportionally more turns
            for _ in range(1 + len(g) // 12):
                if g and len(chosen) < n:
                    chosen.append(g.pop())
    for i, c in enumerate(chosen):
        c['id'] = i
    json.dump(chosen, open(dest, 'w'), indent=1)


def lanes(work, todo, count, save):
    lock = threading.Lock()
    todo = list(reversed(todo))

    def lane(i):
        repo = tempfile.mkdtemp(prefix='mutant-')
        try:
            subprocess.check_call(['git', 'clone', '-q', REPO, repo + '/r'])
            r = repo + '/r'
            while True:
                with lock:
                    if not todo:
                        return
                    c = todo.pop()
                path = os.path.join(r, c['file'])
                with open(path, 'rb') as f:
                    data = f.read()
                new = (data[:c['start']] + c['new'].encode('utf8') +
                       data[c['end']:])
                with open(path, 'wb') as f:
                    f.write(new)
                try:
                    work(c, r)
                finally:
                    with open(path, 'wb') as f:
                        f.write(data)
                with lock:
                    save()
        finally:
            shutil.rmtree(repo, ignore_errors=True)

    ts = [threading.Thread(target=lane, args=(i,)) for i in range(count)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def tests(path, count):
    muts = json.load(open(path))

    def work(c, repo):
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   JYTHONPATH='%s:/opt/jylib' % repo,
                   JDK_JAVA_OPTIONS='-XX:+UseSerialGC -Xmx2g '
                                    '-XX:TieredStopAtLevel=1')
        r = subprocess.run(
            'find . -name "*\\$py.class" -delete; timeout 120 jython -B -m '
            'pytest -q -x -p no:cacheprovider --disable-warnings --tb=line '
            'tests', shell=True, cwd=repo, env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL)
        c['tests'] = 'pass' if r.returncode == 0 else 'fail'

    lanes(work, [c for c in muts if 'tests' not in c], count,
          lambda: json.dump(muts, open(path, 'w'), indent=1))
    print('survive the tests:', sum(c['tests'] == 'pass' for c in muts),
          'of', len(muts))


def checks(path, count, workers):
    muts = json.load(open(path))

    def work(c, repo):
        env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS=str(workers))
        c['ran'] = []
        props = PROPS[c['file'].split('/', 1)[1]].split()
        for prop in props[:int(os.environ.get('MUTATE_PROPS', 99))]:
            r = subprocess.run(
                ['timeout', '600', sys.executable, VERIF + '/mcheck.py',
                 prop, 'quick'], env=env, cwd=VERIF, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, universal_newlines=True)
            c['ran'].append([prop, r.returncode])
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                c['caught'] = prop
                return
            if r.returncode not in (0, 1):
                c['broke'] = prop, r.stdout[-400:]
                c['caught'] = 'error:' + prop
                return
        c['caught'] = None

    lanes(work, [c for c in muts
                 if c['tests'] == 'pass' and 'caught' not in c], count,
          lambda: json.dump(muts, open(path, 'w'), indent=1))
    live = [c for c in muts if c['tests'] == 'pass']
    print('caught', sum(bool(c['caught']) for c in live), 'of', len(live))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'list':
        pick(int(a[2]), int(a[3]), a[4])
    elif a[1] == 'tests':
        tests(a[2], int(a[3]))
    elif a[1] == 'checks':
        checks(a[2], int(a[3]), int(a[4]))
