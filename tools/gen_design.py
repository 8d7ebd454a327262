"""Writes DESIGN.md: fixed chapters plus what each check says of itself.

python3 tools/gen_design.py   (from the directory of the machinery)
"""
import glob
import json
import os
import re
import sys
import textwrap

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(BASE, 'seeded'))


def constant(source, name):
    m = re.search(r'^%s = ' % name, source, re.M)
    if not m:
        return None
    rest = source[m.end():]
    depth, out = 0, []
    for line in rest.splitlines():
        out.append(line)
        bare = re.sub(r"'(\\.|[^'\\])*'|\"(\\.|[^\"\\])*\"", '', line)
        bare = bare.split('#')[0]
        depth += sum(bare.count(c) for c in '([{')
        depth -= sum(bare.count(c) for c in ')]}')
        if depth == 0 and not line.rstrip().endswith('\\'):
            break
    return eval('\n'.join(out))


def fill(text, indent='', first=None):
    return textwrap.fill(' '.join(text.split()), 78,
                         initial_indent=indent if first is None else first,
                         subsequent_indent=indent,
                         break_long_words=False, break_on_hyphens=False)


def main():
    sys.path.insert(0, os.path.join(BASE, 'tools'))
    import design_text as t
    props = {}
    with open(os.path.join(BASE, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            props[d['id']] = d
    known = json.load(open(os.path.join(BASE, 'known_findings.json')))
    seeded = {}
    for meta in sorted(glob.glob(os.path.join(SEEDED, '*', 'meta.json'))):
        d = json.load(open(meta))
        seeded.setdefault(d['property'], []).append(
            (os.path.basename(os.path.dirname(meta)), d))
    out = [t.HEAD.strip(), '']
    out += ['## Properties and how they are decided', '']
    for pid in sorted(props):
        p = props[pid]
        source = open(os.path.join(BASE, 'mc', 'props',
                                   pid.lower() + '.py')).read()
        out += ['### %s %s' % (pid, p['title']), '']
        out += [fill(p['statement']), '']
        out += [fill('*What is enumerated.* ' + constant(source, 'RULE')), '']
        bounds = constant(source, 'BOUNDS')
        out += [fill('Quick: ' + bounds['quick'] + '.', '  ', '- ')]
        out += [fill('Thorough: ' + bounds['thorough'] + '.', '  ', '- '), '']
        out += [fill('*Oracle.* ' + t.ORACLE[pid]), '']
        out += [fill('*Beyond the tests.* %s.' % p['why_tests_cant'].rstrip(
            '.').capitalize()), '']
        limits = constant(source, 'ASSUMPTIONS') or []
        limits = [l.rstrip('.') for l in limits] + list(t.LIMITS.get(pid, []))
        if limits:
            out += ['*Assumed or left out.*', '']
            out += [fill(l + '.', '  ', '- ') for l in limits] + ['']
        found = [f for f in known['findings'] if f['property'] == pid]
        if found:
            out += ['*Known findings (recorded, not repaired).*', '']
            out += [fill('`%s`: %s. %s' % (
                f['case'], f['what'],
                t.WHY_NOT.get(f['case'], '')), '  ', '- ')
                for f in found] + ['']
        fixed = [f for f in known['fixed'] if 'property=%s ' % pid in f]
        if fixed:
            out += ['*Defects found and repaired.*', '']
            out += [fill(f.split(' ', 2)[2] + '.', '  ', '- ')
                    for f in fixed] + ['']
        if pid in seeded:
            out += ['*Planted bugs.*', '']
            for name, d in seeded[pid]:
                out += [fill('`%s`: %s Needs: %s %s' % (
                    name, d['what_it_breaks'].rstrip('.') + '.',
                    d['needs'].rstrip('.') + '.',
                    t.CAUGHT.get(name, 'Caught by %s.' % pid)), '  ', '- ')]
            out += ['']
    out += [t.TAIL.strip(), '']
    with open(os.path.join(BASE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
