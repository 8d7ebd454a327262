#!/usr/bin/env python3
"""Driver for the bounded explorers.

  mcheck.py ID quick|thorough     explore; exit 0 held, 1 VIOLATION, 2 error
  mcheck.py replay FILE           re-run one recorded case without the explorer

Shards the space of a property over several Jython processes that run the real
code from /repo, merges what they covered into evidence/<ID>.json and reports.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKER = os.path.join(VERIF, 'mc', 'worker.py')
LIMIT = {'quick': 840, 'thorough': 6 * 3600}


def environment(heap, tier='quick'):
    # compiling twice does not pay off in short runs
    extra = ' -XX:TieredStopAtLevel=1' if tier == 'quick' else ''
    env = dict(os.environ)
    env.update(LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
               JYTHONPATH='%s:/opt/jylib' % REPO,
               JDK_JAVA_OPTIONS='-XX:+UseSerialGC -Xss4m -Xmx%s%s' % (
                   heap, extra))
    env.pop('PYTHONPATH', None)
    return env


def drop_stale_bytecode():
    # as /opt/vp/build.sh does: never run compiled code from an older tree
    for base, dirs, files in os.walk(REPO):
        if '.git' in dirs:
            dirs.remove('.git')
        for f in files:
            if f.endswith('$py.class'):
                os.unlink(os.path.join(base, f))


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return dict((e['case'], e['what']) for e in data['findings']
                if e['property'] == prop)


def run(prop, tier):
    t0 = time.time()
    drop_stale_bytecode()
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(
        8, os.cpu_count() or 1)
    heap = '2g' if workers > 4 else '3g'
    scratch = tempfile.mkdtemp(prefix='mcheck-')
    try:
        procs = []
        for i in range(workers):
            out = os.path.join(scratch, '%d.json' % i)
            log = open(os.path.join(scratch, '%d.log' % i), 'w')
            p = subprocess.Popen(
                ['jython', '-B', WORKER, prop, tier, str(i), str(workers),
                 out],
                stdout=log, stderr=subprocess.STDOUT, cwd=scratch,
                stdin=subprocess.DEVNULL, env=environment(heap, tier))
            procs.append((p, out, log))
        deadline = t0 + LIMIT[tier]
        timed_out = False
        for p, out, log in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                p.kill()
                p.wait()
        shards, errors = [], []
        for p, out, log in procs:
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    shards.append(json.load(f))
            else:
                with open(log.name) as f:
                    errors.append(f.read()[-3000:])
        return report(prop, tier, t0, shards, errors, timed_out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, t0, shards, errors, timed_out):
    known = known_findings(prop)
    found = sorted((v for s in shards for v in s['violations']),
                   key=lambda v: v['index'])
    hit = [v for v in found if v['case'] in known]
    fresh = [v for v in found if v['case'] not in known]

    states, outcomes = set(), set()
    coverage = dict.fromkeys(
        ('evaluations', 'distinct_nontrivial', 'transitions', 'traces'), 0)
    samples, extra = [], {}
    for s in shards:
        states.update(s['states'])
        outcomes.update(s['outcome_hashes'])
        coverage['evaluations'] += s['evaluations']
        coverage['distinct_nontrivial'] += s['nontrivial']
        coverage['transitions'] += s['transitions']
        coverage['traces'] += s['traces']
        samples.extend(s['samples'][-2:])
        for k, v in s['extra'].items():
            extra[k] = extra.get(k, 0) + v
    complete = not errors and not timed_out and not fresh
    first = shards[0] if shards else {}
    level = first.get('level', 'exploration')
    cov = {
        'evaluations': coverage['evaluations'],
        'distinct_nontrivial': coverage['distinct_nontrivial'],
        'distinct_outcomes': len(outcomes),
        'rule': first.get('rule', ''),
        'bounds': first.get('bounds', ''),
        'exhaustive': bool(complete),
        'samples': samples[:12],
        'workers': len(shards),
    }
    if level == 'model_checking':
        cov['states'] = len(states)
        cov['transitions'] = coverage['transitions']
        cov['traces_validated_against_impl'] = coverage['traces']
    cov.update(extra)
    evidence = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level, 'coverage': cov,
        'assumptions': first.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    for v in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[v['case']]))
    if fresh:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.json')
        v = fresh[0]
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': v['case'],
                       'message': v['message'],
                       'others': [o['case'] for o in fresh[1:10]]},
                      f, indent=1)
        print('case: %s' % v['case'])
        print(v['message'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or timed_out:
        for e in errors:
            print('worker failed:\n%s' % e)
        if timed_out:
            print('time limit reached')
        return 2
    print('%s %s: held on %d cases (%d non-trivial, %d outcomes, '
          '%d states, %d transitions) in %.1f s' % (
              prop, tier, cov['evaluations'], cov['distinct_nontrivial'],
              len(outcomes), len(states), coverage['transitions'],
              time.time() - t0))
    return 0


def main(argv):
    if len(argv) >= 2 and argv[0] == 'replay':
        drop_stale_bytecode()
        return subprocess.call(
            ['jython', '-B', WORKER, '--replay', os.path.abspath(argv[1])],
            env=environment('3g'))
    if argv[0] == 'setup':
        # nothing to build: every check runs the sources of /repo directly
        return subprocess.call(
            ['jython', '-B', '-c', 'import flatland.schema'],
            env=environment('1g'))
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(prop, tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
