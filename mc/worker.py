# -*- coding: utf-8 -*-
"""Worker: explores one shard of one property's bounded space under Jython.

usage: jython -B worker.py PROPERTY TIER SHARD NSHARDS OUTFILE
       jython -B worker.py --replay FILE

Runs on the real code found on JYTHONPATH (/repo); imports nothing but the
public modules of flatland.
"""
import json
import os
import sys
import threading
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.path.insert(0, HERE)

from lib import MC, Violation  # noqa

try:
    from java.lang import Throwable
except ImportError:            # pragma: no cover (never: flatland needs 2.7)
    class Throwable(Exception):
        pass

HANG_SECONDS = float(os.environ.get('VERIF_HANG_SECONDS', '120'))
MAX_VIOLATIONS = 3


def load(prop):
    return __import__(prop.lower())


def describe(case):
    return repr(case)


def run_case(module, case, mc):
    """Returns None or a message describing the violation."""
    try:
        mc.begin(case)
        outcome = module.check(case, mc)
        mc.finish(outcome)
        return None
    except Violation, v:
        return str(v)
    except KeyboardInterrupt:
        raise
    except Exception, e:
        return 'unexpected %s: %s\n%s' % (
            type(e).__name__, safe(e), traceback.format_exc())
    except Throwable, e:
        return 'unexpected Java error %s' % (e,)


def safe(e):
    try:
        return str(e)
    except Exception:
        return repr(e)


class Progress(object):
    case = None
    count = 0
    busy = False


def write(outfile, data):
    tmp = outfile + '.tmp'
    f = open(tmp, 'w')
    json.dump(data, f)
    f.close()
    os.rename(tmp, outfile)


def watchdog(progress, on_hang):
    last, since = None, time.time()
    while True:
        time.sleep(1)
        if progress.count != last or not progress.busy:
            last, since = progress.count, time.time()
        elif time.time() - since > HANG_SECONDS:
            on_hang()


def main(prop, tier, shard, nshards, outfile):
    shard, nshards = int(shard), int(nshards)
    t0 = time.time()
    module = load(prop)
    mc = MC(tier)
    mc.shard, mc.nshards = shard, nshards
    progress = Progress()
    violations = []
    seen = set()

    def result(done, hang=None):
        v = list(violations)
        if hang is not None:
            v.append({'case': describe(hang), 'index': progress.count,
                      'message': 'no termination within %d s' % HANG_SECONDS})
        return {
            'shard': shard, 'done': done, 'violations': v,
            'evaluations': mc.evaluations,
            'nontrivial': mc.nontrivial_count,
            'duplicates': mc.duplicates,
            'outcomes': len(mc.outcomes),
            'outcome_hashes': sorted(mc.outcomes)[:5000],
            'states': sorted(mc.states), 'transitions': mc.transitions,
            'traces': mc.traces, 'samples': mc.samples,
            'extra': mc.extra,
            'wall_s': time.time() - t0,
            'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
            'rule': getattr(module, 'RULE', ''),
            'level': getattr(module, 'LEVEL', 'exploration'),
            'assumptions': getattr(module, 'ASSUMPTIONS', []),
        }

    def on_hang():
        write(outfile, result(True, hang=progress.case))
        os._exit(0)

    t = threading.Thread(target=watchdog, args=(progress, on_hang))
    t.setDaemon(True)
    t.start()

    idx = 0
    for case in module.cases(tier):
        key = describe(case)
        crc = zlib.crc32(key)
        idx += 1
        if crc % nshards != shard:
            continue
        h = hash(key)
        if (h, crc) in seen:
            mc.duplicates += 1
            continue
        seen.add((h, crc))
        progress.case = case
        progress.count += 1
        progress.busy = True
        message = run_case(module, case, mc)
        progress.busy = False
        if message is not None:
            violations.append(
                {'case': key, 'index': idx, 'message': message})
            if not is_known(key) and len(
                    [v for v in violations if not is_known(v['case'])]
                    ) >= MAX_VIOLATIONS:
                break
    write(outfile, result(True))
    os._exit(0)


KNOWN = set()


def is_known(key):
    return key in KNOWN


def load_known(prop):
    path = os.path.join(HERE, '..', 'known_findings.json')
    if os.path.exists(path):
        for entry in json.load(open(path))['findings']:
            if entry['property'] == prop:
                KNOWN.add(entry['case'])


def replay(path):
    data = json.load(open(path))
    module = load(data['property'])
    case = eval(data['case'], {})
    mc = MC('thorough')
    message = run_case(module, case, mc)
    if message is None:
        print 'not reproduced: %s holds for %s' % (
            data['property'], data['case'])
        os._exit(0)
    print 'VIOLATION property=%s replay=%s' % (data['property'], path)
    print 'case: %s' % data['case']
    print message
    sys.stdout.flush()
    os._exit(1)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay(sys.argv[2])
    else:
        load_known(sys.argv[1])
        main(*sys.argv[1:])
