# -*- coding: utf-8 -*-
"""C07: every validator run is announced exactly once."""
import itertools

from flatland import (Array, Dict, List, Skip, SkipAll, SkipAllFalse, String,
                      Unevaluated)
from flatland.signals import validator_validated
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (tree, chains of validator outcomes) or a sequence of noted '
        'messages. Each tree is validated with every set of receivers; calls '
        'and announcements must alternate, carry the same objects, and leave '
        'calls and results as they are without receivers. Non-trivial: '
        'something was announced or noted.')
BOUNDS = {
    'quick': 'chains of <=3 of 8 outcomes on 9 single elements (descending '
             'and, for containers, ascending), chains of <=1 on every node '
             'of 5 trees of 2-4 nodes; receivers: none, one, two, one for a '
             'single validator, connected and disconnected again, and one that '
             'comes or goes at any two moments of a run; all '
             'message sequences of length <=5 over 4 messages',
    'thorough': 'as quick with chains of <=4 and message sequences of <=7',
}
ASSUMPTIONS = ['receivers neither raise nor change the tree']

OUT = (True, False, None, Skip, SkipAll, SkipAllFalse, 1, 0)

SINGLE = {
    'S': (String, u'x'), 'S-': (String, None),
    'O': (String.using(optional=True), u'x'),
    'O-': (String.using(optional=True), None),
    'L': (List.of(String), []), 'OL': (List.of(String).using(optional=True),
                                       []),
    'L+': (List.of(String), [u'x']), 'D': (Dict.of(String.named(u'a')), {}),
    'A+': (Array.of(String).using(optional=True), [u'y']),
}
TREES = {
    'DS': (Dict.of(String.named(u'a')), {u'a': u'x'}),
    'LSS': (List.of(String.using(optional=True)), [u'x', u'']),
    'DDS': (Dict.of(Dict.named(u'd').of(String.named(u'a'))), {}),
    'LAS': (List.of(Array.of(String)), [[u'x']]),
    'DSL': (Dict.of(String.named(u'a').using(optional=True),
                    List.named(u'l').of(String)), {}),
}


def cases(tier):
    upto = 4 if tier == 'thorough' else 3
    for name in sorted(SINGLE):
        for chain in seqs(range(len(OUT)), upto):
            yield ('one', name, chain, ())
        if name[0] not in 'SO' or name == 'OL':
            for up in seqs(range(len(OUT)), 2):
                for down in seqs(range(len(OUT)), 1):
                    yield ('one', name, down, up)
    few = ((), (0,), (1,), (2,), (4,), (5,))
    for name in sorted(TREES):
        n = len(nodes_of(TREES[name][0](TREES[name][1])))
        slots = [few, few] + [few] * (n - 1)
        for config in itertools.product(*slots):
            yield ('tree', name, config)
    for name in sorted(SINGLE):
        for chain in seqs(range(len(OUT)), 4 if tier == 'thorough' else 3, 1):
            yield ('during', name, chain, chain[:1])
    for name in sorted(TREES):
        n = len(nodes_of(TREES[name][0](TREES[name][1])))
        for config in itertools.product(((), (0, 0), (1,), (4,)),
                                        ((), (0, 2)),
                                        *[few[:4]] * (n - 1)):
            yield ('during', name, config)
    for kind in ('error', 'warning'):
        for seq in seqs(range(4), 7 if tier == 'thorough' else 5):
            yield ('note', kind, seq)


def nodes_of(el):
    out, queue = [], [el]
    while queue:
        el = queue.pop(0)
        out.append(el)
        queue.extend(el.children)
    return out


class V(object):
    def __init__(self, log, outcome):
        self.log, self.outcome = log, outcome

    def __call__(self, element, state):
        self.log.append(('call', self, element, state, self.outcome))
        return self.outcome


def receiver(log, tag):
    def receive(sender, **kw):
        log.append((tag, sender, kw.pop('element'), kw.pop('state'),
                    kw.pop('result')))
        if kw:
            log.append(('extra', kw))
    return receive


class Switch(object):
    """Connects and disconnects a receiver at given moments of a run."""

    def __init__(self, log, when):
        self.log, self.when, self.connected = log, dict(when), False

    def set(self, on):
        if on != self.connected:
            (validator_validated.connect if on else
             validator_validated.disconnect)(self.receive)
            self.connected = on

    def at(self, moment):
        self.set(self.when.get(moment, self.connected))

    def receive(self, sender, **kw):
        self.log.append(('one', sender, kw['element'], kw['state'],
                         kw['result']))
        calls = len([e for e in self.log if e[0] == 'call'])
        self.at(('told', calls))


class Noting(V):
    """A validator that is also a moment to (dis)connect."""
    switch = None

    def __call__(self, element, state):
        result = V.__call__(self, element, state)
        calls = len([e for e in self.log if e[0] == 'call'])
        if self.switch:
            self.switch.at(('call', calls))
        return result


def check_during(case, mc):
    """Receivers that come and go while validators run."""
    el, nodes, log, made, _ = build(case, Noting)
    state = object()

    def run(when, start):
        del log[:]
        for n in nodes:
            n.valid = Unevaluated
        switch = Switch(log, when)
        for v in made:
            v.switch = switch
        switch.set(start)
        try:
            result = el.validate(state)
        finally:
            switch.set(False)
        return result, [n.valid for n in nodes], list(log)

    full = run({}, True)
    calls = len([e for e in full[2] if e[0] == 'call'])
    moments = [(what, i) for i in range(1, calls + 1)
               for what in ('call', 'told')]
    plans = [{m: True} for m in moments] + [{m: False} for m in moments]
    plans += [{a: x, b: not x} for a, b in itertools.combinations(moments, 2)
              for x in (True, False)]
    for when in plans:
        for start in (False, True):
            # what would have been heard
            want, on, n, told = [], start, 0, set()
            for e in full[2]:
                if e[0] == 'call':
                    n += 1
                    on = when.get(('call', n), on)
                    want.append(e)
                elif on:
                    want.append(e)
                    on = when.get(('told', n), on)
            got = run(when, start)
            eq(got[:2], full[:2], 'results with receivers that come and go')
            eq(len(got[2]), len(want), 'announcements', (case, when, start))
            for a, b in zip(got[2], want):
                for x, y in zip(a, b):
                    if x is not y and str(x) != str(y):
                        raise Violation('announced %r, expected %r' % (a, b))
            mc.transition()
    if not plans:
        mc.trivial()
    return calls


def build(case, V=V):
    kind, name = case[:2]
    cls, value = dict(SINGLE, **TREES)[name]
    el = cls(value) if value is not None else cls()
    nodes = nodes_of(el)
    log = []
    if name in SINGLE:
        config = [(case[2], case[3])]
    else:
        chains = case[2]
        config = [chains[:2]] + [(c, c[:1]) for c in chains[2:]]
    made = []
    for node, (down, up) in zip(nodes, config):
        dv = [V(log, OUT[o]) for o in down]
        uv = [V(log, OUT[o]) for o in up]
        if isinstance(node, (dict, list)):
            node.descent_validators, node.validators = dv, uv
        else:
            node.validators = dv
        made += dv + uv
    return el, nodes, log, made, config


def check(case, mc):
    if case[0] == 'note':
        return check_note(case, mc)
    # a receiver disconnected from one sender is known until collected
    validator_validated._clear_state()
    if case[0] == 'during':
        return check_during(case, mc)
    el, nodes, log, made, _ = build(case)
    state = object()

    def run():
        del log[:]
        for n in nodes:
            n.valid = Unevaluated
        result = el.validate(state)
        return result, [n.valid for n in nodes], list(log)

    base = run()
    true(all(e[0] == 'call' for e in base[2]), 'only calls were logged')
    calls = [e[1:] for e in base[2]]
    announced = 0

    one, two = receiver(log, 'one'), receiver(log, 'two')
    validator_validated.connect(one)
    try:
        got = run()
        compare(base, got, calls, ('one',), nodes, state)
        announced = len([e for e in got[2] if e[0] == 'one'])
        validator_validated.connect(two)
        try:
            got2 = run()
            compare(base, got2, calls, ('one', 'two'), nodes, state)
            validator_validated.disconnect(one)
            compare(base, run(), calls, ('two',), nodes, state)
        finally:
            validator_validated.disconnect(two)
    finally:
        validator_validated.disconnect(one)
    again = run()
    eq(again[:2], base[:2], 'results once all receivers are gone', case)
    eq([e[1:] for e in again[2]], calls, 'calls once receivers are gone')

    if made:
        only = receiver(log, 'only')
        for which in (made[0], made[-1]):
            validator_validated.connect(only, sender=which)
            try:
                got = run()
            finally:
                validator_validated.disconnect(only, sender=which)
            eq(got[:2], base[:2], 'results with a receiver for one sender')
            eq([e[1:] for e in got[2] if e[0] == 'call'], calls,
               'calls with a receiver for one sender')
            eq([e[1:] for e in got[2] if e[0] == 'only'],
               [c for c in calls if c[0] is which],
               'announcements of one validator')
    if not announced:
        mc.trivial()
    mc.count('announcements', announced)
    return (announced, base[0])


def compare(base, got, calls, tags, nodes, state):
    eq(got[0], base[0], 'result with receivers')
    for a, b in zip(got[1], base[1]):
        same(a, b, 'valid flags with receivers')
    log = got[2]
    eq([e[1:] for e in log if e[0] == 'call'], calls,
       'validator calls with receivers')
    pos = 0
    defaults = []
    while pos < len(log):
        e = log[pos]
        if e[0] == 'call':
            follow = log[pos + 1:pos + 1 + len(tags)]
            pos += 1
        else:
            follow = log[pos:pos + len(tags)]
        eq(sorted(f[0] for f in follow), sorted(tags),
           'one announcement per receiver', e)
        if e[0] == 'call':
            for f in follow:
                for x, y, what in zip(e[1:], f[1:], ('validator', 'element',
                                                     'state', 'result')):
                    same(y, x, 'announced ' + what, e)
        else:
            for f in follow:
                eq(str(f[1]), 'NotEmpty', 'announced built-in test')
                same(f[2], follow[0][2], 'announced element')
                same(f[3], state, 'announced state')
                same(f[4], not f[2].is_empty, 'announced built-in result')
                true(not (f[2].optional and f[2].is_empty),
                     'optional empty elements announce nothing')
            defaults.append(follow[0][2])
        pos += len(tags)
    # which elements must have been tested by the built-in
    for n in nodes:
        count = len([d for d in defaults if d is n])
        want = 0
        visited = n is nodes[0] or not blocked(nodes, n, log)
        if visited and not (n.optional and n.is_empty) and not n.validators:
            want = 1
        eq(count, want, 'built-in tests announced for %r' % (n,))


def blocked(nodes, node, log):
    """Did a skip-all on an ancestor keep *node* from being visited?"""
    above = [p for p in node.parents]
    for e in log:
        if e[0] == 'call' and (e[4] is SkipAll or e[4] is SkipAllFalse):
            v, el = e[1], e[2]
            if any(el is p for p in above) and v in getattr(
                    el, 'descent_validators', ()):
                return True
    return False


MESSAGES = (u'a', u'b', u'', u'\xe9')


def check_note(case, mc):
    kind, which, seq = case
    for el in (String(), Dict.of(String.named(u'x'))(), List.of(String)()):
        add = getattr(el, 'add_' + which)
        want = []
        for i in seq:
            add(MESSAGES[i])
            if MESSAGES[i] not in want:
                want.append(MESSAGES[i])
            got, other = el.errors, el.warnings
            if which == 'warning':
                got, other = other, got
            eq(list(got), want, 'noted messages', case)
            eq(list(other), [], 'messages of the other kind', case)
    if not seq:
        mc.trivial()
    return len(want)
