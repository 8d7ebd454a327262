# -*- coding: utf-8 -*-
"""C06: validation order, short-circuiting and results."""
import itertools

from flatland import (Array, DateYYYYMMDD, Dict, Form, Integer, List, Skip,
                      SkipAll, SkipAllFalse, SparseDict, String, Unevaluated)
from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('A case is (tree, validator chains of all nodes but the last); it '
        'covers every choice for the last node. Calls in order, return value, '
        'valid flags and all_valid of every node are compared with a '
        'reference traversal. Non-trivial: some validator was called.')
BOUNDS = {
    'quick': '21 trees of 1-4 nodes; per phase of every node: no validators '
             'or one of 6 outcomes, and for trees of <=2 nodes all chains of '
             'two; optional/empty variants of leaves and lists; with and '
             'without recursion; repeated validation; validators on '
             'instances and, for small trees, on classes',
    'thorough': 'as quick with 25 trees of up to 5 nodes',
}
ASSUMPTIONS = ['validators return a bool, a skip constant or None and do not '
               'change the tree']

OUT = (True, False, None, Skip, SkipAll, SkipAllFalse)
ONE = ((),) + tuple((i,) for i in range(6))
TWO = ONE + tuple(itertools.product(range(6), repeat=2))

S, O = String, String.using(optional=True)


def s(name):
    return String.named(name)


TREES = {
    # name: (class, value, size of the chain alphabet)
    'S': (S, u'x', 'TWO'), 'S empty': (S, None, 'TWO'),
    'O': (O, u'x', 'TWO'), 'O empty': (O, None, 'TWO'),
    'L': (List.of(S), [], 'TWO'),
    'OL': (List.of(S).using(optional=True), [], 'TWO'),
    'D S': (Dict.of(s(u'a')), {u'a': u'x'}, 'TWO1'),
    'L S': (List.of(S), [u'x'], 'TWO1'),
    'A O': (Array.of(O).using(optional=True), [u''], 'TWO1'),
    'D SS': (Dict.of(s(u'a'), s(u'b')), {u'a': u'x'}, 'ONE'),
    'L OO': (List.of(O), [u'x', None], 'ONE'),
    'D D S': (Dict.of(Dict.named(u'd').of(s(u'a'))), {u'd': {u'a': u'x'}},
              'ONE'),
    'P L S': (SparseDict.of(List.named(u'l').of(S)).using(optional=True),
              {u'l': [u'x']}, 'ONE'),
    'L D S': (List.of(Dict.of(s(u'a'))), [{u'a': u''}], 'ONE'),
    'D OL': (Dict.of(List.named(u'l').of(S).using(optional=True), s(u'a')),
             {u'a': u'x'}, 'ONE'),
    'D S D S': (Dict.of(s(u'a'), Dict.named(u'd').of(s(u'b'))),
                {u'd': {u'b': u'x'}}, 'ONE'),
    'D L SS': (Dict.of(List.named(u'l').of(S)), {u'l': [u'x', u'']}, 'ONE'),
    'L L L': (List.of(List.of(List.of(S))), [[[]]], 'ONE'),
    'date': (DateYYYYMMDD.named(u'd'), None, 'FEW'),
    'O date': (DateYYYYMMDD.named(u'd').using(optional=True), None, 'FEW'),
    'OD S': (Dict.of(s(u'a')).using(optional=True), {}, 'TWO1'),
}
BIG = {
    'D S S S': (Dict.of(s(u'a'), s(u'b'), s(u'c')), {}, 'ONE'),
    'L SSSS': (List.of(S), [u'', u'x', u'y', u''], 'ONE'),
    'L D S D S': (List.of(Dict.of(s(u'a'))), [{}, {}], 'ONE'),
    'D D D S': (Dict.of(Dict.named(u'd').of(Dict.named(u'd').of(s(u'a')))),
                {}, 'ONE'),
}
TREES.update(BIG)

CLASSED = ('S', 'S empty', 'O empty', 'D S', 'L S', 'A O', 'D SS')


def chains(spec, down):
    if spec == 'TWO':
        return TWO
    if spec == 'FEW':
        return ((), (0,), (1,), (5,)) if down else ((), (0,), (1,))
    return ONE


def nodes_of(el):
    out, queue = [], [el]
    while queue:
        el = queue.pop(0)
        out.append(el)
        queue.extend(el.children)
    return out


def scalar_like(el):
    return not isinstance(el, (dict, list))


def options(node, spec, first):
    """All (descent chain, ascent chain) choices of a node."""
    if scalar_like(node):
        return [(c, ()) for c in (TWO if spec.startswith('TWO') else
                                  chains(spec, True))]
    if spec == 'TWO1':
        spec = 'TWO' if first else 'ONE'
    return list(itertools.product(chains(spec, True), chains(spec, False)))


def cases(tier):
    for name in sorted(TREES):
        if name in BIG and tier != 'thorough':
            continue
        cls, value, spec = TREES[name]
        all_nodes = nodes_of(cls(value) if value is not None else cls())
        per = [options(n, spec, i == 0) for i, n in enumerate(all_nodes)]
        for head in itertools.product(*[range(len(p)) for p in per[:-1]]):
            yield (name, head)


class Recorder(object):
    """A validator that logs its call and returns its scripted outcome."""

    def __init__(self, log, tag, outcome):
        self.log, self.tag, self.outcome = log, tag, outcome

    def __call__(self, element, state):
        self.log.append((self.tag, id(element), id(state)))
        return self.outcome


def check(case, mc):
    name, head = case
    cls, value, spec = TREES[name]
    el = cls(value) if value is not None else cls()
    nodes = nodes_of(el)
    per = [options(n, spec, i == 0) for i, n in enumerate(nodes)]
    called = 0
    state = object()
    for last in range(len(per[-1])):
        config = [p[i] for p, i in zip(per, head + (last,))]
        log = []
        script = {}
        for i, (node, (down, up)) in enumerate(zip(nodes, config)):
            dv = [Recorder(log, (i, 'down', j), OUT[o])
                  for j, o in enumerate(down)]
            uv = [Recorder(log, (i, 'up', j), OUT[o])
                  for j, o in enumerate(up)]
            if scalar_like(node):
                node.validators = dv
            else:
                node.descent_validators = dv
                node.validators = uv
            node.valid = 'before'
        try:
            called += compare(nodes, config, el, log, state, mc)
        except Violation, v:
            raise Violation('%s (tree %s, chains %r)' % (
                v, name, [[[OUT[o] for o in c] for c in pair]
                          for pair in config]))
    if name in CLASSED:
        classed(name, head, per, mc)
    if not called:
        mc.trivial()
    return called


def reference(nodes, config, recurse):
    """(log of tags, {node index: valid flag}, result) of a traversal."""
    log, valid = [], {}
    index = dict((id(n), i) for i, n in enumerate(nodes))

    def chain(i, phase, outcomes):
        node = nodes[i]
        if node.optional and empty(node):
            return True, False
        if not outcomes:
            return not empty(node), False
        for j, o in enumerate(outcomes):
            log.append((i, phase, j))
            o = OUT[o]
            if o is Skip:
                return True, False
            if o is SkipAll:
                return True, True
            if o is SkipAllFalse:
                return False, True
            if not o:
                return False, False
        return True, False

    visited, queue = [], [0]
    while queue:
        i = queue.pop(0)
        visited.append(i)
        node = nodes[i]
        down, up = config[i]
        stop = False
        if scalar_like(node) or down:
            valid[i], stop = chain(i, 'down', down)
        else:
            valid[i] = Unevaluated
        if not stop and recurse:
            queue.extend(index[id(c)] for c in node.children)
    for i in reversed(visited):
        if scalar_like(nodes[i]):
            continue
        up = chain(i, 'up', config[i][1])[0]
        if valid[i]:
            valid[i] = up
    return log, valid, all(valid[i] for i in visited)


def empty(node):
    if isinstance(node, dict):
        if not isinstance(node, DateYYYYMMDD):
            return isinstance(node, SparseDict) and not len(node)
        return all(c.u == u'' and c.value is None for c in node.children)
    if isinstance(node, list):
        return len(node) == 0
    return not node.value and node.u == u''


def compare(nodes, config, el, log, state, mc, again=True):
    want_log, want_valid, want = reference(nodes, config, True)
    for turn in range(2):
        del log[:]
        got = el.validate(state) if turn == 0 else el.validate(state=state)
        check_run(nodes, log, got, state, want_log, want_valid, want,
                  'validate, turn %d' % turn)
        mc.count('validations')
    # a stale False flag is no obstacle
    for n in nodes:
        n.valid = False
    del log[:]
    got = el.validate(state)
    eq(got, want, 'result with stale flags')
    for i, n in enumerate(nodes):
        if i in want_valid:
            same(n.valid, want_valid[i], 'flag after stale flags', i)
        else:
            same(n.valid, False, 'unvisited node keeps its flag', i)

    want_log, want_valid, want = reference(nodes, config, False)
    for n in nodes:
        n.valid = 'before'
    del log[:]
    got = el.validate(state, recurse=False)
    check_run(nodes, log, bool(got), state, want_log, want_valid, want,
              'without recursion')
    mc.count('validations', 2)
    return len(want_log)


# shapes of trees whose flags were assigned
ASSIGNED = set()


def check_run(nodes, log, got, state, want_log, want_valid, want, what):
    eq([t for t, e, st in log], want_log, 'validators called, ' + what)
    for tag, e, st in log:
        eq(e, id(nodes[tag[0]]), 'element passed', tag, what)
        eq(st, id(state), 'state passed', tag, what)
    true(got is want, 'result', got, want, what)
    for i, n in enumerate(nodes):
        if i in want_valid:
            same(n.valid, want_valid[i], 'valid flag', i, what)
        else:
            eq(n.valid, 'before', 'flag of an unvisited node', i, what)
    for n in nodes:
        flags = [n.valid] + [c.valid for c in n.all_children]
        same(n.all_valid, all(flags), 'all_valid', what)
    shape = tuple(type(n).__mro__[1] for n in nodes)
    if what == 'without recursion' and shape not in ASSIGNED:
        # may be assigned, from any node down
        ASSIGNED.add(shape)
        for n in nodes:
            below = [id(n)] + [id(c) for c in n.all_children]
            for value in (True, False):
                for other in nodes:
                    other.valid = 'before'
                n.all_valid = value
                for other in nodes:
                    eq(other.valid, value if id(other) in below else
                       'before', 'flag after all_valid was assigned')
                same(n.all_valid, value, 'all_valid as assigned')


def classed(name, head, per, mc):
    """The same outcomes with validators given to the classes."""
    cls, value, spec = TREES[name]
    for last in range(0, len(per[-1])):
        config = [p[i] for p, i in zip(per, head + (last,))]
        log = []

        def arm(cls, i):
            down, up = config[i]
            dv = [Recorder(log, (i, 'down', j), OUT[o])
                  for j, o in enumerate(down)]
            uv = [Recorder(log, (i, 'up', j), OUT[o])
                  for j, o in enumerate(up)]
            if not hasattr(cls, 'descent_validated_by'):
                return cls.validated_by(*dv)
            return cls.descent_validated_by(*dv).validated_by(*uv)
        top = arm(cls, 0)
        if name in ('L S', 'A O'):
            top = top.of(arm(cls.member_schema, 1))
        elif name.startswith('D'):
            made = cls(value)
            index = dict((n.name, i + 1) for i, n in enumerate(
                nodes_of(made)[1:]))
            top = top.of(*[arm(f, index[f.name]) for f in cls.field_schema])
        el = top(value) if value is not None else top()
        nodes = nodes_of(el)
        want_log, want_valid, want = reference(nodes, config, True)
        true(all(n.valid is Unevaluated for n in nodes), 'new elements are '
             'unevaluated')
        got = el.validate()
        eq([t for t, e, st in log], want_log, 'validators called', name,
           config)
        true(got is want, 'result', got, want, name, config)
        for i, n in enumerate(nodes):
            same(n.valid, want_valid.get(i, Unevaluated), 'valid flag', i,
                 name, config)
        mc.count('validations')
