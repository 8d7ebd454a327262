# -*- coding: utf-8 -*-
"""C03: sequences behave like Python lists, members stay elements of the tree.

Every operation sequence up to a depth is run against a real sequence and
against a plain Python list of (value, text) pairs.
"""
from flatland import (Array, Dict, Integer, JoinedString, List, MultiValue,
                      String)
from lib import Violation, eq, same, true, raises

LEVEL = 'model_checking'
RULE = ('A case is (kind of sequence, initial contents, operation sequence). '
        'The reference model is a Python list of (value, text) pairs; every '
        'operation of the history is compared (result or exception, contents, '
        'lookups, parents, flattened form). Non-trivial: at least one '
        'operation succeeded in changing the model.')
BOUNDS = {
    'quick': 'all sequences of <=2 ops over the full alphabet from 2 initial '
             'contents, <=3 ops over the core alphabet from 2; 7 kinds',
    'thorough': 'all sequences of <=3 ops over the full alphabet from 2 '
                'initial contents, <=4 ops over the core alphabet; 7 kinds',
}
ASSUMPTIONS = ['an Element instance is a member of at most one sequence',
               'sort is called with a key that reads the member value']

# value tokens: how the argument is spelled
FULL_VALUES = ('r1', 'r2', 't2', 'bad', 'e1', 'e3')


class Kind(object):
    def __init__(self, name):
        self.name = name
        self.dictish = name == 'ListOfDict'
        self.text = name == 'JoinedString'
        self.slots = name.startswith('List')
        if self.text:
            member = String
            seq = JoinedString.named(u's')
        elif self.dictish:
            member = Dict.named(u'm').of(Integer.named(u'x'))
            seq = List.named(u's').of(member)
        elif name == 'List':
            member = Integer
            seq = List.named(u's').of(member)
        elif name == 'ListNamed':
            member = Integer.named(u'm')
            seq = List.named(u's').of(member)
        elif name == 'Array':
            member = Integer
            seq = Array.named(u's').of(member)
        elif name == 'ArrayNamed':
            member = Integer.named(u'm')
            seq = Array.named(u's').of(member)
        elif name == 'MultiValue':
            member = Integer
            seq = MultiValue.named(u's').of(member)
        self.member = member
        self.root = Dict.named(u'd').of(seq, Integer.named(u'z'))

    def raw(self, token):
        k = token[1:]
        if self.text:
            return {'r1': u'a', 'r2': u'b', 't2': u' b ', 'bad': u'',
                    'e1': u'a', 'e3': u'c'}[token]
        n = {'r1': 1, 'r2': 2, 't2': u' 2', 'bad': u'zz',
             'e1': 1, 'e3': 3}[token]
        if self.dictish:
            return {u'x': n}
        return n

    def argument(self, token):
        if token[0] == 'e':
            return self.member(self.raw(token))
        return self.raw(token)

    def pair(self, token):
        """What a member holds after being set from *token*."""
        if self.text:
            v = self.raw(token).strip()
            return (v, v)
        p = {'r1': (1, u'1'), 'r2': (2, u'2'), 't2': (2, u'2'),
             'bad': (None, u'zz'), 'e1': (1, u'1'), 'e3': (3, u'3')}[token]
        return p

    def native(self, pair):
        return {u'x': pair[0]} if self.dictish else pair[0]

    def read(self, element):
        if self.dictish:
            child = element[u'x']
            return (child.value, child.u)
        return (element.value, element.u)

    def seq_value(self, model):
        if self.name == 'MultiValue':
            return model[0][0] if model else None
        if self.text:
            return u','.join(p[1] for p in model)
        return [self.native(p) for p in model]

    def seq_u(self, model):
        if self.name == 'MultiValue':
            return model[0][1] if model else u''
        if self.text:
            return u','.join(p[1] for p in model)
        if self.dictish:
            return u'[%s]' % u', '.join(u"{u'x': u'%s'}" % p[1] for p in model)
        return u'[%s]' % u', '.join(u"u'%s'" % p[1] for p in model)

    def flat(self, model):
        if self.name == 'MultiValue':
            pairs = [(u'd_s', p[1]) for p in model]
        elif self.text:
            pairs = [(u'd_s', self.seq_u(model))]
        elif self.name == 'Array':
            pairs = [(u'd_s', p[1]) for p in model]
        elif self.name == 'ArrayNamed':
            pairs = [(u'd_s_m', p[1]) for p in model]
        elif self.name == 'List':
            pairs = [(u'd_s_%d' % i, p[1]) for i, p in enumerate(model)]
        elif self.name == 'ListNamed':
            pairs = [(u'd_s_%d_m' % i, p[1]) for i, p in enumerate(model)]
        else:
            pairs = [(u'd_s_%d_m_x' % i, p[1]) for i, p in enumerate(model)]
        return pairs


_kinds = {}


def kind_of(name):
    if name not in _kinds:
        _kinds[name] = Kind(name)
    return _kinds[name]


KINDS = ('List', 'Array', 'MultiValue', 'ListNamed', 'ArrayNamed',
         'ListOfDict', 'JoinedString')


def full_ops():
    ops = []
    for v in FULL_VALUES:
        ops.append(('append', v))
    for v in ('r1', 't2', 'e3'):
        for i in (-5, -1, 0, 1, 9):
            ops.append(('insert', i, v))
    for v in ('r2', 'bad', 'e3'):
        for i in (-3, -1, 0, 2):
            ops.append(('setitem', i, v))
    for i in (-4, -1, 0, 1, 2):
        ops.append(('delitem', i))
    ops.append(('pop',))
    for i in (0, -2, 1, 7):
        ops.append(('popat', i))
    for sl in ((None, None), (0, 1), (1, None), (None, -1), (1, 1), (5, 9),
               (-2, -1)):
        ops.append(('delslice', sl[0], sl[1], None))
        for vs in ((), ('r1',), ('e3', 't2')):
            ops.append(('setslice', sl[0], sl[1], None, vs))
    ops.append(('delslice', None, None, 2))
    ops.append(('delslice', None, None, -1))
    ops.append(('setslice', None, None, 2, ('r1', 'e3')))
    ops.append(('setslice', None, None, -1, ('r1', 'r2')))
    for v in ('r1', 'r2', 't2', 'e3', 'bad'):
        ops.append(('remove', v))
    ops.append(('extend', ()))
    ops.append(('extend', ('r2', 'e1')))
    ops.append(('iadd', ()))
    ops.append(('iadd', ('e3', 'bad')))
    ops.append(('reverse',))
    ops.append(('sort', False))
    ops.append(('sort', True))
    ops.append(('set', ()))
    ops.append(('set', ('r2', 'r1')))
    ops.append(('set', ('bad', 't2', 'r1')))
    ops.append(('setbad',))
    ops.append(('set_each', 'r1'))
    ops.append(('set_each', 'bad'))
    ops.append(('set_value_of_first',))
    return ops


CORE = [
    ('append', 'r1'), ('append', 'e3'), ('insert', 0, 't2'),
    ('insert', 1, 'e1'), ('insert', -1, 'r2'),
    ('setitem', 0, 'r2'), ('setitem', -1, 'e3'), ('delitem', 0),
    ('delitem', 1), ('pop',), ('popat', 0), ('delslice', 0, 1, None),
    ('delslice', None, None, 2), ('setslice', 1, None, None, ('r1', 'e3')),
    ('setslice', 0, 1, None, ()), ('setslice', 0, 0, None, ('t2',)),
    ('remove', 'r1'), ('extend', ('r2', 'e1')), ('iadd', ('e3',)),
    ('reverse',), ('sort', False), ('sort', True), ('set', ('bad', 'r1')),
    ('set_value_of_first',),
]

INITIALS = ((), ('r1', 'r2', 'e3'), ('r2',), ('e3', 't2', 'bad', 'r1'))


def cases(tier):
    full = full_ops()
    for kind in KINDS:
        yield ('KF', kind, 'imul') if kind == 'List' else (kind, (), ())
        for init in INITIALS:
            yield (kind, init, ())
            for op in full:
                yield (kind, init, (op,))
    for kind in KINDS:
        for init in (INITIALS if tier == 'thorough' else INITIALS[1:3]):
            for a in full:
                for b in full:
                    yield (kind, init, (a, b))
    for kind in KINDS:
        for init in INITIALS[:2]:
            for a in CORE:
                for b in CORE:
                    for c in CORE:
                        yield (kind, init, (a, b, c))
    if tier == 'thorough':
        for kind in KINDS:
            for init in INITIALS[:2]:
                for a in full:
                    for b in full:
                        for c in full:
                            yield (kind, init, (a, b, c))
        for kind in KINDS:
            for a in CORE:
                for b in CORE:
                    for c in CORE:
                        for d in CORE:
                            yield (kind, INITIALS[1], (a, b, c, d))


def apply_model(kind, model, op):
    """Apply to a plain list; returns result, raises what list raises."""
    name = op[0]
    if name == 'append':
        model.append(kind.pair(op[1]))
    elif name == 'insert':
        model.insert(op[1], kind.pair(op[2]))
    elif name == 'setitem':
        model[op[1]] = kind.pair(op[2])
    elif name == 'delitem':
        del model[op[1]]
    elif name == 'pop':
        return model.pop()
    elif name == 'popat':
        return model.pop(op[1])
    elif name == 'delslice':
        del model[slice(op[1], op[2], op[3])]
    elif name == 'setslice':
        model[slice(op[1], op[2], op[3])] = [kind.pair(v) for v in op[4]]
    elif name == 'remove':
        model.remove(kind.pair(op[1]))
    elif name in ('extend', 'iadd'):
        model.extend([kind.pair(v) for v in op[1]])
    elif name == 'reverse':
        model.reverse()
    elif name == 'sort':
        model.sort(key=lambda p: p[0], reverse=op[1])
    elif name in ('set', 'set_each'):
        if name == 'set_each':
            op = 'set', (op[1],) * len(model)
        if kind.text:
            # JoinedStrings prune blanks on set()
            model[:] = [kind.pair(v) for v in op[1] if kind.raw(v)]
            return True
        model[:] = [kind.pair(v) for v in op[1]]
        return 'bad' not in op[1]
    elif name == 'setbad':
        if not kind.text:
            model[:] = []
        return False
    elif name == 'set_value_of_first':
        if model:
            model[0] = kind.pair('e3')


def apply_real(kind, seq, op):
    name = op[0]
    if name == 'append':
        seq.append(kind.argument(op[1]))
    elif name == 'insert':
        seq.insert(op[1], kind.argument(op[2]))
    elif name == 'setitem':
        seq[op[1]] = kind.argument(op[2])
    elif name == 'delitem':
        del seq[op[1]]
    elif name == 'pop':
        return seq.pop()
    elif name == 'popat':
        return seq.pop(op[1])
    elif name == 'delslice':
        if op[3] is not None:
            del seq[op[1]:op[2]:op[3]]
        elif op[1] is None and op[2] is None:
            del seq[:]
        elif op[1] is None:
            del seq[:op[2]]
        elif op[2] is None:
            del seq[op[1]:]
        else:
            del seq[op[1]:op[2]]
    elif name == 'setslice':
        vs = [kind.argument(v) for v in op[4]]
        if op[3] is not None:
            seq[op[1]:op[2]:op[3]] = vs
        elif op[1] is None and op[2] is None:
            seq[:] = vs
        elif op[1] is None:
            seq[:op[2]] = vs
        elif op[2] is None:
            seq[op[1]:] = vs
        else:
            seq[op[1]:op[2]] = vs
    elif name == 'remove':
        seq.remove(kind.argument(op[1]))
    elif name == 'extend':
        seq.extend([kind.argument(v) for v in op[1]])
    elif name == 'iadd':
        before = seq
        seq += [kind.argument(v) for v in op[1]]
        same(seq, before, '+= keeps the sequence')
    elif name == 'reverse':
        seq.reverse()
    elif name == 'sort':
        def key(e):
            true(isinstance(e, kind.member), 'sort gives members', e)
            return _sort_value(e.value)
        seq.sort(key=key, reverse=op[1])
    elif name == 'set':
        return seq.set([kind.raw(v) for v in op[1]])
    elif name == 'set_each':
        # drawn from the members as they are removed
        return seq.set(kind.raw(op[1]) for member in seq)
    elif name == 'setbad':
        if kind.text:
            return False
        return seq.set(42)
    elif name == 'set_value_of_first':
        if len(seq):
            seq[0].set(kind.raw('e3'))


def _sort_value(v):
    return v[u'x'] if isinstance(v, dict) else v


def observe(kind, root, seq, model, history):
    """Compare everything a user can see with the model."""
    ctx = (kind.name, history)
    n = len(model)
    eq(len(seq), n, 'len', *ctx)
    members = list(seq)
    eq([kind.read(e) for e in members], model, 'iteration', *ctx)
    for i in range(n):
        same(seq[i], members[i], '[%d]' % i, *ctx)
        same(seq[i - n], members[i], '[%d]' % (i - n), *ctx)
    for i in (n, -n - 1):
        raises(IndexError, lambda: seq[i], '[%d]' % i, *ctx)
    for a, b in ((0, 1), (1, None), (None, -1), (-2, None)):
        got = seq[a:b] if a is not None and b is not None else (
            seq[a:] if b is None else seq[:b])
        eq([kind.read(e) for e in got], model[a:b], 'slice', a, b, *ctx)
    eq([kind.read(e) for e in seq[::-1]], model[::-1], '[::-1]', *ctx)
    eq([kind.read(e) for e in seq.children], model, 'children', *ctx)
    twice = members + members
    for what, got, want in (
            ('reversed', list(reversed(seq)), members[::-1]),
            ('+', seq + members, twice), ('radd', members + seq, twice),
            ('+ itself', seq + seq, twice), ('*', seq * 2, twice),
            ('rmul', 2 * seq, twice), ('* 0', seq * 0, [])):
        eq([id(e) for e in got], [id(e) for e in want], what, *ctx)
    true([id(e) for e in seq.children] == [id(e) for e in members],
         'children are the members', *ctx)
    eq(seq.value, kind.seq_value(model), 'value', *ctx)
    eq(seq.u, kind.seq_u(model), 'u', *ctx)
    if not kind.text and kind.name != 'MultiValue':
        eq(seq.is_empty, n == 0, 'is_empty', *ctx)
    eq(bool(seq), bool(n) if not kind.text else bool(seq.u), 'truth', *ctx)
    for token in ('r1', 't2', 'e3', 'bad'):
        p = kind.pair(token)
        eq(kind.argument(token) in seq, p in model, 'contains', token, *ctx)
        eq(seq.count(kind.argument(token)), model.count(p), 'count', token,
           *ctx)
        if p in model:
            eq(seq.index(kind.argument(token)), model.index(p), 'index',
               token, *ctx)
        else:
            raises(ValueError, lambda: seq.index(kind.argument(token)),
                   'index of a missing value', token, *ctx)
    for i, e in enumerate(members):
        true(isinstance(e, kind.member), 'member type', i, *ctx)
        true(any(p is seq for p in e.parents), 'member under its sequence',
             i, *ctx)
        same(e.root, root, 'root of member', i, *ctx)
        if not kind.text:
            same(seq.el([u'%d' % i]), e, 'el', i, *ctx)
            same(root.el(u's.%d' % i), e, 'el from the root', i, *ctx)
        eq(e.fq_name(), u'.s.%d' % i if kind.slots else (
            u'.s.%s' % e.name), 'fq_name', i, *ctx) if kind.slots else None
    flat = [p for p in root.flatten() if p[0] != u'd_z']
    eq(flat, kind.flat(model), 'flatten', *ctx)
    true(len(set(id(e) for e in members)) == n, 'distinct members', *ctx)


def extend_itself(kind, seq, model, in_place, ctx):
    """Growing a sequence by itself doubles it."""
    held = list(seq)
    append, left = seq.append, [len(held) + 3]

    def guarded(value):
        left[0] -= 1
        if left[0] < 0:
            raise Violation('extending a sequence by itself does not end')
        append(value)
    seq.append = guarded
    try:
        if in_place:
            seq += seq
        else:
            seq.extend(seq)
    finally:
        del seq.append
    eq([kind.read(e) for e in seq], model + model, 'extended by itself', *ctx)
    eq([id(e) for e in list(seq)[:len(held)]], [id(e) for e in held],
       'members kept', *ctx)


def check(case, mc):
    if case[0] == 'KF':
        return known(case)
    kname, init, history = case
    kind = kind_of(kname)
    root = kind.root()
    seq = root[u's']
    model = []
    for v in init:
        seq.append(kind.argument(v))
        model.append(kind.pair(v))
    if not history:
        observe(kind, root, seq, model, case)
        mc.trivial()
    changed = False
    results = []
    for step, op in enumerate(history):
        before = list(model)
        try:
            want = ('ok', apply_model(kind, model, op))
        except (IndexError, ValueError), e:
            want = ('raise', type(e))
        held = list(seq)
        try:
            got = ('ok', apply_real(kind, seq, op))
        except (IndexError, ValueError), e:
            got = ('raise', type(e))
        if want[0] != got[0] or (want[0] == 'raise' and want != got):
            raise Violation('step %d %r: got %r, a list gives %r' % (
                step, op, got, want))
        if want[0] == 'ok' and op[0] in ('pop', 'popat'):
            v = got[1].value
            eq(v, kind.native(want[1]), 'popped value', step, op)
            same(got[1], held[-1 if op[0] == 'pop' else op[1]],
                 'the member is popped', step, op)
            if kind.slots:
                same(got[1].parent, None, 'parent of what was popped', op)
        elif want[0] == 'ok' and op[0] == 'set':
            eq(bool(got[1]), want[1], 'result of set', step, op)
        if model != before:
            changed = True
        if want[0] == 'raise':
            eq(model, before, 'model unchanged on error')
        mc.transition()
        mc.state((kname, tuple(model)))
        eq([kind.read(e) for e in seq], model, 'contents', step, op)
        results.append(want[0])
        if step == len(history) - 1:
            observe(kind, root, seq, model, case)
            extend_itself(kind, seq, model, len(model) % 2, case)
    if not changed:
        mc.trivial()
    mc.trace()
    return (kname, tuple(results), tuple(model))


def known(case):
    # *= keeps the members distinct elements at distinct positions
    kind = kind_of(case[1])
    root = kind.root()
    seq = root[u's']
    seq.set([kind.raw('r1'), kind.raw('r2')])
    seq *= 2
    model = [kind.pair('r1'), kind.pair('r2')] * 2
    observe(kind, root, seq, model, case)
    return 'imul'
