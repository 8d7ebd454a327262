# -*- coding: utf-8 -*-
"""C22: shipped validators decide exactly their documented predicate."""
import datetime
import decimal
import itertools
import operator

from flatland import (Array, Boolean, Date, DateTime, DateYYYYMMDD, Decimal,
                      Dict, Enum, Float, Integer, JoinedString, List,
                      MultiValue, String, Time)
from flatland import validation as V
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (validator with its options, one way of giving them); it '
        'is run on every element state of every kind it applies to, directly '
        'and as part of the validation of the element, and result, messages '
        'and the rest of the tree are compared with the documented predicate '
        'and message. Non-trivial: the case both accepted and rejected.')
BOUNDS = {
    'quick': '22 validators x all option values from small grids x 3 ways to '
             'give them x ~70 element states; sequences of 0-4 members of 5 '
             'kinds; all member sequences of length <=4 over 3 values for '
             'duplicates; all triples of 9 element states for equality',
    'thorough': 'the same with members of length <=6 and quadruples',
}
ASSUMPTIONS = [
    'an element without a value is in no range',
    'valid_options is a container in which any value of the element can be '
    'looked up (not a string or, for containers, a set)',
    'comparators given by subclassing are not plain functions']

d = datetime
D1, D2, D3 = d.date(2020, 1, 1), d.date(2020, 1, 2), d.date(2020, 2, 29)

# (kind, input, native value, text)
NUL = object()
STATES = {
    'S': (String, [(NUL, None, u''), (None, None, u''), (u'', u'', u''),
                   (u'x', u'x', u'x'), (u' x ', u'x', u'x'),
                   (u'abc', u'abc', u'abc'), (u'%(label)s', u'%(label)s',
                                              u'%(label)s'),
                   (u'\xe9\u20ac', u'\xe9\u20ac', u'\xe9\u20ac'),
                   (u'abcde', u'abcde', u'abcde')]),
    'R': (String.using(strip=False), [(u'  ', u'  ', u'  ')]),
    'I': (Integer, [(NUL, None, u''), (u'', None, u''), (u'bad', None, u'bad'),
                    (-1, -1, u'-1'), (0, 0, u'0'), (u'1', 1, u'1'),
                    (2, 2, u'2'), (u' 3 ', 3, u'3'), (12345, 12345, u'12345'),
                    (u'1e400', None, u'1e400')]),
    'F': (Float, [(NUL, None, u''), (u'0.0', 0.0, u'0.000000'),
                  (1.5, 1.5, u'1.500000'), (u'x', None, u'x')]),
    'N': (Decimal, [(NUL, None, u''), (u'2', decimal.Decimal(2), u'2.000000'),
                    (u'..', None, u'..')]),
    'B': (Boolean, [(NUL, None, u''), (True, True, u'1'),
                    (False, False, u''), (u'maybe', None, u'maybe'),
                    (u'on', True, u'1')]),
    'D': (Date, [(NUL, None, u''), (u'junk', None, u'junk'),
                 (D1, D1, u'2020-01-01'), (u'2020-01-02', D2, u'2020-01-02'),
                 (D3, D3, u'2020-02-29')]),
    'Y': (DateYYYYMMDD, [(NUL, None, u''), (u'junk', None, u''),
                         (D2, D2, u'2020-01-02')]),
    'T': (Time, [(NUL, None, u''), (u'99', None, u'99'),
                 (d.time(1, 2, 3), d.time(1, 2, 3), u'01:02:03')]),
    'E': (Enum.valued(u'a', u'abc'), [(NUL, None, u''), (u'a', u'a', u'a'),
                                      (u'z', None, u'z')]),
    'J': (JoinedString, [(NUL, u'', u''), (u'a,b', u'a,b', u'a,b')]),
    'L': (List.of(String), [(NUL, [], u'[]'), ([u'a'], [u'a'], u"[u'a']")]),
    'M': (MultiValue.of(String), [(NUL, None, u''),
                                  ([u'abc', u'x'], u'abc', u'abc')]),
    'K': (Dict.of(String.named(u'q')),
          [(NUL, {u'q': None}, u"{u'q': u''}")]),
}
TEXTS = 'SRIFNBDYTEJLMK'


def make(kind, inp, **kw):
    cls = STATES[kind][0]
    if kw:
        cls = cls.using(**kw)
    el = cls()
    if inp is not NUL:
        el.set(inp)
    return el


# validator name -> (option names, message templates by key,
#                    predicate(el value, text, options) -> None or key)
def between(v, u, o):
    if o['inclusive']:
        return None if v is not None and o['minimum'] <= v <= o['maximum'] \
            else 'failure_inclusive'
    return None if v is not None and o['minimum'] < v < o['maximum'] \
        else 'failure_exclusive'


def rng(op, opt):
    return lambda v, u, o: (None if v is not None and op(v, o[opt])
                            else 'failure')


def when(test, key):
    return lambda v, u, o: key if test(v, u, o) else None


SPEC = {
    'Present': ({'missing': u'%s may not be blank.'},
                when(lambda v, u, o: u == u'', 'missing')),
    'IsTrue': ({'false': u'%s must be True.'},
               when(lambda v, u, o: not v, 'false')),
    'IsFalse': ({'true': u'%s must be False.'},
                when(lambda v, u, o: v, 'true')),
    'ValueIn': ({'fail': u'{value} is not a valid value for %s.'},
                when(lambda v, u, o: not any(
                    v == x for x in o['valid_options']), 'fail')),
    'Converted': ({'incorrect': u'%s is not correct.'},
                  when(lambda v, u, o: v is None, 'incorrect')),
    'ShorterThan': ({'exceeded': u'%s may not exceed {maxlength} '
                                 u'characters.'},
                    when(lambda v, u, o: len(u) > o['maxlength'],
                         'exceeded')),
    'NoLongerThan': ({'exceeded': u'%s may not exceed {maxlength} '
                                  u'characters.'},
                     when(lambda v, u, o: len(u) > o['maxlength'],
                          'exceeded')),
    'LongerThan': ({'short': u'%s must be at least {minlength} characters.'},
                   when(lambda v, u, o: len(u) < o['minlength'], 'short')),
    'LengthBetween': ({'breached': u'%s must be between {minlength} and '
                                   u'{maxlength} characters long.'},
                      when(lambda v, u, o: not o['minlength'] <= len(u) <=
                           o['maxlength'], 'breached')),
    'ValueLessThan': ({'failure': u'%s must be less than {boundary}.'},
                      rng(operator.lt, 'boundary')),
    'ValueAtMost': ({'failure': u'%s must be less than or equal to '
                                u'{maximum}.'}, rng(operator.le, 'maximum')),
    'ValueGreaterThan': ({'failure': u'%s must be greater than {boundary}.'},
                         rng(operator.gt, 'boundary')),
    'ValueAtLeast': ({'failure': u'%s must be greater than or equal to '
                                 u'{minimum}.'}, rng(operator.ge, 'minimum')),
    'ValueBetween': ({'failure_inclusive': u'%s must be in the range '
                                           u'{minimum} to {maximum}.',
                      'failure_exclusive': u'%s must be greater than '
                                           u'{minimum} and less than '
                                           u'{maximum}.'}, between),
}
POSITIONAL = {
    'ValueIn': ('valid_options',), 'ShorterThan': ('maxlength',),
    'NoLongerThan': ('maxlength',), 'LongerThan': ('minlength',),
    'LengthBetween': ('minlength', 'maxlength'),
    'ValueLessThan': ('boundary',), 'ValueAtMost': ('maximum',),
    'ValueGreaterThan': ('boundary',), 'ValueAtLeast': ('minimum',),
    'ValueBetween': ('minimum', 'maximum'),
}
# these take their bounds in the constructor only
CONSTRUCTED = ('ValueLessThan', 'ValueAtMost', 'ValueGreaterThan',
               'ValueAtLeast', 'ValueBetween')
NUMS = (-1, 0, 1, 2, 3)
LENS = (0, 1, 2, 3, 5)
DATES = (D1, D2, D3)


def options():
    for name in ('Present', 'IsTrue', 'IsFalse', 'Converted'):
        yield name, {}, TEXTS
    for opts in ((), (u'a',), [u'x', u'abc'], set([1, 2]), {0: 1}, [None],
                 (True,), [u''], (D2, 0.0), frozenset([u'%(label)s'])):
        kinds = TEXTS.replace('L', '').replace('K', '') \
            if not isinstance(opts, (tuple, list)) else TEXTS
        yield 'ValueIn', {'valid_options': opts}, kinds
    for n in LENS:
        yield 'ShorterThan', {'maxlength': n}, TEXTS
        yield 'NoLongerThan', {'maxlength': n}, TEXTS
        yield 'LongerThan', {'minlength': n}, TEXTS
        for m in LENS:
            yield 'LengthBetween', {'minlength': n, 'maxlength': m}, TEXTS
    for name in CONSTRUCTED[:-1]:
        opt = POSITIONAL[name][0]
        for kinds, vals in (('IFNB', NUMS), ('DY', DATES),
                            ('SRE', (u'', u'a', u'x', u'z')),
                            ('T', (d.time(1), d.time(1, 2, 3)))):
            for v in vals:
                yield name, {opt: v}, kinds
    for kinds, vals in (('IFN', NUMS), ('DY', DATES), ('S', (u'', u'x'))):
        for a, b in itertools.product(vals, repeat=2):
            for inc in (True, False):
                yield 'ValueBetween', {'minimum': a, 'maximum': b,
                                       'inclusive': inc}, kinds


def cases(tier):
    big = tier == 'thorough'
    for name, opts, kinds in options():
        for how in ('kw', 'positional', 'subclass'):
            if how == 'positional' and not opts:
                continue
            if how == 'subclass' and name in CONSTRUCTED:
                continue
            yield ('scalar', name, how, opts, kinds)
    for kind in 'LAMJC':
        for how in ('kw', 'subclass'):
            for n in range(0, 4):
                yield ('count', kind, how, 'HasAtLeast', {'minimum': n})
                yield ('count', kind, how, 'HasAtMost', {'maximum': n})
                for m in range(0, 4):
                    yield ('count', kind, how, 'HasBetween',
                           {'minimum': n, 'maximum': m})
            for name in ('HasAtLeast', 'HasAtMost', 'HasBetween'):
                yield ('count', kind, how, name, {})
    for kind in ('List', 'Array', 'MultiValue', 'Dicts', 'Dict', 'Lists'):
        for comparator in (None, 'never', 'always', 'first', 'sub'):
            for values in seqs((u'a', u'b', u''), 6 if big else 4):
                yield ('dup', kind, comparator, values)
    for name in ('MapEqual', 'ValuesEqual', 'UnisEqual', 'custom'):
        for how in ('positional', 'subclass'):
            for shape in ('dict', 'list', 'deep'):
                for n in ((2, 3, 4) if big else (2, 3)):
                    yield ('equal', name, how, shape, n)
    for name in ('HasBetween',):
        yield ('refused', name)


def build(name, how, opts, **more):
    cls = getattr(V, name)
    if how == 'kw':
        kw = dict(opts)
        kw.update(more)
        return cls(**kw)
    if how == 'positional':
        kw = dict(opts)
        args = [kw.pop(n) for n in POSITIONAL[name]]
        kw.update(more)
        return cls(*args, **kw)
    body = dict(opts)
    body.update(more)
    return type(cls)('Sub' + name, (cls,), body)()


def deep(el):
    """Everything observable about a tree, except the notes on its top."""
    kids = [deep(c) + (list(c.errors), list(c.warnings), c.valid)
            for c in el.children]
    return (repr(el.value), el.u, el.name, kids)


STATE_OBJECTS = (None, {}, {u'other': 1}, object(), u'text', [1], 7)


def judge(validator, el, key, text, what, state=None):
    before = deep(el)
    got = validator(el, state)
    if got is not (key is None):
        raise Violation('%s: got %r, expected %r' % (what, got, key is None))
    eq([m for m in el.errors], [] if key is None else [text],
       '%s: errors' % what)
    eq(el.warnings, [], '%s: warnings' % what)
    eq(deep(el), before, '%s: the element afterwards' % what)
    return got


def text_of(template, label, values):
    out = template
    # fill in by hand
    for k, v in values.items():
        out = out.replace(u'{%s}' % k, u'%s' % (v,))
    head, tail = out.split(u'%s', 1) if u'%s' in template else (out, None)
    return out


def fill(template, label, values):
    parts = template.split(u'%s')
    done = []
    for p in parts:
        for k, v in values.items():
            p = p.replace(u'{%s}' % k, u'%s' % (v,))
        done.append(p)
    return (u'%s' % (label,)).join(done)


def scalar(case, mc):
    _, name, how, opts, kinds = case
    templates, predicate = SPEC[name]
    results = set()
    for kind in kinds:
        for n, (inp, value, text) in enumerate(STATES[kind][1]):
            for name_, label in ((None, None), (u'n', u'n'),
                                 (u'n', u'\xdc %s')):
                more = {}
                if name_ is not None:
                    more['name'] = name_
                if label not in (name_, None):
                    more['label'] = label
                el = make(kind, inp, **more)
                eq((el.value, el.u), (value, text), 'assumed state', kind,
                   inp)
                key = predicate(value, text, opts)
                values = dict(opts, value=value)
                msg = key and fill(templates[key], label, values)
                what = '%s(%r) on %s %r' % (name, opts, kind, inp)
                results.add(judge(build(name, how, opts), el, key, msg,
                                  what, STATE_OBJECTS[n %
                                                      len(STATE_OBJECTS)]))
            # own wording
            if key is not None:
                for msg, want in ((u'no', u'no'), (u'%(label)s!', u'n!'),
                                  (lambda e, s: u'c %(u)s', u'c ' + text)):
                    el = make(kind, inp, name=u'n')
                    if how == 'subclass' and callable(msg):
                        msg = staticmethod(msg)
                    judge(build(name, how, opts, **{key: msg}), el, key,
                          want, what + ' with its own message')
            # as one of the validators of the element
            v = build(name, how, opts)
            el = make(kind, inp, name=u'n', validators=[v], optional=False)
            if kind in 'LKMY':
                continue              # members are validated too
            eq(el.validate(), key is None, what + ': validate()')
            eq(el.errors, [] if key is None else
               [fill(templates[key], u'n', values)], what + ': errors')
    if len(results) < 2:
        mc.trivial()
    return (name, sorted(results))


COUNTED = {
    'L': List.of(String.named(u'one')),
    'A': Array.of(String.named(u'one')),
    'M': MultiValue.of(Integer.named(u'one')),
    'J': JoinedString.using(member_schema=String.named(u'one')),
    'C': List.of(Dict.named(u'one').of(String.named(u'k'))),
}
MEMBER = {'L': u'abc', 'A': u'xy', 'M': 5, 'J': u'pqr', 'C': {u'k': u'v'}}
P = {
    'HasAtLeast': (u'all must contain at least one one',
                   u'all must contain at least {minimum} ones', 'minimum'),
    'HasAtMost': (u'all must contain at most one one',
                  u'all must contain at most {maximum} ones', 'maximum'),
    'range': (u'all must contain at least {minimum} and at most {maximum} '
              u'one', u'all must contain at least {minimum} and at most '
              u'{maximum} ones', 'maximum'),
    'exact': (u'all must contain exactly one one',
              u'all must contain exactly {minimum} ones', 'minimum'),
}


def count(case, mc):
    _, kind, how, name, opts = case
    o = dict({'minimum': 1, 'maximum': 1}, **opts)
    lo, hi = o['minimum'], o['maximum']
    if name == 'HasBetween' and hi < lo:
        try:
            build(name, how, opts)
        except TypeError:
            return (name, 'refused')
        raise Violation('HasBetween(%r) was accepted' % (opts,))
    v = build(name, how, opts)
    results = set()
    for n in range(0, 5):
        if name == 'HasAtLeast':
            ok, words = n >= lo, P[name]
        elif name == 'HasAtMost':
            ok, words = n <= hi, P[name]
        else:
            ok, words = lo <= n <= hi, P['exact' if lo == hi else 'range']
        msg = words[0] if o[words[2]] == 1 else words[1]
        for k in o:
            msg = msg.replace(u'{%s}' % k, unicode(o[k]))
        el = COUNTED[kind].named(u'all')([MEMBER[kind]] * n)
        eq(len(el), n, 'assumed members')
        what = '%s(%r) on %d members of %s' % (name, opts, n, kind)
        results.add(judge(v, el, None if ok else 'x', msg, what,
                          STATE_OBJECTS[n % 7]))
        el = COUNTED[kind].named(u'all').using(validators=[v])(
            [MEMBER[kind]] * n)
        if kind in 'LC':
            eq(el.validate(), ok, what + ': validate()')
            eq(el.errors, [] if ok else [msg], what + ': errors')
    if len(results) < 2:
        mc.trivial()
    return (name, sorted(results))


def dup(case, mc):
    _, kind, comparator, values = case
    calls = []
    V_ = V.NotDuplicated
    wanted = operator.eq
    if comparator is None:
        v = V_()
    elif comparator == 'sub':
        v = type(V_)('Sub', (V_,), {'comparator': operator.ne})()
        wanted = operator.ne
    else:
        def cmp_(a, b):
            calls.append((a, b))
            return {'never': False, 'always': True}.get(
                comparator, a.u[-1:] == b.u[-1:])
        v = V_(comparator=cmp_)
        wanted = {'never': lambda a, b: False, 'always': lambda a, b: True}\
            .get(comparator, lambda a, b: a[-1:] == b[-1:])
    member = String.named(u'm').using(optional=True)
    if kind == 'Dict' and not values:
        mc.trivial()
        return 'no fields'
    if kind == 'Dict':
        names = [u'f%d' % i for i in range(len(values))]
        top = Dict.named(u'top').of(*[
            member.named(n) for n in names])(dict(zip(names, values)))
        kids = [top[n] for n in names]
        order = list(top.children)
        index = [[id(k) for k in order].index(id(k)) for k in kids]
        vals = [c.u for c in order]
        kids = order
    elif kind == 'Dicts':
        top = List.named(u'top').of(Dict.named(u'm').of(
            String.named(u'k')))([{u'k': x} for x in values])
        kids = list(top)
        vals = list(values)
    elif kind == 'Lists':
        top = List.named(u'top').of(List.named(u'm').of(String))(
            [[x] for x in values])
        kids = list(top)
        vals = list(values)
    else:
        base = {'List': List, 'Array': Array, 'MultiValue': MultiValue}[kind]
        top = base.named(u'top').of(member).using(prune_empty=False)()
        for x in values:
            top.append(x)
        kids = list(top)
        vals = list(values)
    eq(len(kids), len(values), 'assumed members')
    if comparator == 'first' and kind in ('Dicts', 'Lists'):
        # the comparator looks at the text of the element
        vals = [k.u for k in kids]
    hit = False
    before = deep(top)
    for i, el in enumerate(kids):
        want = any(wanted(vals[i], vals[j]) for j in range(i))
        hit = hit or want
        got = v(el, None)
        eq(got, not want, 'NotDuplicated at %d of %r' % (i, values))
        eq(el.errors, [u'%s may not be repeated within top.' % el.name]
           if want else [], 'errors at %d of %r' % (i, values))
        # what was concluded before doesn't matter
        valid = [k.valid for k in kids]
        for flag in (True, False):
            for k in kids:
                k.valid = flag
            eq(v(el, None), not want, 'NotDuplicated at %d of %r, all %s' % (
                i, values, flag))
        for k, was in zip(kids, valid):
            k.valid = was
    for el in kids:
        del el.errors[:]
    eq(deep(top), before, 'the tree afterwards')
    for a, b in calls:
        true(any(a is k for k in kids) and any(b is k for k in kids) and
             a is not b, 'the comparator got something else', a, b)
    # positions in messages, counting from one
    w = V_(failure=u'%(position)s in %(container_label)s', comparator=v.
           comparator)
    for i, el in enumerate(kids):
        if not w.validate(el, {}):
            eq(el.errors, [u'%d in top' % (i + 1)], 'position')
    if not hit:
        mc.trivial()
    return (kind, hit)


# element states for equality: (schema, input)
EQ = [(String, NUL), (String, u''), (String, u'1'), (Integer, u'1'),
      (Integer, u'x'), (Integer, u'y'), (Integer, NUL), (Float, u'1'),
      (Boolean, u'on')]


def equal(case, mc):
    _, name, how, shape, n = case
    outcomes = set()
    for combo in itertools.product(range(len(EQ)), repeat=n):
        labels = [u'l%d' % i for i in range(n)]
        schemas = [EQ[c][0].named(u'e%d' % i).using(label=labels[i])
                   for i, c in enumerate(combo)]
        inputs = [EQ[c][1] for c in combo]
        if shape == 'list':
            if len(set(s for s, _ in [EQ[c] for c in combo])) > 1:
                continue
            top = List.named(u'top').of(EQ[combo[0]][0]).using(
                prune_empty=False)()
            for x in inputs:
                top.append(top.member_schema() if x is NUL
                           else top.member_schema(x))
            kids = list(top)
            paths = [u'%d' % i for i in range(n)]
            labels = [u'None'] * n
            holder = top
        elif shape == 'deep':
            inner = Dict.named(u'in').of(*schemas[1:])
            top = Dict.named(u'top').of(schemas[0], inner)()
            holder = top[u'in']
            kids = [top[u'e0']] + [holder[s.name] for s in schemas[1:]]
            for k, x in zip(kids, inputs):
                if x is not NUL:
                    k.set(x)
            paths = [u'../e0', u'/in/e1', u'e2', u'../in/e3'][:n]
        else:
            holder = top = Dict.named(u'top').of(*schemas)()
            kids = [top[s.name] for s in schemas]
            for k, x in zip(kids, inputs):
                if x is not NUL:
                    k.set(x)
            paths = [s.name for s in schemas]
        if name == 'MapEqual':
            keys = [(k.value, k.u) for k in kids]
            cls, kw = V.MapEqual, {}
        elif name == 'custom':
            keys = [len(k.u) for k in kids]
            cls, kw = V.MapEqual, {'transform': lambda el: len(el.u)}
        elif name == 'ValuesEqual':
            keys = [k.value for k in kids]
            cls, kw = V.ValuesEqual, {}
        else:
            keys = [k.u for k in kids]
            cls, kw = V.UnisEqual, {}
        if how == 'positional':
            v = cls(*paths, **kw)
        else:
            body = dict(field_paths=paths)
            v = type(cls)('Sub', (cls,), body)(**kw)
        ok = all(k == keys[0] for k in keys[1:])
        msg = u'%s and %s do not match.' % (u', '.join(labels[:-1]),
                                            labels[-1])
        outcomes.add(judge(v, holder, None if ok else 'unequal', msg,
                           '%s of %r' % (name, inputs)))
        for k in kids:
            eq(k.errors, [], 'errors of a compared element')
        mc.transition()
    return (name, sorted(outcomes))


def refused(case, mc):
    for lo in range(-2, 4):
        for hi in range(-2, 4):
            ok = hi >= lo >= 0
            try:
                V.HasBetween(minimum=lo, maximum=hi)
            except TypeError:
                true(not ok, 'HasBetween refused', lo, hi)
            else:
                true(ok, 'HasBetween accepted', lo, hi)
    for name in SPEC:
        try:
            build(name, 'kw', dict((k, 1) for k in POSITIONAL.get(name, ())),
                  nonesuch=1)
        except TypeError:
            continue
        raise Violation('%s took an unknown option' % name)
    try:
        V.NotDuplicated()(String(u'x'), None)
    except TypeError:
        pass
    else:
        raise Violation('NotDuplicated ran on an element without a parent')
    return 'refused'


def check(case, mc):
    return {'scalar': scalar, 'count': count, 'dup': dup, 'equal': equal,
     'refused': refused}[case[0]](case, mc)
