# -*- coding: utf-8 -*-
"""C20: object mapping moves exactly the selected fields."""
import decimal
import itertools

from flatland import (Array, Boolean, DateYYYYMMDD, Decimal, Dict, Enum, Float,
                      Form, Integer, JoinedString, List, Long, MultiValue,
                      SparseDict, String)
from flatland.util import keyslice_pairs
from lib import Violation, eq, raises, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (kind of mapping, rename table, attributes present); every '
        'include and omit selection is applied in both directions, to fresh '
        'and populated elements, and compared with a model. Non-trivial: '
        'some attribute was selected and some was not.')
BOUNDS = {
    'quick': '4 kinds of mapping x all rename tables from 3 names to 4 x all '
             'presence patterns of 4 attributes x 24 selections in both '
             'directions; 7 kinds of object x 12 rename tables x 24 '
             'selections; 21 values stored over 17 others in 5 '
             'kinds of place; attributes holding 5 values or nothing on 7 kinds '
             'of object; all key transformations; all pair sequences of <=3',
    'thorough': 'the same with 5 key functions everywhere and 5 ways to '
                'spell a selection',
}
ASSUMPTIONS = [
    'an empty include or omit is the same as none',
    'where two attributes end up at one field, either may win',
    'fields that are not taken are blank afterwards, as with every set()']

NAMES = (u'a', u'b', u'c')         # fields are a, b and d
FIELDS = (u'a', u'b', u'd')


class Plain(object):
    pass


class Slots(object):
    __slots__ = ('a', 'b', 'c', 'd')


class Computed(object):
    """Attributes behind properties, some of which are not there."""

    def __init__(self):
        self.__dict__['_'] = {}

    def _prop(name):
        def fget(self):
            if name not in self._:
                raise AttributeError(name)
            return self._[name]
        return property(fget, lambda self, v: self._.__setitem__(name, v))
    a, b, c, d = map(_prop, 'abcd')


class Dynamic(object):
    """Attributes found by __getattr__."""

    def __init__(self):
        self.__dict__['_'] = {}

    def __getattr__(self, name):
        try:
            return self.__dict__['_'][name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self._[name] = value


class Inherited(Plain):
    d = u'class'


class Old:
    pass


class Mapping(dict):
    """Items are not attributes."""


KINDS = {'plain': Plain, 'slots': Slots, 'computed': Computed,
         'dynamic': Dynamic, 'inherited': Inherited, 'old': Old,
         'mapping': Mapping}
ABSENT = object()


def snapshot(obj):
    return dict((n, getattr(obj, n)) for n in 'abcdz'
                if getattr(obj, n, ABSENT) is not ABSENT)


def make(kind, present):
    obj = KINDS[kind]()
    if kind == 'mapping':
        obj.update(a=u'item', d=u'item')
    for n in present:
        setattr(obj, str(n), n * 2)
    return obj


SCHEMAS = {
    'dict': Dict.of(*[String.named(n) for n in FIELDS]),
    'sparse': SparseDict.of(*[String.named(n) for n in FIELDS]),
    'form': type(Form)('F', (Form,), dict((str(n), String)
                                          for n in FIELDS)),
    'duck': Dict.of(*[String.named(n) for n in FIELDS]).using(policy='duck'),
}

SELECTIONS = [('none', None)]
for _n in (1, 2):
    for _c in itertools.combinations((u'a', u'b', u'c', u'd'), _n):
        SELECTIONS += [('include', _c), ('omit', _c)]
SELECTIONS += [('include', (u'z',)), ('omit', (u'z',)),
               ('include', (u'a', u'b', u'c', u'd'))]


def renames(targets=(None,) + NAMES[:2] + (u'd', u'z')):
    for choice in itertools.product(targets, repeat=3):
        yield tuple((n, t) for n, t in zip(NAMES, choice) if t)


SPELL = {
    'list': list, 'tuple': tuple, 'set': set, 'iterator': iter,
    'generator': lambda s: (x for x in s),
    'bytes': lambda s: [str(x) for x in s]}
RENAME = {'dict': dict, 'pairs': list, 'tuple': tuple, 'iterator': iter,
          'bytes': lambda r: dict((str(k), str(v)) for k, v in r)}


def options(selection, rename, spell='list', rspell='dict'):
    kind, names = selection
    out = {}
    if kind != 'none':
        out[kind] = SPELL[spell](names)
    if rename:
        out['rename'] = RENAME[rspell](rename)
    return out


def select(pairs, selection, rename):
    """What is moved: target -> possible values."""
    kind, names = selection
    rename = dict(rename)
    out = {}
    for k, v in pairs:
        if k in rename:
            out.setdefault(rename[k], []).append(v)
        elif kind == 'none' or (k in names) == (kind == 'include'):
            out.setdefault(k, []).append(v)
    return out


def within(got, want, what, *ctx):
    eq(sorted(got), sorted(want), what, *ctx)
    for k in got:
        if got[k] not in want[k]:
            raise Violation('%s: %r is %r, expected one of %r (%r)' % (
                what, k, got[k], want[k], ctx))


def imported(el, kind, before, want, ctx):
    """The element holds what was selected."""
    want = dict((k, v) for k, v in want.items() if k in FIELDS)
    if kind != 'sparse':
        for f in FIELDS:
            want.setdefault(f, [None])
    within(dict((k, el[k].value) for k in el.keys()), want, 'imported', ctx)


def cases(tier):
    deep = tier == 'thorough'
    for kind in sorted(SCHEMAS):
        for rename in renames():
            for n in range(16):
                present = tuple(x for i, x in enumerate(u'abcd')
                                if n & 1 << i)
                yield ('both', kind, rename, present, deep)
    few = [r for i, r in enumerate(renames()) if i % 9 == 4]
    for kind in sorted(KINDS):
        for rename in few:
            yield ('objects', kind, rename)
    for spell in sorted(SPELL):
        for rspell in sorted(RENAME):
            yield ('spelling', spell, rspell)
    for keyname in sorted(KEYS):
        for rename in renames((None, u'z', u'A')):
            yield ('keys', keyname, rename)
    for which in range(len(EXPORTED)):
        yield ('stored', which)
    for kind in sorted(SCHEMAS):
        for obj in sorted(KINDS):
            yield ('held', kind, obj)
    for kind in sorted(SCHEMAS):
        for which in sorted(KINDS):
            yield ('held', kind, which)
    yield ('refused',)
    yield ('nested',)
    for head in itertools.product(u'abA', repeat=2):
        yield ('pairs', head)


def check(case, mc):
    return globals()['check_' + case[0]](case, mc)


def check_both(case, mc):
    kind, schema, rename, present, deep = case
    cls = SCHEMAS[schema]
    pairs = [(n, n * 2) for n in present]
    moved = 0
    for selection in SELECTIONS:
        where = (schema, rename, present, selection)
        want = select(pairs, selection, rename)
        moved += bool(want)
        kw = lambda: options(selection, rename)
        # from the object
        obj = make('plain', present)
        before = snapshot(obj)
        for fresh in (True, False):
            el = cls() if fresh else cls({u'a': u'x', u'b': u'y'})
            child = None if schema == 'sparse' else el
            eq(el.set_by_object(obj, **kw()), None, 'result')
            imported(el, schema, None, want, where)
            eq(snapshot(obj), before, 'the object', where)
        imported(cls.from_object(obj, **kw()), schema, None, want, where)
        named = cls.from_object(obj, name=u'nm', **kw())
        eq(named.name, u'nm', 'other options')
        # to the object
        values = [(f, f.upper()) for f in FIELDS if f in present or
                  schema != 'sparse']
        el = cls(dict(values))
        want = select(values, selection, rename)
        within(el.slice(**kw()), want, 'slice', where)
        obj = make('plain', (u'a', u'c'))
        expected = dict((k, [v]) for k, v in snapshot(obj).items())
        expected.update(want)
        old = el.value
        eq(el.update_object(obj, **kw()), None, 'result')
        within(vars(obj), expected, 'updated', where)
        eq(el.value, old, 'the element', where)
        true(not [k for k in vars(obj) if type(k) is not str],
             'attribute names', where)
        mc.count('mappings', 5)
    if not moved:
        mc.trivial()
    return moved


def check_objects(case, mc):
    tag, kind, rename = case
    for n in range(16):
        present = tuple(x for i, x in enumerate(u'abcd') if n & 1 << i)
        for selection in SELECTIONS:
            obj = make(kind, present)
            before = snapshot(obj)
            where = (kind, rename, present, selection)
            el = SCHEMAS['dict']({u'd': u'old'})
            el.set_by_object(obj, **options(selection, rename))
            want = select([(unicode(k), v) for k, v in before.items()],
                          selection, rename)
            imported(el, 'dict', None, want, where)
            eq(snapshot(obj), before, 'the object', where)
            if kind == 'slots' and [
                    t for t in select([(f, 0) for f in FIELDS], selection,
                                      rename) if t == u'z']:
                continue
            el = SCHEMAS['dict'](dict((f, f.upper()) for f in FIELDS))
            expected = dict((str(k), [v]) for k, v in before.items())
            expected.update(select([(f, f.upper()) for f in FIELDS],
                                   selection, rename))
            el.update_object(obj, **options(selection, rename))
            within(snapshot(obj), expected, 'updated', where)
            if kind == 'mapping':
                eq(dict(obj), {'a': u'item', 'd': u'item'}, 'items', where)
    return 1


def check_spelling(case, mc):
    """Selections and tables may be any iterable."""
    kind, spell, rspell = case
    cls = SCHEMAS['dict']
    for rename in ((), ((u'c', u'b'),), ((u'a', u'z'), (u'c', u'a'))):
        for selection in SELECTIONS:
            obj = make('plain', (u'a', u'b', u'c'))
            el = cls()
            el.set_by_object(obj, **options(selection, rename, spell, rspell))
            want = select([(n, n * 2) for n in NAMES], selection, rename)
            imported(el, 'dict', None, want, (selection, rename))
            el = cls({u'a': u'1', u'b': u'2'})
            values = [(u'a', u'1'), (u'b', u'2'), (u'd', None)]
            want = select(values, selection, rename)
            within(el.slice(**options(selection, rename, spell, rspell)),
                   want, 'slice', selection, rename)
            obj = Plain()
            el.update_object(obj, **options(selection, rename, spell, rspell))
            within(vars(obj), want, 'updated', selection, rename)
    return 1


KEYS = {'none': None, 'str': str, 'upper': lambda k: k.upper(),
        'prefix': lambda k: u'a' if k == u'b' else u'p' + k,
        'same': lambda k: u'a'}


def check_keys(case, mc):
    """Names are transformed before they are selected and renamed."""
    kind, keyname, rename = case
    key = KEYS[keyname]
    fn = key or (lambda k: k)
    values = [(f, f.upper()) for f in FIELDS]
    el = SCHEMAS['dict'](dict(values))
    more = [('include', (u'A', u'pa')), ('omit', (u'A', u'pd'))]
    for selection in SELECTIONS + more:
        want = select([(fn(k), v) for k, v in values], selection, rename)
        kw = options(selection, rename)
        within(el.slice(key=key, **kw), want, 'slice', selection, keyname)
        obj = make('plain', (u'c',))
        expected = {'c': [u'cc']}
        expected.update(want)
        if keyname != 'none':
            el.update_object(obj, key=key, **kw)
            within(vars(obj), expected, 'updated', selection, keyname)
        types = set(type(k) for k in el.slice(key=key).keys())
        eq(types, set([str if keyname == 'str' else unicode]), 'key types')
    return 1


def check_refused(case, mc):
    """include and omit together."""
    for schema in sorted(SCHEMAS):
        for i in ([u'a'], (u'z',), u'a'):
            for o in ([u'a'], [u'b', u'c']):
                for rename in (None, {u'a': u'b'}):
                    el = SCHEMAS[schema]({u'a': u'1'})
                    obj = make('plain', (u'b', u'c'))
                    before = (el.value, snapshot(obj))
                    for call in (
                            lambda: el.set_by_object(obj, i, o, rename),
                            lambda: el.update_object(obj, i, o, rename),
                            lambda: el.slice(i, o, rename),
                            lambda: SCHEMAS[schema].from_object(
                                obj, i, o, rename)):
                        raises(TypeError, call, 'include and omit', schema)
                        eq((el.value, snapshot(obj)), before, 'unchanged')
    strict = Dict.of(String.named(u'a'), String.named(u'b')).using(
        policy='strict')
    el = strict()
    raises(TypeError, lambda: el.set_by_object(make('plain', (u'a',))),
           'a strict mapping needs everything')
    el.set_by_object(make('plain', (u'a', u'b', u'c')))
    eq(el.value, {u'a': u'aa', u'b': u'bb'}, 'strict')
    return 1


def check_nested(case, mc):
    """Containers travel as plain values."""
    S = Dict.of(List.named(u'l').of(Integer),
                Dict.named(u'd').of(String.named(u'x'), String.named(u'y')),
                Integer.named(u'n'))
    obj = Plain()
    obj.l, obj.d, obj.n = [1, u'2', 'x'], {u'x': u'1'}, u'bad'
    obj.other = object()
    el = S.from_object(obj)
    eq(el.value, {u'l': [1, 2, None], u'd': {u'x': u'1', u'y': None},
                  u'n': None}, 'imported')
    eq(el[u'n'].u, u'bad', 'unconverted')
    eq((obj.l, obj.d), ([1, u'2', 'x'], {u'x': u'1'}), 'the object')
    out = Plain()
    el.update_object(out)
    eq(vars(out), el.value, 'exported')
    out.l.append(5)
    out.d[u'x'] = u'9'
    eq(el.value, {u'l': [1, 2, None], u'd': {u'x': u'1', u'y': None},
                  u'n': None}, 'the element is not the export')
    again = S.from_object(out)
    eq(again[u'l'].value, [1, 2, None, 5], 'and back')
    part = el.slice(include=[u'd'])
    eq(part, {u'd': {u'x': u'1', u'y': None}}, 'slice')
    part[u'd'][u'x'] = u'7'
    eq(el[u'd'][u'x'].value, u'1', 'the element is not the slice')
    return 1


class Agreeable(object):
    """Equal to everything."""
    __hash__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Touchy(object):
    """Will not be compared."""
    __hash__ = None

    def __eq__(self, other):
        raise ValueError('compared')
    __ne__ = __lt__ = __nonzero__ = __eq__


PRIOR = [ABSENT, None, 0, 1, 1L, 1.0, True, False, u'', '', u'1', '1', (),
         [], {}, Agreeable(), Touchy()]
EXPORTED = [
    (Integer, 1), (Integer, 0), (Integer, None), (Boolean, True),
    (Boolean, False), (Float, 1.0), (Float, 0.0), (Long, 1), (String, u'1'),
    (String, u''), (String, None), (Decimal, decimal.Decimal(1)),
    (List.of(String), []), (List.of(Integer), [1]), (Array.of(String), []),
    (MultiValue.of(String), None), (JoinedString, u''),
    (Dict.of(String.named(u'x')), {u'x': None}), (SparseDict.of(Integer.named(u'x')), {}),
    (DateYYYYMMDD, None), (Enum.valued(u'1'), u'1')]


def check_stored(case, mc):
    """What is exported is stored, whatever was there and wherever."""
    _, which = case
    cls, value = EXPORTED[which]
    el = Dict.of(cls.named(u'a'), String.named(u'b'))()
    el[u'a'].set([] if value is None and cls.__name__ == 'MultiValue'
                 else value)
    eq(el[u'a'].value, value, 'exported')
    for prior in PRIOR:
        for place in ('instance', 'class', 'base', 'property', 'logged'):
            log = []

            class Base(object):
                pass

            class Obj(Base):
                pass
            if place == 'property':
                Obj.a = property(lambda self: prior,
                                 lambda self, v: log.append(('a', v)))
            elif place == 'logged':
                def __setattr__(self, name, v):
                    log.append((name, v))
                    object.__setattr__(self, name, v)
                Obj.__setattr__ = __setattr__
            obj = Obj()
            if prior is not ABSENT and place != 'property':
                target = {'instance': obj, 'class': Obj, 'base': Base,
                          'logged': obj}[place]
                setattr(target, 'a', prior)
            del log[:]
            for kw in ({'include': [u'a']}, {'omit': [u'b']},
                       {'rename': {u'a': u'a'}, 'include': [u'zz']}):
                if place in ('instance', 'logged') and prior is not ABSENT:
                    object.__setattr__(obj, 'a', prior)
                elif place != 'property':
                    obj.__dict__.pop('a', None)
                del log[:]
                el.update_object(obj, **kw)
                if place == 'property':
                    eq(len(log), 1, 'times it was stored', value, prior)
                    got = log[0][1]
                else:
                    eq(sorted(obj.__dict__), ['a'], 'stored on the object',
                       value, place)
                    got = obj.__dict__['a']
                if place == 'logged':
                    eq([n for n, v in log], ['a'], 'what was stored')
                eq(type(got), type(el[u'a'].value), 'type of what was stored',
                   value, place, type(prior))
                eq(got, value, 'what was stored', place, type(prior))
                if place == 'class' and prior is not ABSENT:
                    same(Obj.__dict__['a'], prior, 'the class attribute')
                mc.transition()
    return which


HELD = (ABSENT, None, u'', u'x', 0)


def check_held(case, mc):
    """An attribute counts as there whatever it holds."""
    _, kind, which = case
    cls = SCHEMAS[kind]
    for held in itertools.product(HELD, repeat=3):
        obj = make(which, ())
        for f, v in zip(FIELDS, held):
            if v is not ABSENT:
                setattr(obj, str(f), v)
        there = dict((f, getattr(obj, f)) for f in FIELDS if hasattr(obj, f))
        want = dict((f, None if v is None else unicode(v))
                    for f, v in there.items())
        if kind != 'sparse':
            for f in FIELDS:
                want.setdefault(f, None)
        fresh, full = cls(), cls(dict((f, u'was') for f in FIELDS))
        fresh.set_by_object(obj)
        full.set_by_object(obj)
        for el in (fresh, full, cls.from_object(obj)):
            eq(dict((k, el[k].value) for k in el.keys()), want, 'imported',
               kind, which, there)
        mc.transition()
    mc.trace()


def check_pairs(case, mc):
    """The function below, on sequences of pairs, in order."""
    kind, head = case
    tables = ({}, {u'a': u'b'}, {u'a': u'z', u'b': u'a'})
    for tail in seqs(u'abA', 2):
        pairs = [(k, i) for i, k in enumerate(head + tail)]
        for selection in SELECTIONS + [('omit', (u'A',))]:
            for rename in tables:
                for key in (None, lambda k: k.lower()):
                    want = []
                    for k, val in pairs:
                        k = key(k) if key else k
                        if k in rename:
                            want.append((rename[k], val))
                        elif selection[0] == 'none' or (
                                k in selection[1]) == (
                                selection[0] == 'include'):
                            want.append((k, val))
                    got = list(keyslice_pairs(
                        iter(pairs), key=key,
                        **options(selection, rename.items())))
                    eq(got, want, 'pairs', pairs, selection, rename)
    return 1
