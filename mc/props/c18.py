# -*- coding: utf-8 -*-
"""C18: compound values and their parts always agree."""
import datetime
import itertools
import re

from flatland import (Boolean, Compound, DateYYYYMMDD, Dict, Integer,
                      JoinedString, List, String)
from lib import Violation, eq, same, seqs, true

LEVEL = 'model_checking'
RULE = ('Dates: a case is (configuration, leading operations); every further '
        'operation is applied to the date and to a model of its parts. '
        'Joined strings: a case is (configuration, leading characters); every '
        'text continuing them is set and compared with a model. Non-trivial: '
        'some state held a value.')
BOUNDS = {
    'quick': 'dates: 9 configurations x all histories of <=2 of 50 '
             'operations, 3 of 17 operations in 3 configurations; all years '
             'around the limits x months 0-13 x days 0-32; joined strings: '
             'all texts of <=4 over 6 characters x 84 configurations, all '
             'lists of <=3 over 11 values, histories of <=3 of 13 operations',
    'thorough': 'dates: 3 of 50 and 4 of 17 operations; texts of <=6 '
                'characters',
}
ASSUMPTIONS = ['parts are Integers with the documented formats',
               'separator patterns have no groups',
               'joined strings are set to texts or to iterables, not None']

date = datetime.date


# ---------------------------------------------------------------- dates

DATES = {
    'plain': DateYYYYMMDD,
    'named': DateYYYYMMDD.named(u'dt'),
    'optional': DateYYYYMMDD.named(u'dt').using(optional=True),
    'nostrip': DateYYYYMMDD.named(u'dt').using(strip=False),
    'custom': DateYYYYMMDD.named(u'dt').using(field_schema=[
        Integer.named(u'y').using(format=u'%04i'),
        Integer.named(u'm').using(format=u'%02i'),
        Integer.named(u'd').using(format=u'%02i')]),
    'shuffled': DateYYYYMMDD.named(u'dt').using(field_schema=[
        # the names are only names: the first part is the year
        Integer.named(u'day'), Integer.named(u'year'),
        Integer.named(u'month')]),
    'partial': DateYYYYMMDD.named(u'dt').using(
        field_schema=[Integer.named(u'yy')]),
    'derived': DateYYYYMMDD.named(u'x').using(optional=True).named(u'dt'),
    'listed': DateYYYYMMDD.named(u'dt'),
}
PARTS = {
    'custom': (u'y', u'm', u'd'), 'shuffled': (u'day', u'year', u'month'),
    'partial': (u'yy', u'month', u'day'),
}
FORMATS = {'shuffled': (u'%s', u'%s', u'%s'),
           'partial': (u'%s', u'%02i', u'%02i')}

WHOLE = [u'2020-02-29', u'1999-12-31', u'2019-02-29', u' 2021-03-04\t',
         u'2021-3-4', u'', u'bogus', u'0000-01-01', u'2020-01-02x', None,
         date(2004, 5, 6), date(1, 1, 1), datetime.datetime(2010, 11, 12, 13),
         5, u'9999-12-31', {u'year': 2020}, '2011-01-01']
PART_VALUES = [(0, 2020), (0, 2019), (0, None), (0, u'2000'), (0, 0),
               (0, 10000), (1, 2), (1, 13), (1, u''), (1, u'x'), (1, u' 02 '),
               (2, 29), (2, 31), (2, 30), (2, None), (2, u'-1')]
FLATS = [[(0, u'2012'), (1, u'02'), (2, u'29')], [(1, u'6')],
         [(2, u'zz')], [], [(0, u''), (1, u''), (2, u'')]]
OPS = [('set', v) for v in range(len(WHOLE))]
OPS += [('value', v) for v in (0, 2, 9, 10)] + [('u', v) for v in (1, 5, 8)]
OPS += [('part', i) for i in range(len(PART_VALUES))]
OPS += [('item', i) for i in (0, 7, 8, 11)]
OPS += [('flat', i) for i in range(len(FLATS))]
OPS += [('raise',)]
FEW = [('set', 0), ('set', 2), ('set', 5), ('set', 9), ('set', 10),
       ('value', 10), ('u', 8),
       ('part', 1), ('part', 2), ('part', 5), ('part', 6), ('part', 7),
       ('part', 11), ('part', 14), ('item', 11), ('flat', 0), ('flat', 1)]


class Model(object):
    """Three parts, each (number or None, text)."""

    def __init__(self, config):
        self.config = config
        self.formats = FORMATS.get(config, (u'%04i', u'%02i', u'%02i'))
        self.parts = [(None, u'')] * 3

    def put(self, i, value):
        if value is None:
            self.parts[i] = (None, u'')
            return True
        try:
            n = int(value.strip() if isinstance(value, unicode) else value)
        except ValueError:
            self.parts[i] = (None, unicode(value))
            return False
        self.parts[i] = (n, self.formats[i] % n)
        return True

    def whole(self, value):
        """Returns whether the value is usable."""
        if isinstance(value, basestring):
            value = unicode(value)
            if self.config != 'nostrip':
                value = value.strip()
            digits = value.split(u'-')
            if [len(d) for d in digits] == [4, 2, 2] and \
                    u''.join(digits).isdigit():
                value = valid(*map(int, digits))
                ok = value is not None
            else:
                value, ok = None, False
        elif isinstance(value, date):
            ok = True
        else:
            ok = value is None
            value = None
        for i, attr in enumerate(('year', 'month', 'day')):
            self.put(i, None if value is None else getattr(value, attr))
        return ok

    def value(self):
        numbers = [p[0] for p in self.parts]
        if None in numbers:
            return None
        return valid(*numbers)


def valid(y, m, d):
    days = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28,
            31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= days[m - 1]:
        return date(y, m, d)


def iso(d):
    return u'' if d is None else u'%04d-%02d-%02d' % (d.year, d.month, d.day)


class Held(object):
    """A date on its own, or inside something."""

    def __init__(self, config):
        if config == 'listed':
            top = List.of(Dict.of(DATES[config]))([{}])
            self.el, self.prefix = top[0][u'dt'], u'0_dt'
        else:
            self.el = DATES[config]()
            self.prefix = self.el.name or u''
        self.top = self.el.root
        self.names = PARTS.get(config, (u'year', u'month', u'day'))

    def key(self, i):
        name = self.names[i]
        return self.prefix + u'_' + name if self.prefix else name


def agree(h, m, where):
    el, value = h.el, m.value()
    eq(el.value, value, 'value', where, m.parts)
    eq(type(el.value), type(value), 'type of the value', where)
    eq(el.u, iso(value), 'text', where, m.parts)
    eq([(el[n].value, el[n].u) for n in h.names], m.parts, 'parts', where)
    eq(el.is_empty, all(p == (None, u'') for p in m.parts), 'emptiness',
       where)
    eq(bool(el), value is not None, 'truth', where)
    # set when the whole, or each of its parts, is written again
    flat = dict(h.top.flatten())
    want = dict((h.key(i), m.parts[i][1]) for i in range(3))
    want[h.prefix] = iso(value)
    eq(flat, want, 'flattened', where)
    eq(len(h.top.flatten()), 4, 'flattened pairs', where)
    eq(sorted(el.keys()), sorted(h.names), 'names of the parts', where)


def apply(h, m, op, where):
    el = h.el
    kind = op[0]
    if kind == 'set':
        value = WHOLE[op[1]]
        eq(el.set(value), m.whole(value), 'result of set', where)
        same(el.raw, value, 'raw input', where)
    elif kind in ('value', 'u'):
        value = WHOLE[op[1]]
        setattr(el, kind, value)
        m.whole(value)
    elif kind == 'part':
        i, value = PART_VALUES[op[1]]
        eq(el[h.names[i]].set(value), m.put(i, value), 'part set', where)
    elif kind == 'item':
        i, value = PART_VALUES[op[1]]
        el[h.names[i]] = value
        m.put(i, value)
    elif kind == 'flat':
        pairs = FLATS[op[1]]
        prefix = el.name + u'_' if el.name else u''
        el.set_flat([(prefix + h.names[i], v) for i, v in pairs])
        for i, v in pairs:
            m.put(i, v)
    elif kind == 'raise':
        # a name that is not a part changes nothing
        try:
            el[u'nope'] = 1
        except (KeyError, TypeError):
            pass
        else:
            raise Violation('unknown part accepted')


def check_date(case, mc):
    kind, config, alphabet, head = case
    held = 0
    for last in globals()[alphabet]:
        ops = head + (last,)
        h, m = Held(config), Model(config)
        if not head:
            agree(h, m, (config, 'new'))
        for op in ops:
            apply(h, m, op, (config, ops))
            mc.transition()
        agree(h, m, (config, ops))
        mc.trace()
        mc.state((config, m.parts))
        held += m.value() is not None
    if not held:
        mc.trivial()
    return held


def check_calendar(case, mc):
    """Every day, written as text, as parts and as flat pairs."""
    year = case[1]
    cls = DATES['named']
    count = 0
    for m in range(0, 14):
        for d in range(0, 33):
            want = valid(year, m, d)
            text = u'%04d-%02d-%02d' % (year, m, d)
            el = cls()
            el.set({})
            if len(text) == 10:
                eq(el.set(text), want is not None, 'set', text)
                eq((el.value, el.u), (want, iso(want)), 'set', text)
                eq(el[u'day'].value, want and d, 'part', text)
            el = cls.from_flat([(u'dt_month', unicode(m)),
                                (u'dt_day', unicode(d)),
                                (u'dt_year', unicode(year))])
            eq((el.value, el.u), (want, iso(want)), 'flat', text)
            if want is not None:
                count += 1
                el = cls()
                true(el.set(want), 'set', want)
                eq((el.value, el.u), (want, text), 'native', text)
                eq([p.value for p in (el[u'year'], el[u'month'],
                                      el[u'day'])], [year, m, d], 'parts')
    return count


# ---------------------------------------------------------------- joined

SEPARATORS = [None, u';', u', ', u'--', u' ', u'|', u'.']
PATTERNS = [None, re.compile(u'\\s*[,;]\\s*'), re.compile(u'-+')]
MEMBERS = {'text': String, 'raw': String.using(strip=False),
           'int': Integer, 'bool': Boolean}
CHARS = u'a1 ,;-'


def joined(config):
    sep, pattern, prune, member = config
    options = {}
    if SEPARATORS[sep] is not None:
        options['separator'] = SEPARATORS[sep]
    if PATTERNS[pattern] is not None:
        options['separator_regex'] = PATTERNS[pattern]
    if prune is not None:
        options['prune_empty'] = prune
    cls = JoinedString.named(u'j').of(MEMBERS[member])
    return cls.using(**options) if options else cls


def pieces(config, text):
    """The pieces of a text, found by hand."""
    sep, pattern = SEPARATORS[config[0]] or u',', config[1]
    out, cur, i = [], u'', 0
    while i < len(text):
        n = 0
        if pattern == 0:
            if text[i:i + len(sep)] == sep:
                n = len(sep)
        elif pattern == 1:
            j = i
            while j < len(text) and text[j].isspace():
                j += 1
            if j < len(text) and text[j] in u',;':
                j += 1
                while j < len(text) and text[j].isspace():
                    j += 1
                n = j - i
        else:
            while text[i + n:i + n + 1] == u'-':
                n += 1
        if n:
            out.append(cur)
            cur = u''
            i += n
        else:
            cur += text[i]
            i += 1
    return out + [cur]


def convert(member, value):
    """(converted, native, text) of a member set to a value."""
    if value is None:
        return True, False if member == 'bool' else None, u''
    if isinstance(value, str):
        value = unicode(value)
    if member in ('text', 'raw'):
        text = unicode(value)
        if member == 'text':
            text = text.strip()
        return True, text, text
    if member == 'int':
        try:
            n = int(value.strip() if isinstance(value, unicode) else value)
        except (ValueError, TypeError):
            return False, None, unicode(value)
        return True, n, u'%d' % n
    if isinstance(value, unicode):
        low = value.lower()
        if value in (u'1', u'on', u'True', u'true'):
            return True, True, u'1'
        if value in (u'0', u'off', u'False', u'false', u''):
            return True, False, u''
        return False, None, value
    return True, bool(value), u'1' if value else u''


def expected(config, values):
    prune = True if config[2] is None else config[2]
    kept = [v for v in values
            if not (prune and (v is None or v == u''))]
    return [convert(config[3], v) for v in kept]


def holds(el, config, members, *where):
    sep = SEPARATORS[config[0]]
    sep = u',' if sep is None else sep
    text = sep.join(m[2] for m in members)
    eq([(c.value, c.u) for c in el], [m[1:] for m in members], 'members',
       config, *where)
    eq(el.value, text, 'joined value', config, *where)
    eq(el.u, text, 'joined text', config, *where)
    eq(type(el.value) is unicode or isinstance(el.value, unicode), True,
       'type', config, *where)
    eq(el.flatten(), [(u'j', text)], 'flattened', config, *where)
    for c in el:
        same(c.parent, el, 'parent', config, *where)


def check_texts(case, mc):
    kind, config, head, more = case
    cls = joined(config)
    # joining is only undone by splitting where the pieces hold no separator
    el, many = cls(), 0
    for tail in seqs(CHARS, more):
        text = head + u''.join(tail)
        members = expected(config, pieces(config, text))
        eq(el.set(text), all(m[0] for m in members), 'result', config, text)
        holds(el, config, members, text)
        same(el.raw, text, 'raw input', config, text)
        many += len(members) > 1
        if len(text) < 4:
            other = cls.from_flat([(u'j', text)])
            holds(other, config, members, text, 'flat')
            other = cls(text)
            holds(other, config, members, text, 'new')
            other = cls(default=text)
            other.set_default()
            holds(other, config, members, text, 'default')
            other.set(str(text))
            holds(other, config, members, text, 'bytes')
    if not many:
        mc.trivial()
    return many


LIST_VALUES = [u'', None, u'a', u' b ', u'1', 0, 1, 27, False, u'a,b', '7']


def check_lists(case, mc):
    kind, config, first = case
    cls = joined(config)
    el = cls()
    for n in range(0, 3):
        for rest in itertools.product(LIST_VALUES, repeat=n):
            values = [LIST_VALUES[first]] + list(rest)
            members = expected(config, values)
            given = list(values)
            eq(el.set(given), all(m[0] for m in members), 'result', config,
               values)
            holds(el, config, members, values)
            same(el.raw, given, 'raw input', config, values)
            eq(given, values, 'input unchanged')
            if n < 2:
                el.set(tuple(values))
                holds(el, config, members, values, 'tuple')
                el.set(iter(values))
                holds(el, config, members, values, 'iterator')
                el.set(v for v in values)
                holds(el, config, members, values, 'generator')
                holds(cls(values), config, members, values, 'new')
                for nothing in (None, 5, object()):
                    true(el.set(nothing) is (nothing is None),
                         'result of setting what has no pieces', nothing)
                    holds(el, config, [], values, 'nothing')
                    same(el.raw, nothing, 'raw input', config, nothing)
                    el.set(values)
    return 1


JOPS = [('set', u'a,b'), ('set', u''), ('set', u',,'), ('set', [u'c', 3]),
        ('set', []), ('append', u'x'), ('append', u''), ('pop', 0),
        ('item', u'9'), ('flat', [(u'j', u'p;q,r')]), ('flat', []),
        ('insert', u'i'), ('child', u'zz'), ('flat', [(u'j', u'')]),
        ('extend', [u'1', u'2'])]


def check_joined(case, mc):
    kind, config, head = case
    for last in JOPS:
        el, members = joined(config)(), []
        for op, arg in head + (last,):
            mc.transition()
            if op == 'set':
                members = expected(config, pieces(config, arg)
                                   if isinstance(arg, unicode) else arg)
                eq(el.set(arg), all(m[0] for m in members), 'result')
            elif op == 'append':
                el.append(arg)
                members.append(convert(config[3], arg))
            elif op == 'extend':
                el.extend(arg)
                members.extend(convert(config[3], a) for a in arg)
            elif op == 'insert':
                el.insert(0, arg)
                members.insert(0, convert(config[3], arg))
            elif op == 'pop':
                if members:
                    el.pop(0)
                    del members[0]
            elif op == 'item':
                if members:
                    el[0] = arg
                    members[0] = convert(config[3], arg)
            elif op == 'child':
                if members:
                    el[-1].set(arg)
                    members[-1] = convert(config[3], arg)
            elif op == 'flat':
                el.set_flat(arg)
                if arg:
                    members = expected(config, pieces(config, arg[0][1]))
        holds(el, config, members, head, last)
        mc.trace()
        mc.state((config, members))
    return 1


# ---------------------------------------------------------------- compounds

class Pair(Compound):
    """Two parts joined by a colon."""

    def __compound_init__(cls):
        cls.field_schema = [String.named(u'l'), String.named(u'r')]

    def compose(self):
        l, r = self[u'l'].value, self[u'r'].value
        if l is None or r is None:
            return u'', None
        return l + u':' + r, (l, r)

    def explode(self, value):
        l, r = value if isinstance(value, tuple) else value.split(u':')
        self[u'l'].set(l)
        self[u'r'].set(r)


def check_custom(case, mc):
    """Compounds of the caller's own."""
    values = [u'a:b', (u'c', u'd'), u'', u'a', u'a:b:c', None, 5]
    for seq in seqs(range(len(values)), 3):
        for parts in (None, (u'l', u'z'), (u'r', None)):
            el, m = Pair.named(u'p')(), [None, None]
            for i in seq:
                v = values[i]
                ok = i < 2
                eq(el.set(v), ok, 'result', v)
                if ok:
                    m = [u'a', u'b'] if i == 0 else [u'c', u'd']
            if parts:
                el[parts[0]] = parts[1]
                m[u'lr'.index(parts[0])] = parts[1]
            want = None if None in m else tuple(m)
            eq(el.value, want, 'value', seq, parts)
            eq(el.u, u':'.join(want) if want else u'', 'text', seq, parts)
            eq(el.is_empty, m == [None, None], 'emptiness', seq, parts)
            eq(sorted(el.flatten()), sorted(
                [(u'p', el.u), (u'p_l', m[0] or u''), (u'p_r', m[1] or u'')]),
               'flattened', seq, parts)
    return 1


def cases(tier):
    deep = tier == 'thorough'
    for config in sorted(DATES):
        yield ('date', config, 'OPS', ())
        for op in OPS:
            yield ('date', config, 'OPS', (op,))
        if deep:
            for head in seqs(OPS, 2, 2):
                yield ('date', config, 'OPS', head)
    for config in ('named', 'custom', 'listed'):
        for head in seqs(FEW, 3 if deep else 2, 2):
            yield ('date', config, 'FEW', head)
    for year in (1, 4, 100, 999, 1000, 1900, 2000, 2019, 2020, 9999, 0,
                 10000):
        yield ('calendar', year)
    for config in itertools.product(range(len(SEPARATORS)), range(3),
                                    (None, False), sorted(MEMBERS)):
        if config[1] and config[0] > 2:
            continue
        yield ('texts', config, u'', 0)
        for c in CHARS:
            yield ('texts', config, c, 4 if deep else 3)
            if deep:
                for d in CHARS:
                    yield ('texts', config, c + d, 4)
        for i in range(len(LIST_VALUES)):
            yield ('lists', config, i)
        if config[3] == 'text' or config[0] == 0:
            for head in seqs(JOPS, 2):
                yield ('joined', config, head)
    yield ('custom',)


def check(case, mc):
    return globals()['check_' + case[0]](case, mc)
