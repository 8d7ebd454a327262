# -*- coding: utf-8 -*-
"""C09: constrained scalars hold only allowed native values."""
import datetime
import decimal

from flatland import (Boolean, Constrained, Date, Decimal, Enum, Integer,
                      String)
from lib import Violation, eq, same, seqs, true

LEVEL = 'model_checking'
RULE = ('A case is (constraint configuration, way of configuring it, all '
        'inputs of a history but the last); every choice of the last input is '
        'tried. Result, native value and text after every input are compared '
        'with a reference. Non-trivial: some input is accepted.')
BOUNDS = {
    'quick': '23 constraints on texts, integers, booleans, dates, decimals '
             'and nested constraints, configured on the class, a subclass, '
             'the instance, or changed midway; all input sequences of length '
             '<=3 over 14-17 inputs',
    'thorough': 'input sequences of length <=4',
}
ASSUMPTIONS = []

TEXT_IN = (u'a', u' a ', u'b', u'c', u'', u'A', None, 1, u'1', 'a', '\xff',
           u'ab', True, [u'a'], (u'a', u'b'))
INT_IN = (1, u'1', u' 2', u'3', 3, u'x', u'', None, 0, u'-1', True, 1.0,
          u'1.0', 10 ** 20, (1, 2))
BOOL_IN = (True, False, u'1', u'', u'on', u'off', u'x', None, 0, 2)
DATE_IN = (datetime.date(2010, 1, 2), u'2010-01-02', u' 2010-01-02 ',
           u'2010-01-03', u'2010-13-02', None, u'', 5)
DEC_IN = (decimal.Decimal('1.5'), u'1.5', u'1.50', u'2', 2, u'NaN', u'x', None,
          1.5)


def adapt(kind, value):
    """(ok, native, text) of the child type."""
    try:
        if kind in ('text', 'text-nostrip'):
            if value is None:
                return True, None, u''
            t = unicode(value)
            if kind == 'text':
                t = t.strip()
            return True, t, t
        if kind in ('int', 'uint'):
            if value is None:
                return True, None, u''
            n = int(value.strip() if isinstance(value, basestring) else value)
            if kind == 'uint' and n < 0:
                return False, None, None
            return True, n, u'%d' % n
        if kind == 'bool':
            if not isinstance(value, basestring):
                b = bool(value)
            elif value in (u'on', u'true', u'True', u'1'):
                b = True
            elif value in (u'off', u'false', u'False', u'0', u''):
                b = False
            else:
                return False, None, None
            return True, b, u'1' if b else u''
        if kind == 'date':
            if value is None:
                return True, None, u''
            if isinstance(value, basestring):
                y, m, d = value.strip().split(u'-')
                value = datetime.date(int(y), int(m), int(d))
            elif not isinstance(value, datetime.date):
                return False, None, None
            return True, value, unicode(value.isoformat())
        if kind == 'decimal':
            if value is None:
                return True, None, u''
            d = decimal.Decimal(value.strip() if isinstance(value, basestring)
                                else value)
            return True, d, u'%f' % d
    except (ValueError, TypeError, ArithmeticError):
        return False, None, None
    raise AssertionError(kind)


def even(element, value):
    return value is not None and value % 2 == 0


def short(element, value):
    return len(value) if value is not None and len(value) < 2 else 0


def yes(element, value):
    return True


def never(element, value):
    return None


# name: (child kind, child class, allowed values or predicate, inputs)
CONFIGS = {
    'E text': ('text', String, (u'a', u'b'), TEXT_IN),
    'E text list': ('text', String, [u'b', u'c', u''], TEXT_IN),
    'E text set': ('text', String, frozenset([u'a', u'ab']), TEXT_IN),
    'E text none': ('text', String, (None, u'a'), TEXT_IN),
    'E text nostrip': ('text-nostrip', String.using(strip=False),
                       (u'a', u' a '), TEXT_IN),
    'E nothing': ('text', String, (), TEXT_IN),
    'E int': ('int', Integer, (1, 2), INT_IN),
    'E int dict': ('int', Integer, {3: u'x', 0: u'y'}, INT_IN),
    # values of another type than the child's are never held
    'E int texts': ('int', Integer, (u'1', 2, u'x', u'', '3'), INT_IN),
    'E bool texts': ('bool', Boolean, (u'1', u'', False), BOOL_IN),
    'E date texts': ('date', Date, (u'2010-01-02',
                                    datetime.date(2010, 1, 3)), DATE_IN),
    'E text ints': ('text', String, (1, u'a', True, None), TEXT_IN),
    'E uint': ('uint', Integer.using(signed=False), (1, -1), INT_IN),
    'E bool': ('bool', Boolean, (True,), BOOL_IN),
    'E bool f': ('bool', Boolean, (False,), BOOL_IN),
    'E date': ('date', Date, (datetime.date(2010, 1, 2),), DATE_IN),
    'E decimal': ('decimal', Decimal, (decimal.Decimal('1.5'),), DEC_IN),
    'C even': ('int', Integer, even, INT_IN),
    'C short': ('text', String, short, TEXT_IN),
    'C yes': ('bool', Boolean, yes, BOOL_IN),
    'C never': ('date', Date, never, DATE_IN),
    # a constraint within a constraint
    'N enum': ('int', Enum.using(child_type=Integer).valued(1, 2, 3), (2, 3,
                                                                      4),
               INT_IN),
    'N pred': ('text', Constrained.using(valid_value=short), (u'a', u'ab'),
               TEXT_IN),
}
WAYS = ('class', 'subclass', 'instance', 'midway')


def inner_ok(name, native):
    if name == 'N enum':
        return native in (1, 2, 3)
    if name == 'N pred':
        return native is not None and 0 < len(native) < 2
    return True


def make(name, way):
    kind, child, allowed, inputs = CONFIGS[name]
    if name[0] == 'C':
        if way == 'class':
            return Constrained.using(child_type=child, valid_value=allowed)()
        if way == 'subclass':
            cls = type(Constrained)('Sub', (Constrained,), {
                'child_type': child,
                'valid_value': staticmethod(allowed)})
            return cls.named(u'n')()
        if way == 'instance':
            return Constrained(child_type=child, valid_value=allowed)
        el = Constrained(child_type=child, valid_value=yes)
        el.set(inputs_first(inputs))
        el.valid_value = allowed
        return el
    if way == 'class':
        cls = Enum.using(child_type=child)
        if isinstance(allowed, tuple):
            return cls.valued(*allowed)()
        return cls.using(valid_values=allowed)()
    if way == 'subclass':
        cls = type(Enum)('Sub', (Enum,), {'child_type': child,
                                          'valid_values': allowed})
        return cls.named(u'n')()
    if way == 'instance':
        return Enum(child_type=child, valid_values=allowed)
    el = Enum.using(child_type=child).valued(inputs_first(inputs))()
    el.set(inputs_first(inputs))
    el.valid_values = allowed
    return el


def inputs_first(inputs):
    return inputs[0]


def cases(tier):
    upto = 3 if tier == 'thorough' else 2
    for name in sorted(CONFIGS):
        inputs = CONFIGS[name][3]
        for way in WAYS:
            for head in seqs(range(len(inputs)), upto):
                yield (name, way, head)


def as_text(value):
    if value is None:
        return u''
    try:
        return unicode(value)
    except UnicodeDecodeError:
        return unicode(str(value), errors='replace')


def expected(name, value):
    kind, child, allowed, inputs = CONFIGS[name]
    ok, native, text = adapt(kind, value)
    if ok and inner_ok(name, native):
        if name[0] == 'C':
            good = bool(allowed(None, native))
        else:
            good = native in allowed
        if good:
            return True, native, text
    return False, None, as_text(value)


def check(case, mc):
    name, way, head = case
    inputs = CONFIGS[name][3]
    accepted = 0
    for last in range(len(inputs)):
        el = make(name, way)
        if way != 'midway':
            true(el.value is None and el.u == u'', 'new element is empty')
        for i in head + (last,):
            value = inputs[i]
            want = expected(name, value)
            got = el.set(value)
            same(got, want[0], 'result of set', value, case)
            eq(el.value, want[1], 'native value', value, case)
            true(type(el.value) is type(want[1]) or isinstance(
                el.value, (unicode, int, long)), 'type of the value', value,
                case)
            eq(el.u, want[2], 'text', value, case)
            same(el.raw, value, 'raw', value, case)
            if want[0]:
                accepted += 1
            mc.transition()
            mc.state((name, want))
        if way == 'class' and not head:
            value = inputs[last]
            made = type(el)(value)
            want = expected(name, value)
            eq((made.value, made.u), want[1:], 'when constructed', value,
               case)
        mc.trace()
    if not accepted:
        mc.trivial()
    return accepted
