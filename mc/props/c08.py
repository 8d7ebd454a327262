# -*- coding: utf-8 -*-
"""C08: scalars adapt every input, cleanly."""
import datetime
import decimal
import itertools

from flatland import (Boolean, Date, DateTime, Decimal, Float, Integer, Long,
                      String, Time)
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (scalar configuration, input or head of the input texts). '
        'Every input is set on a fresh element and on one with a previous '
        'value; result, native value, text, raw input and the effect of '
        'setting the text again are compared with an independent reference. '
        'Non-trivial: at least one input of the case is accepted, or all are '
        'rejected by rule (range, sign, calendar).')
BOUNDS = {
    'quick': 'every text of length <=4 over 8-11 characters per numeric '
             'type, <=3 over 9 characters for texts, <=4 over 10 for '
             'booleans; every day of 9 years x months 0-13 x days 0-32, every '
             'boundary time, with 9 punctuation variants; 40 foreign objects '
             'on 30 configurations; pairs of inputs in sequence',
    'thorough': 'as quick with numeric texts of length <=5, texts <=4',
}
ASSUMPTIONS = ['times are not set with fractions of seconds',
               'formats of numbers can be read back']

CONFIGS = {
    'Integer': Integer, 'Integer u': Integer.using(signed=False),
    'Integer f': Integer.using(format=u'%04i'),
    'Long': Long, 'Long u': Long.using(signed=False),
    'Float': Float, 'Float u': Float.using(signed=False),
    'Float f': Float.using(format=u'%.2f'),
    'Decimal': Decimal, 'Decimal u': Decimal.using(signed=False),
    'Decimal f': Decimal.using(format=u'%.1f'),
    'String': String, 'String n': String.using(strip=False),
    'Boolean': Boolean,
    'Boolean y': Boolean.using(true=u'yes', false=u'no',
                               true_synonyms=(u'y', u'1'),
                               false_synonyms=[u'n', u'0']),
    # the text of True is also listed among those of False
    'Boolean o': Boolean.using(true=u'off', false_synonyms=(u'off', u'no')),
    'Boolean z': Boolean.using(true=u'0', false=u'1', true_synonyms=()),
    'Boolean e': Boolean.using(true=u'x', false=u'', true_synonyms=(),
                               false_synonyms=()),
    'Date': Date, 'Date n': Date.using(strip=False),
    'DateTime': DateTime, 'DateTime n': DateTime.using(strip=False),
    'Time': Time, 'Time n': Time.using(strip=False),
}

# -- reference

REJECT = object()


def _number(cfg, value):
    kind, _, opt = cfg.partition(' ')
    type_ = {'Integer': int, 'Long': int, 'Float': float,
             'Decimal': decimal.Decimal}[kind]
    fmt = {'Integer': u'%i', 'Long': u'%i', 'Float': u'%f',
           'Decimal': u'%f'}[kind]
    if opt == 'f':
        fmt = {'Integer': u'%04i', 'Float': u'%.2f', 'Decimal': u'%.1f'}[kind]
    if value is None:
        return None, u''
    if isinstance(value, basestring):
        value = value.strip()
    try:
        native = type_(value)
        if opt == 'u' and native < 0:
            return REJECT
    except Exception:
        return REJECT
    if isinstance(native, decimal.Decimal) and native.is_snan():
        return native, None
    if type(native) is long:
        return native, unicode(native)
    return native, fmt % native


def _string(cfg, value):
    if value is None:
        return None, u''
    try:
        t = unicode(value)
    except UnicodeDecodeError:
        return REJECT
    if cfg == 'String':
        t = t.strip()
    return t, t


def _boolean(cfg, value):
    yes, no, ys, ns = {
        'Boolean': (u'1', u'', (u'on', u'true', u'True', u'1'),
                    (u'off', u'false', u'False', u'0', u'')),
        'Boolean y': (u'yes', u'no', (u'y', u'1'), (u'n', u'0')),
        'Boolean o': (u'off', u'', (u'on', u'true', u'True', u'1'),
                      (u'off', u'no')),
        'Boolean z': (u'0', u'1', (),
                      (u'off', u'false', u'False', u'0', u'')),
        'Boolean e': (u'x', u'', (), ())}[cfg]
    if not isinstance(value, basestring):
        return (True, yes) if value else (False, no)
    if isinstance(value, str):
        try:
            value = value.decode('ascii')
        except UnicodeDecodeError:
            return REJECT
    if value == yes or value in ys:
        return True, yes
    if value == no or value in ns:
        return False, no
    return REJECT


def _digits(text, *widths):
    """The numbers of fields of fixed widths, or None."""
    out = []
    for part, width in zip(text, widths):
        if len(part) != width:
            return None
        for c in part:
            if c not in u'0123456789':
                return None
        out.append(int(part))
    return out


def _month_days(y, m):
    if m == 2:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        return 29 if leap else 28
    return 30 if m in (4, 6, 9, 11) else 31


def _split_date(t):
    if len(t) != 10 or t[4] != u'-' or t[7] != u'-':
        return None
    p = _digits((t[:4], t[5:7], t[8:]), 4, 2, 2)
    if p is None or not 1 <= p[0] or not 1 <= p[1] <= 12:
        return None
    if not 1 <= p[2] <= _month_days(p[0], p[1]):
        return None
    return p


def _split_time(t):
    if len(t) != 8 or t[2] != u':' or t[5] != u':':
        return None
    p = _digits((t[:2], t[3:5], t[6:]), 2, 2, 2)
    if p is None or p[0] > 23 or p[1] > 59 or p[2] > 59:
        return None
    return p


def _temporal(cfg, value):
    kind, _, opt = cfg.partition(' ')
    type_ = {'Date': datetime.date, 'DateTime': datetime.datetime,
             'Time': datetime.time}[kind]
    if value is None:
        return None, u''
    if isinstance(value, type_):
        native = value
        if kind == 'Date' and isinstance(value, datetime.datetime):
            native = value.date()
    elif not isinstance(value, basestring):
        return REJECT
    else:
        if isinstance(value, str):
            try:
                value = value.decode('ascii')
            except UnicodeDecodeError:
                return REJECT
        t = value.strip() if not opt else value
        if kind == 'Date':
            p = _split_date(t)
        elif kind == 'Time':
            p = _split_time(t)
        else:
            p, q = _split_date(t[:10]), _split_time(t[11:])
            if p is None or q is None or t[10:11] != u' ':
                p = None
            else:
                p = p + q
        if p is None:
            return REJECT
        native = type_(*p)
    parts = []
    if kind != 'Time':
        parts.append(u'%04d-%02d-%02d' % (native.year, native.month,
                                          native.day))
    if kind != 'Date':
        parts.append(u'%02d:%02d:%02d' % (native.hour, native.minute,
                                          native.second))
    return native, u' '.join(parts)


def reference(cfg, value):
    kind = cfg.split(' ')[0]
    if kind in ('Integer', 'Long', 'Float', 'Decimal'):
        return _number(cfg, value)
    if kind == 'String':
        return _string(cfg, value)
    if kind == 'Boolean':
        return _boolean(cfg, value)
    return _temporal(cfg, value)


NATIVE = {'Integer': (int, long), 'Long': (int, long), 'Float': float,
          'Decimal': decimal.Decimal, 'String': unicode, 'Boolean': bool,
          'Date': datetime.date, 'DateTime': datetime.datetime,
          'Time': datetime.time}


def as_text(value):
    if value is None:
        return u''
    try:
        return unicode(value)
    except UnicodeDecodeError:
        return unicode(str(value), errors='replace')


# -- inputs

class Odd(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Sized(object):
    def __len__(self):
        return 0


class UText(unicode):
    pass


class Day(datetime.date):
    def __str__(self):
        return 'some day'
    __unicode__ = lambda self: u'some day'


class Moment(datetime.datetime):
    def __str__(self):
        return 'some moment'
    __unicode__ = lambda self: u'some moment'


class Hour(datetime.time):
    def __str__(self):
        return 'some hour'
    __unicode__ = lambda self: u'some hour'


class Count(int):
    pass


class Big(long):
    pass


class Ratio(float):
    pass


class Exact(decimal.Decimal):
    pass


FOREIGN = [
    Day(2011, 4, 5), Moment(2011, 4, 5, 6, 7, 8), Hour(9, 8, 7), Count(12),
    Count(-3), Big(2 ** 40), Ratio(2.5), Exact('3.75'),
    None, True, False, 0, 1, -1, 2 ** 31, -2 ** 63, 10 ** 30, 0.0, 1.5, -2.5,
    1e300, float('inf'), -float('inf'), float('nan'), decimal.Decimal('1.25'),
    decimal.Decimal('-0'), decimal.Decimal('NaN'), decimal.Decimal('sNaN'),
    decimal.Decimal('Infinity'), decimal.Decimal('1E+20'), '', 'abc', ' 7 ',
    '\xff\xfe', 'caf\xc3\xa9', u'caf\xe9', u'\U0001f600', u'\x00', [], [1],
    (), (1, 2), (0, (1, 2), -1), {}, {u'a': 1}, set(), object, len,
    Odd('odd'), Odd('\xff'), Odd('12'), Sized(), Exception('\xe9'),
    UText(u' 5 '), datetime.date(2010, 2, 3), datetime.time(1, 2, 3),
    datetime.datetime(2010, 2, 3, 4, 5, 6), datetime.timedelta(1),
    datetime.date(1, 1, 1), datetime.date(9999, 12, 31), u'on', u'1', u'2',
    u'2010-02-03', u'01:02:03', u'2010-02-03 04:05:06', 'on',
    '2010-02-03', '01:02:03', 1j, Ellipsis, type(None), u'1E+400', u'sNaN',
    u'-sNaN', u'nan', u'-inf', u'1E+99999999', u'9' * 400, u'0x10', u'1e5',
    u'1L', u'1_0', u'\uff11', u'true', u'True', u'TRUE', u'yes', u'no', u'x',
]

NUMERIC = {
    'Integer': u'019-+ .x_e\xa0\u0661', 'Integer u': u'01- +.a',
    'Integer f': u'01-9+ ', 'Long': u'01- .L', 'Long u': u'01-+ ',
    'Float': u'019.-+einf', 'Float u': u'01.-eE ', 'Float f': u'059.-e ',
    'Decimal': u'019.-+eEn', 'Decimal u': u'01.-eE ',
    'Decimal f': u'059.-e ',
}
TEXTUAL = u'a \t\n\xa0\xe9\u2003\x00<'
BOOLISH = u'on1 0ytrueTx'

YEARS = (u'0000', u'0001', u'0004', u'1900', u'1999', u'2000', u'2004',
         u'2100', u'9999')
WRAPS = (u'%s', u' %s', u'%s ', u'%s\n', u'\n%s', u'\t%s\r\n', u'+%s', u'%s0',
         u'%s.')


def cases(tier):
    deep = tier == 'thorough'
    for cfg in sorted(CONFIGS):
        for i in range(len(FOREIGN)):
            yield ('object', cfg, i)
    for cfg in sorted(NUMERIC):
        alphabet = NUMERIC[cfg]
        for n in range(0, 4 if deep else 3):
            for head in seqs(alphabet, n, n):
                yield ('text', cfg, u''.join(head), alphabet)
    for cfg in ('String', 'String n'):
        for n in range(0, 3 if deep else 2):
            for head in seqs(TEXTUAL, n, n):
                yield ('text', cfg, u''.join(head), TEXTUAL)
    for cfg in ('Boolean', 'Boolean y', 'Boolean o', 'Boolean z', 'Boolean e'):
        for n in range(0, 3):
            for head in seqs(BOOLISH, n, n):
                yield ('text', cfg, u''.join(head), BOOLISH)
    for cfg in ('Date', 'Date n', 'DateTime', 'DateTime n'):
        for y in YEARS:
            for m in range(14):
                yield ('days', cfg, y, m)
    for cfg in ('Time', 'Time n', 'DateTime', 'DateTime n'):
        for h in (0, 1, 9, 10, 19, 20, 23, 24, 25, 60, 99):
            yield ('times', cfg, h)
    for cfg in ('Date', 'Date n', 'DateTime', 'Time', 'Time n'):
        yield ('shapes', cfg)
    for cfg in sorted(CONFIGS):
        for i in range(len(FOREIGN)):
            yield ('pairs', cfg, i)


def inputs(case):
    kind, cfg = case[:2]
    if kind == 'object':
        yield FOREIGN[case[2]]
    elif kind == 'text':
        head, alphabet = case[2:]
        if not head:
            yield u''
        for a in alphabet:
            yield head + a
            for b in alphabet:
                yield head + a + b
    elif kind == 'days':
        tail = u' 12:30:59' if cfg.startswith('DateTime') else u''
        for d in range(33):
            text = u'%s-%02d-%02d%s' % (case[2], case[3], d, tail)
            yield text
            if d in (1, 28, 29, 30, 31):
                for w in WRAPS:
                    yield w % text
                yield u'%s-%d-%02d%s' % (case[2], case[3], d, tail)
                yield u'%s-%02d-%d%s' % (case[2], case[3], d, tail)
                yield u'%s/%02d/%02d%s' % (case[2], case[3], d, tail)
                yield str(text)
    elif kind == 'times':
        head = u'2004-02-29 ' if cfg.startswith('DateTime') else u''
        for m in (0, 1, 59, 60, 61, 99):
            for s in (0, 1, 59, 60, 61, 99):
                text = u'%s%02d:%02d:%02d' % (head, case[2], m, s)
                yield text
                for w in WRAPS:
                    yield w % text
                yield u'%s%d:%d:%d' % (head, case[2], m, s)
                yield text[:-3]
                yield text.replace(u' ', u'T')
                yield text.replace(u' ', u'  ')
                yield text + u'.5'
    elif kind == 'shapes':
        good = {'Date': u'2004-02-29', 'DateTime': u'2004-02-29 12:30:59',
                'Time': u'12:30:59'}[cfg.split(' ')[0]]
        for pos in range(len(good)):
            yield good[:pos] + good[pos + 1:]
            for c in u' \n-:.0a9+\u0660\uff11x\x00':
                yield good[:pos] + c + good[pos + 1:]
                yield good[:pos] + c + good[pos:]
        yield good + good


def check(case, mc):
    kind, cfg = case[:2]
    cls = CONFIGS[cfg]
    if kind == 'pairs':
        return check_pairs(case, mc)
    accepted = n = 0
    for value in inputs(case):
        accepted += check_one(cls, cfg, value)
        n += 1
    mc.count('inputs', n)
    if kind == 'text' and not accepted:
        mc.trivial()
    return (n, accepted)


def is_nan(v):
    return v != v


def agree(got, want):
    if isinstance(want, (float, decimal.Decimal)):
        if isinstance(want, decimal.Decimal) and want.is_nan():
            return isinstance(got, decimal.Decimal) and got.is_nan()
        if is_nan(want):
            return is_nan(got)
    return got == want


def check_one(cls, cfg, value, el=None):
    what = (cfg, value)
    if el is None:
        el = cls()
        true(el.value is None and el.u == u'', 'a new element is empty', what)
    got = el.set(value)
    want = reference(cfg, value)
    same(el.raw, value, 'raw input', what)
    true(isinstance(el.u, unicode), 'text is unicode', what)
    if want is REJECT:
        same(got, False, 'result of set', what)
        same(el.value, None, 'native value after a failure', what)
        eq(el.u, as_text(value), 'text after a failure', what)
        return 0
    same(got, True, 'result of set', what)
    native, text = want
    if not agree(el.value, native):
        raise Violation('native value: got %r, expected %r (%r)' % (
            el.value, native, what))
    kind = cfg.split(' ')[0]
    if value is None and kind != 'Boolean':
        same(el.value, None, 'native value of None', what)
    else:
        true(isinstance(el.value, NATIVE[kind]), 'type of the native value',
             type(el.value), what)
    if text is None:
        return 1
    eq(el.u, text, 'text', what)

    # setting the text again
    again = cls()
    res = again.set(el.u)
    if value is None and kind != 'Boolean':
        if kind == 'String':
            same(res, True, 'the empty text', what)
        eq(again.u, u'', 'text of the empty text', what)
    else:
        same(res, True, 'setting the text again', what)
        eq(again.u, text, 'text of the text', what)
        if precise(kind, native, text):
            true(agree(again.value, native), 'native value of the text',
                 again.value, native, what)
    # the constructor and a second time are no different
    made = cls(value)
    eq(made.u, text, 'text when constructed', what)
    true(agree(made.value, native), 'value when constructed', what)
    el.set(value)
    eq(el.u, text, 'text when set again', what)
    return 1


def precise(kind, native, text):
    if kind in ('Float', 'Decimal'):
        return agree(type(native)(text), native)
    if isinstance(native, datetime.datetime):
        return not native.microsecond
    if isinstance(native, datetime.time):
        return not native.microsecond
    return True


def check_pairs(case, mc):
    """No trace of an earlier input remains."""
    kind, cfg, i = case
    cls = CONFIGS[cfg]
    for other in FOREIGN:
        el = cls()
        el.set(FOREIGN[i])
        check_one(cls, cfg, other, el)
    mc.count('inputs', len(FOREIGN))
    return len(FOREIGN)
