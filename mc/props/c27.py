# -*- coding: utf-8 -*-
"""C27: equality, truth, emptiness and exports follow the data."""
import datetime
import decimal
import itertools

from flatland import (Array, Boolean, Compound, Constrained, Date, DateTime,
                      DateYYYYMMDD, Decimal, Dict, Element, Enum, Float, Form,
                      Integer, JoinedString, List, Long, MultiValue, Ref,
                      SparseDict, String, Time)
from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('Cases: (1) every history of operations on every kind of element: '
        'value, text, truth, emptiness are compared with a model, and every '
        'two states reached with == and != in both orders; (2) every state '
        'against things that are not elements; (3) every container schema '
        'and datum: the export is plain, rebuilds an equal element, and '
        'every single mutation of the export, the input or the default '
        'leaves the element alone. Non-trivial: every case of (1) with an '
        'operation, every case of (2), cases of (3) with a non-empty datum.')
BOUNDS = {
    'quick': '16 kinds of element x all histories of up to 3 operations out '
             'of 5 to 8; all ordered pairs of the distinct states reached '
             '(by kind, value and text, every history kept up to depth 2); '
             '13 holders x all pairs of 138 states of a leaf; '
             '30 other objects; 23 container schemas nested up to 3 deep x '
             'all data x 7 ways to set them x every mutation of every node',
    'thorough': 'histories of up to 4 operations, pairs of all states of '
                'histories up to depth 3',
}
ASSUMPTIONS = [
    'values Python itself refuses to compare (naive and aware datetimes, '
    'signalling NaN) are not compared',
    'references resolve, and composed values can be composed']

D2 = datetime.date


# ---------------------------------------------------------------- models
class ScalarM(object):
    """value/text pairs, moved by a table of inputs."""

    def __init__(self, table, default=(None, u'')):
        self.table = table          # [(input, value, text)]
        self.default = default
        self.state = (None, u'')

    def ops(self):
        for inp, v, u in self.table:
            yield ('set', inp)
        yield ('default',)
        yield ('u', u'x')
        yield ('value', None)

    def apply(self, op):
        if op[0] == 'set':
            for inp, v, u in self.table:
                if type(inp) is type(op[1]) and inp == op[1]:
                    self.state = (v, u)
        elif op[0] == 'default':
            self.state = self.default
        elif op[0] == 'u':
            self.state = (self.state[0], op[1])
        elif op[0] == 'value':
            self.state = (op[1], self.state[1])

    def truth(self):
        return bool(self.state[0] and self.state[1])

    def empty(self):
        return self.state[0] is None and self.state[1] == u''

    def data(self):
        return self.state


class TextM(ScalarM):
    def empty(self):
        return not self.state[0] and self.state[1] == u''


def apply_scalar(el, op):
    if op[0] == 'set':
        el.set(op[1])
    elif op[0] == 'default':
        el.set_default()
    elif op[0] == 'u':
        el.u = op[1]
    elif op[0] == 'value':
        el.value = op[1]


class SeqM(object):
    """A sequence of Strings: list of (value, text)."""
    kind = 'list'

    def __init__(self, default=None):
        self.default = default
        self.state = []

    def ops(self):
        yield ('set', [])
        yield ('set', [u'a'])
        yield ('set', [u'', None])
        yield ('append', u'b')
        yield ('pop',)
        yield ('clear',)
        yield ('default',)
        yield ('flat',)

    def apply(self, op):
        pair = lambda v: (v, v or u'')
        if op[0] == 'set':
            self.state = map(pair, op[1])
        elif op[0] == 'append':
            self.state = self.state + [pair(op[1])]
        elif op[0] == 'pop':
            self.state = self.state[:-1]
        elif op[0] == 'clear':
            self.state = []
        elif op[0] == 'default':
            if self.default is not None:
                self.state = map(pair, self.default)
        elif op[0] == 'flat':
            self.state = [pair(u'a')]

    def truth(self):
        return bool(self.state)

    def empty(self):
        return not self.state

    def data(self):
        if self.kind == 'list':
            return ([v for v, u in self.state],
                    list_text([u for v, u in self.state]))
        if not self.state:
            return (None, u'')
        return self.state[0]


class MultiM(SeqM):
    kind = 'multi'


class JoinedM(SeqM):
    kind = 'joined'

    def ops(self):
        yield ('set', None) if False else ('set', [])
        yield ('set', [u'a'])
        yield ('set', [u'a', u'b'])
        yield ('append', u'b')
        yield ('pop',)
        yield ('clear',)
        yield ('flat',)

    def data(self):
        text = u','.join(u for v, u in self.state)
        return (text, text)


def list_text(texts):
    return u'[%s]' % u', '.join(repr(t).decode('raw_unicode_escape')
                                if 0 else _r(t) for t in texts)


def _r(text):
    r = repr(text)
    if r[0] == 'u':
        r = r[1:]
    return unicode(r)


def apply_seq(el, op):
    if op[0] == 'set':
        el.set(list(op[1]))
    elif op[0] == 'append':
        el.append(op[1])
    elif op[0] == 'pop':
        if len(el):
            el.pop()
    elif op[0] == 'clear':
        del el[:]
    elif op[0] == 'default':
        el.set_default()
    elif op[0] == 'flat':
        name = el.name
        if isinstance(el, JoinedString):
            el.set_flat([(name, u'a')])
        elif isinstance(el, Array):
            el.set_flat([(u'%s_m' % name, u'a')])
        else:
            el.set_flat([(u'%s_0_m' % name, u'a')])


class MapM(object):
    """{name: (value, text)}; Dicts have all, sparse ones those set."""

    def __init__(self, sparse, default=None):
        self.sparse = sparse
        self.default = default
        self.state = {} if sparse else self._blank()

    def _blank(self):
        return {u'a': (None, u''), u'b': (None, u'')}

    def ops(self):
        yield ('set', ())
        yield ('set', ((u'a', u'1'),))
        yield ('set', ((u'a', u'1'), (u'b', u'x')))
        yield ('update', u'b', u'')
        yield ('child', u'a', u'2')
        yield ('default',)
        if self.sparse:
            yield ('del', u'a')

    def _int(self, v):
        return (int(v), v)

    def _conv(self, k, v):
        return self._int(v) if k == u'a' else (v, v)

    def apply(self, op):
        s = dict(self.state)
        if op[0] == 'set':
            s = {} if self.sparse else self._blank()
            for k, v in op[1]:
                s[k] = self._conv(k, v)
        elif op[0] == 'update':
            s[op[1]] = self._conv(op[1], op[2])
        elif op[0] == 'child':
            if op[1] in s:
                s[op[1]] = self._conv(op[1], op[2])
        elif op[0] == 'default':
            if self.default is not None:
                s = {} if self.sparse else self._blank()
                for k, v in self.default:
                    s[k] = self._conv(k, v)
            elif self.sparse:
                s = {}
        elif op[0] == 'del':
            s.pop(op[1], None)
        self.state = s

    def truth(self):
        return bool(self.state)

    def empty(self):
        return not self.state if self.sparse else False

    def data(self):
        value = dict((k, v[0]) for k, v in self.state.items())
        return (value, None)

    def text_map(self):
        return dict((k, v[1]) for k, v in self.state.items())


def apply_map(el, op):
    if op[0] == 'set':
        el.set(dict(op[1]))
    elif op[0] == 'update':
        el.update({op[1]: op[2]})
    elif op[0] == 'child':
        if op[1] in el:
            el[op[1]].set(op[2])
    elif op[0] == 'default':
        el.set_default()
    elif op[0] == 'del':
        if op[1] in el:
            del el[op[1]]


class DateM(object):
    """A compound date: the three texts."""

    def __init__(self):
        self.state = (u'', u'', u'')

    def ops(self):
        yield ('set', D2(2000, 1, 2))
        yield ('set', u'2000-01-02')
        yield ('set', None)
        yield ('flat', (u'2000', u'1', u'2'))
        yield ('flat', (u'2000', u'', u'2'))
        yield ('child', u'month', 2)

    def apply(self, op):
        if op[0] == 'set':
            self.state = ((u'', u'', u'') if op[1] is None
                          else (u'2000', u'01', u'02'))
        elif op[0] == 'flat':
            self.state = tuple(f % int(t) if t else u'' for f, t in zip(
                (u'%04i', u'%02i', u'%02i'), op[1]))
        elif op[0] == 'child':
            self.state = (self.state[0], u'02', self.state[2])

    def _date(self):
        if all(self.state):
            return D2(*map(int, self.state))

    def truth(self):
        return self._date() is not None

    def empty(self):
        return not any(self.state)

    def data(self):
        d = self._date()
        return (d, unicode(d) if d else u'')


def apply_date(el, op):
    if op[0] == 'set':
        el.set(op[1])
    elif op[0] == 'flat':
        el.set_flat([(u'%s_%s' % (el.name, p), t) for p, t in zip(
            (u'year', u'month', u'day'), op[1])])
    elif op[0] == 'child':
        el[op[1]].set(op[2])


Upper = Constrained.named(u'n').using(
    child_type=String, valid_value=lambda el, v: v in (u'a', u'A'))

KINDS = [
    ('String', String.named(u'n').using(default=u'd'), lambda: TextM(
        [(None, None, u''), (u'', u'', u''), (u'1', u'1', u'1'),
         (u' a ', u'a', u'a')], (u'd', u'd')), apply_scalar),
    ('String2', String.named(u'other'), lambda: TextM(
        [(None, None, u''), (u'', u'', u''), (u'1', u'1', u'1'),
         (u' a ', u'a', u'a')]), apply_scalar),
    ('Integer', Integer.named(u'n').using(default=0), lambda: ScalarM(
        [(None, None, u''), (u'', None, u''), (u'1', 1, u'1'),
         (0, 0, u'0'), (u'x', None, u'x')], (0, u'0')), apply_scalar),
    ('Float', Float.named(u'n'), lambda: ScalarM(
        [(None, None, u''), (1.0, 1.0, u'1.000000'),
         (0.0, 0.0, u'0.000000'), (u'x', None, u'x')]), apply_scalar),
    ('Decimal', Decimal.named(u'n').using(format=u'%s'), lambda: ScalarM(
        [(None, None, u''), (u'1', decimal.Decimal(1), u'1'),
         (u'0', decimal.Decimal(0), u'0'),
         (u'1.0', decimal.Decimal(1), u'1.0'), (u'a', None, u'a')]),
     apply_scalar),
    ('Boolean', Boolean.named(u'n').using(default=True), lambda: ScalarM(
        [(None, False, u''), (True, True, u'1'), (False, False, u''),
         (u'on', True, u'1'), (u'x', None, u'x')], (True, u'1')),
     apply_scalar),
    ('Boolean2', Boolean.named(u'n').using(true=u'', false=u'no'),
     lambda: ScalarM(
        [(None, False, u'no'), (True, True, u''), (False, False, u'no')],
        (False, u'no')),
     apply_scalar),
    ('Enum', Enum.valued(u'a', u'1').named(u'n'), lambda: TextM(
        [(None, None, u''), (u'a', u'a', u'a'), (u'1', u'1', u'1'),
         (u'z', None, u'z')]), apply_scalar),
    ('Date', Date.named(u'n'), lambda: ScalarM(
        [(None, None, u''), (D2(2000, 1, 2), D2(2000, 1, 2), u'2000-01-02'),
         (u'2000-01-02', D2(2000, 1, 2), u'2000-01-02'),
         (u'1', None, u'1')]), apply_scalar),
    ('List', List.named(u'n').of(String.named(u'm')).using(
        default=[u'a', u'b']), lambda: SeqM([u'a', u'b']), apply_seq),
    ('Array', Array.named(u'n').of(String.named(u'm')).using(
        default=[u'a']), lambda: SeqM([u'a']), apply_seq),
    ('MultiValue', MultiValue.named(u'n').of(String.named(u'm')).using(
        default=[u'a', u'b']), lambda: MultiM([u'a', u'b']), apply_seq),
    ('JoinedString', JoinedString.named(u'n'), lambda: JoinedM(), apply_seq),
    ('Dict', Dict.named(u'n').of(Integer.named(u'a'), String.named(u'b')).using(
        default={u'b': u'x'}),
     lambda: MapM(False, ((u'b', u'x'),)), apply_map),
    ('SparseDict', SparseDict.named(u'n').of(
        Integer.named(u'a'), String.named(u'b')),
     lambda: MapM(True), apply_map),
    ('DateYYYYMMDD', DateYYYYMMDD.named(u'n'), lambda: DateM(), apply_date),
]
BY_NAME = dict((k[0], k) for k in KINDS)


def check_state(el, model, mc):
    value, text = model.data()
    eq(el.value, value, 'value')
    eq(type(el.value) is type(value), True, 'type of value', el.value)
    if text is not None:
        if text.startswith(u'[') and isinstance(el, list):
            got = eval(el.u)
            eq(got, eval(text), 'text')
        else:
            eq(el.u, text, 'text')
    else:
        got = eval(el.u)
        eq(got, model.text_map(), 'text')
    t = bool(el)
    eq(t, model.truth(), 'truth', value, text)
    e = el.is_empty
    eq(bool(e), model.empty(), 'is_empty', value, text)
    try:
        hash(el)
    except TypeError:
        pass
    else:
        raise Violation('hash(%r) succeeded' % el)
    mc.state((type(el).__name__, repr(value), repr(text)))
    mc.trace()


def text_key(model):
    value, text = model.data()
    if text is None:
        return ('map', tuple(sorted(model.text_map().items())))
    if isinstance(value, list):
        return ('list', tuple(u for v, u in model.state))
    return text


def run_history(kind, hist):
    _, cls, mk, apply = BY_NAME[kind]
    el, model = cls(), mk()
    for op in hist:
        apply(el, op)
        model.apply(op)
    return el, model


def histories(kind, depth):
    ops = list(BY_NAME[kind][2]().ops())
    for n in range(depth + 1):
        for h in itertools.product(ops, repeat=n):
            yield h


def pool(tier):
    """Every history up to depth 2 (3), one element each."""
    depth = 2 if tier == 'quick' else 3
    seen = {}
    out = []
    for k in KINDS:
        for h in histories(k[0], depth):
            el, m = run_history(k[0], h)
            key = (k[0], repr(m.data()), repr(text_key(m)))
            # keep up to three histories per state
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= (3 if tier == 'quick' else 4):
                out.append((k[0], h))
    return out


def check_pair(a, ma, b, mb, what):
    """*a* and *b* against the models' value and text."""
    va, vb = ma.data()[0], mb.data()[0]
    want = bool(va == vb) and text_key(ma) == text_key(mb)
    for x, y in ((a, b), (b, a)):
        got = x == y
        if got is not want:
            raise Violation('%s: %r == %r is %r, values %r and %r, texts %r '
                            'and %r' % (what, x, y, got, va, vb, x.u, y.u))
        if (x != y) is not (not want):
            raise Violation('%s: %r != %r is %r' % (what, x, y, x != y))
    return want


# ------------------------------------------- leaf states inside containers
TEXTS = (u'', u' ', u'zz', u'zz ', u' zz', u'zz\t', u'zz  ', u'ZZ', u'Zz',
         u"z'z", u'z"z', u'z\\z', u'z\nz', u'z\\nz', u'\xe9', u'e\u0301',
         u'\\xe9', u'z\0', u'\u20ac', u"zz', u'zz", u'None', u'1', u'01')
VALUES = (None, 0, 1, u'', u'zz', (1,))
LEAF = Integer.named(u'a')


def holder(kind):
    """(a function making a container, one leading to its leaf)"""
    two = (LEAF, Integer.named(u'b'))
    first = lambda el: el[0]
    a = lambda el: el[u'a']
    return {
        'leaf': (LEAF, lambda el: el),
        'text': (String, lambda el: el),
        'List': (lambda: List.of(LEAF)([None]), first),
        'List last': (lambda: List.of(LEAF)([5, None]), lambda el: el[1]),
        'Array': (lambda: Array.of(LEAF)([None]), first),
        'MultiValue': (lambda: MultiValue.of(LEAF)([None]), first),
        'Dict': (Dict.of(LEAF), a),
        'Dict of 2': (lambda: Dict.of(*two)({u'b': 3}), a),
        'SparseDict': (lambda: SparseDict.of(*two)({u'a': None}), a),
        'Form': (type(Form)('F', (Form,), {'a': LEAF}), a),
        'List of Dict': (lambda: List.of(Dict.of(*two))([{}]),
                         lambda el: el[0][u'a']),
        'Dict of List': (lambda: Dict.of(List.named(u'l').of(LEAF))(
            {u'l': [None]}), lambda el: el[u'l'][0]),
        'Dict of Dict': (Dict.of(Dict.named(u'd').of(LEAF)),
                         lambda el: el[u'd'][u'a']),
    }[kind]


HOLDERS = ('leaf', 'text', 'List', 'List last', 'Array', 'MultiValue', 'Dict',
           'Dict of 2', 'SparseDict', 'Form', 'List of Dict', 'Dict of List',
           'Dict of Dict')


def leaf_pairs(case, mc):
    """Containers alike but for a leaf: that leaf's value and text decide."""
    _, kind, first_text = case
    make, leaf = holder(kind)
    states = [(v, t) for v in VALUES for t in TEXTS]
    made = []
    for v, t in states:
        el = make()
        leaf(el).value = v
        leaf(el).u = t
        made.append(el)
    n = 0
    for i, (v, t) in enumerate(states):
        if t != TEXTS[first_text]:
            continue
        for j, (v2, t2) in enumerate(states):
            want = bool(v == v2) and t == t2
            if (made[i] == made[j]) is not want or \
                    (made[i] != made[j]) is not (not want):
                raise Violation(
                    '%s: leaves %r and %r, == %r, != %r' % (
                        kind, (v, t), (v2, t2), made[i] == made[j],
                        made[i] != made[j]))
            n += 1
    mc.transition(n)
    mc.count('leaf pairs', n)
    return (kind, n)


# ------------------------------------------------------- not elements
class Look(object):
    """Looks like an element."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Angry(object):
    def __getattr__(self, name):
        raise AttributeError(name)


class OldStyle:
    pass


def others(el):
    """Things that are not elements."""
    v, u = el.value, el.u
    yield None
    yield NotImplemented
    yield Ellipsis
    for x in (0, 1, 1.0, True, False, u'', '', u'1', u'a', u'd', u'n', (), [],
              {}, [u'a'], [el], {u'a': el}, (v, u), [v, u], object(), set(),
              frozenset(), decimal.Decimal(1), D2(2000, 1, 2), len, lambda: 1,
              Angry(), OldStyle(), OldStyle, Exception(u'x')):
        yield x
    yield v
    yield u
    yield type(el)
    yield String
    yield Dict
    yield Element
    yield object
    yield Look()
    yield Look(value=v)
    yield Look(u=u)
    yield Look(value=v, u=u)
    yield Look(value=v, u=u, name=el.name)
    if isinstance(el, list):
        yield list(el)
        yield tuple(el)
    if isinstance(el, dict):
        yield dict(el)


# ------------------------------------------------------------- exports
S_ = String.named(u's')
I_ = Integer.named(u'i')
B_ = Boolean.named(u'b')
LS = List.named(u'l').of(String)
AS = Array.named(u'ar').of(String)
JS = JoinedString.named(u'j')
DT = DateYYYYMMDD.named(u'd')
DS = Dict.named(u'x').of(S_, I_)
SP = SparseDict.named(u'sp').of(S_, I_)
EXPORTS = [
    ('L(S)', List.of(String), [[], [u'a'], [u'', None], [u'a', u'b', u'a']]),
    ('L(I)', List.of(Integer), [[], [1], [0, None, 2]]),
    ('A(S)', Array.of(String), [[], [u'a'], [u'a', u'']]),
    ('A(B)', Array.of(Boolean), [[], [True, False]]),
    ('L(L)', List.of(LS), [[], [[]], [[u'a'], []], [[u'a', None], [u'']]]),
    ('L(A)', List.of(AS), [[], [[]], [[u'a'], [u'b', u'c']]]),
    ('L(J)', List.of(JS), [[], [u'a,b'], [u'', u'a']]),
    ('L(d)', List.of(DT), [[], [None], [D2(2000, 1, 2), None]]),
    ('L(D)', List.of(DS), [[], [{u's': u'a', u'i': 1}],
                           [{u's': None, u'i': None}, {u's': u'', u'i': 0}]]),
    ('L(P)', List.of(SP), [[], [{}], [{u's': u'a'}, {u'i': 2, u's': u''}]]),
    ('L(2)', List.of(S_, I_), [[], [{u's': u'a', u'i': 1}]]),
    ('D', Dict.of(S_, I_), [{u's': u'a', u'i': 1}, {u's': None, u'i': None},
                            {u's': u'', u'i': 0}]),
    ('D(L)', Dict.of(LS, S_), [{u'l': [], u's': None},
                               {u'l': [u'a', u'b'], u's': u'x'}]),
    ('D(D)', Dict.of(DS, B_), [{u'x': {u's': u'a', u'i': None}, u'b': True},
                               {u'x': {u's': None, u'i': 1}, u'b': False}]),
    ('D(A,J,d)', Dict.of(AS, JS, DT), [
        {u'ar': [u'a'], u'j': u'a,b', u'd': D2(2000, 1, 2)},
        {u'ar': [], u'j': u'', u'd': None}]),
    ('D(P)', Dict.of(SP), [{u'sp': {}}, {u'sp': {u's': u'a'}}]),
    ('P', SparseDict.of(S_, I_), [{}, {u's': u'a'}, {u's': None, u'i': 0}]),
    ('P(L,D)', SparseDict.of(LS, DS), [
        {}, {u'l': []}, {u'l': [u'a'], u'x': {u's': u'', u'i': 1}}]),
    ('Preq', SparseDict.of(S_.using(optional=True), I_.using(optional=False)).using(
        minimum_fields='required'),
     [{u'i': None}, {u'i': 1, u's': u'a'}]),
    ('D(L(D(L)))', Dict.of(List.named(u'o').of(Dict.of(LS, I_))), [
        {u'o': []}, {u'o': [{u'l': [u'a', u''], u'i': 1},
                            {u'l': [], u'i': None}]}]),
    ('L(L(L))', List.of(List.of(LS)), [
        [], [[]], [[[]]], [[[u'a'], []], [[u'b']]]]),
    ('F', type(Form)('F', (Form,), {'s': String, 'l': List.of(DS)}), [
        {u's': u'a', u'l': [{u's': u'b', u'i': 1}]},
        {u's': None, u'l': []}]),
    ('L(F)', List.of(type(Form)('F2', (Form,), {'s': String, 'j': JS})), [
        [], [{u's': u'a', u'j': u'a,b'}]]),
]
EX = dict((e[0], e[1:]) for e in EXPORTS)
WAYS = ('init', 'set', 'default', 'default_factory', 'from_defaults',
        'tuple', 'twice')


def deep(x):
    if isinstance(x, dict):
        return dict((k, deep(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [deep(v) for v in x]
    return x


def plain(x, what):
    """Only plain lists, dicts and immutable scalars."""
    if type(x) is list:
        for v in x:
            plain(v, what)
    elif type(x) is dict:
        for k, v in x.items():
            if type(k) is not unicode:
                raise Violation('%s: key %r' % (what, k))
            plain(v, what)
    elif isinstance(x, (list, dict, tuple, set, Element)) or (
            x is not None and not isinstance(
                x, (int, long, float, bool, unicode, decimal.Decimal, D2))):
        raise Violation('%s: %r is a %s' % (what, x, type(x)))


def nodes(x, path=()):
    if isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            for n in nodes(v, path + (i,)):
                yield n
    elif isinstance(x, dict):
        yield path
        for k in sorted(x):
            for n in nodes(x[k], path + (k,)):
                yield n


def at(x, path):
    for p in path:
        x = x[p]
    return x


def mutations(c):
    if isinstance(c, list):
        yield lambda c: c.append(u'zz')
        yield lambda c: c.reverse()
        yield lambda c: c.__delitem__(slice(None))
        if c:
            yield lambda c: c.__setitem__(0, u'zz')
            yield lambda c: c.pop()
    else:
        yield lambda c: c.clear()
        yield lambda c: c.__setitem__(u'zz', u'zz')
        for k in sorted(c):
            yield lambda c, k=k: c.__setitem__(k, u'zz')
            yield lambda c, k=k: c.__delitem__(k)


def totuple(x):
    """The same data with tuples for lists and pairs for mappings."""
    if isinstance(x, list):
        return tuple(map(totuple, x))
    if isinstance(x, dict):
        return dict((k, totuple(v)) for k, v in x.items())
    return x


def snapshot(el):
    return (deep(el.value), el.u, el.flatten(value=lambda e: (e.u, e.name)),
            [(id(c), id(c.parent), c.u, deep(c.value))
             for c in el.all_children], bool(el), bool(el.is_empty), len(el))


def make(cls, data, way):
    """(element, supplied containers)"""
    if way == 'init':
        return cls(data), [data]
    if way == 'set':
        el = cls()
        eq(el.set(data), True, 'set', data)
        return el, [data]
    if way == 'default':
        el = cls.using(default=data)()
        el.set_default()
        return el, [data]
    if way == 'default_factory':
        el = cls.using(default_factory=lambda self: data)()
        el.set_default()
        return el, [data]
    if way == 'from_defaults':
        return cls.using(default=data).from_defaults(), [data]
    if way == 'tuple':
        el = cls()
        eq(el.set(totuple(data)), True, 'set', totuple(data))
        return el, []
    if way == 'twice':
        el = cls(data)
        first = el.value
        eq(el.set(first), True, 'set to its own export', first)
        return el, [data, first]


def check_export(name, n, way, mc):
    cls, datas = EX[name]
    data = datas[n]
    el, given = make(cls, deep(data), way)
    if way.startswith('default') or way == 'from_defaults':
        if el.value != data:
            # defaults of fields are merged into mappings
            raise Violation('default %r gives %r' % (data, el.value))
    export = el.value
    plain(export, 'export')
    eq(export, data, 'export', way)
    again = cls()
    eq(again.set(export), True, 'set(export)', export)
    true(again == el and el == again and not (again != el),
         'element rebuilt from its export differs', again, el)
    true(cls(el.value) == el, 'element rebuilt by constructor', el)
    base = snapshot(el)
    eq(snapshot(el), base, 'reading changes the element')
    rebuilt = snapshot(again)
    # every single mutation of the export
    count = 0
    for path in list(nodes(el.value)):
        for i, _ in enumerate(list(mutations(at(el.value, path)))):
            exp = el.value
            true(exp == data, 'export changed', exp, data)
            target = at(exp, path)
            list(mutations(target))[i](target)
            eq(snapshot(el), base, 'element after changing its export', path,
               i)
            count += 1
    # ... of what it was built from
    for g, src in enumerate(given):
        for path in list(nodes(src)):
            for i, _ in enumerate(list(mutations(at(src, path)))):
                el2, given2 = make(cls, deep(data), way)
                base2 = snapshot(el2)
                target = at(given2[g], path)
                list(mutations(target))[i](target)
                eq(snapshot(el2), base2, 'element after changing its input',
                   way, path, i)
                count += 1
    # changing the element changes neither the export nor the other element
    exp = el.value
    for c in list(el.all_children):
        if not list(c.children):
            c.set([] if isinstance(c, list) else
                  {} if isinstance(c, dict) else None)
    if isinstance(el, list):
        del el[:]
    eq(exp, data, 'export after changing the element')
    eq(snapshot(again), rebuilt, 'the other element after changing this one')
    mc.count('mutations', count)
    mc.transition(count)
    if not data:
        mc.trivial()
    return (name, n, way, count)


# -------------------------------------------------------------- refs etc.
def special(which, mc):
    if which == 'ref':
        D = Dict.of(String.named(u'a'), Integer.named(u'b'),
                    Ref.named(u'r').to(u'a'), Ref.named(u'q').to(u'b'))
        for data in ({}, {u'a': u'1'}, {u'a': u'1', u'b': 1},
                     {u'a': u'x', u'b': 0}):
            el = D(data)
            for x in (u'a', u'b', u'r', u'q'):
                for y in (u'a', u'b', u'r', u'q'):
                    e, f = el[x], el[y]
                    want = (e.value == f.value and e.u == f.u)
                    eq(e == f, want, '==', x, y, data)
                    eq(e != f, not want, '!=', x, y, data)
            eq(el[u'r'] == el[u'a'], True, 'reference and target')
            eq(el[u'r'] == data.get(u'a'), False, 'reference and raw value')
            eq(bool(el[u'r']), bool(el[u'a']), 'truth of reference')
            eq(bool(el[u'r'].is_empty), bool(el[u'a'].is_empty),
               'emptiness of reference')
        return 'ref'
    if which == 'abstract':
        a, b = Element(), Element()
        for x in others_abstract():
            eq(a == x, False, 'Element() ==', x)
            eq(a != x, True, 'Element() !=', x)
            eq(x == a, False, '== Element()', x)
        return 'abstract'
    if which == 'nested':
        # equality looks at data, not at the class, names or parents
        pairs = [
            (List.of(String)([u'1']), Array.of(String)([u'1']), True),
            (List.of(String)([u'1']), List.of(Integer)([1]), False),
            (List.of(String)([]), List.of(Integer)([]), True),
            (List.of(String)([]), Array.of(Boolean)([]), True),
            (Dict.of(S_)({u's': u'a'}), SparseDict.of(S_, I_)({u's': u'a'}),
             True),
            (Dict.of(S_)({}), SparseDict.of(S_)({}), False),
            (SparseDict.of(S_)({}), SparseDict.of(I_)({}), True),
            (List.of(DS)([]), Array.of(String)([]), True),
            (Dict.of(LS)({u'l': [u'a']}),
             Dict.of(Array.named(u'l').of(String))({u'l': [u'a']}), True),
            (JoinedString([u'a', u'b']), String(u'a,b'), True),
            (JoinedString([u'a', u'b']), MultiValue.of(String)([u'a', u'b']),
             False),
            (MultiValue.of(String)([u'a', u'b']), String(u'a'), True),
            (MultiValue.of(String)([u'a', u'b']),
             MultiValue.of(String)([u'a', u'c']), True),
            (MultiValue.of(String)([]), String(), True),
            (DateYYYYMMDD(D2(2000, 1, 2)), Date(D2(2000, 1, 2)), True),
            (DateYYYYMMDD(), Integer(), True),
            (Boolean(True), Integer(1), True),
            (Boolean(False), Integer(0), False),
            (Long(1), Integer(1), True),
            (String(u'1'), Integer(1), False),
            (Integer(u'x'), Float(u'x'), True),
            (Integer(u'x'), String(u'x'), False),
            (Time(datetime.time(1, 2, 3)), Time(u'01:02:03'), True),
            (DateTime(u'2000-01-02 01:02:03'),
             DateTime(datetime.datetime(2000, 1, 2, 1, 2, 3)), True),
        ]
        for a, b, want in pairs:
            for x, y in ((a, b), (b, a)):
                eq(x == y, want, '==', x, y)
                eq(x != y, not want, '!=', x, y)
            eq(a == a, True, 'itself', a)
            eq(a != a, False, 'itself', a)
            for e in (a, b):
                try:
                    {e: 1}
                except TypeError:
                    pass
                else:
                    raise Violation('%r can be a key' % e)
        return 'nested'
    if which == 'members':
        # membership, index, count and removal follow equality
        texts = (u'a', u'b', u'')
        for n in range(4):
            for combo in itertools.product(texts, repeat=n):
                el = List.of(String)(list(combo))
                for t in texts + (u'c',):
                    eq(String(t) in el, t in combo, 'in', combo, t)
                    eq(t in el, t in combo, 'raw in', combo, t)
                    eq(el.count(String(t)), combo.count(t), 'count')
                    eq(el.count(t), combo.count(t), 'count')
                    if t in combo:
                        eq(el.index(String(t)), combo.index(t), 'index')
        return 'members'


def others_abstract():
    for x in (None, 0, u'', [], {}, object(), Element, String, String(u'x'),
              Integer(1), Dict.of(S_)()):
        yield x


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for k in KINDS:
        ops = list(k[2]().ops())
        # one case per two-op prefix
        yield ('hist', k[0], (), 1)
        for h in itertools.product(range(len(ops)), repeat=2):
            yield ('hist', k[0], h, depth - 2)
    for i in range(64):
        yield ('pairs', i, 64)
    for k in KINDS:
        yield ('others', k[0])
    for kind in HOLDERS:
        for t in range(len(TEXTS)):
            yield ('leaves', kind, t)
    for name, _, datas in EXPORTS:
        for n in range(len(datas)):
            for way in WAYS:
                yield ('export', name, n, way)
    for w in ('ref', 'abstract', 'nested', 'members'):
        yield ('special', w)


_pool = {}


def check(case, mc):
    what = case[0]
    if what == 'hist':
        _, kind, prefix, more = case
        _, cls, mk, apply = BY_NAME[kind]
        ops = list(mk().ops())
        start = tuple(ops[i] for i in prefix)
        seen = []
        for n in range(more + 1):
            for tail in itertools.product(ops, repeat=n):
                hist = start + tail
                el, model = run_history(kind, hist)
                try:
                    check_state(el, model, mc)
                    # a fresh element in the same state is equal
                    twin, _ = run_history(kind, hist)
                    true(el == twin and not el != twin,
                         'twins differ', el, twin)
                    # other elements share no data
                except Violation, v:
                    raise Violation('%s after %r: %s' % (kind, hist, v))
                mc.transition(len(hist))
                seen.append(repr(model.data()))
        return (kind, seen)
    if what == 'pairs':
        tier = mc.tier
        if tier not in _pool:
            _pool[tier] = [(k, h) + run_history(k, h) for k, h in pool(tier)]
        p = _pool[tier]
        n = equal = 0
        for i in range(case[1], len(p), case[2]):
            k, h, a, ma = p[i]
            for j in range(i, len(p)):
                k2, h2, b, mb = p[j]
                equal += check_pair(a, ma, b, mb, '%s %r / %s %r' % (
                    k, h, k2, h2))
                n += 1
        mc.transition(n)
        mc.count('pairs', n)
        mc.count('equal pairs', equal)
        return (n, equal)
    if what == 'leaves':
        return leaf_pairs(case, mc)
    if what == 'others':
        kind = case[1]
        n = 0
        for h in histories(kind, 2):
            el, m = run_history(kind, h)
            for x in others(el):
                for got, want, how in (
                        (lambda: el == x, False, 'el == x'),
                        (lambda: el != x, True, 'el != x'),
                        (lambda: x == el, False, 'x == el'),
                        (lambda: x != el, True, 'x != el')):
                    try:
                        res = got()
                    except Exception, e:
                        raise Violation('%s raised %r for %r, x=%r' % (
                            how, e, el, x))
                    if res is not want:
                        raise Violation('%s is %r for %s %r after %r, '
                                        'x=%r' % (how, res, kind, el, h, x))
                n += 1
        mc.count('comparisons with others', n)
        mc.transition(n)
        return n
    if what == 'export':
        return check_export(case[1], case[2], case[3], mc)
    if what == 'special':
        return special(case[1], mc)
