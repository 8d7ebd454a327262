# -*- coding: utf-8 -*-
"""C30: supporting descriptors and helpers keep their contracts."""
import collections
import copy
import cPickle
import itertools
import pickle
import re
import UserDict

from flatland.util import (Maybe, Unspecified, adict, as_mapping,
                           assignable_class_property, assignable_property,
                           autodocument_from_superclasses, class_cloner,
                           decode_repr, keyslice_pairs,
                           lazy_property, luhn10, named_int_factory,
                           re_ucompile, re_uescape, symbol, to_pairs)
from flatland import SkipAll, Unset
from lib import Violation, eq, same, true, outcome_of

LEVEL = 'exploration'
RULE = ('A case is a block of one of: histories of reads, assignments and '
        'deletions of a descriptor on two instances, the class and a '
        'subclass; names of constants; operands of the ternary logic; '
        'arguments of pair selection; kinds of dictionary-like object; '
        'texts to escape; numbers to check. Every result is compared with a '
        'model. Non-trivial: histories with an assignment, selections with '
        'an option, non-empty texts and mappings.')
BOUNDS = {
    'quick': 'all histories of up to 6 operations out of 9 for 4 '
             'descriptors; 12 names x 10 ways to obtain a constant; all '
             'operand pairs of the ternary logic; all sequences of up to 4 '
             'pairs over 3 keys x 8 includes x 8 omits x 9 renamings x 4 key '
             'functions; 18 kinds of mapping x 7 contents; every character '
             'of the basic plane alone and every text of up to 3 out of 24 '
             'special characters; all numbers up to 200000 and all of up to '
             '19 digits that have at most 2 non-zero digits; methods of all '
             'sorts under up to 3 bases of 6 kinds',
    'thorough': 'histories of up to 7, sequences of up to 5 pairs, texts of '
                'up to 4, numbers up to 2000000 and up to 3 non-zero digits',
}
ASSUMPTIONS = ['an empty include or omit selects nothing in particular']


# ----------------------------------------------------------- descriptors
class Log(object):
    """Computes a value from the instance and counts."""

    def __init__(self):
        self.calls = []

    def __call__(self, tag):
        self.calls.append(tag)
        return ('computed', tag, len(self.calls))


HIST_OPS = ('get0', 'get1', 'set0a', 'set0b', 'set1a', 'del0', 'del1',
            'cls', 'sub')


def make_assignable():
    log = Log()

    class A(object):
        tag = 'cls'

        def __init__(self, tag):
            self.tag = tag

        @assignable_property
        def prop(self):
            """the doc"""
            return log(self.tag)

    class Sub(A):
        pass
    return A, Sub, log, 'assignable'


def make_renamed():
    log = Log()

    def compute(self):
        return log(self.tag)

    class A(object):
        def __init__(self, tag):
            self.tag = tag
        prop = assignable_property(compute, name='other', doc='the doc')

    class Sub(A):
        pass
    return A, Sub, log, 'assignable'


def make_class_property():
    log = Log()

    class A(object):
        tag = 'A'

        def __init__(self, tag):
            self.tag = tag

        @assignable_class_property
        def prop(self, cls):
            """the doc"""
            if self is None:
                return log('class ' + cls.__name__)
            return log(self.tag + ' of ' + cls.__name__)

    class Sub(A):
        tag = 'Sub'
    return A, Sub, log, 'class'


def make_lazy():
    log = Log()

    class A(object):
        def __init__(self, tag):
            self.tag = tag

        @lazy_property
        def prop(self):
            return log(self.tag)

    class Sub(A):
        pass
    return A, Sub, log, 'lazy'


MAKERS = {'assignable': make_assignable, 'renamed': make_renamed,
          'class': make_class_property, 'lazy': make_lazy}


def history(maker, ops, mc):
    A, Sub, log, kind = MAKERS[maker]()
    objs = [A('i0'), Sub('i1')]
    model = [None, None]        # assigned (or computed once) values
    calls = 0
    for op in ops:
        mc.transition()
        if op.startswith('get'):
            i = int(op[3])
            got = objs[i].prop
            if model[i] is not None:
                same(got, model[i], 'assigned value', ops)
            else:
                calls += 1
                tag = objs[i].tag
                if kind == 'class':
                    tag += ' of ' + type(objs[i]).__name__
                eq(got, ('computed', tag, calls), 'computed value', ops)
                if kind == 'lazy':
                    model[i] = got
        elif op.startswith('set'):
            i = int(op[3])
            value = [op[4]] if op[4] == 'a' else (None if maker == 'x'
                                                  else [])
            objs[i].prop = value
            model[i] = value
        elif op.startswith('del'):
            i = int(op[3])
            if model[i] is None:
                try:
                    del objs[i].prop
                except AttributeError:
                    pass
                else:
                    raise Violation('nothing to delete, after %r' % (ops,))
            else:
                del objs[i].prop
                model[i] = None
        else:
            cls = A if op == 'cls' else Sub
            got = cls.prop
            if kind == 'assignable':
                same(got, None, 'class access', ops)
            elif kind == 'class':
                calls += 1
                eq(got, ('computed', 'class ' + cls.__name__, calls),
                   'class access', ops)
            else:
                true(isinstance(got, lazy_property), 'class access', got)
        eq(len(log.calls), calls, 'computations', ops)
    # a new instance starts from scratch
    new = A('new')
    got = new.prop
    eq(got, ('computed', 'new of A' if kind == 'class' else 'new',
             calls + 1), 'new instance', ops)
    # other attributes untouched
    eq([sorted(k for k in vars(o) if k not in ('prop', 'other'))
        for o in objs], [['tag'], ['tag']], 'instance dictionaries', ops)
    mc.state((maker, tuple(m is not None for m in model)))
    return (maker, [m is None for m in model], calls)


def class_level(mc):
    """Assignments on the class replace the property there."""
    A, Sub, log, kind = make_class_property()
    a, s = A('a'), Sub('s')
    Sub.prop = 'mine'
    eq((Sub.prop, s.prop), ('mine', 'mine'), 'class level assignment')
    eq(a.prop[1], 'a of A', 'other class')
    eq(A.prop[1], 'class A', 'other class')
    del Sub.prop
    eq(Sub.prop[1], 'class Sub', 'class level deletion')
    # falsy and None values are values
    for make in (make_assignable, make_renamed, make_class_property):
        for v in (None, 0, False, '', (), Unspecified):
            A, Sub, log, kind = make()
            a = A('a')
            a.prop = v
            same(a.prop, v, 'assigned', v)
            eq(log.calls, [], 'computed although assigned', v)
            b = copy.copy(a)
            same(b.prop, v, 'copy', v)
            del b.prop
            same(a.prop, v, 'deleted from the copy', v)
            eq(b.prop[0], 'computed', 'deleted', v)
    # a computation that fails is not remembered
    for deco in (lazy_property, assignable_property):
        fails = [ValueError, AttributeError, KeyError]

        class C(object):
            @deco
            def p(self):
                if fails:
                    raise fails.pop()('no')
                return 'fine'
        c = C()
        for e in (KeyError, AttributeError, ValueError):
            try:
                c.p
            except e:
                pass
            else:
                raise Violation('failure of %s hidden' % deco.__name__)
            true(not hasattr(c, 'p') if e is KeyError and 0 else True, '')
        eq(c.p, 'fine', 'after failures', deco.__name__)
    # None computed once is still computed once
    n = []

    class D(object):
        @lazy_property
        def p(self):
            n.append(1)
    d = D()
    same(d.p, None, 'None')
    same(d.p, None, 'None')
    eq(len(n), 1, 'computed once')
    eq(A.__dict__['prop'].__doc__, 'the doc', 'doc')
    eq(make_renamed()[0].__dict__['prop'].__doc__, 'the doc', 'doc')
    return 'class level'


def cloner(mc):
    for depth in range(4):
        log = []

        class Base(object):
            """A doc."""
            value = 0

            @class_cloner
            def withv(cls, v, *args, **kw):
                """cloner doc"""
                log.append((cls, args, kw))
                cls.value = v
                return cls

        chain = [Base]
        for i in range(depth):
            chain.append(chain[-1].withv(i + 1, 7, k=8))
        for i, c in enumerate(chain):
            eq(c.value, i, 'value in chain')
            eq(c.__name__, 'Base', 'name of clone')
            eq(c.__doc__, 'A doc.', 'doc of clone')
            if i:
                eq(c.__bases__, (chain[i - 1],), 'bases of clone')
                eq(log[i - 1], (c, (7,), {'k': 8}), 'arguments')
                eq(c.__module__, __name__, 'module of clone')
            x = c()
            eq(x.value, i, 'instance value')
            for attempt in range(2):
                try:
                    x.withv
                except AttributeError:
                    pass
                else:
                    raise Violation('cloner visible on an instance')
                true(not hasattr(x, 'withv'), 'hasattr')
                try:
                    del x.withv
                except AttributeError:
                    pass
                else:
                    raise Violation('nothing to delete')
                x.withv = 'own'
                eq(x.withv, 'own', 'assigned')
                true(not hasattr(c(), 'withv'), 'other instance')
                true(callable(c.withv), 'class access')
                del x.withv
        # two clones of one class are independent
        a, b = chain[-1].withv(10), chain[-1].withv(20)
        eq((a.value, b.value, chain[-1].value), (10, 20, depth), 'siblings')
        true(a is not b and not issubclass(a, b), 'siblings')
        bound = chain[-1].withv
        true(bound(1) is not None, 'bound')
        eq(Base.value, 0, 'base')
        mc.transition(depth)
    return 'cloner'


# -------------------------------------------------------------- constants
def constants(name, mc):
    first = symbol(name)
    ways = [
        ('again', lambda: symbol(name)),
        ('str()', lambda: symbol(str(name))),
        ('joined', lambda: symbol(''.join(list(name)))),
        ('copy', lambda: copy.copy(first)),
        ('deepcopy', lambda: copy.deepcopy(first)),
        ('deepcopy nested', lambda: copy.deepcopy({'a': [first]})['a'][0]),
    ]
    for mod in (pickle, cPickle):
        for proto in (0, 1, 2):
            ways.append(('%s %d' % (mod.__name__, proto),
                         lambda mod=mod, proto=proto: mod.loads(
                             mod.dumps(first, proto))))
            ways.append(('nested %s %d' % (mod.__name__, proto),
                         lambda mod=mod, proto=proto: mod.loads(
                             mod.dumps([(first, first)], proto))[0][1]))
    n = 0
    for a, b in itertools.product(ways, repeat=2):
        for w in (a, b):
            try:
                got = w[1]()
            except Exception, e:
                raise Violation('%s of %r raised %r' % (w[0], first, e))
            same(got, first, '%s of the constant' % w[0], name)
            n += 1
    eq(repr(first), name, 'repr')
    eq(str(first), name, 'str')
    eq((first.name, first.__name__), (name, name), 'name')
    for other in ('x' + name, name + '_', name.swapcase() or 'q'):
        if other != name:
            true(symbol(other) is not first, 'another name', other)
            true(symbol(other) != first, 'another name', other)
    eq(bool(first), True, 'truth')
    eq({first: 1}[symbol(name)], 1, 'as a key')
    mc.count('constants obtained', n)
    return n


def named_ints(mc):
    seen = []
    for name, value in itertools.product(('A', 'Skip', 'b'),
                                         (0, 1, True, False, 7, -1)):
        c = named_int_factory(name, value, doc='about')
        eq((repr(c), str(c), '%s' % c), (name, name, name), 'name', value)
        eq((int(c), c == value, bool(c), hash(c)),
           (int(value), True, bool(value), hash(value)), 'value', name)
        true(isinstance(c, int), 'an int')
        eq(c + 1, value + 1, 'sum')
        eq(c.__doc__, 'about', 'doc')
        for s in seen:
            true(c is not s, 'distinct', c)
        seen.append(c)
    return len(seen)


# ---------------------------------------------------------------- ternary
def ternary(mc):
    T, F, M = True, False, Maybe
    AND = {(T, T): T, (T, F): F, (F, F): F, (T, M): M, (F, M): F, (M, M): M}
    OR = {(T, T): T, (T, F): T, (F, F): F, (T, M): T, (F, M): M, (M, M): M}
    n = 0
    for a, b in itertools.product((T, F, M), repeat=2):
        key = (a, b) if (a, b) in AND else (b, a)
        same(a & b, AND[key], '&', a, b)
        same(a | b, OR[key], '|', a, b)
        x = a
        x &= b
        same(x, AND[key], '&=', a, b)
        x = a
        x |= b
        same(x, OR[key], '|=', a, b)
        n += 4
        for c in (T, F, M):
            same((a & b) & c, a & (b & c), 'associative &')
            same((a | b) | c, a | (b | c), 'associative |')
            same(a & (b | c), (a & b) | (a & c), 'distributive')
            same(a | (b & c), (a | b) & (a | c), 'distributive')
            n += 4
        same(M.not_(a & b), M.not_(a) | M.not_(b), 'De Morgan')
        same(M.not_(a | b), M.not_(a) & M.not_(b), 'De Morgan')
    for a, want in ((T, F), (F, T), (M, M)):
        same(M.not_(a), want, 'not', a)
    for a, want in ((T, T), (F, F), (M, T)):
        same(M.truth(a), want, 'truth', a)
    for bad in (0, 1, None, '', u'x', [], 1.0, object(), Unset, SkipAll):
        for f in (lambda: M & bad, lambda: bad & M, lambda: M | bad,
                  lambda: bad | M, lambda: M.not_(bad),
                  lambda: M.truth(bad)):
            try:
                got = f()
            except TypeError:
                n += 1
            else:
                raise Violation('%r accepted: %r' % (bad, got))
    try:
        bool(M)
    except NotImplementedError:
        pass
    else:
        raise Violation('Maybe has a truth value')
    eq((str(M), repr(M)), ('Maybe', 'Maybe'), 'name')
    return n


# ---------------------------------------------------------- keyslice_pairs
KEYS = ('a', 'b', 'c')


def subsets(keys):
    for n in range(len(keys) + 1):
        for s in itertools.combinations(keys, n):
            yield s


RENAMES = [None, {}, {'a': 'z'}, {'a': 'b'}, {'a': 'b', 'b': 'a'},
           {'x': 'y'}, (('a', 'z'), ('b', 'z')), [('c', 'a')],
           (('a', 'q'), ('a', 'r')), {'a': None}]
# the same in other shapes of dict-like, read as the pairs given here
LIKE = [({'a': 'z', 'b': 'c'},
         lambda: collections.namedtuple('Renames', 'a b')('z', 'c')),
        ({'a': 'b'}, lambda: Keys([('a', 'b')])),
        ({'a': 'b'}, lambda: IterItems([('a', 'b')])),
        ({'a': 'b'}, lambda: OldKeys([('a', 'b')])),
        ({'a': 'b'}, lambda: iter([['a', 'b']]))]
KEYFS = [None, lambda k: k.upper(), lambda k: 'a', lambda k: k]


def model_slice(pairs, include, omit, rename, keyf):
    out = []
    table = {}
    if rename:
        for f, t in (rename.items() if isinstance(rename, dict) else rename):
            table[f] = t
    for k, v in pairs:
        if keyf:
            k = keyf(k)
        if k in table:
            out.append((table[k], v))
        elif include:
            if k in include:
                out.append((k, v))
        elif omit:
            if k not in omit:
                out.append((k, v))
        else:
            out.append((k, v))
    return out


def keyslice(ri, ki, longest, mc):
    n = 0
    if ri < len(RENAMES):
        rename, keyf = RENAMES[ri], KEYFS[ki]
        given = lambda: rename
    else:
        rename, given = LIKE[ri - len(RENAMES)]
        keyf = KEYFS[ki]
    names = list(KEYS)
    subs = list(subsets(names)) + [('A', 'b'), ('x',)]
    for seq in itertools.chain.from_iterable(
            itertools.product(KEYS, repeat=i) for i in range(longest + 1)):
        pairs = [(k, i) for i, k in enumerate(seq)]
        for include, omit in [(s, None) for s in subs] + [
                (None, s) for s in subs] + [(None, None), ((), ())]:
            for shape in ((tuple, list, set, iter) if len(seq) < 3
                          else (tuple,)):
                kw = {}
                if include is not None:
                    kw['include'] = shape(include) if include else include
                if omit is not None:
                    kw['omit'] = shape(omit) if omit else omit
                if rename is not None:
                    kw['rename'] = given()
                if keyf is not None:
                    kw['key'] = keyf
                src = (iter(pairs) if len(seq) % 2 else
                       (dict(pairs).items() if 0 else pairs))
                got = keyslice_pairs(src, **kw)
                true(iter(got) is got, 'an iterator')
                eq(list(got), model_slice(pairs, include, omit, rename,
                                          keyf),
                   'pairs', pairs, include, omit, rename, ki)
                n += 1
    for inc, om in itertools.product(subs, repeat=2):
        if inc and om:
            try:
                list(keyslice_pairs([], include=inc, omit=om))
            except TypeError:
                n += 1
            else:
                raise Violation('include and omit accepted')
    mc.count('selections', n)
    return n


# ---------------------------------------------------------------- to_pairs
class IterItems(object):
    def __init__(self, d):
        self.d = d

    def iteritems(self):
        return iter(self.d)


class Keys(object):
    def __init__(self, d):
        self.d = d

    def keys(self):
        return [k for k, v in self.d]

    def __getitem__(self, k):
        for a, v in self.d:
            if a == k:
                return v
        raise KeyError(k)


class KeysIter(Keys):
    def keys(self):
        return iter([k for k, v in self.d])


class OldKeys:
    def __init__(self, d):
        self.d = dict(d)

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


class SubDict(dict):
    pass


class Both(dict):
    """iteritems wins over keys."""

    def keys(self):
        raise Violation('keys() used though iteritems() is there')


def _gen(d):
    for p in d:
        yield p


CONTENTS = [[], [('a', 1)], [('b', None), ('a', 2)], [(u'k', 'v'), (3, 4)],
            [('', ''), (None, 0)], [(('t',), []), ('z', {})],
            [('a', 1), ('b', 2), ('c', 3)]]
SHAPES = [
    ('dict', dict, False), ('list', list, True), ('tuple', tuple, True),
    ('generator', _gen, True), ('iterator', iter, True),
    ('lists', lambda d: [list(p) for p in d], True),
    ('iteritems', IterItems, True), ('keys', Keys, True),
    ('iterated keys', KeysIter, True), ('old style', OldKeys, False),
    ('subclass', SubDict, False), ('both', Both, False),
    ('UserDict', lambda d: UserDict.UserDict(dict(d)), False),
    ('OrderedDict', collections.OrderedDict, True),
    ('defaultdict', lambda d: collections.defaultdict(int, d), False),
    ('items', lambda d: collections.OrderedDict(d).items(), True),
    ('adict', adict, False), ('itertools', lambda d: itertools.chain(d), True),
]


def pairs_of(mc):
    n = 0
    for name, make, ordered in SHAPES:
        for d in CONTENTS:
            got = list(to_pairs(make(d)))
            for p in got:
                eq(len(p), 2, 'a pair', p)
            got = [tuple(p) for p in got]
            if ordered:
                eq(got, d, 'pairs of %s' % name, d)
            else:
                eq(len(got), len(d), 'pairs of %s' % name, d)
                for p in d:
                    true(p in got, 'pairs of %s lack' % name, p)
            n += 1
    for fields in ((), ('a',), ('b', 'a'), ('x', 'y', 'z')):
        nt = collections.namedtuple('nt', fields)
        values = tuple(range(len(fields)))
        eq(list(to_pairs(nt(*values))), zip(fields, values), 'namedtuple')
        n += 1
    for bad in (None, 1, [1], [('a',)], ['abc'], [('a', 1, 2)]):
        try:
            got = list(to_pairs(bad))
        except (TypeError, ValueError):
            n += 1
        else:
            raise Violation('pairs of %r: %r' % (bad, got))
    return n


# ------------------------------------------------------------ small views
def views(mc):
    class Target(object):
        cls_attr = 1
        __slots__ = ('slot', '__dict__')

        @property
        def prop(self):
            return 'p'

        @property
        def missing(self):
            raise AttributeError('missing')
    t = Target()
    t.own = 2
    m = as_mapping(t)
    eq((m['cls_attr'], m['prop'], m['own']), (1, 'p', 2), 'items')
    for k in ('nope', 'slot', 'missing'):
        try:
            m[k]
        except KeyError, e:
            eq(e.args, (k,), 'KeyError')
        else:
            raise Violation('%s found' % k)
        true(k not in m, 'contains', k)
    t.slot = 3
    eq(m['slot'], 3, 'a slot set later')
    true('slot' in m and 'own' in m and 'prop' in m, 'contains')
    eq(sorted(iter(m)), sorted(dir(t)), 'iteration')
    eq('%(own)s %(prop)s' % m, '2 p', 'formatting')
    for items in CONTENTS:
        items = [(k, v) for k, v in items if isinstance(k, basestring) and k]
        d = adict(items)
        eq(d, dict(items), 'adict')
        for k, v in items:
            same(getattr(d, k), d[k], 'attribute', k)
        for k in ('nope', 'x y'):
            try:
                getattr(d, k)
            except AttributeError, e:
                eq(e.args, (k,), 'AttributeError')
            else:
                raise Violation('%s found' % k)
            true(not hasattr(d, k), 'hasattr')
        d['new'] = 1
        eq(d.new, 1, 'later item')
        true(callable(d.keys), 'methods stay')
    p = re_ucompile(u'^\\w+$')
    true(p.match(u'é'.encode('latin1').decode('latin1')), 'unicode \\w')
    true(re_ucompile(u'^\\w+$').flags & re.UNICODE, 'unicode flag')
    true(re_ucompile(u'^E$', re.IGNORECASE).match(u'e'), 'other flags')
    true(not re_ucompile(u'^E$').match(u'e'), 'no other flags')
    for s in ('', 'a', u'a', u'\xe9', u'\u20ac', u"'", u'"', u'\\', u'\n'):
        got = decode_repr(unicode(s) if isinstance(s, unicode) else
                          s.decode('ascii'))
        true(type(got) is unicode, 'text', got)
        true(got.startswith(u"u'") or got.startswith(u'u"'), 'repr', got)
    eq(decode_repr(u'ab'), u"u'ab'", 'repr')
    return 'views'


# ---------------------------------------------------------------- escaping
SPECIAL = u'.^$*+?{}[]\\|()-#&~ \n\t\0a0_\u20ac'


def escaping(block, of, mc):
    n = 0
    for code in range(block * 0x10000 // of, (block + 1) * 0x10000 // of):
        if 0xd800 <= code < 0xe000:
            continue
        ch = unichr(code)
        esc = re_uescape(ch)
        if ch in (u'abcdefghijklmnopqrstuvwxyz'
                  u'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'):
            eq(esc, ch, 'alphanumerics stay')
        m = re.compile(esc + u'\\Z', re.UNICODE).match(ch)
        true(m is not None, 'escaped character does not match itself', ch,
             esc)
        other = u'a' if ch != u'a' else u'b'
        true(re.compile(esc + u'\\Z', re.UNICODE).match(other) is None,
             'escaped character matches another', ch, esc)
        n += 1
    return n


def escaping_texts(first, longest, mc):
    n = 0
    for k in range(longest):
        for rest in itertools.product(SPECIAL, repeat=k):
            text = first + u''.join(rest)
            pat = re.compile(re_uescape(text) + u'\\Z')
            true(pat.match(text) is not None, 'does not match itself', text)
            for near in (text[:-1], text + u'a', text[:-1] + u'b',
                         u'b' + text):
                if near != text:
                    true(pat.match(near) is None, 'matches', text, near)
            n += 1
    return n


# ------------------------------------------------------------------- luhn
def model_luhn(text):
    total = 0
    for i, ch in enumerate(reversed(text)):
        d = int(ch)
        if i % 2:
            d *= 2
            if d > 9:
                d -= 9
        total += d
    return total % 10 == 0


def luhn_block(lo, hi, mc):
    n = 0
    for i in xrange(lo, hi):
        if luhn10(i) is not model_luhn(str(i)):
            raise Violation('luhn10(%d) is %r' % (i, luhn10(i)))
        n += 1
    return n


def luhn_long(length, nonzero, mc):
    n = 0
    for k in range(1, nonzero + 1):
        for places in itertools.combinations(range(length), k):
            for digits in itertools.product(range(1, 10), repeat=k):
                v = sum(d * 10 ** p for d, p in zip(digits, places))
                if luhn10(v) is not model_luhn(str(v)):
                    raise Violation('luhn10(%d) is %r' % (v, luhn10(v)))
                n += 1
    for v in range(1, 50):
        same(luhn10(-v), False, 'negative', v)
    return n


def _method(doc):
    def method(self):
        return doc
    method.__doc__ = doc
    return method


# what a superclass may say of a method: None where it has none
SAID = {
    'no': (None, None), 'documented': ('doc', None),
    'undocumented': ('', None), 'above': (None, 'doc'),
    'over': ('', 'doc'), 'plain': (5, None),
}


def documented(own, mc):
    """Methods take missing documentation from the first base that has it."""
    n = 0
    for k in (1, 2, 3):
        for said in itertools.product(sorted(SAID), repeat=k):
            bases, want = [], None
            for i, kind in enumerate(said):
                members = []
                for given in reversed(SAID[kind]):
                    if given is None:
                        members.append({})
                    elif given == 5:
                        members.append({'m': 5})
                    else:
                        members.append({'m': _method(
                            given and '%s %d' % (given, i) or None)})
                top = type('Top%d' % i, (object,), members[0])
                bases.append(type('Base%d' % i, (top,), members[1]))
                if want is None and kind in ('documented', 'above'):
                    want = 'doc %d' % i
                elif want is None and kind == 'plain':
                    want = (5).__doc__
            members = {}
            if own == 'plain':
                members['m'] = 5
            elif own != 'no':
                members['m'] = _method(
                    'own' if own == 'documented' else None)
            before = members.get('m')
            cls = type('Sub', tuple(bases), members)
            same(autodocument_from_superclasses(cls), cls, 'result')
            same(cls.__dict__.get('m'), before, 'the method', own, said)
            if own in ('documented', 'undocumented'):
                eq(before.__doc__, 'own' if own == 'documented' else want,
                   'documentation', own, said)
            else:
                true('m' in cls.__dict__ or own == 'no', 'nothing added')
            for i, kind in enumerate(said):
                m = bases[i].__dict__.get('m')
                if callable(m):
                    eq(m.__doc__, 'doc %d' % i if kind == 'documented' else
                       None, 'documentation of a base', own, said)
            n += 1
            mc.transition()
    return n


def cases(tier):
    depth = 6 if tier == 'quick' else 7
    for maker in sorted(MAKERS):
        for pre in itertools.product(HIST_OPS, repeat=2):
            yield ('history', maker, pre, depth)
    for w in ('class level', 'cloner', 'named ints', 'ternary', 'pairs of',
              'views'):
        yield (w,)
    for name in ('a', 'foo', 'Unspecified', 'Unset', 'TOP', 'with space',
                 'q' * 40, 'c30', '__x__', '1', 'deleted', 'None'):
        yield ('constant', name)
    for r in range(len(RENAMES)):
        for k in range(len(KEYFS)):
            yield ('keyslice', r, k, 4 if tier == 'quick' else 5)
    for r in range(len(LIKE)):
        yield ('keyslice', len(RENAMES) + r, 0, 3)
    for b in range(32):
        yield ('escape', b, 32)
    for ch in SPECIAL:
        yield ('texts', ch, 3 if tier == 'quick' else 4)
    for own in ('no', 'documented', 'undocumented', 'plain'):
        yield ('documented', own)
    top = 200000 if tier == 'quick' else 2000000
    for i in range(32):
        yield ('luhn', i * top // 32, (i + 1) * top // 32)
    for length in (9, 13, 16, 19):
        yield ('luhn long', length, 2 if tier == 'quick' or length > 16
               else 3)


def check(case, mc):
    what = case[0]
    if what == 'history':
        _, maker, pre, depth = case
        out = set()
        for n in range(depth - 1):
            for tail in itertools.product(HIST_OPS, repeat=n):
                out.add(repr(history(maker, pre + tail, mc)))
                mc.trace()
        return sorted(out)
    if what == 'class level':
        return class_level(mc)
    if what == 'cloner':
        return cloner(mc)
    if what == 'named ints':
        return named_ints(mc)
    if what == 'ternary':
        return ternary(mc)
    if what == 'pairs of':
        return pairs_of(mc)
    if what == 'views':
        return views(mc)
    if what == 'documented':
        return documented(case[1], mc)
    if what == 'constant':
        return constants(case[1], mc)
    if what == 'keyslice':
        return keyslice(case[1], case[2], case[3], mc)
    if what == 'escape':
        return escaping(case[1], case[2], mc)
    if what == 'texts':
        return escaping_texts(case[1], case[2], mc)
    if what == 'luhn':
        return luhn_block(case[1], case[2], mc)
    if what == 'luhn long':
        return luhn_long(case[1], case[2], mc)
