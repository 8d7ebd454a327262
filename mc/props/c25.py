# -*- coding: utf-8 -*-
"""C25: messages are translated, pluralized and filled in by precedence."""
import __builtin__
import collections
import datetime
import itertools
import types

from flatland import Array, Dict, Form, Integer, List, String
from flatland.validation import HasAtLeast, NoLongerThan, Present, Validator
from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('A case is a placement of translators, of the sources of a value, or '
        'of a count, and a kind of state object; the message noted on the '
        'element is compared with a model of the lookup rules. Non-trivial: '
        'at least one translator or source was placed.')
BOUNDS = {
    'quick': 'all placements of translators on the state (2 ways), element, '
             'two ancestors (each on the instance and the schema) and the '
             'built-ins for both kinds of translator x 4 messages; all '
             'subsets of 6 sources of a value x 2 translators x 5 kinds of '
             'state; 17 counts x 7 sources x 4 sets of translators; 30 kinds '
             'of state x 9 messages x 3 ways to note them; translation turned off in 9 ways; values of 18 types x 5 '
             'sources x 3 places of a translator x 4 forms, counted or not',
    'thorough': 'the same with three ancestors and every pair of translator '
                'placements',
}
ASSUMPTIONS = [
    'a state with an answer for every name is not used',
    'translators on schemas are not plain functions (Python would pass them '
    'the element)',
    'translators pass on what they do not know, as gettext does']


class Tr(object):
    """A translator that marks what it translates."""

    def __init__(self, tag):
        self.tag = tag
        self.calls = []

    def one(self, text):
        self.calls.append(text)
        if isinstance(text, basestring) and any(c.isalpha() for c in text):
            return u'%s<%s>' % (self.tag, text)
        return unicode(text)

    def many(self, single, plural, n):
        self.calls.append((single, plural, n))
        return u'%s{%s|%s|%r}' % (self.tag, single, plural, n)

    # for use as a state
    ugettext = property(lambda self: self.one)
    ungettext = property(lambda self: self.many)


class Attrs(object):
    pass


class AttrsAndItems(object):
    def __init__(self):
        self.items_ = {}

    def __getitem__(self, key):
        return self.items_[key]


class V(Validator):
    plain = u'say %(label)s'
    bare = u'just text'
    counted = (u'one %(label)s', u'%(n)s of %(label)s', 'n')
    computed = staticmethod(lambda element, state: u'computed %(label)s')
    computed_many = staticmethod(
        lambda element, state: (u'c one', u'c many %(label)s', 'n'))
    n = 1


MESSAGES = ('plain', 'counted', 'bare', 'computed', 'computed_many')


class Builtins(object):
    """Names put into the built-ins for a while."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        for k, v in self.kw.items():
            setattr(__builtin__, k, v)

    def __exit__(self, *exc):
        for k in self.kw:
            delattr(__builtin__, k)


# places in the order they are looked at; elements from the inside out
def places(depth):
    out = ['state.attr', 'state.item']
    for i in range(depth):
        out += ['el%d' % i, 'cls%d' % i]
    return out + ['builtins']


def tree(depth, u, un):
    """The innermost element of a tree with translators placed on it."""
    def kw(i):
        out = {}
        if 'cls%d' % i in u:
            out['ugettext'] = Tr('cls%d' % i).one
        if 'cls%d' % i in un:
            out['ungettext'] = Tr('cls%d' % i).many
        return out
    s = String.named(u'leaf').using(**kw(0))
    cls = List.named(u'list').of(s).using(**kw(1)) if depth > 1 else s
    if depth > 2:
        cls = Dict.named(u'top').of(cls).using(**kw(2))
    el = cls()
    if depth == 1:
        chain = [el]
    elif depth == 2:
        el.append(u'x')
        chain = [el[0], el]
    else:
        el[u'list'].append(u'x')
        chain = [el[u'list'][0], el[u'list'], el]
    for i, e in enumerate(chain):
        if 'el%d' % i in u:
            e.ugettext = Tr('el%d' % i).one
        if 'el%d' % i in un:
            e.ungettext = Tr('el%d' % i).many
    return chain[0]


def first(placed, depth):
    for p in places(depth):
        if p in placed:
            return p
    return None


def state_for(u, un):
    """A state with translators as attributes or items."""
    item = [p for p in (u, un) if 'state.item' in p]
    attr = [p for p in (u, un) if 'state.attr' in p]
    if not item and not attr:
        return None
    if item and not attr:
        state = {}
        target = state
    else:
        state = AttrsAndItems()
        target = state.items_
    if 'state.item' in u:
        target['ugettext'] = Tr('state.item').one
    if 'state.item' in un:
        target['ungettext'] = Tr('state.item').many
    if 'state.attr' in u:
        state.ugettext = Tr('state.attr').one
    if 'state.attr' in un:
        state.ungettext = Tr('state.attr').many
    return state


class Off(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


# states that turn translation off: what they name, and how
OFF = [(names, how) for names in (('ugettext',), ('ungettext',),
                                  ('ugettext', 'ungettext'))
       for how in ('attr', 'item', 'class')]


def off_state(names, how):
    named = dict.fromkeys(names)
    if how == 'attr':
        return Off(**named)
    if how == 'item':
        return named
    return type('Quiet', (object,), named)()


def off(case, mc):
    """A state that names a translator of None wants none."""
    _, depth, place = case
    u, un = (place,), (place,)
    if place == 'state':
        u = un = ()
    extra = {}
    if place == 'builtins':
        extra = {'ugettext': Tr('builtins').one,
                 'ungettext': Tr('builtins').many}
    for names, how in OFF:
        with Builtins(**extra):
            for message in MESSAGES:
                for n in (1, 2):
                    el = tree(depth, u, un)
                    V(n=n).note_error(el, off_state(names, how), message)
                    want = model(
                        message, u'leaf', n,
                        None if 'ugettext' in names else first(u, depth),
                        None if 'ungettext' in names else first(un, depth))
                    eq(list(el.errors), [want], 'message with translation '
                       'turned off', names, how, message, n)
                    mc.transition()
    return 'off'


def model(message, label, n, u, un, n_text=None):
    """The text of a message under translators of the given tags."""
    def t(text):
        return u'%s<%s>' % (u, text) if u else text
    single, plural = {
        'plain': (u'say %s', None), 'bare': (u'just text', None),
        'computed': (u'computed %s', None),
        'counted': (u'one %s', u'%n of %s'),
        'computed_many': (u'c one', u'c many %s')}[message]
    if plural is None:
        text = t(single)
    elif un:
        text = u'%s{%s|%s|%r}' % (un, single, plural, n)
    else:
        text = t(single if n == 1 else plural)
    # fill in
    return text.replace(u'%n', unicode(n if n_text is None else n_text)
                        ).replace(u'%s', t(label))


def lookup(case, mc):
    _, depth, u, un = case
    if not u and not un:
        mc.trivial()
    extra = {}
    if 'builtins' in u:
        extra['ugettext'] = Tr('builtins').one
    if 'builtins' in un:
        extra['ungettext'] = Tr('builtins').many
    tu, tun = first(u, depth), first(un, depth)
    results = []
    with Builtins(**extra):
        for message in MESSAGES:
            for n in (1, 2):
                el = tree(depth, u, un)
                state = state_for(u, un)
                got = V(n=n).note_error(el, state, message)
                want = model(message, u'leaf', n, tu, tun)
                same(got, False, 'note_error')
                eq(list(el.errors), [want], 'message', message, n)
                eq(list(el.warnings), [], 'warnings')
                results.append(want)
    return results[0]


# -- sources of a value ---------------------------------------------------

SOURCES = ('info', 'item', 'attr', 'validator', 'elitem', 'elattr')


class KV(Validator):
    k = None
    msg = u'v=%(k)s'
    many = (u'one %(k)s', u'many %(k)s', 'k')


class Named(Dict):
    pass


def sources(case, mc):
    _, have, translated, kind = case
    if not have:
        mc.trivial()
    info = {'k': u'info'} if 'info' in have else {}
    validator = type(Validator)('KV', (Validator,), dict(
        {'msg': u'v=%(k)s'}, **({'k': u'validator'}
                                if 'validator' in have else {})))()
    fields = [String.named(u'other')]
    if 'elitem' in have:
        fields.append(String.named(u'k'))
    cls = Dict.named(u'd').of(*fields)
    if 'elattr' in have and kind != 'instance':
        cls = type(cls)('Sub', (cls,), {'k': u'elattr'})
    el = cls()
    if 'elattr' in have and kind == 'instance':
        el.k = u'elattr'
    if 'elitem' in have:
        el[u'k'] = u'elitem'
    if 'item' not in have and 'attr' not in have:
        state = {'none': None, 'empty': {}, 'list': [1, 2], 'text': u'text',
                 'instance': Attrs()}[kind]
    elif 'item' in have and 'attr' not in have:
        state = {'k': u'item'}
        if kind == 'list':
            state = collections.OrderedDict(state)
        elif kind == 'text':
            state = AttrsAndItems()
            state.items_['k'] = u'item'
    elif 'attr' in have and 'item' not in have:
        if kind == 'list':
            state = collections.namedtuple('T', 'a k')(1, u'attr')
        elif kind == 'text':
            state = type('S', (unicode,), {'k': u'attr'})(u'state')
        elif kind == 'empty':
            state = AttrsAndItems()
            state.k = u'attr'
        else:
            state = Attrs()
            state.k = u'attr'
    else:
        state = AttrsAndItems()
        state.items_['k'] = u'item'
        state.k = u'attr'
    tr = Tr('T')
    if translated:
        el.ugettext = tr.one
    hits = [s for s in SOURCES if s in have]
    try:
        got = validator.note_error(el, state, 'msg', **info)
    except KeyError:
        eq(hits, [], 'sources of a value that was not found')
        eq(list(el.errors), [], 'errors')
        return 'none'
    if not hits:
        raise Violation('a value was found: %r' % (el.errors,))
    same(got, False, 'note_error')
    want = hits[0]
    if translated and want == 'elitem':
        return 'element'              # the translator is given an element
    if translated:
        want = u'T<v=T<%s>>' % want
    else:
        want = u'v=%s' % want
    eq(list(el.errors), [want], 'message')
    return want


# -- values of any type ---------------------------------------------------

class Lazy(object):
    def __init__(self, text):
        self.text = text

    def __unicode__(self):
        return self.text

    def __str__(self):
        return self.text.encode('utf-8')


def filler(name):
    return {'text': u'w', 'bytes': 'w', 'empty': u'', 'int': 5, 'zero': 0,
            'long': 6L, 'float': 1.5, 'none': None, 'true': True,
            'false': False, 'list': [u'a', 2], 'dict': {u'a': 1},
            'lazy': Lazy(u'lz'), 'element': String.named(u'f')(u'val'),
            'number': Integer.named(u'f')(3),
            'container': List.of(Integer)([1, 2]),
            'class': String, 'date': datetime.date(2010, 1, 2)}[name]


FILLERS = ('text', 'bytes', 'empty', 'int', 'zero', 'long', 'float', 'none',
           'true', 'false', 'list', 'dict', 'lazy', 'element', 'number',
           'container', 'class', 'date')
FORMS = (u'<%(k)s>', u'%(k)s and %(other)s', u'%(k)s%(k)s', u'none')


def fillers(case, mc):
    """Every value filled in goes through the translator, whatever it is."""
    _, name, source, where, computed = case
    for form in FORMS:
        for counted in (False, True):
            for tun in (False, True):
                value = filler(name)
                calls, many = [], []

                def translate(thing):
                    calls.append(thing)
                    if thing == form:
                        return form
                    return u'T[%s]' % type(thing).__name__

                def plural(one, more, n):
                    many.append(n)
                    return one
                attrs, info, state = {'other': u'oth'}, {}, None
                cls = String.named(u'e')
                el = cls(u'x')
                if source == 'validator':
                    attrs['k'] = value
                elif source == 'info':
                    info['k'] = value
                elif source == 'item':
                    state = {'k': value}
                elif source == 'attr':
                    state = Attrs()
                    state.k = value
                elif source == 'elattr':
                    el.k = value
                message = (form, form, 'n') if counted else form
                if computed:
                    attrs['m'] = staticmethod(lambda e, s: message)
                else:
                    attrs['m'] = message
                v = type(Validator)('FV', (Validator,), attrs)()
                if where == 'element':
                    el.ugettext = translate
                    if tun:
                        el.ungettext = plural
                elif where == 'state':
                    if state is None:
                        state = Attrs()
                    if isinstance(state, dict):
                        state['ugettext'] = translate
                        if tun:
                            state['ungettext'] = plural
                    else:
                        state.ugettext = translate
                        if tun:
                            state.ungettext = plural
                elif tun:
                    el.ungettext = plural
                got = v.note_error(el, state, 'm', n=1, **info)
                same(got, False, 'note_error')
                shown = {'k': value, 'other': u'oth'}
                times = form.count(u'%(k)s')
                if where != 'nowhere':
                    kind = type(value).__name__
                    shown = {'k': u'T[%s]' % kind, 'other': u'T[unicode]'}
                    seen = [c for c in calls if c is value]
                    if source == 'item' or source == 'info':
                        # handed over as they are
                        eq(len(seen) if name not in ('text', 'empty') else
                           times, times, 'times the value was translated',
                           form, calls)
                eq(list(el.errors), [form % shown], 'message', form, counted)
                if counted and tun:
                    eq(len(many), 1, 'plural translations')
                mc.transition()
    return name


# -- counts ---------------------------------------------------------------

COUNTS = [0, 1, 2, -1, 11, 21, 1L, True, False, None, u'1', '1', u'2', u' 1 ',
          u'one', u'', 'xyz']


def as_count(n):
    try:
        return int(n)
    except (TypeError, ValueError):
        return n


def counts(case, mc):
    _, value, source, tu, tun = case
    n = as_count(value)
    validator = type(Validator)('PV', (Validator,), dict(
        {'m': (u'one thing', u'%(k)s things', 'k')},
        **({'k': value} if source == 'validator' else {})))()
    el = String.named(u'e')()
    state, info = None, {}
    if source == 'info':
        info['k'] = value
    elif source == 'item':
        state = {'k': value}
    elif source == 'attr':
        state = Attrs()
        state.k = value
    elif source == 'elattr':
        el.k = value
    elif source == 'override':
        validator.k = 99
        state = {'k': 77}
        info['k'] = value
    if source == 'callable':
        validator.m = lambda e, s: (u'one thing', u'%(k)s things', 'k')
        info['k'] = value
    if source == 'nowhere':
        # the key itself is taken for the count
        validator.m = (u'one thing', u'some things', 'k')
        n = 'k'
    one, many = Tr('U'), Tr('N')
    if tu:
        el.ugettext = one.one
        if source != 'nowhere' and isinstance(value, basestring) and \
                any(c.isalpha() for c in value):
            n = u'U<%s>' % value
        elif source != 'nowhere' and not isinstance(value, basestring):
            # translators turn everything into text
            n = as_count(unicode(value))
            if value in (True, False) and isinstance(value, bool) or \
                    value is None:
                return 'text'
        elif source != 'nowhere':
            n = as_count(unicode(value))
    if tun:
        el.ungettext = many.many
    same(validator.note_error(el, state, 'm', **info), False, 'note_error')
    if tun:
        eq(len(many.calls), 1, 'calls of the plural translator')
        single, plural, got = many.calls[0]
        eq((single, got), (u'one thing', n), 'arguments of the translator')
        true(type(got) is not str or isinstance(value, str) or
             source == 'nowhere', 'type of the count', got)
    shown = value
    if tu and isinstance(value, basestring) and any(c.isalpha()
                                                    for c in value):
        shown = u'U<%s>' % value
    single, plural = u'one thing', u'%s things' % (shown,)
    if source == 'nowhere':
        plural = u'some things'
    if tun:
        want = u'N{%s|%s|%r}' % (single, plural, n)
    else:
        want = single if n == 1 else plural
        if tu:
            want = u'U<%s>' % want
    eq(list(el.errors), [want], 'message')
    return want


# -- kinds of state -------------------------------------------------------

class Old:
    pass


class OldItems:
    def __getitem__(self, k):
        raise KeyError(k)


def item_raiser(exc):
    class Raiser(object):
        def __getitem__(self, k):
            raise exc('no %r' % (k,))
    return Raiser()


class MyDict(dict):
    pass


class Missing(dict):
    def __missing__(self, key):
        raise KeyError(key)


STATES = [
    ('none', lambda: None), ('dict', dict), ('filled', lambda: {'zz': 1}),
    ('list', list), ('numbers', lambda: [1, 2, 3]), ('tuple', tuple),
    ('pair', lambda: (1, 2)), ('text', lambda: u''),
    ('words', lambda: u'some text'), ('bytes', lambda: 'bytes'),
    ('zero', lambda: 0), ('int', lambda: 5), ('long', lambda: 5L),
    ('float', lambda: 1.5), ('true', lambda: True), ('false', lambda: False),
    ('object', object), ('instance', Attrs), ('old', Old),
    ('olditems', OldItems), ('class', lambda: Attrs),
    ('named', lambda: collections.namedtuple('T', 'a b')(1, 2)),
    ('keyerror', lambda: item_raiser(KeyError)),
    ('indexerror', lambda: item_raiser(IndexError)),
    ('typeerror', lambda: item_raiser(TypeError)),
    ('lookuperror', lambda: item_raiser(LookupError)),
    ('mydict', MyDict), ('missing', Missing),
    ('module', lambda: types), ('function', lambda: (lambda: 1)),
    ('generator', lambda: (x for x in ())), ('set', set),
    ('range', lambda: xrange(3)), ('buffer', lambda: bytearray('ab')),
]


class AllV(Validator):
    m0 = u'plain'
    m1 = u'%(label)s %(name)s'
    m2 = (u'%(howmany)s x', u'%(howmany)s xs', 'howmany')
    m3 = u'100%% of %(u)s'
    m4 = staticmethod(lambda el, st: u'c %(label)s')
    m5 = u'%(given)s %(label)r'
    m6 = 'bytes %(label)s'
    m7 = u'\u20ac %(label)s %(extra)s'
    m8 = (u'%(given)s one', u'%(given)s more', 'given')
    howmany = 2
    extra = u'\xe9'
    # what the state cannot take the place of
    zz0 = None


EXPECT = [u'plain', u'lab nam', u'2 xs', u'100% of val', u'c lab', u"7 u'lab'",
          u'bytes lab', u'\u20ac lab \xe9', u'7 more']


def kinds(case, mc):
    _, name, tr = case
    make = dict(STATES)[name]
    for i, want in enumerate(EXPECT):
        for how in ('error', 'warning', 'message'):
            el = String.named(u'nam').using(label=u'lab')(u'val')
            state = make()
            v = AllV()
            seen = []
            if i == 4:
                v.m4 = lambda e, s: seen.append((e, s)) or u'c %(label)s'
            key = 'm%d' % i
            if how == 'error':
                got = v.note_error(el, state, key, given=7)
            elif how == 'warning':
                got = v.note_warning(el, state, key, given=7)
            else:
                got = v.note_error(el, state, message=getattr(v, key),
                                   given=7)
            same(got, False, 'result of noting')
            eq(list(el.warnings if how == 'warning' else el.errors), [want],
               'message under state %r' % (state,), key)
            eq(list(el.errors if how == 'warning' else el.warnings), [],
               'the other list')
            if i == 4:
                eq(len(seen), 1, 'calls of a computed message')
                same(seen[0][0], el, 'element of a computed message')
                same(seen[0][1], state, 'state of a computed message')
            mc.transition()
    # in the course of validation
    cls = Dict.named(u'd').of(
        String.named(u'a').using(validators=[Present()]),
        String.named(u'b').using(validators=[NoLongerThan(2)]),
        List.named(u'c').of(String.named(u'x')).using(
            validators=[HasAtLeast(minimum=2)]))
    el = cls({u'b': u'long'})
    eq(el.validate(make()), False, 'validate under a state')
    eq(list(el[u'a'].errors), [u'a may not be blank.'], 'errors of a')
    eq(list(el[u'b'].errors), [u'b may not exceed 2 characters.'],
       'errors of b')
    eq(list(el[u'c'].errors), [u'c must contain at least 2 xs'],
       'errors of c')
    return 'kinds'


def misc(case, mc):
    el = String.named(u'e')(u'v')
    v = V()
    # a name found nowhere
    for msg in (u'%(nonesuch)s', (u'%(nonesuch)s', u'b', 'n')):
        try:
            v.note_error(el, {}, message=msg)
        except KeyError:
            continue
        raise Violation('a missing name was filled in: %r' % (el.errors,))
    eq(list(el.errors), [], 'errors')
    # names that are not ASCII
    v.note_error(el, {u'gr\xf6\xdfe': 3}, message=u'%(gr\xf6\xdfe)s')
    eq(el.errors[-1], u'3', 'message')
    # one translator for everything below it, and the message before values
    cls = Dict.named(u'top').of(
        List.named(u'l').of(Dict.named(u'm').of(
            String.named(u's').using(validators=[Present()]))),
        Array.named(u'arr').of(String.named(u't').using(
            validators=[Present()])).using(prune_empty=False))
    top = cls({u'l': [{}, {}], u'arr': [u'']})
    calls = []

    def translate(text):
        calls.append(text)
        return {u'%(label)s may not be blank.': u'leer: %(label)s',
                u's': u'Es', u't': u'Te', u'Es': u'twice'}.get(text, text)
    top.ugettext = translate
    eq(top.validate(), False, 'validate')
    for m in top[u'l']:
        eq(list(m[u's'].errors), [u'leer: Es'], 'translated')
    eq(list(top[u'arr'][0].errors), [u'leer: Te'], 'translated')
    # another element of the schema is not translated
    other = cls({u'l': [{}]})
    other.validate()
    eq(list(other[u'l'][0][u's'].errors), [u's may not be blank.'],
       'an element without a translator')
    # removed again
    del top.ugettext
    top.validate()
    eq(top[u'l'][0][u's'].errors[-1], u's may not be blank.', 'afterwards')
    # values are looked up once the message is translated
    e = String.named(u'q')()
    e.ugettext = lambda s: {u'%(label)s': u'%(name)s!%(u)s'}.get(s, s)
    V().note_error(e, None, message=u'%(label)s')
    eq(list(e.errors), [u'q!'], 'names only in the translation')
    return 'misc'


def cases(tier):
    big = tier == 'thorough'
    depth = 3
    all_places = places(depth)
    subsets = []
    for n in range(len(all_places) + 1):
        subsets += list(itertools.combinations(all_places, n))
    few = [(), ('state.attr',), ('state.item',), ('el0',), ('cls2',),
           ('builtins',)]
    for s in subsets:
        for other in (subsets if big and len(s) < 3 else few):
            if big and len(other) > 4:
                continue
            yield ('lookup', depth, s, other)
            yield ('lookup', depth, other, s)
    for d in (1, 2):
        for n in range(len(places(d)) + 1):
            for s in itertools.combinations(places(d), n):
                yield ('lookup', d, s, ())
                yield ('lookup', d, s, s)
    for n in range(len(SOURCES) + 1):
        for have in itertools.combinations(SOURCES, n):
            for translated in (False, True):
                for kind in ('none', 'empty', 'list', 'text', 'instance'):
                    yield ('sources', have, translated, kind)
    for value in COUNTS:
        for source in ('info', 'item', 'attr', 'validator', 'elattr',
                       'override', 'callable', 'nowhere'):
            for tu in (False, True):
                for tun in (False, True):
                    yield ('counts', value, source, tu, tun)
    for name in FILLERS:
        for source in ('info', 'item', 'attr', 'validator', 'elattr'):
            for where in ('element', 'state', 'nowhere'):
                for computed in (False, True):
                    yield ('fillers', name, source, where, computed)
    for name, _ in STATES:
        yield ('kinds', name, None)
    for d in (1, 2, 3):
        for place in places(d)[2:] + ['state']:
            yield ('off', d, place)
    yield ('misc',)


def check(case, mc):
    return {'lookup': lookup, 'sources': sources, 'counts': counts,
            'kinds': kinds, 'off': off, 'fillers': fillers,
            'misc': misc}[case[0]](case, mc)
