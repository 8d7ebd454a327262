# -*- coding: utf-8 -*-
"""C14: deriving a schema never changes the schema it came from."""
from flatland import (Array, Boolean, Constrained, Date, DateYYYYMMDD, Dict,
                      Enum, Float, Form, Integer, JoinedString, List,
                      MultiValue, Ref, SparseDict, String)
from lib import Violation, eq, raises, same, seqs, true

LEVEL = 'model_checking'
RULE = ('A case is a base type and all derivation steps of a chain but the '
        'last; every choice of the last step (derivation and which of the '
        'classes so far it starts from) is replayed and every class, element '
        'and derivative made so far is compared with its model. '
        'Non-trivial: all.')
BOUNDS = {
    'quick': '12 base types; all chains of <=2 of 21-31 derivations (from any '
             'class so far, including refused ones and caller-side changes '
             'of arguments), elements made along the way or not; chains of 3 '
             'over the 12 most basic derivations for text and dict schemas; '
             '14 base types x all pairs of attributes overridden when '
             'constructing an element: the element acts as one of a derived '
             'schema under 60-110 probes, and its schema as before',
    'thorough': 'chains of <=3 of all derivations for every base type',
}
ASSUMPTIONS = []


class Recorder(object):
    log = []

    def __init__(self, name):
        self.name = name

    def __call__(self, element, state):
        Recorder.log.append(self.name)
        return True

    def __repr__(self):
        return self.name


V = dict((k, Recorder(k)) for k in ('v1', 'v2', 'v3', 'v4', 'd1', 'd2'))


def factory(element):
    return u'made'


class VClass(object):
    def __call__(self, element, state):
        return True


class F(Form):
    x = String
    y = Integer


def fields_of(cls):
    return [f.name for f in cls.field_schema]


BASES = {
    'String': lambda: String,
    'Integer': lambda: Integer,
    'Enum': lambda: Enum,
    'Dict': lambda: Dict.of(String.named(u'x')),
    'SparseDict': lambda: SparseDict.of(String.named(u'x')),
    'Form': lambda: F,
    'List': lambda: List.of(String),
    'Array': lambda: Array.of(String),
    'MultiValue': lambda: MultiValue.of(String),
    'DateYYYYMMDD': lambda: DateYYYYMMDD,
    'JoinedString': lambda: JoinedString,
    'Ref': lambda: Ref.to(u'/x'),
}
CONTAINERS = ('Dict', 'SparseDict', 'Form', 'List', 'Array', 'MultiValue',
              'DateYYYYMMDD', 'JoinedString')
MAPPINGS = ('Dict', 'SparseDict', 'Form')
SEQUENCES = ('List', 'Array', 'MultiValue', 'JoinedString')
SETTABLE = {'String': u'x', 'Integer': 1, 'Enum': u'a', 'List': [u'x'],
            'Array': [u'x'], 'MultiValue': [u'x'], 'JoinedString': u'x,y',
            'DateYYYYMMDD': u'2010-01-02'}

BASIC = (
    ('named', u'n'), ('using', 'optional', True),
    ('using', 'default', u'd'), ('validated', ('v1',)),
    ('validated', ('v1', 'v2')), ('including', ('v3',), None),
    ('including', ('v3', 'v4'), 0), ('including', ('v3',), 1),
    ('props', 'p'), ('using list', ('v2', 'v1')), ('using props',),
    ('construct',),
)
MORE = (
    ('named', None), ('named', 'bytes'), ('named', 5), ('validated', ()),
    ('including', ('v4',), -2), ('including', ('v2', 'v3'), 99),
    ('using', 'optional', False), ('factory',), ('props', 'q'),
    ('using many',), ('refused', 'bogus'), ('refused', 'class validator'),
    ('refused', 'including'), ('refused', 'construct'), ('own attribute',),
)
CONT = (('descent', ('d1',)), ('descent more', ('d2',), None),
        ('descent more', ('d2',), 0), ('refused', 'class descent'),
        ('refused', 'descent more'))
EXTRA = {
    'Enum': (('valued', (u'a',)), ('valued', (u'a', u'b')), ('valued', ())),
    'DateYYYYMMDD': (),
    'JoinedString': (('using', 'separator', u';'), ('of', 0),
                     ('refused', 'of instance')),
    'Ref': (('to', u'/y'), ('to', u'z.k'), ('using', 'writable', True)),
    'String': (('using', 'strip', False),),
    'Integer': (('using', 'format', u'%03i'), ('using', 'signed', False)),
}
for k in MAPPINGS:
    EXTRA[k] = (('fields', (u'x', u'y')), ('fields', (u'z',)),
                ('using', 'policy', 'strict'),
                ('refused', 'of instance'), ('refused', 'of twins'))
for k in ('List', 'Array', 'MultiValue'):
    EXTRA[k] = (('of', 0), ('of', 1), ('using', 'prune_empty', False),
                ('refused', 'of instance'), ('refused', 'of nothing'))
MEMBERS = (Integer.named(u'm'), String.named(u'k').using(optional=True))


def alphabet(base):
    out = BASIC + MORE
    if base in CONTAINERS:
        out += CONT
    return out + EXTRA.get(base, ())


def steps(ops, n):
    """Choices for step n: any derivation from any of n+1 classes."""
    return [(t, op) for t in range(n + 1) for op in ops]


def chains(ops, length):
    def go(head, n):
        if n == length:
            yield head
            return
        for s in range((n + 1) * len(ops)):
            for c in go(head + (s,), n + 1):
                yield c
    return go((), 0)


def cases(tier):
    for base in sorted(BASES):
        for eager in (True, False):
            for n in range(3 if tier == 'thorough' else 2):
                for head in chains(alphabet(base), n):
                    yield ('all', base, eager, head)
    for base in ('String', 'Dict'):
        for head in chains(BASIC, 2):
            yield ('basic', base, True, head)
    for case in cases_overrides():
        yield case


class Model(object):
    """What a class is expected to look like."""

    def __init__(self, cls, base):
        self.a = {}
        for name in ('name', 'optional', 'default', 'strip', 'separator',
                     'format', 'signed', 'policy', 'prune_empty',
                     'valid_values', 'writable'):
            if hasattr(cls, name):
                self.a[name] = getattr(cls, name)
        self.validators = list(cls.validators)
        self.descent = list(getattr(cls, 'descent_validators', ()))
        self.props = dict(cls.properties.items())
        self.factory = None
        self.fields = fields_of(cls) if base in MAPPINGS else None
        self.member = getattr(cls, 'member_schema', None)
        self.target = getattr(cls, 'target_path', None)
        # (class, key) of a property inherited from classes above
        self.parent = None

    def child(self):
        m = Model.__new__(Model)
        m.a = dict(self.a)
        m.validators = list(self.validators)
        m.descent = list(self.descent)
        m.props = dict(self.props)
        m.factory, m.fields, m.member = self.factory, self.fields, self.member
        m.target = self.target
        return m


def splice(have, new, position):
    if position is None:
        return have + new
    if position < 0:
        position = len(have) + 1 + position
        if position < 0:
            return None
    return have[:position] + new + have[position:]


class World(object):
    def __init__(self, base, eager):
        self.base, self.eager = base, eager
        cls = BASES[base]()
        # a private copy, so that nothing carries over to the next chain
        cls = cls.named(u'base')
        if base == 'DateYYYYMMDD':
            cls = cls.using(field_schema=())
        self.classes = [(cls, Model(cls, base))]
        self.elements = []
        if eager:
            self.make(0)

    def make(self, i):
        cls, m = self.classes[i]
        self.elements.append((cls(), m.child(), None))

    def add(self, cls, model, source):
        true(cls is not source, 'a new class')
        true(issubclass(cls, source), 'derived from its source')
        eq(cls.__name__, source.__name__, 'class name')
        self.classes.append((cls, model))
        if self.eager:
            self.make(len(self.classes) - 1)


def val(names):
    return [V[n] for n in names]


def apply_step(w, target, op, hist):
    src, sm = w.classes[target]
    m = sm.child()
    kind = op[0]
    cls = None
    if kind == 'named':
        cls = src.named(op[1])
        m.a['name'] = op[1] if op[1] is None else unicode(op[1])
    elif kind == 'using':
        cls = src.using(**{op[1]: op[2]})
        m.a[op[1]] = op[2]
    elif kind == 'using many':
        cls = src.using(optional=True, default=u'many', name=u'many')
        m.a.update(optional=True, default=u'many', name=u'many')
    elif kind == 'using list':
        mine = val(op[1])
        cls = src.using(validators=mine)
        m.validators = list(mine)
        mine.append(V['v4'])            # the caller's list stays the caller's
    elif kind == 'using props':
        mine = {'own': 1}
        cls = src.using(properties=mine)
        m.props = dict(mine)
        mine['late'] = 2
    elif kind == 'factory':
        cls = src.using(default_factory=factory)
        m.factory = factory
    elif kind == 'validated':
        cls = src.validated_by(*val(op[1]))
        m.validators = val(op[1])
    elif kind == 'including':
        kw = {} if op[2] is None else {'position': op[2]}
        if op[2] is not None and splice(m.validators, [], op[2]) is None:
            return
        cls = src.including_validators(*val(op[1]), **kw)
        m.validators = splice(m.validators, val(op[1]), op[2])
    elif kind == 'descent':
        cls = src.descent_validated_by(*val(op[1]))
        m.descent = val(op[1])
    elif kind == 'descent more':
        kw = {} if op[2] is None else {'position': op[2]}
        cls = src.including_descent_validators(*val(op[1]), **kw)
        m.descent = splice(m.descent, val(op[1]), op[2])
    elif kind == 'props':
        cls = src.with_properties({op[1]: u'w%d' % len(w.classes)},
                                  z=target)
        m.props.update({op[1]: u'w%d' % len(w.classes), 'z': target})
    elif kind == 'fields':
        mine = [String.named(f) for f in op[1]]
        cls = src.of(*mine)
        m.fields = list(op[1])
    elif kind == 'of':
        cls = src.of(MEMBERS[op[1]])
        m.member = MEMBERS[op[1]]
    elif kind == 'valued':
        cls = src.valued(*op[1])
        m.a['valid_values'] = op[1]
    elif kind == 'to':
        cls = src.to(op[1])
        m.target = list(cls.target_path)
    elif kind == 'own attribute':
        # plain Python subclassing
        cls = type(src)(src.__name__, (src,), {'optional': True})
        m.a['optional'] = True
    elif kind == 'construct':
        mine = val(('v4',))
        kw = dict(optional=True, name=u'own', validators=mine,
                  default=u'own')
        el = src(**kw)
        mine.append(V['v1'])
        em = sm.child()
        em.a.update(optional=True, name=u'own', default=u'own')
        em.validators = val(('v4',))
        w.elements.append((el, em, None))
        return
    elif kind == 'refused':
        what = op[1]
        if what == 'bogus':
            fn = lambda: src.using(bogus=1)
        elif what == 'class validator':
            fn = lambda: src.validated_by(V['v1'], VClass)
        elif what == 'class descent':
            fn = lambda: src.descent_validated_by(VClass)
        elif what == 'including':
            fn = lambda: src.including_validators(V['v1'], bogus=1)
        elif what == 'descent more':
            fn = lambda: src.including_descent_validators(V['v1'], bogus=1)
        elif what == 'construct':
            fn = lambda: src(bogus=1)
        elif what == 'of instance':
            fn = lambda: src.of(String(name=u'i'))
        elif what == 'of twins':
            fn = lambda: src.of(String.named(u'i'), Integer.named(u'i'))
        elif what == 'of nothing':
            fn = lambda: src.of()
        raises(TypeError, fn, 'refusal', op, hist)
        return
    w.add(cls, m, src)


def look(thing, m, base, what, hist):
    """Attributes of a class or element against the model."""
    for name, want in m.a.items():
        got = getattr(thing, name)
        if isinstance(want, (tuple, list)):
            eq(list(got), list(want), what + ' ' + name, hist)
        else:
            eq(got, want, what + ' ' + name, hist)
    eq(list(thing.validators), m.validators, what + ' validators', hist)
    if base in CONTAINERS:
        eq(list(thing.descent_validators), m.descent,
           what + ' descent validators', hist)
    if m.fields is not None:
        eq(sorted(f.name for f in thing.field_schema), sorted(m.fields),
           what + ' fields', hist)
    if base in SEQUENCES:
        same(thing.member_schema, m.member, what + ' members', hist)
    if m.target is not None:
        eq(list(thing.target_path), list(m.target), what + ' target', hist)


def behave(el, m, base, what, hist):
    if m.factory:
        eq(el.default_value, u'made', what + ' default value', hist)
    else:
        eq(el.default_value, m.a['default'], what + ' default value', hist)
    if base == 'Dict' or base == 'Form':
        eq(sorted(el.keys()), sorted(m.fields), what + ' keys', hist)
    if base == 'DateYYYYMMDD':
        eq([c.optional for c in el.children], [m.a['optional']] * 3,
           what + ' optional parts', hist)
    if base == 'Ref':
        return
    del Recorder.log[:]
    ok = el.validate()
    want = []
    if el.is_empty and m.a['optional']:
        ok_want = True
    else:
        want = [v.name for v in m.descent] + [v.name for v in m.validators]
        ok_want = bool(m.validators) or not el.is_empty
    if base in CONTAINERS and base not in ('DateYYYYMMDD',) and not len(
            list(el.children)):
        eq(Recorder.log, want, what + ' validators run', hist)
    elif base not in CONTAINERS:
        eq(Recorder.log, want, what + ' validators run', hist)
        eq(ok, ok_want, what + ' valid', hist)


# -- overriding at construction

def failing(element, state):
    return element.value != u'w'


OVERRIDES = {
    'String': (('name', u'own'), ('optional', True), ('default', u' d '),
               ('default_factory', factory), ('validators', 'v1'),
               ('validators', failing), ('strip', False),
               ('properties', {'p': 1})),
    'Integer': (('name', u'own'), ('optional', True), ('default', u'7'),
                ('format', u'%03i'), ('signed', False),
                ('validators', 'v1')),
    'Float': (('format', u'%.2f'), ('signed', False), ('default', 1.5)),
    'Boolean': (('true', u'yes'), ('false', u'no'),
                ('true_synonyms', (u'si', u'w')),
                ('false_synonyms', (u'non', u''))),
    'Date': (('format', u'%(year)i/%(month)i'), ('strip', False),
             ('optional', True)),
    'Constrained': (('child_type', Integer),
                    ('valid_value', lambda el, v: v == 1),
                    ('optional', True)),
    'Enum': (('valid_values', (u'a',)), ('valid_values', (u'w', u'a')),
             ('valid_values', ()), ('child_type', Integer),
             ('optional', True), ('default', u'w')),
    'Dict': (('name', u'own'), ('policy', 'strict'), ('policy', 'duck'),
             ('field_schema', 'xz'), ('field_schema', 'w'),
             ('default', {u'x': u'dx'}), ('validators', 'v1'),
             ('descent_validators', 'd1'), ('optional', True)),
    'SparseDict': (('name', u'own'), ('policy', 'strict'),
                   ('policy', 'duck'), ('field_schema', 'xz'),
                   ('field_schema', 'w'), ('minimum_fields', 'required'),
                   ('default', {u'x': u'dx'}), ('validators', 'v1'),
                   ('descent_validators', 'd1')),
    'List': (('name', u'own'), ('member_schema', Integer),
             ('prune_empty', False), ('maximum_set_flat_members', 1),
             ('default', 2), ('default', (u'x', u'1')),
             ('validators', 'v1'), ('descent_validators', 'd1'),
             ('optional', True)),
    'Array': (('name', u'own'), ('member_schema', Integer),
              ('prune_empty', False), ('default', (u'x', u'1')),
              ('validators', 'v1'), ('descent_validators', 'd1')),
    'MultiValue': (('name', u'own'), ('member_schema', Integer),
                   ('prune_empty', False), ('default', (u'x', u'1')),
                   ('validators', 'v1')),
    'JoinedString': (('name', u'own'), ('member_schema', Integer),
                     ('separator', u';'), ('prune_empty', False),
                     ('separator', u' '), ('default', u'x,1'),
                     ('validators', 'v1')),
}
ADJUST = {
    'Float': lambda: Float,
    'Boolean': lambda: Boolean,
    'Date': lambda: Date,
    'Constrained': lambda: Constrained,
    'Enum': lambda: Enum.valued(u'x', u'1'),
}
INPUTS = (None, u'', u'x', u' w ', u'1', u'-2', u'a', 1, u'x, 1;', [],
          [u'x', u'', u'1'], [1], {}, {u'x': u'k'}, {u'x': u'k', u'z': u'1'},
          {u'w': u'q'}, u'2009-10-11')
FLATS = tuple(tuple((root + rest, v) for rest, v in pairs)
              for root in (u'n', u'own', u'')
              for pairs in (
                  ((u'', u' w'),), ((u'_x', u'k'), (u'_w', u'l')),
                  ((u'_0', u'5'), (u'_2', u''), (u'_7', u'y')),
                  ((u'', u'1'), (u'', u'')),
                  ((u'_0_n', u'1'), (u'_1_n', u'2'))))


def given(base, name, value):
    if name in ('validators', 'descent_validators') and \
            isinstance(value, str):
        return val((value,))
    if name == 'validators':
        return [value]
    if name == 'field_schema':
        return tuple(String.named(unicode(k)) for k in value)
    if name == 'properties':
        return dict(value)
    return value


def signature(el, base):
    out = [repr(el.value), el.name, el.is_empty, repr(el.default_value),
           el.optional, el.u, el.flatten()]
    out.append([(type(c).__mro__[-3].__name__, c.name, c.u, c.fq_name())
                for c in (el.children if base in CONTAINERS else ())])
    out.append((el.valid, list(el.errors), list(el.warnings)))
    out.append(sorted(el.properties.items()))
    if base in MAPPINGS:
        out.append(sorted(el.keys()))
        out.append([bool(el.may_contain(k)) for k in u'xzw']
                   if hasattr(el, 'may_contain') else None)
    return out


def attempt(fn, *args, **kw):
    try:
        return ('gave', repr(fn(*args, **kw)))
    except (TypeError, KeyError, ValueError, AttributeError, LookupError), e:
        return ('raised', type(e).__name__)


def probes(base):
    out = [('nothing', lambda el: None)]
    for v in INPUTS:
        out.append(('set', lambda el, v=v: el.set(v)))
        if base in SEQUENCES:
            out.append(('append', lambda el, v=v: el.append(v)))
            out.append(('extend', lambda el, v=v: el.extend([v, v])))
            out.append(('insert', lambda el, v=v: el.insert(0, v)))
        if base in MAPPINGS:
            for k in u'xzw':
                out.append(('setitem', lambda el, k=k, v=v:
                            el.__setitem__(k, v)))
            out.append(('update', lambda el, v=v: el.update(v)))
    for pairs in FLATS:
        out.append(('set_flat', lambda el, p=pairs: el.set_flat(p)))
    out.append(('set_default', lambda el: el.set_default()))
    if base in MAPPINGS:
        for k in u'xzw':
            out.append(('setdefault', lambda el, k=k: el.setdefault(k, u'j')))
            out.append(('del', lambda el, k=k: el.__delitem__(k)))
            out.append(('pop', lambda el, k=k: el.pop(k)))
        out.append(('clear', lambda el: el.clear()))
        out.append(('by object', lambda el: el.set_by_object(Thing())))
        out.append(('slice', lambda el: sorted(el.slice([u'x', u'w']))))
    return out


class Thing(object):
    x = u'ox'
    z = u'oz'
    w = u'ow'


def cases_overrides():
    for base in sorted(OVERRIDES):
        n = len(OVERRIDES[base])
        for i in range(n):
            yield ('override', base, (i,))
            for j in range(n):
                if OVERRIDES[base][i][0] != OVERRIDES[base][j][0]:
                    yield ('override', base, (i, j))


def check_override(case, mc):
    """Construction overrides act like deriving, on that element alone."""
    _, base, picks = case
    cls = (ADJUST.get(base) or BASES[base])().named(u'n')
    if base in ('List', 'Array', 'MultiValue'):
        cls = cls.of(String.named(u'n'))
    kws = [OVERRIDES[base][i] for i in picks]

    def kw(items):
        return dict((k, given(base, k, v)) for k, v in items)

    def derived():
        return cls.using(**kw(kws))()

    def constructed():
        return cls(**kw(kws))

    def mixed():
        return cls.using(**kw(kws[:1]))(**kw(kws[1:]))

    makers = [('construct', constructed)]
    if len(kws) > 1:
        makers.append(('using and construct', mixed))

    def outcome(make, act):
        del Recorder.log[:]
        el = make()
        first = attempt(act, el)
        out = [first, signature(el, base)]
        out.append(attempt(el.validate))
        out.append(repr(Recorder.log))
        out.append(signature(el, base))
        return out

    n = 0
    acts = probes(base)
    plain = [outcome(cls, act) for label, act in acts]
    for i, (label, act) in enumerate(acts):
        want = outcome(derived, act)
        for how, make in makers:
            got = outcome(make, act)
            eq(got, want, 'effect of overriding by %s' % how, case, label,
               kws)
            mc.transition()
        n += 1
        mc.state((base, repr(want)))
        eq(outcome(cls, act), plain[i], 'the schema itself', case, label)
    mc.trace()
    return n


def check(case, mc):
    if case[0] == 'override':
        return check_override(case, mc)
    space, base, eager, head = case
    ops = BASIC if space == 'basic' else alphabet(base)
    per = [steps(ops, i) for i in range(len(head) + 1)]
    n = 0
    for last in range(len(per[-1])):
        chain = [per[i][s] for i, s in enumerate(head + (last,))]
        w = World(base, eager)
        ok = True
        for target, op in chain:
            if target >= len(w.classes):
                ok = False      # a refused step made no class
                break
            apply_step(w, target, op, chain)
            mc.transition()
        if not ok:
            continue
        for i, (cls, m) in enumerate(w.classes):
            look(cls, m, base, 'class %d' % i, chain)
            eq(dict(cls.properties.items()), m.props,
               'properties of class %d' % i, chain)
            el = cls()
            look(el, m, base, 'element of %d' % i, chain)
            eq(el.properties, m.props, 'properties of element', chain)
            behave(el, m, base, 'element of %d' % i, chain)
            if base in SETTABLE and base not in ('Enum', 'Integer') and \
                    m.member in (None, String):
                true(el.set(SETTABLE[base]), 'settable', chain)
            elif base == 'Enum':
                eq(el.set(u'a'), u'a' in m.a['valid_values'], 'enum', chain)
        for i, (el, m, extra) in enumerate(w.elements):
            look(el, m, base, 'earlier element %d' % i, chain)
            eq(el.properties, m.props, 'properties of earlier element', chain)
            behave(el, m, base, 'earlier element %d' % i, chain)
        mc.state((base, eager, [repr((sorted(m.a.items()), m.validators,
                                      m.descent, m.props, m.fields))
                                for c, m in w.classes]))
        mc.trace()
        n += 1
    return n
