# -*- coding: utf-8 -*-
"""C28: elements of one schema share no state."""
import copy
import datetime
import itertools

from flatland import (Array, Boolean, Compound, Constrained, DateYYYYMMDD,
                      Dict, Element, Enum, Form, Integer, JoinedString, List,
                      MultiValue, Ref, SparseDict, String)
from flatland.validation import (HasAtLeast, LongerThan, NotDuplicated,
                                 Present, Validator,
                                 ValueIn)
from flatland.schema.properties import Properties
from lib import Violation, eq, true

LEVEL = 'exploration'
RULE = ('A case is a schema, how its first elements come to be, and the '
        'first operation of a history; all histories with that start are '
        'run on one element of a freshly built schema. The other elements, '
        'the schema (every public attribute, recursively, with validators) '
        'and derived schemas must stay as they were, a new element must be '
        'indistinguishable from the first element of an untouched copy of '
        'the schema under a fixed sequence of observations, and no two '
        'elements may share a mutable part. Non-trivial: the history '
        'changed the element it was run on.')
BOUNDS = {
    'quick': '21 schemas x 3 orders of creation x all histories of up to 2 '
             'operations, the first out of about 50 (setting, defaults, '
             'validation, messages, attributes, properties, children, '
             'constructor arguments, derived schemas; on the element and on '
             'its first and last descendant), the second from the 14 that '
             'touch attributes, properties and schemas; every schema and '
             'those within it first used with each one and two of 21 '
             'constructor options',
    'thorough': 'the same with all operations second and the 14 third',
}
ASSUMPTIONS = [
    'objects the user hands to several elements (but for the lists of '
    'validators, which are copied), mutable property values and the '
    'validators of a schema are not mutated in place']


# -------------------------------------------------------------- schemas
def grow(element, state):
    """A validator that writes to the element."""
    if element.value is None:
        element.value = u'grown'
    return True


def refuse(element, state):
    element.add_error(u'no')
    return False


def even(element, value):
    return value is not None and value % 2 == 0


def made(element):
    return u'made'


class Pair(Compound):
    """A compound prepared on first use."""
    suffix = u'x'

    def __compound_init__(cls):
        cls.field_schema = [String.named(u'k' + cls.suffix),
                            Integer.named(u'v').using(optional=cls.optional)]

    def compose(self):
        k, v = [self[f.name] for f in self.field_schema]
        if v.value is None:
            return u'', None
        return u'%s=%s' % (k.u, v.u), (k.value, v.value)

    def explode(self, value):
        k, v = [self[f.name] for f in self.field_schema]
        if value is None:
            value = (None, None)
        if isinstance(value, basestring):
            value = value.split(u'=')
        k.set(value[0])
        v.set(value[1])


def text(name=u's'):
    return String.named(name).using(
        default=u'd', optional=True).with_properties(
            p=1, q=2).validated_by(Present(), grow)


def s_string():
    return text()


def s_factory():
    return String.named(u's').using(default_factory=made).validated_by(refuse)


def s_integer():
    return Integer.named(u'i').using(default=3, properties={'p': 1})


def s_boolean():
    return Boolean.named(u'b').using(default=True)


def s_enum():
    return Enum.named(u'e').valued(u'a', u'b').using(default=u'b')


def s_constrained():
    return Constrained.named(u'c').using(child_type=Integer, valid_value=even,
                                         default=2)


def s_list():
    return List.named(u'l').of(text()).using(
        default=[u'a', u'b']).validated_by(HasAtLeast(minimum=1))


def s_list_n():
    return List.named(u'l').of(text()).using(
        default=2, prune_empty=False).with_properties(p=5)


def s_list_dict():
    return List.named(u'l').of(
        text(u'a').validated_by(NotDuplicated()), s_integer()).using(
            default=[{u'a': u'1'}, {u'i': 2}])


def s_array():
    return Array.named(u'ar').of(text()).using(default=[u'a'])


def s_multi():
    return MultiValue.named(u'mv').of(Integer).using(
        default=[1, 2]).with_properties(p=0)


def s_joined():
    return JoinedString.named(u'j').using(default=[u'a', u'b'])


def s_dict():
    return Dict.named(u'd').of(text(u'a'), s_integer()).using(
        default={u'a': u'z', u'i': 1}).validated_by(
            LongerThan(0)).descent_validated_by(grow)


def s_dict_fields():
    return Dict.named(u'd').of(
        text(u'a'), s_list(), s_multi()).with_properties(p=3)


def s_sparse():
    return SparseDict.named(u'sp').of(
        text(u'a').using(optional=False), s_integer()).using(
            minimum_fields='required')


def s_form():
    class F(Form):
        name = u'f'
        a = text(u'a')
        ls = s_list()
        properties = Properties({'p': 1})
    return F


def s_form2():
    class Base(Form):
        a = text(u'a')

    class Derived(Base):
        b = Integer.using(default=1)
        d = DateYYYYMMDD.using(optional=True)
    return Derived.named(u'f')


def s_date():
    return DateYYYYMMDD.named(u'd').using(
        default=datetime.date(2000, 1, 2), optional=True)


def s_date_fields():
    return DateYYYYMMDD.named(u'd').using(
        field_schema=[Integer.named(u'y')], optional=True)


def s_pair():
    return Pair.named(u'pr').using(default=(u'k', 1)).with_properties(p=1)


def s_pair_list():
    return List.named(u'l').of(Pair.named(u'pr')).using(
        default=[(u'k', 1), (u'l', 2)])


def s_twice():
    child = DateYYYYMMDD.named(u'd').with_properties(p=1)
    inner = Dict.named(u'in').of(child, Pair.named(u'pr'))
    return Dict.named(u'out').of(child, inner, List.named(u'l').of(inner))


def s_ref():
    return Dict.named(u'd').of(text(u'a'), Ref.named(u'r').to(u'a'),
                               s_integer())


BUILD = dict((k[2:], v) for k, v in globals().items() if k.startswith('s_'))

# data and texts for the probes: (set, other set, bad, flat)
DATA = {
    'string': (u'x', None, object(), [(u's', u'f')]),
    'factory': (u'x', None, object(), [(u's', u'f')]),
    'integer': (5, None, u'x', [(u'i', u'7')]),
    'boolean': (False, True, u'x', [(u'b', u'on')]),
    'enum': (u'a', None, u'z', [(u'e', u'b')]),
    'constrained': (4, None, 3, [(u'c', u'6')]),
    'list': ([u'x', u''], [], 1, [(u'l_0_s', u'f'), (u'l_2_s', u'g')]),
    'list_n': ([u'x', u''], [], 1, [(u'l_0_s', u'f'), (u'l_2_s', u'g')]),
    'list_dict': ([{u'a': u'x'}], [], 1, [(u'l_0_a', u'f'), (u'l_1_i', u'1')]),
    'array': ([u'x', u''], [], 1, [(u'ar_s', u'f'), (u'ar_s', u'g')]),
    'multi': ([4, 5], [], 1, [(u'mv', u'1'), (u'mv', u'2')]),
    'joined': (u'x,y', [], [None], [(u'j', u'f,g')]),
    'dict': ({u'a': u'x', u'i': 4}, {u'a': u'', u'i': None},
             {u'a': u'', u'i': u'z'}, [(u'd_a', u'f'), (u'd_i', u'1')]),
    'dict_fields': ({u'a': u'x', u'l': [u'a'], u'mv': [1]},
                    {u'a': None, u'l': [], u'mv': []},
                    {u'a': u'', u'l': 1, u'mv': [u'x']},
                    [(u'd_a', u'f'), (u'd_l_0_s', u'1')]),
    'sparse': ({u'a': u'x', u'i': 4}, {u'a': u''}, {u'a': u'', u'i': u'z'},
               [(u'sp_a', u'f'), (u'sp_i', u'1')]),
    'form': ({u'a': u'x', u'ls': [u'a']}, {u'a': None, u'ls': []},
             {u'a': u'', u'ls': 1}, [(u'f_a', u'f'), (u'f_ls_0_s', u'1')]),
    'form2': ({u'a': u'x', u'b': 2, u'd': datetime.date(2001, 2, 3)},
              {u'a': None, u'b': None, u'd': None},
              {u'a': u'', u'b': u'x', u'd': u'y'},
              [(u'f_a', u'f'), (u'f_d_year', u'2004')]),
    'date': (datetime.date(2001, 2, 3), None, u'x',
             [(u'd_year', u'2004'), (u'd_month', u'2')]),
    'date_fields': (datetime.date(2001, 2, 3), None, u'x',
                    [(u'd_y', u'2004'), (u'd_month', u'2')]),
    'pair': ((u'x', 2), None, u'x', [(u'pr_kx', u'f'), (u'pr_v', u'3')]),
    'pair_list': ([(u'x', 2)], [], 1,
                  [(u'l_0_pr_kx', u'f'), (u'l_1_pr_v', u'3')]),
    'twice': ({u'd': datetime.date(2001, 2, 3),
               u'in': {u'd': None, u'pr': (u'x', 1)},
               u'l': [{u'd': datetime.date(2001, 2, 3), u'pr': None}]},
              {u'd': None, u'in': {u'd': None, u'pr': None}, u'l': []},
              {u'd': u'x', u'in': {u'd': u'y', u'pr': u'z'}, u'l': 1},
              [(u'out_d_year', u'2004'), (u'out_in_pr_v', u'3'),
               (u'out_l_0_in_pr_v', u'4')]),
    'ref': ({u'a': u'x', u'i': 1}, {u'a': None, u'i': None},
            {u'a': u'', u'i': u'z'}, [(u'd_a', u'f'), (u'd_i', u'1')]),
}
# the members of forms are named by their attribute
for k in DATA:
    if k not in BUILD:
        raise AssertionError(k)


# ------------------------------------------------------------ snapshots
_SKIP = set(['parents', 'path', 'children', 'all_children', 'root', 'parent',
             'im_class'])


def norm(x, seen=()):
    if isinstance(x, type) and issubclass(x, Element):
        return schema_state(x, seen)
    if x is None or isinstance(x, (basestring, int, long, float, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [norm(v, seen) for v in x]
    if isinstance(x, dict):
        return sorted((repr(k), norm(v, seen)) for k, v in x.items())
    if isinstance(x, Validator):
        return (type(x).__name__, norm(vars(x), seen),
                norm(dict((k, v) for k, v in vars(type(x)).items()
                          if not k.startswith('_') and not callable(v)),
                     seen))
    if hasattr(x, 'im_func'):
        return ('method', id(x.im_func))
    if type(x).__name__ in ('_TypeLookup', '_InstanceLookup'):
        return ('properties', norm(dict(x.items()), seen))
    if isinstance(x, datetime.date):
        return repr(x)
    if isinstance(x, property):
        return 'property'
    return ('object', type(x).__name__, id(x))


def schema_state(cls, seen=()):
    if seen == ():
        seen = {}
    if cls in seen:
        return ('seen', seen[cls])
    seen[cls] = len(seen)
    out = []
    for name in dir(cls):
        if name.startswith('_') or name in _SKIP:
            continue
        try:
            value = getattr(cls, name)
        except AttributeError:
            continue
        if name == 'properties' and isinstance(value, dict):
            value = dict(value)
        state = norm(value, seen)
        if isinstance(state, tuple) and state[0] in ('object', 'method'):
            if callable(value) and not isinstance(value, type):
                state = 'callable'
        out.append((name, state))
    return (cls.__name__, out)


ATTRS = ('name', 'label', 'optional', 'default', 'default_factory',
         'default_value', 'validators', 'descent_validators', 'properties',
         'valid', 'errors', 'warnings', 'is_empty', 'ugettext', 'ungettext',
         'prune_empty', 'minimum_fields', 'policy', 'flattenable',
         'children_flattenable', 'valid_values', 'separator')


def one(el):
    out = [type(el).__name__, norm(el.value), el.u, norm(el.raw)
           if not hasattr(el.raw, 'next') else 'iterator', bool(el)]
    for name in ATTRS:
        try:
            value = getattr(el, name)
        except AttributeError:
            out.append('-')
            continue
        if name == 'properties':
            value = sorted((k, v) for k, v in value.items())
        elif callable(value):
            value = getattr(value, '__name__', 'callable')
        out.append(norm(value))
    if isinstance(el, (list, dict)):
        out.append(len(el))
    return out


def state_of(el):
    out = [one(el), norm(el.flatten())]
    for c in el.all_children:
        out.append((c.root is el.root, one(c), c.fq_name()))
    return out


def parts(el):
    """ids of everything mutable in the tree."""
    out = {}
    for c in [el] + list(el.all_children):
        out[id(c)] = c
        for name in ('errors', 'warnings'):
            x = getattr(c, name)
            out[id(x)] = (name, c)
        x = c.__dict__.get('properties')
        if x is not None:
            out[id(x)] = ('properties', c)
    return out


def observe(el, kind):
    """A fixed sequence of operations; everything seen on the way."""
    a, b, bad, flat = DATA[kind]
    seen = [state_of(el)]
    el.set_default()
    seen.append(state_of(el))
    seen.append(el.set_flat(flat))
    seen.append(state_of(el))
    seen.append(el.set(a))
    seen.append(state_of(el))
    seen.append(el.validate())
    seen.append(state_of(el))
    seen.append(el.set(b))
    seen.append(el.validate())
    seen.append(state_of(el))
    seen.append(norm(el.flatten()))
    el.properties['probe'] = 1
    seen.append(sorted(el.properties.items()))
    return seen


# ----------------------------------------------------------- operations
def leafs(el):
    return list(el.all_children) or [el]


def targets(el):
    out = [('self', el)]
    kids = list(el.all_children)
    if kids:
        out.append(('first', kids[0]))
        out.append(('last', kids[-1]))
    return out


def guard(fn):
    try:
        fn()
    except (TypeError, KeyError, AttributeError, ValueError, IndexError):
        # operations some kinds of element refuse
        pass


def op_set(el, kind, cls):
    el.set(DATA[kind][0])


def op_set_other(el, kind, cls):
    el.set(DATA[kind][1])


def op_set_bad(el, kind, cls):
    guard(lambda: el.set(DATA[kind][2]))


def op_default(el, kind, cls):
    el.set_default()


def op_flat(el, kind, cls):
    el.set_flat(DATA[kind][3])


def op_flat_nothing(el, kind, cls):
    el.set_flat([])


def op_validate(el, kind, cls):
    el.validate()


def op_messages(el, kind, cls):
    for _, t in targets(el):
        t.add_error(u'E')
        t.add_warning(u'W')
        t.errors.append(u'E2')


def op_valid(el, kind, cls):
    el.all_valid = False


def op_valid_last(el, kind, cls):
    leafs(el)[-1].valid = True


def _attr(name, value, kids=True):
    def op(el, kind, cls):
        for _, t in targets(el):
            if hasattr(t, name):
                guard(lambda: setattr(t, name, copy.copy(value)))
    op.__name__ = 'op_attr_' + name
    return op


op_label = _attr('label', u'LL')
op_name = lambda el, kind, cls: setattr(el, 'name', u'zz')
op_optional = _attr('optional', False)
op_attr_default = _attr('default', u'other')
op_attr_factory = _attr('default_factory', made)
op_validators = _attr('validators', [refuse])
op_descent = _attr('descent_validators', [refuse])
op_gettext = _attr('ugettext', lambda text: u'T')
op_prune = _attr('prune_empty', False)
op_policy = _attr('policy', None)
op_minimum = _attr('minimum_fields', None)
op_values = _attr('valid_values', [u'q'])
op_valid_value = _attr('valid_value', lambda el, v: False)
op_child_type = _attr('child_type', String)
op_separator = _attr('separator', u';')
op_member = _attr('member_schema', Integer)
op_format = _attr('format', u'<%s>')
op_true = _attr('true', u'yes')
op_errors = _attr('errors', [u'mine'])


def _prop(fn, name):
    def op(el, kind, cls):
        for _, t in targets(el):
            guard(lambda: fn(t.properties))
    op.__name__ = name
    return op


op_prop_set = _prop(lambda p: p.__setitem__('p', 9), 'prop_set')
op_prop_new = _prop(lambda p: p.__setitem__('n', 9), 'prop_new')
op_prop_del = _prop(lambda p: p.__delitem__('p'), 'prop_del')
op_prop_clear = _prop(lambda p: p.clear(), 'prop_clear')
op_prop_update = _prop(lambda p: p.update({'q': 8}, z=1), 'prop_update')
op_prop_pop = _prop(lambda p: p.pop('q'), 'prop_pop')
op_prop_default = _prop(lambda p: p.setdefault('n', 4), 'prop_setdefault')
op_prop_assign = _attr('properties', {'own': 1})


def op_children(el, kind, cls):
    """Change descendants."""
    for c in list(el.all_children):
        if not isinstance(c, (list, dict)):
            c.set(None)


def op_child_text(el, kind, cls):
    for c in list(el.all_children):
        if not isinstance(c, (list, dict)) and not isinstance(c, Ref):
            c.u = u'W'
            c.value = u'W'


def op_mutate(el, kind, cls):
    for c in [el] + list(el.all_children):
        if isinstance(c, list):
            guard(lambda: c.append(None))
        elif isinstance(c, SparseDict):
            c.clear()


def op_mutate2(el, kind, cls):
    for c in [el] + list(el.all_children):
        if isinstance(c, list):
            guard(lambda: c.insert(0, None))
            guard(lambda: c.reverse())
            del c[1:]


def op_replace(el, kind, cls):
    """Replace a child by a fresh element."""
    if isinstance(el, list) and len(el):
        guard(lambda: el.__setitem__(0, el.member_schema()))
    elif isinstance(el, dict):
        for k in list(el):
            guard(lambda: el.__setitem__(k, el[k].__class__()))


def op_export(el, kind, cls):
    """Wreck what the element exports and was given."""
    v = el.value
    if isinstance(v, list):
        v[:] = [u'zz']
    elif isinstance(v, dict):
        v.clear()
    if isinstance(el.default, list) or isinstance(el.default, dict):
        d = el.default_value
        el.set_default()
        for c in list(el.all_children):
            if not isinstance(c, (list, dict)):
                c.set(u'7')
        if isinstance(el, list):
            el.append(None)


def op_new_kw(el, kind, cls):
    """Another element with constructor arguments."""
    x = cls(optional=False, label=u'KW', validators=[refuse])
    x.validate()
    x.properties['p'] = 77
    x.set_default()


def op_new_props(el, kind, cls):
    x = cls(properties={'mine': 1})
    x.properties['p'] = 78
    x.set(DATA[kind][0])


def op_new_default(el, kind, cls):
    x = cls(default=None, name=u'q')
    x.set_default()
    x.set(DATA[kind][0])
    x.validate()


def op_derive_using(el, kind, cls):
    d = cls.using(label=u'DD', optional=False, default=None)
    d.properties['p'] = 55
    x = d()
    x.set_default()
    x.validate()


def op_derive_props(el, kind, cls):
    d = cls.with_properties(p=66, fresh=1)
    d.properties.pop('q', None)
    x = d()
    x.properties['p'] = 67


def op_derive_validators(el, kind, cls):
    d = cls.including_validators(refuse, position=0)
    d().validate()
    d = cls.validated_by(refuse)
    d.validators.append(grow)
    if hasattr(cls, 'descent_validators'):
        d = cls.including_descent_validators(refuse)
        d.descent_validators.append(grow)
        d().validate()


def op_derive_named(el, kind, cls):
    d = cls.named(u'zz')
    x = d()
    x.set(DATA[kind][0])


def op_derive_of(el, kind, cls):
    if hasattr(cls, 'field_schema'):
        guard(lambda: cls.of(String.named(u'new'))())
    elif hasattr(cls, 'member_schema'):
        d = cls.of(Integer.named(u'new'))
        d()
    elif hasattr(cls, 'valued'):
        cls.valued(u'new')()


def op_subclass(el, kind, cls):
    d = type(cls)('Sub', (cls,), {'optional': False})
    d.properties['p'] = 44
    d.properties['sub'] = 1
    x = d()
    x.set_default()
    x.properties.clear()


OPS = sorted(k[3:] for k in globals() if k.startswith('op_'))
OPF = dict((k, globals()['op_' + k]) for k in OPS)
SHARP = ['label', 'optional', 'validators', 'prop_set', 'prop_del',
         'prop_clear', 'prop_assign', 'derive_using', 'derive_props',
         'derive_validators', 'new_kw', 'new_props', 'subclass', 'export']
for k in SHARP:
    if k not in OPF:
        raise AssertionError(k)

# schemas that are completed by their first element
PREPARED = ('date', 'date_fields', 'pair', 'pair_list', 'form2', 'twice')
ORDERS = ('other first', 'this first', 'alone')

_control = {}


def controls():
    """What elements of untouched schemas look like (before anything)."""
    if not _control:
        for kind in sorted(BUILD):
            _control[kind] = observe(BUILD[kind](), kind) \
                if 0 else observe(BUILD[kind]()(), kind)
    return _control


def differ(got, want, path=''):
    if got == want:
        return None
    if type(got) is type(want) and isinstance(got, (list, tuple)) and \
            len(got) == len(want):
        for i, (g, w) in enumerate(zip(got, want)):
            d = differ(g, w, '%s/%d' % (path, i))
            if d:
                return d
    return '%s: %r, was %r' % (path, got, want)


def must_equal(got, want, what):
    d = differ(got, want)
    if d:
        raise Violation('%s: %s' % (what, d[:600]))


def run(kind, order, hist, mc):
    control = controls()[kind]
    cls = BUILD[kind]()
    a, b, bad, flat = DATA[kind]
    elements = []
    if order == 'other first':
        elements.append(cls())
        filled = cls()
        filled.set(a)
        elements.append(filled)
    el = cls()
    if order == 'this first':
        elements.append(cls())
    derived = cls.named(cls.name)
    derived_el = derived()
    derived_el.set(a)
    elements.append(derived_el)
    before = [state_of(e) for e in elements]
    schema = schema_state(cls)
    was = state_of(el)
    for op in hist:
        try:
            OPF[op](el, kind, cls)
        except Exception:
            # refused by this kind of element, or by what went before
            mc.count('operations that raised')
        mc.transition()
    if len(hist) == 1 and state_of(el) == was:
        mc.trivial()
    what = '%s, %s, %r' % (kind, order, hist)
    for e, s in zip(elements, before):
        must_equal(state_of(e), s, 'another element changed (%s)' % what)
    must_equal(schema_state(cls), schema, 'the schema changed (%s)' % what)
    mine = parts(el)
    fresh = cls()
    elements.append(fresh)
    for e in elements:
        theirs = parts(e)
        for i in theirs:
            if i in mine:
                raise Violation('shared: %r (%s)' % (mine[i], what))
        for i in theirs:
            mine[i] = theirs[i]
    must_equal(observe(fresh, kind), control,
               'a new element differs (%s)' % what)
    if order == 'other first' and len(hist) < 2:
        must_equal(observe(elements[0], kind), control,
                   'the other element behaves differently (%s)' % what)
    # the reverse direction: that observing the others left this one alone
    after = state_of(el)
    must_equal(state_of(el), after, 'unstable')
    mc.state((kind, repr(after)))
    mc.trace()
    return hash(repr(after))


# ------------------------------------------- first made with an option
OPTIONS = dict(
    name=u'zz', label=u'LL', optional=True, default=u'4',
    default_factory=made, validators=(refuse,),
    descent_validators=(refuse,), properties={'own': 1}, ugettext=made,
    prune_empty=False, format=u'<%s>', separator=u';', flattenable=False,
    suffix=u'o', minimum_fields=None, policy='duck', required=False,
    validates_up=None, valid_values=(u'q',), child_type=Integer)
FIELDS = 'field_schema'


def spots(cls):
    """The schema and those it is built from."""
    out = [cls]
    for c in out:
        for d in list(getattr(c, 'field_schema', ())) + [
                getattr(c, 'member_schema', None)]:
            if d and d not in out:
                out.append(d)
    return out


def option_sets(schema):
    have = sorted(k for k in OPTIONS if hasattr(schema, k))
    for k in have:
        yield (k,)
    if getattr(schema, FIELDS, None) is not None:
        yield (FIELDS,)
        have = have + [FIELDS]
    for a, b in itertools.combinations(have, 2):
        yield (a, b)


def arguments(names):
    out = dict((k, copy.copy(OPTIONS[k])) for k in names if k != FIELDS)
    if FIELDS in names:
        out[FIELDS] = [Integer.named(u'f1'), Integer.named(u'f2'),
                       Integer.named(u'f3')]
    return out


def check_options(kind, mc):
    """An option given to the very first element stays with it."""
    plain = BUILD[kind]()
    plain()
    n_spots = len(spots(BUILD[kind]()))
    for i in range(n_spots):
        for names in list(option_sets(spots(BUILD[kind]())[i])):
            cls = BUILD[kind]()
            schema = spots(cls)[i]
            el, after = None, None
            try:
                el = schema(**arguments(names))
                after = state_of(el)
            except Exception:
                # refused, or no sense in it for this kind
                mc.count('options that raised')
            what = '%s, first made with %s at %d' % (
                kind, '+'.join(names), i)
            fresh = cls()
            must_equal(schema_state(cls), schema_state(plain),
                       'the schema differs (%s)' % what)
            must_equal(observe(fresh, kind), controls()[kind],
                       'a later element differs (%s)' % what)
            if after is not None:
                must_equal(state_of(el), after,
                           'the first element changed (%s)' % what)
            mc.transition()
    # lists of validators are copied
    for i in range(n_spots):
        cls = spots(BUILD[kind]())[i]
        mine = [grow]
        one_, two = cls(validators=mine), cls(validators=mine)
        one_.validators.append(refuse)
        eq((mine, list(two.validators)), ([grow], [grow]),
           'validators given to two elements of %s' % kind)
        mine.append(refuse)
        eq(list(two.validators), [grow], 'validators of %s' % kind)
    mc.trace()


def cases(tier):
    for kind in sorted(BUILD):
        yield (kind, 'options', None)
        for order in ORDERS:
            yield (kind, order, None)
            for op in OPS:
                yield (kind, order, op)


def check(case, mc):
    kind, order, first = case
    controls()
    if order == 'options':
        return check_options(kind, mc)
    if first is None:
        return run(kind, order, (), mc)
    n = [run(kind, order, (first,), mc)]
    # the order of creation matters for the first use only
    for second in (OPS if mc.tier == 'thorough' and order == 'other first'
                   else SHARP):
        if order != 'other first' and (first not in SHARP or
                                       kind not in PREPARED):
            break
        n.append(run(kind, order, (first, second), mc))
        if mc.tier == 'thorough' and order == 'other first':
            for third in SHARP:
                n.append(run(kind, order, (first, second, third), mc))
    return n
