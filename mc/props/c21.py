# -*- coding: utf-8 -*-
"""C21: defaults fill a tree exactly as declared."""
import datetime
import itertools

from flatland import (Array, Boolean, Compound, Constrained, DateYYYYMMDD,
                      Dict, Enum, Form, Integer, JoinedString, List,
                      MultiValue, SparseDict, String, Unspecified)
from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('A case is a schema tree in which every node carries one of its '
        'default declarations (none, null, unspecified, values, factories); '
        'the tree is built from its defaults, and has them applied again on '
        'blank, populated and defaulted elements, and is compared with a '
        'model. Non-trivial: at least one node declares a default.')
BOUNDS = {
    'quick': 'all declarations of 9 scalar and 6 container kinds alone, of '
             'every container over every pair of member declarations, and of '
             'two more levels over 9 member declarations, x 5 prior states',
    'thorough': 'the same with all member declarations at the second level '
                'and containers of containers of containers',
}
ASSUMPTIONS = [
    'a scalar without a default is blank after its defaults are applied; a '
    'sequence without one keeps its contents; a sparse mapping without one '
    'is emptied',
    'a mapping with a default of its own does not consult those of its '
    'fields']

N = 'absent'         # nothing declared
D1 = datetime.date(2020, 2, 29)


class F(object):
    """A default computed by a factory."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'F(%r)' % (self.v,)


class Pair(Compound):
    """Text 'x+y'."""
    field_schema = [String.named(u'x'), String.named(u'y')]

    def compose(self):
        x, y = self[u'x'].u, self[u'y'].u
        if not (x or y):
            return u'', None
        return x + u'+' + y, x + u'+' + y

    def explode(self, value):
        x, _, y = (value or u'').partition(u'+')
        self[u'x'].set(x)
        self[u'y'].set(y)


class PairDef(Pair):
    field_schema = [String.named(u'x').using(default=u'dx'),
                    String.named(u'y')]


# scalar kind -> (schema, blank, {value: (value, text)}, a value to start from)
def _s(v):
    return (v.strip(), v.strip())


SCALARS = {
    'S': (String, (None, u''),
          [(u'x', (u'x', u'x')), (u'', (u'', u'')), (u' y ', (u'y', u'y')),
           (7, (u'7', u'7'))], u'old'),
    'R': (String.using(strip=False), (None, u''),
          [(u' y ', (u' y ', u' y '))], u'old'),
    'I': (Integer, (None, u''),
          [(0, (0, u'0')), (5, (5, u'5')), (u'6', (6, u'6')),
           (u'six', (None, u'six'))], 99),
    'B': (Boolean, (False, u''),
          [(True, (True, u'1')), (False, (False, u'')),
           (u'maybe', (None, u'maybe'))], True),
    'E': (Enum.valued(u'p', u'q'), (None, u''),
          [(u'q', (u'q', u'q')), (u'z', (None, u'z'))], u'p'),
    'C': (DateYYYYMMDD, (None, u''),
          [(D1, (D1, u'2020-02-29')), (u'2020-01-02',
           (datetime.date(2020, 1, 2), u'2020-01-02')),
           (u'junk', (None, u''))], datetime.date(1999, 9, 9)),
    'P': (Pair, (None, u''), [(u'a+b', (u'a+b', u'a+b'))], u'o+p'),
    'Q': (PairDef, (None, u''), [(u'a+b', (u'a+b', u'a+b'))], u'o+p'),
    'J': (JoinedString, (u'', u''),
          [(u'a,b', (u'a,b', u'a,b')), ([u'c', u'd'], (u'c,d', u'c,d')),
           (u'', (u'', u'')), ((u'e',), (u'e', u'e'))], u'o,p'),
}
BLANK_DEFAULT = {'Q': (u'dx+', u'dx+')}


class Log(object):
    def __init__(self):
        self.calls = []


class Node(object):
    """A schema node and its model."""

    def __init__(self, name, decl):
        self.name, self.decl = name, decl

    def declare(self, cls, log):
        if self.name is not None:
            cls = cls.named(self.name)
        d = self.decl
        if d is N:
            return cls
        if isinstance(d, F):
            v = d.v

            def factory(el, v=v, me=self):
                log.calls.append((me, el))
                return v
            return cls.using(default_factory=factory, default=u'ignored')
        return cls.using(default=d)

    @property
    def own(self):
        """The effective default, or N."""
        d = self.decl.v if isinstance(self.decl, F) else self.decl
        return N if (d is N or d is None or d is Unspecified) else d


class ScalarNode(Node):
    def __init__(self, kind, name, decl):
        Node.__init__(self, name, decl)
        self.kind = kind
        (self.base, self.blank, self.values, self.old) = SCALARS[kind]

    def __repr__(self):
        return '%s(%r, %r)' % (self.kind, self.name, self.decl)

    def build(self, log):
        return self.declare(self.base, log)

    def fresh(self):
        # an element that was never set has no value at all
        return (None, u'') if self.kind != 'J' else self.blank

    def put(self, value):
        if value is None:
            return self.blank
        for v, pair in self.values:
            if v == value and type(v) is type(value):
                return pair
        if value == self.old:
            return (value, unicode(value))
        raise AssertionError((self, value))

    def defaulted(self, state):
        d = self.decl.v if isinstance(self.decl, F) else self.decl
        own = self.own
        if own is not N:
            return self.put(own)
        if self.kind in 'CPQ':
            return BLANK_DEFAULT.get(self.kind, (None, u''))
        if self.kind == 'J':
            return state
        if d is Unspecified:
            return state
        return self.blank

    def check(self, el, want, where):
        eq((el.value, el.u), want, 'value and text', where, self)

    def old_value(self):
        return self.old

    def decls(self):
        return 0 if self.decl is N else 1

    def nodes(self, el):
        yield self, el


class SeqNode(Node):
    def __init__(self, kind, name, member, decl):
        Node.__init__(self, name, decl)
        self.kind, self.member = kind, member

    def __repr__(self):
        return '%s(%r, %r, %r)' % (self.kind, self.name, self.member,
                                   self.decl)

    def build(self, log):
        base = {'A': Array, 'M': MultiValue, 'L': List}[self.kind]
        return self.declare(base.of(self.member.build(log)), log)

    def fresh(self):
        return []

    def put(self, value):
        return [self.member.put(v) for v in value]

    def defaulted(self, state):
        own = self.own
        if own is N:
            return state
        if self.kind == 'L' and isinstance(own, int):
            return [self.member.defaulted(self.member.fresh())
                    for _ in range(own)]
        return self.put(own)

    def check(self, el, want, where):
        got = list(el)
        eq(len(got), len(want), 'number of members', where, self)
        for n, (c, w) in enumerate(zip(got, want)):
            self.member.check(c, w, where + (n,))
        if self.kind == 'L':
            for c in got:
                same(c.parent.parent, el, 'parent of a slot')

    def old_value(self):
        return [self.member.old_value()] * 2

    def decls(self):
        return (0 if self.decl is N else 1) + self.member.decls()

    def nodes(self, el):
        yield self, el
        for c in el:
            for pair in self.member.nodes(c):
                yield pair


class MapNode(Node):
    def __init__(self, kind, name, fields, decl):
        Node.__init__(self, name, decl)
        self.kind, self.fields = kind, fields

    def __repr__(self):
        return '%s(%r, %r, %r)' % (self.kind, self.name, self.fields,
                                   self.decl)

    def build(self, log):
        members = [f.build(log) for f in self.fields]
        if self.kind == 'D':
            cls = Dict.of(*members)
        elif self.kind == 'F':
            cls = type(Form)('F', (Form,),
                             dict((str(f.name), m) for f, m in
                                  zip(self.fields, members)))
        else:
            if self.kind == 'T':      # the first field is optional
                members[0] = members[0].using(optional=True)
            cls = SparseDict.of(*members)
            if self.kind in 'TU':
                cls = cls.using(minimum_fields='required')
        return self.declare(cls, log)

    def required(self):
        if self.kind in 'DFU':
            return self.fields
        return self.fields[1:] if self.kind == 'T' else []

    def fresh(self):
        return dict((f.name, f.fresh()) for f in self.required())

    def put(self, value):
        if value is None:
            return self.fresh()
        out = self.fresh()
        for f in self.fields:
            if f.name in value:
                out[f.name] = f.put(value[f.name])
        return out

    def defaulted(self, state):
        own = self.own
        if own is not N:
            return self.put(own)
        if self.kind in 'DF':
            return dict((f.name, f.defaulted(state[f.name]))
                        for f in self.fields)
        return dict((f.name, f.defaulted(f.fresh()))
                    for f in self.required())

    def check(self, el, want, where):
        eq(sorted(el.keys()), sorted(want), 'keys', where, self)
        for f in self.fields:
            if f.name in want:
                same(el[f.name].parent, el, 'parent of a field')
                f.check(el[f.name], want[f.name], where + (f.name,))

    def old_value(self):
        return dict((f.name, f.old_value()) for f in self.fields)

    def decls(self):
        return (0 if self.decl is N else 1) + sum(f.decls()
                                                  for f in self.fields)

    def nodes(self, el):
        yield self, el
        for f in self.fields:
            if f.name in el:
                for pair in f.nodes(el[f.name]):
                    yield pair


EMPTY = (N, None, Unspecified, F(None), F(Unspecified))


def scalar_decls(kind):
    values = [v for v, _ in SCALARS[kind][2]]
    return list(EMPTY) + values + [F(v) for v in values]


def scalars(name, kinds='SRIBECPQJ', few=False):
    for kind in kinds:
        decls = scalar_decls(kind)
        if few:
            decls = [N, SCALARS[kind][2][0][0], F(SCALARS[kind][2][0][0])]
        for d in decls:
            yield ScalarNode(kind, name, d)


def seq_decls(kind, member, few=False):
    one = member.old_value()
    # a default the member also knows how to take
    two = [one, one]
    if isinstance(member, ScalarNode):
        two = [member.values[0][0], one]
    out = [N, [], two, F([one])]
    if not few:
        out += [None, Unspecified, tuple(two), F(None), F(Unspecified),
                F([])]
    if kind == 'L':
        out += [2, F(1)]
        if not few:
            out += [0, 1, F(0)]
    return out


def map_decls(fields, few=False):
    full = dict((f.name, f.old_value()) for f in fields)
    part = {fields[0].name: full[fields[0].name]}
    out = [N, {}, part, F(full)]
    if not few:
        out += [None, Unspecified, full, F(part), F(None), F(Unspecified)]
    return out


def level0():
    return scalars(None)


def over(members, few):
    """Every sequence declaration over the members, unnamed."""
    for m in members:
        for kind in ('L', 'A', 'M'):
            if kind != 'L' and not (isinstance(m, ScalarNode)
                                    and m.kind in 'SRIBE'):
                continue
            for d in seq_decls(kind, m, few):
                yield SeqNode(kind, None, m, d)


def named(node, name):
    import copy
    n = copy.copy(node)
    n.name = name
    return n


def cases(tier):
    big = tier == 'thorough'
    for n in level0():
        yield n
    for n in over(scalars(u'm'), False):
        yield n
    # mappings over pairs of scalar declarations
    ks = 'SIBCJ' if big else 'SIC'
    for kind in 'DFXTU':
        for a in scalars(u'a', 'SRIBECPQJ'):
            for b in (ScalarNode('S', u'b', N), ScalarNode('S', u'b', u'x'),
                      ScalarNode('I', u'b', F(5))):
                for d in map_decls([a, b]):
                    yield MapNode(kind, None, [a, b], d)
    # containers of containers
    inner_scalars = list(scalars(u's', 'SIBCJ' if big else 'SI',
                                 few=True))
    seqs_ = [named(s, u'q') for s in over(inner_scalars, not big)]
    maps_ = [MapNode(kind, u'q', [s, ScalarNode('I', u't', 0)], d)
             for kind in 'DXU' for s in inner_scalars
             for d in map_decls([s, ScalarNode('I', u't', 0)], not big)]
    second = seqs_ + maps_
    for m in second:
        for d in seq_decls('L', m, not big):
            yield SeqNode('L', u'top', m, d)
        for kind in 'DXU':
            fields = [m, ScalarNode('S', u'z', u'x')]
            for d in map_decls(fields, not big):
                yield MapNode(kind, u'top', fields, d)
    # three levels
    third = [MapNode('D', u'w', [m, ScalarNode('S', u'z', F(u'x'))], d)
             for m in second[::1 if big else 7]
             for d in (N, {u'z': u'old'})]
    for m in third:
        for d in (N, 2, F(1), [m.old_value()]):
            yield SeqNode('L', u'top', m, d)
        for kind in 'DU':
            yield MapNode(kind, None, [m, SeqNode('L', u'k', named(m, u'i'),
                                                  2)], N)


def snap(node):
    """A deep rendering of the declared defaults."""
    out = [repr(node.decl)]
    for m in getattr(node, 'fields', ()):
        out.append(snap(m))
    if hasattr(node, 'member'):
        out.append(snap(node.member))
    return out


def disturb(el):
    """Change everything reachable from an element."""
    for c in list(el.children):
        disturb(c)
    if isinstance(el, (List, Array)):
        try:
            v = el.value
            if isinstance(v, list):
                v.append(u'mine')
            el.append(u'7')
        except (TypeError, KeyError, ValueError):
            pass
    elif isinstance(el, Dict):
        v = el.value
        for k in list(v):
            if isinstance(v[k], list):
                v[k].append(u'mine')
            v[k] = u'mine'
        v[u'extra'] = 1
    elif not isinstance(el, Compound):
        el.set(u'7')


def check(node, mc):
    log = Log()
    cls = node.build(log)
    declared = snap(node)
    if not node.decls():
        mc.trivial()
    want = node.defaulted(node.fresh())

    def factories(el, what):
        """Every factory call was made for an element of its own node."""
        calls, log.calls = log.calls, []
        live = list(node.nodes(el))
        ids = dict((id(e), n) for n, e in live)
        seen = set()
        for n, e in calls:
            true(id(e) in ids, '%s: a factory was called with an element '
                 'that is not in the tree' % what, n)
            same(ids[id(e)], n, 'the node a factory was called for')
            true(id(e) not in seen, '%s: a factory ran twice for one element'
                 % what, n)
            seen.add(id(e))
        return seen

    log.calls = []
    first = cls.from_defaults()
    node.check(first, want, ())
    factories(first, 'from_defaults')

    # what each element says its default is
    for n, el in node.nodes(first):
        log.calls = []
        got = el.default_value
        d = n.decl
        if isinstance(d, F):
            same(got, d.v, 'default_value of a factory', n)
            eq(len(log.calls), 1, 'factory calls for default_value', n)
            same(log.calls[0][1], el, 'the element a factory was given', n)
        elif d is N:
            same(got, None, 'default_value without a default', n)
        else:
            same(got, d, 'default_value', n)

    # other ways to get there
    log.calls = []
    second = cls()
    second.set_default()
    node.check(second, want, ('set_default',))
    factories(second, 'set_default')
    again = node.defaulted(want)
    second.set_default()
    node.check(second, again, ('set_default twice',))
    log.calls = []

    full = cls()
    full.set(node.old_value())
    populated = node.put(node.old_value())
    node.check(full, populated, ('populated',))
    full.set_default()
    node.check(full, node.defaulted(populated), ('populated, set_default',))

    if isinstance(node, MapNode):
        nothing = cls()
        nothing.set({})
        nothing.set_default()
        node.check(nothing, node.defaulted(node.put(None)),
                   ('set(None), set_default',))

    # declared on the element itself: it and only it changes
    own = node.own
    if own is not N:
        third = node.__class__.__new__(node.__class__)
        third.__dict__.update(node.__dict__)
        third.decl = N
        plain = third.build(log)
        el = plain.from_defaults(default=own)
        third.check(el, node.put(own) if not isinstance(own, int) or
                    not isinstance(node, SeqNode) else
                    node.defaulted(node.fresh()), ('constructor default',))
        eq(plain.default, None, 'default of the class afterwards')
        el = plain.from_defaults(default_factory=lambda e: own)
        third.check(el, want, ('constructor factory',))
        el = plain()
        el.default = own
        el.set_default()
        third.check(el, want, ('assigned default',))
        third.check(plain.from_defaults(),
                    third.defaulted(third.fresh()), ('the class afterwards',))
        sub = type(plain)('Sub', (plain,), {'default': own})
        third.check(sub.from_defaults(), want, ('subclass default',))

    # nothing is shared
    disturb(first)
    eq(snap(node), declared, 'declared defaults after changing an element',
       node)
    node.check(second, again, ('bystander',))
    node.check(cls.from_defaults(), want, ('later element',))
    return (node.__class__.__name__, repr(want)[:60])
