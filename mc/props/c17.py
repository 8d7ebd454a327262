# -*- coding: utf-8 -*-
"""C17: references mirror their target and obey their write policy."""
import itertools

from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Form, Integer, List,
                      Ref, SparseDict, String)
from lib import Violation, eq, raises, same, seqs, true

LEVEL = 'model_checking'
RULE = ('A case is (write policy, names of the references, leading '
        'operations); every further operation is applied, to the tree and to '
        'the same tree without references. After each operation every '
        'reference is compared with the element its path designates, and the '
        'trees with each other. Non-trivial: a target changed.')
BOUNDS = {
    'quick': '4 write policies x 2 sets of names x all histories of <=2 of '
             '35 operations (sets, resets, defaults, replaced ancestors, '
             'writes through references) and of 3 of 17 of them; every way to spell a path; 5 '
             'kinds of target x 12 values',
    'thorough': 'histories of 3 of 35 and 4 of 17 operations',
}
ASSUMPTIONS = [
    'reading a reference whose path designates nothing raises KeyError, as '
    'el() does',
    'trees with a reference to nothing are not validated',
    'references to compounds are only read',
    'references with a default of their own are left out: whether the '
    'target or the reference is reset first is unspecified',
    'flat data naming a reference is left out on the way in unless writes '
    'are ignored']

POLICIES = {'unset': 'ignore', 'ignore': 'ignore', 'yes': True, 'no': False}
NAMES = ({'num': u'aux', 'txt': u'zz', 'mem': u'b', 'chain': u'copy',
          'box': u'ref', 'nest': u'k'},
         {'num': u'ref', 'txt': u'copy', 'mem': u'r3', 'chain': u'aux',
          'box': u'r5', 'nest': u'a'})
PATHS = {'num': u'main', 'txt': u'd.x', 'mem': u'd.l.0', 'box': u'd'}


def policy(ref, p):
    return ref if p == 'unset' else ref.using(writable=POLICIES[p])


def schema(p, names):
    """The tree, with and without references."""
    plain = [Integer.named(u'main').using(default=5),
             DateYYYYMMDD.named(u'dt')]
    d = [String.named(u'x').using(default=u'dx'),
         List.named(u'l').of(Integer).using(default=[1, 2])]
    refs = [policy(Ref.named(names[k]).to(PATHS[k]), p)
            for k in ('num', 'txt', 'mem', 'box')]
    refs.append(Ref.named(names['chain']).to(names['num'])
                .using(writable=True))
    # written as from the top, wherever it is
    inner = policy(Ref.named(names['nest']).to(u'.d.x'), p)
    return (Dict.of(*(plain + [Dict.named(u'd').of(*(d + [inner]))] + refs)),
            Dict.of(*(plain + [Dict.named(u'd').of(*d)])))


SCHEMAS = {}


class World(object):

    def __init__(self, p, names):
        self.names, self.policy = names, POLICIES[p]
        key = (p, names['num'])
        if key not in SCHEMAS:
            SCHEMAS[key] = schema(p, names)
        a, b = SCHEMAS[key]
        self.el, self.twin = a(), b()

    def ref(self, kind):
        if kind == 'nest':
            return self.el[u'd'][self.names['nest']]
        return self.el[self.names[kind]]

    def target(self, kind, root=None):
        el = self.el if root is None else root
        if kind in ('num', 'chain'):
            return el[u'main']
        if kind in ('txt', 'nest'):
            return el[u'd'][u'x']
        if kind == 'mem':
            l = el[u'd'][u'l']
            return l[0] if len(l) else None
        return el[u'd']


KINDS = ('num', 'txt', 'mem', 'chain', 'box', 'nest')


# operations on the elements themselves
PLAIN = [
    ('set', lambda r: r.set({u'main': 7, u'd': {u'x': u'a', u'l': [3]}})),
    ('set {}', lambda r: r.set({})),
    ('set main', lambda r: r[u'main'].set(u'12')),
    ('set bad', lambda r: r[u'main'].set(u'xx')),
    ('set blank', lambda r: r[u'main'].set(u'')),
    ('item', lambda r: r.__setitem__(u'main', 9)),
    ('update', lambda r: r.update({u'main': 10})),
    ('d', lambda r: r[u'd'].set({u'x': u'b'})),
    ('d item', lambda r: r.__setitem__(u'd', {u'x': u'c', u'l': [8, 9]})),
    ('x', lambda r: r[u'd'].__setitem__(u'x', u' e ')),
    ('append', lambda r: r[u'd'][u'l'].append(4)),
    ('insert', lambda r: r[u'd'][u'l'].insert(0, 6)),
    ('pop', lambda r: len(r[u'd'][u'l']) and
     r[u'd'][u'l'].pop(0).value),
    ('clear', lambda r: r[u'd'][u'l'].__delitem__(slice(None))),
    ('reverse', lambda r: r[u'd'][u'l'].reverse()),
    ('l', lambda r: r[u'd'].__setitem__(u'l', [u'5', u'q'])),
    ('default', lambda r: r.set_default()),
    ('d default', lambda r: r[u'd'].set_default()),
    ('flat', lambda r: r.set_flat([(u'main', u'21'), (u'd_x', u'f'),
                                   (u'd_l_0', u'30')])),
    ('flat d', lambda r: r[u'd'].set_flat([(u'd_x', u'g')])),
    ('value', lambda r: setattr(r[u'main'], 'value', 44)),
    ('u', lambda r: setattr(r[u'd'][u'x'], 'u', u'44')),
    ('validate', lambda r: r.validate()),
]
# operations on references: (reference, operation, value)
WRITES = [(kind, 'set', v) for kind, v in (
    ('num', u'31'), ('num', u'zz'), ('txt', u' t '), ('mem', 32),
    ('chain', 33), ('nest', u'n'), ('nest', None))]
WRITES += [('num', 'item', 41), ('txt', 'item', u'w'), ('num', 'dict', 42),
           ('num', 'value', 43), ('txt', 'u', u'v')]
OPS = [('plain', n) for n in range(len(PLAIN))] + \
      [('write', n) for n in range(len(WRITES))]

FEW = [('plain', n) for n, (name, _) in enumerate(PLAIN) if name in (
    'set', 'set {}', 'set bad', 'd item', 'insert', 'pop', 'reverse', 'l',
    'default', 'd default', 'flat')] + \
      [('write', n) for n in (0, 3, 4, 5, 7, 11)]


def cases(tier):
    deep = tier == 'thorough'
    for p in sorted(POLICIES):
        for n in range(len(NAMES)):
            yield ('history', p, n, (), 'OPS')
            for op in OPS:
                yield ('history', p, n, (op,), 'OPS')
            if deep and p != 'unset':
                for head in seqs(OPS, 2, 2):
                    yield ('history', p, n, head, 'OPS')
        if p != 'unset':
            for head in seqs(FEW, 3 if deep else 2, 2):
                yield ('history', p, 0, head, 'FEW')
    for n in range(len(SPELLINGS)):
        for p in sorted(POLICIES):
            yield ('spelling', n, p)
    for kind in sorted(TARGETS):
        for p in sorted(POLICIES):
            yield ('target', kind, p)
    yield ('moved',)
    yield ('derived',)


def check(case, mc):
    return globals()['check_' + case[0]](case, mc)


def state(el):
    return (el.value, el.u, el.flatten())


def mirrors(ref, target, *where):
    eq(ref.value, target.value, 'value through a reference', *where)
    eq(ref.u, target.u, 'text through a reference', *where)
    same(ref.target, target, 'target', *where)


def invariants(w, where):
    for kind in KINDS:
        ref, target = w.ref(kind), w.target(kind)
        if target is None:
            raises(KeyError, lambda: ref.value, 'dangling', where)
            raises(KeyError, lambda: ref.u, 'dangling', where)
            continue
        if kind == 'chain':
            eq((ref.value, ref.u), (target.value, target.u),
               'through two references', where)
            same(ref.target, w.ref('num'), 'target', where)
            continue
        if kind == 'box':
            same(ref.target, target, 'target', where)
            # the values below contain the reference's own siblings
            if w.target('mem') is not None:
                eq(ref.u, target.u, 'container text', where)
            eq(ref.value, target.value, 'container value', where)
            continue
        mirrors(ref, target, kind, where)
        eq((bool(ref), ref.is_empty), (bool(target), target.is_empty),
           'truth and emptiness', kind, where)
    flat = w.el.flatten()
    eq(sorted(flat), sorted(w.twin.flatten()), 'flattened data', where)
    eq(w.target('num').value, w.twin[u'main'].value, 'main', where)
    eq(w.target('txt').value, w.twin[u'd'][u'x'].value, 'd.x', where)
    eq(w.target('mem') and w.target('mem').value,
       w.target('mem', w.twin) and w.target('mem', w.twin).value, 'd.l.0',
       where)


def apply(w, op, where):
    if op[0] == 'plain':
        name, fn = PLAIN[op[1]]
        if name == 'validate' and w.target('mem') is None:
            return False
        outcomes = []
        for r in (w.el, w.twin):
            try:
                outcomes.append(('ok', fn(r)))
            except Exception, e:
                # refs may not be writable, so nothing here writes to them
                outcomes.append(('raise', type(e).__name__, str(e)))
        eq(outcomes[0], outcomes[1], 'outcome with and without references',
           name, where)
        return True
    kind, how, value = WRITES[op[1]]
    ref, target = w.ref(kind), w.target(kind)
    pol = w.policy
    if target is None:
        # dangling: nothing to write to
        return False
    before = state(w.el) if w.target('mem') is not None else \
        w.el.flatten()

    def write():
        if how == 'set':
            return ref.set(value)
        if how == 'item':
            w.el[w.names[kind]] = value
        elif how == 'dict':
            w.el.update({w.names[kind]: value})
        elif how == 'value':
            ref.value = value
        else:
            ref.u = value
    if pol is False:
        raises(TypeError, write, 'read-only reference', where)
        pol = 'ignore'
    else:
        ok = write()
    after = state(w.el) if w.target('mem') is not None else w.el.flatten()
    if pol == 'ignore':
        eq(after, before, 'a write that must not happen', where)
        return True
    same(w.target(kind), target, 'the target element stays', where)
    twin = w.target(kind, w.twin)
    if how == 'value':
        twin.value = value
    elif how == 'u':
        twin.u = value
    else:
        want = twin.set(value)
        if how == 'set':
            eq(ok, want, 'result of set', where)
    return True


def check_history(case, mc):
    kind, p, n, head, alphabet = case
    alphabet = globals()[alphabet]
    changed = 0
    for last in alphabet if head else [None] + alphabet:
        ops = head + ((last,) if last else ())
        w = World(p, NAMES[n])
        first = w.el.flatten()
        where = (p, n, ops)
        invariants(w, where)
        for i, op in enumerate(ops):
            if not apply(w, op, where):
                break
            if i == len(ops) - 1:
                # prefixes are histories of their own
                invariants(w, where)
            mc.transition()
        mc.trace()
        changed += w.el.flatten() != first
        mc.state((p, w.el.flatten()))
    if not changed:
        mc.trivial()
    return changed


SPELLINGS = [
    lambda r: r.to(u'd.x'),
    lambda r: r.to(u'.d.x'),
    lambda r: r.to('d.x'),
    lambda r: r.to(u'd/x', sep=u'/'),
    lambda r: r.to(u'/d/x', sep=u'/'),
    lambda r: r.to(u'd->x', sep=u'->'),
    lambda r: r.using(sep=u'/').to(u'd/x'),
    lambda r: r.using(sep=u'/').to(u'/d/x'),
    lambda r: r.using(sep=u'/').to(u'd.x', sep=u'.'),
    lambda r: r.to([u'd', u'x']),
    lambda r: r.to((u'd', u'x')),
    lambda r: r.to(iter([u'd', u'x'])),
    lambda r: r.to(u'nowhere').to(u'd.x'),
]


def check_spelling(case, mc):
    """The same target, spelled in every way, from every place."""
    kind, n, p = case
    make = SPELLINGS[n]
    ref = policy(make(Ref), p)
    total = 0
    for place in ('beside', 'below', 'listed', 'renamed'):
        if place == 'beside':
            top = Dict.of(Dict.named(u'd').of(String.named(u'x')),
                          ref.named(u'r'))
            get = lambda el: el[u'r']
        elif place == 'below':
            top = Dict.of(Dict.named(u'd').of(
                String.named(u'x'), Dict.named(u'e').of(ref.named(u'r'))))
            get = lambda el: el[u'd'][u'e'][u'r']
        elif place == 'listed':
            top = Dict.of(Dict.named(u'd').of(String.named(u'x')),
                          List.named(u'l').of(ref).using(default=1))
            get = lambda el: el[u'l'][0]
        else:
            top = Dict.named(u'd').of(Dict.named(u'd').of(
                String.named(u'x')), ref.named(u'r'))
            get = lambda el: el[u'r']
        el = top({u'd': {u'x': u'1'}})
        if place == 'listed':
            el[u'l'].set_default()
        for value in (u'2', u'3', None, u' 4'):
            el[u'd'][u'x'] = value
            mirrors(get(el), el[u'd'][u'x'], place)
            mirrors(get(el), el[u'd'][u'x'], place, 'again')
        r, old = get(el), state(el)
        if POLICIES[p] is False:
            raises(TypeError, lambda: r.set(u'new'), 'read-only')
            raises(TypeError, lambda: setattr(r, 'value', u'new'), 'r/o')
            raises(TypeError, lambda: setattr(r, 'u', u'new'), 'r/o')
        else:
            r.set(u'new')
        if POLICIES[p] is True:
            eq(el[u'd'][u'x'].value, u'new', 'written')
        else:
            eq(state(el), old, 'unchanged')
        mirrors(get(el), el[u'd'][u'x'], place, 'after')
        # another tree of the same schema is another tree
        other = top({u'd': {u'x': u'other'}})
        if place != 'listed':
            mirrors(get(other), other[u'd'][u'x'], place, 'other')
        total += 1
    return total


TARGETS = {
    'integer': Integer, 'string': String, 'raw': String.using(strip=False),
    'boolean': Boolean, 'date': DateYYYYMMDD,
}
VALUES = [None, u'', u' ', u'1', u' 1 ', u'x', 1, 0, True, u'on',
          u'2020-01-02', u'2020-13-02']


def check_target(case, mc):
    """Writing through a reference is writing to its target."""
    kind, t, p = case
    top = Dict.of(TARGETS[t].named(u't'),
                  policy(Ref.named(u'r').to(u't'), p))
    for first in VALUES:
        for value in VALUES:
            el = top()
            el[u't'].set(first)
            mirrors(el[u'r'], el[u't'], t, first)
            direct = TARGETS[t](name=u't')
            direct.set(first)
            before = state(el)
            if t == 'date':
                # compounds are only read
                continue
            if POLICIES[p] is False:
                raises(TypeError, lambda: el[u'r'].set(value), 'read-only')
            else:
                ok = el[u'r'].set(value)
            if POLICIES[p] is True:
                eq(ok, direct.set(value), 'result', t, first, value)
                eq((el[u't'].value, el[u't'].u), (direct.value, direct.u),
                   'written', t, first, value)
            else:
                eq(state(el), before, 'unchanged', t, first, value)
            mirrors(el[u'r'], el[u't'], t, first, value)
            # its value and its text, assigned; what it holds already too
            for attr, given in (('value', value), ('value', None),
                                ('u', value), ('u', None)):
                el = top()
                el[u't'].set(first)
                if given is None:
                    given = getattr(el[u't'], attr)
                if attr == 'u' and not isinstance(given, unicode):
                    continue
                before = state(el)
                write = lambda: setattr(el[u'r'], attr, given)
                if POLICIES[p] is False:
                    raises(TypeError, write, 'read-only', attr, given)
                else:
                    write()
                want = getattr(el[u't'], attr)
                if POLICIES[p] is True:
                    eq((want, getattr(el[u'r'], attr)), (given, given),
                       'assigned', t, first, attr)
                else:
                    eq(state(el), before, 'unchanged', t, first, attr)
    return 1


def check_moved(case, mc):
    """The path is followed from the top of whatever tree it is in now."""
    inner = Dict.named(u'in').of(String.named(u'x'), Ref.named(u'r').to(u'x'))
    el = inner({u'x': u'1'})
    mirrors(el[u'r'], el[u'x'])
    box = List.of(inner)()
    box.append(el)
    raises(KeyError, lambda: el[u'r'].value, 'nothing there in this tree')
    outer = Dict.of(String.named(u'x'), inner)({
        u'x': u'top', u'in': {u'x': u'1'}})
    eq(outer[u'in'][u'r'].value, u'top', 'from the top')
    outer.set({u'x': u'again'})
    eq(outer[u'in'][u'r'].value, u'again', 'from the top')
    rows = List.of(Dict.of(Integer.named(u'x'), Ref.named(u'r').to(u'1.x')))
    l = rows([{u'x': 0}, {u'x': 1}, {u'x': 2}])
    eq([row[u'r'].value for row in l], [1, 1, 1], 'the second row')
    del l[0]
    eq([row[u'r'].value for row in l], [2, 2], 'the second row')
    l.insert(0, {u'x': 9})
    eq([row[u'r'].value for row in l], [1, 1, 1], 'the second row')
    l[1] = {u'x': 7}
    eq([row[u'r'].u for row in l], [u'7', u'7', u'7'], 'the second row')
    l.reverse()
    eq([row[u'r'].value for row in l], [7, 7, 7], 'the second row')
    sparse = SparseDict.of(Integer.named(u'x'), Ref.named(u'r').to(u'x')
                           .using(writable=True))
    s = sparse({u'x': 1})
    s[u'r'] = 2
    eq((s[u'r'].value, s[u'x'].value), (2, 2), 'in a sparse mapping')
    del s[u'x']
    raises(KeyError, lambda: s[u'r'].value, 'gone')
    s[u'x'] = 3
    eq(s[u'r'].u, u'3', 'back')
    return 1


def check_derived(case, mc):
    """Deriving a reference does not retarget the original."""
    base = Ref.named(u'r').to(u'a')
    other = base.to(u'b')
    third = base.using(writable=True)
    fourth = third.using(writable=False)
    for ref, target, pol in ((base, u'a', 'ignore'), (other, u'b', 'ignore'),
                             (third, u'a', True), (fourth, u'a', False)):
        el = Dict.of(String.named(u'a'), String.named(u'b'), ref)(
            {u'a': u'1', u'b': u'2'})
        mirrors(el[u'r'], el[target])
        if pol is False:
            raises(TypeError, lambda: el[u'r'].set(u'3'), 'read-only')
        else:
            el[u'r'].set(u'3')
        eq((el[u'a'].value, el[u'b'].value),
           (u'3' if pol is True else u'1', u'2'), 'written')

    class F(Form):
        a = String
        r = Ref.to(u'a')

    class G(F):
        r = Ref.to(u'a').using(writable=True)
    for cls, want in ((F, u'1'), (G, u'3')):
        el = cls({u'a': u'1'})
        el[u'r'] = u'3'
        eq((el[u'a'].value, el[u'r'].value), (want, want), 'in a form')
        eq(el.flatten(), [(u'a', want)], 'flattened')
    return 1
