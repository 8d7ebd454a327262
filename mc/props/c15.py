# -*- coding: utf-8 -*-
"""C15: declarative forms resolve fields like Python resolves attributes."""
import itertools

from flatland import Dict, Form, Integer, List, SparseDict, String
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (number of classes, inheritance structure, declarations of '
        'all classes but the last); every declaration of the last class is '
        'built and every class compared with what Python attribute '
        'resolution gives. Non-trivial: two classes declare the same field.')
BOUNDS = {
    'quick': 'all inheritance structures of <=4 classes with <=2 bases each '
             '(Form, Dict or earlier classes, every order Python accepts); '
             '12 declarations per class for <=3 classes, 5 for 4 classes; 5 '
             'kinds of bases x 25 configurations; all chains of <=3 '
             'redeclarations with 8 related schemas',
    'thorough': '12 declarations for 3 classes, 7 for 4 classes, 3 bases',
}
ASSUMPTIONS = [
    'where a base reached twice is overridden only on the right-hand side '
    '(see the known finding) either declaration is accepted']


# ways one name may be declared in a class
STYLES = ('', 'attr', 'list', 'plain')
BOTH = [a + ',' + b for a in STYLES for b in STYLES[:3]]
FEW = ('attr,', ',', 'list,attr', 'plain,', 'both,')
SEVEN = FEW + ('list,', 'instance,list')


def structures(n, bases):
    """Base lists for classes 0..n-1: -1 is Form, -2 a plain Dict."""
    def options(i):
        yield (-1,)
        for k in range(1, bases + 1):
            for combo in itertools.permutations(range(i), k):
                yield combo
        if i == 0:
            yield (-2, -1)
            yield (-1, -2)
        else:
            yield (-1, -2)
            yield (0, -2)
    return itertools.product(*[list(options(i)) for i in range(n)])


def python_mro(struct):
    """The MROs Python gives classes with these bases, or None."""
    roots = {-1: type('F', (object,), {}), -2: type('D', (object,), {})}
    roots[-1] = type('F', (roots[-2],), {})
    roots[-2] = type('D1', (roots[-1].__mro__[1],), {})
    made = []
    for i, bases in enumerate(struct):
        try:
            made.append(type('C%d' % i, tuple(
                made[b] if b >= 0 else roots[b] for b in bases), {}))
        except TypeError:
            return None
    out = []
    for cls in made:
        order = []
        for k in cls.__mro__:
            if k in made:
                order.append(made.index(k))
            elif k is roots[-2]:
                order.append(-2)
        out.append(order)
    return out


def cases(tier):
    yield ('KF', 'diamond')
    yield ('misc',)
    for base in sorted(KINDS):
        for change in itertools.product(sorted(CHANGES), repeat=2):
            yield ('configured', base, change)
    for chain in (2, 3):
        for decls in itertools.product(sorted(RELATED), repeat=chain):
            yield ('related', decls)
    deep = tier == 'thorough'
    for n in (1, 2, 3, 4):
        if n < 4:
            decls = BOTH
        else:
            decls = SEVEN if deep else FEW
        for struct in structures(n, 2):
            if n == 4 and not deep and (
                    (-1, -2) in struct[1:] or (0, -2) in struct[1:] or
                    struct[0] != (-1,)):
                continue
            if n == 4 and struct.count((-1,)) > 2:
                continue
            if python_mro(struct) is None:
                continue
            for head in itertools.product(decls, repeat=n - 1):
                yield ('tree', n, struct, head, deep)


def declaration(i, decl):
    """Class members for a declaration, and what it declares."""
    members, listed, declared, plain = {}, [], {}, {}
    for name, style in zip('pq', decl.split(',')):
        tag = u'%s%d' % (name, i)
        name = unicode(name)
        if style in ('attr', 'both'):
            # named otherwise: the attribute decides
            members[str(name)] = String.named(
                u'other' if style == 'attr' else name).using(default=tag)
            declared[name] = tag
        if style == 'both':
            listed.append(String.named(name).using(default=tag + u'shadowed'))
        elif style == 'list':
            listed.append(Integer.named(name).using(default=tag))
            declared[name] = tag
        elif style == 'plain':
            members[str(name)] = plain[str(name)] = i
        elif style == 'instance':
            members[str(name)] = plain[str(name)] = String(name=u'inst')
    if listed:
        members['field_schema'] = listed
    return members, declared, plain


def base_dict():
    return Dict.of(String.named(u'p').using(default=u'pdict'),
                   String.named(u'w').using(default=u'wdict'))


def fields(cls):
    out = {}
    for f in cls.field_schema:
        if f.name in out:
            raise Violation('two fields named %r' % (f.name,))
        out[f.name] = f.default
    return out


def check_class(cls, want, plain, where):
    got = fields(cls)
    eq(sorted(got), sorted(want), 'fields', where)
    for name in got:
        if got[name] not in want[name]:
            raise Violation('field %r resolved to %r, expected %r (%r)' % (
                name, got[name], want[name], where))
        true(isinstance(name, unicode), 'name is text')
    for name in 'pqw':
        if name in plain:
            same(getattr(cls, name), plain[name], 'ordinary attribute', where)
        else:
            true(not hasattr(cls, name), 'field left as attribute', name,
                 where)
    return got


def check(case, mc):
    if case[0] == 'KF':
        return known(case)
    if case[0] == 'misc':
        return misc()
    if case[0] in ('configured', 'related'):
        return globals()[case[0]](*case[1:])
    kind, n, struct, head, deep = case
    if n < 4:
        decls = BOTH
    else:
        decls = SEVEN if deep else FEW
    mros = python_mro(struct)
    plain_dict = base_dict()
    overlap = False
    for last in decls:
        all_decl = head + (last,)
        made, want, attrs = [], [], []
        for i in range(n):
            members, declared, plain = declaration(i, all_decl[i])
            bases = tuple(made[b] if b >= 0 else
                          Form if b == -1 else plain_dict
                          for b in struct[i])
            cls = type(Form)('C%d' % i, bases, members)
            made.append(cls)
            attrs.append((declared, plain))
            # Python's resolution
            result = {}
            pl = {}
            for k in reversed(mros[i]):
                if k == -2:
                    result.update({u'p': [u'pdict'], u'w': [u'wdict']})
                else:
                    result.update((name, [v]) for name, v
                                  in attrs[k][0].items())
                    pl.update(attrs[k][1])
            # base by base, left to right (see the known finding)
            by_base = {}
            for b in reversed(struct[i]):
                if b == -2:
                    by_base.update({u'p': [u'pdict'], u'w': [u'wdict']})
                elif b >= 0:
                    by_base.update(want[b])
            by_base.update((name, [v]) for name, v in declared.items())
            for name in result:
                if by_base[name] != result[name]:
                    result[name] = result[name] + by_base[name]
            want.append(result)
            if len(result) < sum(len(attrs[k][0]) for k in mros[i]
                                 if k >= 0):
                overlap = True
            if not result:
                continue
        for i in range(n):
            where = (struct, all_decl, i)
            cls = made[i]
            pl = {}
            for k in reversed(mros[i]):
                if k >= 0:
                    pl.update(attrs[k][1])
            got = check_class(cls, want[i], pl, where)
            if not got:
                continue
            if i == n - 1:
                behaves(cls, got, where)
        mc.count('classes_built', n)
    if not overlap:
        mc.trivial()
    return n


def behaves(cls, got, where):
    """Like a mapping declared directly with the same fields."""
    direct = Dict.of(*cls.field_schema)
    a, b = cls(), direct()
    eq(sorted(a.keys()), sorted(b.keys()), 'keys', where)
    eq(sorted(a.keys()), sorted(got), 'keys', where)
    derived = cls.named(u'f').using(optional=True)
    eq(fields(derived), got, 'fields of a derived form', where)
    data = dict((k, u'7') for k in got)
    true(a.set(data) and b.set(data), 'set', where)
    eq(a.value, b.value, 'value', where)
    eq(sorted(a.flatten()), sorted(b.flatten()), 'flatten', where)
    try:
        a.set({u'nope': u'1'})
    except KeyError:
        pass
    else:
        raise Violation('unknown key accepted: %r' % (where,))


class Shared(Form):
    x = String.using(default=u'x')
    y = String.using(default=u'y')


KINDS = {
    'dict': lambda: Dict.of(String.named(u'x').using(default=u'x'),
                            String.named(u'y').using(default=u'y')),
    'form': lambda: type(Form)('Base', (Form,), {
        'x': String.using(default=u'x'), 'y': String.using(default=u'y')}),
    'derived': lambda: type(Form)('Base', (Shared,), {}),
    'plainly': lambda: type(Form)('Base', (type(Form)('Top', (Form,), {
        'x': String.using(default=u'first'),
        'y': String.using(default=u'y')}),), {
        'x': String.using(default=u'x')}),
    'sparse': lambda: SparseDict.of(
        String.named(u'x').using(default=u'x'),
        String.named(u'y').using(default=u'y')),
}
CHANGES = {
    'none': lambda cls: cls,
    'using': lambda cls: cls.using(optional=True),
    'named': lambda cls: cls.named(u'renamed'),
    'valid': lambda cls: cls.validated_by(lambda e, s: True),
    'props': lambda cls: cls.with_properties(a=1),
}


def configured(kind, changes):
    """Forms inherit from bases that were configured since."""
    base = KINDS[kind]()
    for change in changes:
        base = CHANGES[change](base)
    own = {'y': String.using(default=u'own'),
           'z': String.using(default=u'z')}
    want = {u'x': u'x', u'y': u'y'}
    eq(fields(base), want, 'fields of the base', kind, changes)
    bases = [(base,)] if issubclass(base, Form) else [(base, Form)]

    class Other(Form):
        x = String.using(default=u'other')
        w = String.using(default=u'w')
    bases.append((base, Other))
    bases.append((Other, base))
    for b in bases:
        expect = dict(want)
        if Other in b:
            expect[u'w'] = u'w'
            if b[0] is Other:
                expect[u'x'] = u'other'
        try:
            cls = type(Form)('Sub', b, {})
        except TypeError:
            # Python cannot order these
            continue
        eq(fields(cls), expect, 'inherited', kind, changes, b)
        expect.update({u'y': u'own', u'z': u'z'})
        cls = type(Form)('Sub', b, dict(own))
        eq(fields(cls), expect, 'inherited and own', kind, changes, b)
        eq(fields(type(Form)('Sub2', (cls.using(optional=True),), {})),
           expect, 'inherited twice', kind, changes, b)
        eq(fields(base), want, 'fields of the base since', kind, changes)
    return 1


_S = String.named(u'x').using(default=u'1')
_T = _S.using(default=u'2')
_U = _T.named(u'u').using(default=u'3')
RELATED = {
    'S': _S, 'T': _T, 'U': _U, 'S again': _S.using(), 'I': Integer.named(u'x'),
    'String': String, 'list': ('list', _S), 'listT': ('list', _T),
}


def related(decls):
    """A redeclared field replaces the inherited one, however related."""
    cls = Form
    for decl in decls:
        given = RELATED[decl]
        if isinstance(given, tuple):
            given = given[1]
            members = {'field_schema': [given]}
        else:
            members = {'x': given}
        cls = type(Form)('R', (cls,), members)
        eq([f.name for f in cls.field_schema], [u'x'], 'fields', decls)
        got = cls.field_schema[0]
        true(issubclass(got, given), 'the declared schema', decls)
        if given.name == u'x':
            same(got, given, 'the declared schema', decls)
        eq((got.default, cls()[u'x'].default),
           (given.default, given.default), 'default', decls)
    return 1


def known(case):
    """B and C derive from A; only C redeclares x; D(B, C)."""
    class A(Form):
        x = String.using(default=u'a')

    class B(A):
        y = String

    class C(A):
        x = String.using(default=u'c')

    class D(B, C):
        z = String
    eq(fields(D)[u'x'], u'c', 'most derived declaration of x')
    return 1


def misc():
    original = String.named(u'orig')

    class A(Form):
        x = original
        l = List.of(String)
        n = 5
        method = staticmethod(lambda: 1)
        s = String(name=u'inst')
    eq(sorted(f.name for f in A.field_schema), [u'l', u'x'], 'fields')
    eq(original.name, u'orig', 'declared schema unchanged')
    eq((A.n, A.method()), (5, 1), 'ordinary attributes')
    true(isinstance(A.s, String), 'instances are ordinary')

    class In(Form):
        inner = A
        x = String.named(u'x')
    eq(sorted(f.name for f in In.field_schema), [u'inner', u'x'], 'nested')
    eq(A.name, None, 'nested form unchanged')
    true(issubclass(dict((f.name, f) for f in In.field_schema)[u'inner'], A),
         'nested form')
    el = In.from_flat([(u'inner_x', u'1'), (u'inner_l_0', u'2'),
                       (u'x', u'3')])
    eq(el.value, {u'inner': {u'x': u'1', u'l': [u'2']}, u'x': u'3'}, 'value')
    return 1
