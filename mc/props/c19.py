# -*- coding: utf-8 -*-
"""C19: first use from several threads is safe."""
import itertools
import sys
import types

import sched
sched.install()

from flatland import (Array, Boolean, Compound, DateYYYYMMDD, Dict, Enum,
                      Form, Integer, JoinedString, List, MultiValue,
                      Properties, Ref, SparseDict, String)
from flatland.out.markup import Generator
from flatland.schema import base as schema_base
from flatland.util import symbol
from flatland.util.deferred import deferred_module
from flatland import validation as v
from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('A case is (scenario, thread that starts, statement at which it is '
        'first preempted); the real code runs in real threads, of which '
        'exactly one runs at a time, and every later preemption point of '
        'the bound is explored. Non-trivial: the preemption happened before '
        'the thread ended.')
BOUNDS = {
    'quick': '32 scenarios: every schedule of 2 threads with one preemption '
             'at any statement of the library; every schedule with two '
             'preemptions at statements of the modules the scenario is '
             'about; 3 threads with one preemption, the others in either '
             'order',
    'thorough': 'two preemptions at any statement of the library; three '
                'preemptions in the modules concerned for the scenarios of '
                'up to 60 statements',
}
ASSUMPTIONS = [
    'statements of functions are the scheduling points; module and class '
    'bodies, which run under the import lock, and single statements are '
    'not interrupted',
    'locks are made through threading.Lock or threading.RLock']

UNIQUE = itertools.count()


def fresh(prefix=u'n'):
    return u'%s%d' % (prefix, UNIQUE.next())


def only(*tails):
    def wanted(tag):
        return tag.startswith('flatland') and (
            not tails or [t for t in tails if tag.endswith(t)] != [])
    return wanted


EVERYWHERE = only()


# ------------------------------------------------------------- scenarios
# each returns (functions, check of their results)

def date_parts(el, optional=False):
    return [(c.name, c.optional, c.format) for c in
            sorted(el.children, key=lambda c: -len(c.name))] == [
                (u'month', optional, u'%02i'), (u'year', optional, u'%04i'),
                (u'day', optional, u'%02i')]


def check_dates(els, texts, optional=None):
    for i, (el, text) in enumerate(zip(els, texts)):
        eq(el.u, text, 'date')
        true(date_parts(el, optional[i] if optional else False), 'parts',
             [(c.name, c.optional) for c in el.children], i)
        eq(len(el.__class__.field_schema), 3, 'fields of the class')
        schemas = list(el.__class__.field_schema)
        for c in el.children:
            true([s for s in schemas if type(c) is s], 'part of the class',
                 c)


def s_date(n=2):
    S = DateYYYYMMDD.named(u'd')
    texts = [u'2020-01-02', u'2021-03-04', u'2022-05-06'][:n]

    def check(els):
        check_dates(els, texts)
        check_dates([S(u'1999-12-31')], [u'1999-12-31'])
    return [lambda t=t: S(t) for t in texts], check


def s_date_derived():
    S = DateYYYYMMDD.using()
    return ([lambda: S(u'2020-01-02'),
             lambda: S.using(optional=True)(u'2021-03-04')],
            lambda els: check_dates(els, [u'2020-01-02', u'2021-03-04'],
                                    [False, True]))


def s_date_subclass():
    S = DateYYYYMMDD.using()
    T = S.using(optional=True)
    return ([lambda: S(u'2020-01-02'), lambda: T(u'2021-03-04')],
            lambda els: check_dates(els, [u'2020-01-02', u'2021-03-04'],
                                    [False, True]))


def s_date_override():
    S = DateYYYYMMDD.using()
    return ([lambda: S(u'2020-01-02'),
             lambda: S(u'2021-03-04', optional=True)],
            lambda els: check_dates(els, [u'2020-01-02', u'2021-03-04'],
                                    [False, True]))


def s_date_overrides():
    S = DateYYYYMMDD.using()
    return ([lambda: S(u'2020-01-02', label=u'x'),
             lambda: S(u'2021-03-04', optional=True)],
            lambda els: check_dates(els, [u'2020-01-02', u'2021-03-04'],
                                    [False, True]))


def s_compound():
    calls, early = [], []

    class Pair(Compound):
        def __compound_init__(cls):
            calls.append(cls)
            first = String.named(u'l').using(optional=True)
            cls.field_schema = [first]
            cls.field_schema = [first, String.named(u'r')]
            cls.ready = True

        ready = False

        def __init__(self, value=None, **kw):
            if not self.ready:
                early.append(self)
            Compound.__init__(self, **kw)
            if value is not None:
                self.set(value)

        def compose(self):
            return u'%s:%s' % (self[u'l'].u, self[u'r'].u), None

        def explode(self, value):
            self[u'l'].set(value[0])
            self[u'r'].set(value[1])
    Sub = Pair.using(optional=True)

    def check(els):
        eq(early, [], 'elements built before their class was prepared')
        eq(len([c for c in calls if c is Pair]), 1, 'preparations')
        eq(len(calls), 1, 'preparations in all')
        eq([e.u for e in els], [u'a:b', u'c:d'], 'texts')
        Sub((u'e', u'f'))
        Sub((u'e', u'f'))
        eq(len([c for c in calls if c is Sub]), 1, 'preparations of a subclass')
    return [lambda: Pair((u'a', u'b')), lambda: Pair((u'c', u'd'))], check


def s_compounds():
    """Two unrelated compounds prepare each other."""
    calls = []

    class Inner(DateYYYYMMDD):
        pass

    class Outer(Compound):
        def __compound_init__(cls):
            calls.append(cls)
            cls.field_schema = [Inner.named(u'i')]
            Inner(u'2020-01-01')

        def compose(self):
            return self[u'i'].u, self[u'i'].value

        def explode(self, value):
            self[u'i'].set(value)

    def check(els):
        eq([e.u for e in els], [u'2020-01-02', u'2021-03-04'], 'texts')
        eq(len(calls), 1, 'preparations')
    return [lambda: Outer(u'2020-01-02'), lambda: Inner(u'2021-03-04')], check


def s_form_date():
    class F(Form):
        n = Integer
        d = DateYYYYMMDD
        e = DateYYYYMMDD.using(optional=True)

    def make(y):
        return lambda: F.from_flat([(u'd_year', unicode(y)), (u'n', u'1'),
                                    (u'd_month', u'2'), (u'd_day', u'3')])

    def check(els):
        for el, y in zip(els, (2020, 2021)):
            eq(el[u'd'].u, u'%d-02-03' % y, 'date in a form')
            eq(el[u'n'].value, 1, 'number')
            true(date_parts(el[u'd']) and date_parts(el[u'e'], True), 'parts')
            same(el[u'd'].parent, el, 'parent')
    return [make(2020), make(2021)], check


def s_symbol(n=2):
    name = str(fresh())

    def check(got):
        for g in got:
            same(g, got[0], 'symbol')
        same(symbol(name), got[0], 'symbol later')
        eq(repr(got[0]), name, 'repr')
    return [lambda: symbol(name)] * n, check


def s_symbols():
    a, b = str(fresh()), str(fresh())

    def check(got):
        same(got[0][0], got[1][1], 'first symbol')
        same(got[0][1], got[1][0], 'second symbol')
        true(got[0][0] is not got[0][1], 'different symbols')
    return [lambda: (symbol(a), symbol(b)),
            lambda: (symbol(b), symbol(a))], check


def _tree():
    names = [fresh(), fresh()]
    schema = Dict.of(Dict.named(names[0]).of(String.named(names[1])),
                     List.named(u'l').of(Integer))
    data = lambda t: {names[0]: {names[1]: t}, u'l': [1, 2]}
    return names, [schema(data(u'a')), schema(data(u'b'))]


def s_path(n=2):
    names, trees = _tree()
    path = u'/%s/%s' % tuple(names)

    def check(got):
        for i, found in enumerate(got):
            eq([e.u for e in found], [u'ab'[i % 2]], 'found')
            same(found[0].root, trees[i % 2], 'in the right tree')
    return [lambda i=i: trees[i % 2].find(path) for i in range(n)], check


def s_paths():
    names, trees = _tree()
    one, two = u'%s/%s' % tuple(names), u'%s/../l[1]' % names[0]

    def job(i):
        def run():
            el = trees[i]
            order = (one, two) if i else (two, one)
            return dict((p, [e.u for e in el.find(p)]) for p in order)
        return run

    def check(got):
        for i in (0, 1):
            eq(got[i], {one: [u'ab'[i]], two: [u'2']}, 'found', i)
    return [job(0), job(1)], check


FULL = []


def s_path_full():
    """When many paths were looked up before."""
    if not FULL:
        FULL.append(1)
        el = Dict.of(String.named(u'a'))()
        for i in range(1100):
            el.find(u'a/../x%d' % i, strict=False)
    return s_path()


def s_missing_path():
    names, trees = _tree()
    path = u'/%s/nope' % names[0]

    def job(i):
        def run():
            try:
                return trees[i].find(path)
            except LookupError, e:
                return 'nope' in str(e)
        return run

    def check(got):
        eq(got, [True, True], 'lookup errors')
    return [job(0), job(1)], check


def s_escape():
    schema_base.xml = None
    el = [String(u'<a&"\'>'), String(u'"b\'')]

    def check(got):
        eq(got[0], u'&lt;a&amp;"\'&gt;', 'escaped')
        true(got[1] in (u'&quot;b\'', u'"b\'', u'&quot;b&#39;'),
             'escaped for an attribute', got[1])
    return [lambda: el[0].x, lambda: el[1].xa], check


def s_escapes():
    schema_base.xml = None
    el = [String(u'<1>'), String(u'<2>')]
    return [lambda: el[0].x, lambda: el[1].x], \
        lambda got: eq(got, [u'&lt;1&gt;', u'&lt;2&gt;'], 'escaped')


def s_properties():
    class A(object):
        properties = Properties({u'a': 1})

    class B(A):
        pass

    def check(got):
        eq(dict(B.properties.items()), {u'a': 1, u'x': 1, u'y': 2},
           'both writes')
        eq(dict(A.properties.items()), {u'a': 1}, 'the base')
    return [lambda: B.properties.__setitem__(u'x', 1),
            lambda: B.properties.__setitem__(u'y', 2)], check


def s_properties_first():
    class A(object):
        properties = Properties({u'a': 1})

    class B(A):
        properties = Properties({u'b': 1})

    def check(got):
        eq(got[0], {u'b': 1}, 'read')
        eq(dict(A.properties.items()), {u'a': 1, u'z': 3}, 'base')
        eq(dict(B.properties.items()), {u'b': 1}, 'derived')
    return [lambda: B.properties.copy(),
            lambda: A.properties.__setitem__(u'z', 3)], check


def s_properties_read():
    S = String.with_properties(x=1)
    T = S.with_properties(y=2)
    els = [T(u'1'), T(u'2')]

    def job(el, value):
        def run():
            el.properties[u'k'] = value
            return el.properties.copy()
        return run

    def check(got):
        for i in (0, 1):
            eq(got[i], {'x': 1, 'y': 2, u'k': i}, 'own properties')
        eq(dict(T.properties.items()), {'x': 1, 'y': 2}, 'class')
    return [job(els[0], 0), job(els[1], 1)], check


def _package():
    """A scratch package whose names load on first use."""
    name = str(fresh('mcpkg'))
    loads = []

    class Finder(object):
        def find_module(self, fullname, path=None):
            if fullname in (name + '.sub', name + '.mod'):
                return self

        def load_module(self, fullname):
            if fullname in sys.modules:
                return sys.modules[fullname]
            loads.append(fullname)
            mod = types.ModuleType(fullname)
            mod.thing = object()
            mod.other = [fullname]
            sys.modules[fullname] = mod
            setattr(sys.modules[name], fullname.split('.')[1], mod)
            return mod
    pkg = types.ModuleType(name, 'doc')
    pkg.__path__, pkg.__file__ = [], name
    sys.modules[name] = pkg
    finder = Finder()
    sys.meta_path.append(finder)
    deferred_module.shadow(name, {'sub': ('thing', 'other'), 'mod': ()})

    def clean():
        sys.meta_path.remove(finder)
        for key in list(sys.modules):
            if key == name or key.startswith(name + '.'):
                del sys.modules[key]
    return sys.modules[name], loads, clean


def s_deferred():
    pkg, loads, clean = _package()

    def check(got):
        clean()
        same(got[0], got[1], 'a name loaded on first use')
        same(pkg.thing, got[0], 'later')
        same(pkg.sub.thing, got[0], 'at home')
        eq(len(loads), 1, 'loads')
    return [lambda: pkg.thing, lambda: pkg.thing], check


def s_deferred_both():
    pkg, loads, clean = _package()

    def check(got):
        clean()
        same(got[0], got[1].thing, 'a name, and its module')
        same(pkg.sub, got[1], 'module')
        eq(len(loads), 1, 'loads')
    return [lambda: pkg.thing, lambda: pkg.sub], check


def s_deferred_two():
    pkg, loads, clean = _package()

    def job():
        try:
            pkg.nope
        except AttributeError:
            return (pkg.other, 'nope' in dir(pkg), 'mod' in dir(pkg))

    def check(got):
        clean()
        same(got[0][0], got[1][0], 'list')
        eq(got[0][1:], (False, True), 'dir')
    return [job, job], check


def s_from_flat():
    S = Dict.of(
        List.named(u'l').of(Dict.of(Integer.named(u'a'),
                                    JoinedString.named(u'j'))),
        SparseDict.named(u's').of(String.named(u'x'), Array.named(u'y')
                                  .of(Boolean)),
        Enum.named(u'e').valued(u'p', u'q'))

    def job(i):
        t = unicode(i)
        return lambda: S.from_flat([
            (u'l_0_a', t), (u'l_1_j', t + u',z'), (u's_y', u'1'),
            (u'e', u'pq'[i])])

    def check(got):
        for i, el in enumerate(got):
            eq([m[u'a'].value for m in el[u'l']], [i, None], 'list', i)
            eq(el[u'l'][1][u'j'].value, u'%d,z' % i, 'joined')
            eq(el[u's'].value, {u'y': [True]}, 'sparse')
            eq(el[u'e'].value, u'pq'[i], 'enum')
            for child in el.all_children:
                same(child.root, el, 'root')
    return [job(0), job(1)], check


def s_defaults():
    made = []

    def factory(el):
        made.append(el)
        return len(made)
    S = Dict.of(Integer.named(u'n').using(default_factory=factory),
                List.named(u'l').of(String.using(default=u'x'))
                .using(default=2))

    def check(got):
        eq(sorted(el[u'n'].value for el in got), [1, 2], 'factories')
        eq([el[u'l'].value for el in got], [[u'x', u'x']] * 2, 'lists')
        true(got[0][u'l'][0] is not got[1][u'l'][0], 'separate')
    return [lambda: S.from_defaults(), lambda: S.from_defaults()], check


def s_derive():
    S = String.named(u's').using(optional=True)
    T = Dict.of(S)

    def check(got):
        eq((got[0].name, got[0].optional, got[0].label), (u'a', True, u'A'),
           'first')
        eq((got[1].name, got[1].optional), (u's', False), 'second')
        eq((S.name, S.optional), (u's', True), 'the original')
        eq(T.field_schema_mapping.keys(), [u's'], 'its container')
    return [lambda: S.named(u'a').using(label=u'A'),
            lambda: S.using(optional=False)], check


def s_forms():
    Base = type(Form)('Base', (Form,), {'b': Integer})

    def job(i):
        def run():
            F = type(Form)('F%d' % i, (Base,), {
                'x': String, 'f%d' % i: List.of(Integer)})
            return F({u'x': unicode(i), u'f%d' % i: [i], u'b': 2})
        return run

    def check(got):
        for i, el in enumerate(got):
            eq(el.value, {u'x': unicode(i), u'f%d' % i: [i], u'b': 2},
               'form')
    return [job(0), job(1)], check


def s_enum():
    S = Enum.using(child_type=Integer).valued(1, 2)
    return ([lambda: (S(u'1').value, S.valued(3)(u'3').value),
             lambda: (S(u'3').value, S(u'2').value)],
            lambda got: eq(got, [(1, 3), (None, 2)], 'enums'))


class State(object):

    def __init__(self, mark):
        self.mark = mark

    def ugettext(self, text):
        return unicode(text) + self.mark

    def ungettext(self, one, many, n):
        return unicode(one if n == 1 else many) + self.mark


def s_messages():
    S = String.named(u's').using(validators=[v.NoLongerThan(maxlength=1)])
    els = [S(u'ab'), S(u'cd')]

    def check(got):
        eq(got, [False, False], 'results')
        for i, el in enumerate(els):
            eq(len(el.errors), 1, 'messages')
            true(el.errors[0].endswith(u'!?'[i]), 'own translator',
                 el.errors)
            true(u'1 characters' in el.errors[0] or
                 u'1 character' in el.errors[0] or
                 u'exceed 1' in el.errors[0], 'filled in', el.errors)
    return [lambda: els[0].validate(State(u'!')),
            lambda: els[1].validate(State(u'?'))], check


SHARED = {
    'email': (String, lambda: v.IsEmail(), u'a@b.org', u'nope'),
    'url': (String, lambda: v.URLValidator(allowed_schemes=('http',)),
            u'http://x.org/', u'ftp://x'),
    'httpurl': (String, lambda: v.HTTPURLValidator(), u'http://x.org/',
                u'ftp://y'),
    'between': (Integer, lambda: v.ValueBetween(minimum=1, maximum=3), 2, 9),
    'length': (String, lambda: v.LengthBetween(minlength=1, maxlength=2),
               u'a', u'abc'),
    'in': (String, lambda: v.ValueIn(valid_options=[u'a', u'b']), u'a',
           u'c'),
    'luhn': (Integer, lambda: v.Luhn10(), 18, 19),
    'dup': (List.of(Integer), lambda: v.NotDuplicated(), [1, 2], [1, 1]),
    'atleast': (List.of(Integer), lambda: v.HasAtLeast(minimum=2), [1, 2],
                [1]),
    'mapequal': (Dict.of(Integer.named(u'a'), Integer.named(u'b')),
                 lambda: v.ValuesEqual(u'a', u'b'), {u'a': 1, u'b': 1},
                 {u'a': 1, u'b': 2}),
}


def shared(kind):
    """One validator object, two elements."""
    schema, make, good, bad = SHARED[kind]

    def scenario():
        V = make()
        if kind == 'dup':
            S = List.of(Integer.using(validators=[V]))
        else:
            S = schema.using(validators=[V])
        els = [S.named(u'one')(), S.named(u'two')(), S.named(u'two')()]
        for el, value in zip(els, (good, bad, bad)):
            el.set(value)
        els[2].validate()

        def state(el):
            return [(e.valid, list(e.errors), list(e.warnings), e.value)
                    for e in [el] + list(el.all_children)]

        def check(got):
            eq(got, [True, False], 'results', kind)
            eq(state(els[1]), state(els[2]), 'messages', kind)
            true(not [s for s in state(els[0]) if s[1]], 'no messages', kind)
        return [els[0].validate, els[1].validate], check
    return scenario


def s_generator():
    el = [String(u'<a>', name=u'n'), Boolean(u'1', name=u'm')]
    gens = [Generator(auto_tabindex=True, tabindex=5),
            Generator('html', auto_domid=True)]

    def job(i):
        def run():
            g = gens[i]
            g.begin(auto_value=True)
            out = g.input(el[i], type=u'text', **{'class': u'k'})
            g.set(auto_name=False)
            out += g.tag('input', el[i], auto_name=True)
            g.end()
            return out
        return run

    def check(got):
        alone = [Generator(auto_tabindex=True, tabindex=5),
                 Generator('html', auto_domid=True)]
        gens[:] = alone
        eq(got, [job(0)(), job(1)()], 'markup')
    return [job(0), job(1)], check


def s_ref():
    S = Dict.of(Integer.named(u'a'), Ref.named(u'r').to(u'a')
                .using(writable=True))
    els = [S({u'a': 1}), S({u'a': 2})]

    def job(el, n):
        def run():
            el[u'r'] = n
            return (el[u'r'].value, el[u'a'].u, el[u'r'].u)
        return run
    return ([job(els[0], 5), job(els[1], 6)],
            lambda got: eq(got, [(5, u'5', u'5'), (6, u'6', u'6')], 'refs'))


COMPOUND = only('schema.compound')
SCENARIOS = {
    'date': (s_date, COMPOUND, False),
    'date derived': (s_date_derived, COMPOUND, True),
    'date subclass': (s_date_subclass, COMPOUND, True),
    'date override': (s_date_override, COMPOUND, True),
    'date overrides': (s_date_overrides, COMPOUND, True),
    'compound': (s_compound, COMPOUND, False),
    'compounds': (s_compounds, COMPOUND, False),
    'form date': (s_form_date, only('schema.compound'), False),
    'symbol': (s_symbol, EVERYWHERE, False),
    'symbols': (s_symbols, EVERYWHERE, False),
    'path': (s_path, only('schema.paths'), False),
    'paths': (s_paths, only('schema.paths'), False),
    'path full': (s_path_full, only('schema.paths'), False),
    'missing path': (s_missing_path, only('schema.paths'), False),
    'escape': (s_escape, EVERYWHERE, True),
    'escapes': (s_escapes, EVERYWHERE, False),
    'properties': (s_properties, EVERYWHERE, False),
    'properties first': (s_properties_first, EVERYWHERE, True),
    'properties read': (s_properties_read, only('schema.properties'), False),
    'deferred': (s_deferred, EVERYWHERE, False),
    'deferred both': (s_deferred_both, EVERYWHERE, True),
    'deferred two': (s_deferred_two, EVERYWHERE, False),
    'from_flat': (s_from_flat, only('schema.compound'), False),
    'defaults': (s_defaults, only('util.base'), False),
    'derive': (s_derive, EVERYWHERE, True),
    'forms': (s_forms, only('schema.forms'), False),
    'enum': (s_enum, only('util.base'), True),
    'messages': (s_messages, only('validation.base', 'validation.scalars'),
                 False),
    'generator': (s_generator, only('out.util'), False),
    'ref': (s_ref, only('schema.scalars'), False),
}
for _kind in SHARED:
    SCENARIOS['shared ' + _kind] = (
        shared(_kind), only('validation.scalars', 'validation.network',
                            'validation.number', 'validation.containers'),
        True)
THREE = {'date': s_date, 'symbol': s_symbol, 'path': s_path}


def execute(scenario, schedule, files, mc=None):
    """Run the scenario once; returns how far the schedule was followed."""
    if isinstance(scenario, tuple):
        fns, check = scenario[0](3)
    else:
        fns, check = scenario()
    run = sched.Run(fns, schedule, files).go()
    if run.deadlock:
        raise Violation('threads wait for each other: %r' % (schedule,))
    for w in run.workers:
        if w.error is not None:
            raise Violation('thread %d failed under schedule %r: %s: %s' % (
                w.index, schedule, type(w.error).__name__, w.error))
    try:
        check([w.result for w in run.workers])
    except Violation, e:
        raise Violation('schedule %r: %s' % (schedule, e))
    if mc is not None:
        mc.count('schedules')
        mc.transition(sum(w.steps for w in run.workers))
    return run


def lengths(scenario, files):
    """Statements each thread executes, running first on its own."""
    out = []
    for first in (0, 1):
        run = execute(scenario, [(first, None)], files)
        out.append(run.workers[first].steps)
    return out


def cases(tier):
    deep = tier == 'thorough'
    for name in sorted(SCENARIOS):
        scenario, fine, asymmetric = SCENARIOS[name]
        yield ('alone', name)
        try:
            whole = lengths(scenario, EVERYWHERE)
            part = lengths(scenario, fine)
        except Exception:
            # reported by the case above
            continue
        for first in (0, 1) if asymmetric else (0,):
            for k in range(whole[first] + 1):
                yield ('one', name, first, k)
            for k in range(whole[first] if deep else part[first]):
                yield ('two', name, first, k, deep)
            if deep and part[first] <= 60:
                for k in range(part[first]):
                    yield ('three', name, first, k)
    for name in sorted(THREE):
        try:
            n = execute((THREE[name],), [(0, None)], EVERYWHERE
                        ).workers[0].steps
        except Exception:
            n = 20
        for k in range(n):
            yield ('trio', name, k)


def check(case, mc):
    kind, name = case[:2]
    if kind == 'trio':
        return trio(case, mc)
    scenario, fine, asymmetric = SCENARIOS[name]
    if kind == 'alone':
        for first in (0, 1):
            execute(scenario, [(first, None), (1 - first, None)],
                    EVERYWHERE, mc)
        return 1
    first, k = case[2:4]
    other = 1 - first
    if kind == 'one':
        run = execute(scenario, [(first, k), (other, None)], EVERYWHERE, mc)
        if not run.reached:
            mc.trivial()
        return run.reached
    if kind == 'two':
        files = EVERYWHERE if case[4] else fine
        m = 1
        while True:
            run = execute(scenario, [(first, k), (other, m), (first, None)],
                          files, mc)
            if run.reached < 2:
                break
            m += 1
        return m
    m = 1
    while True:
        n = 1
        while True:
            run = execute(scenario, [(first, k), (other, m), (first, n),
                                     (other, None)], fine, mc)
            if run.reached < 3:
                break
            n += 1
        if run.reached < 2:
            break
        m += 1
    return m


def trio(case, mc):
    kind, name, k = case
    for order in ((1, 2), (2, 1)):
        execute((THREE[name],), [(0, k)] + [(o, None) for o in order],
                EVERYWHERE, mc)
        m = 1
        while m < 40:
            run = execute((THREE[name],), [(0, k), (order[0], m),
                                           (order[1], None), (0, None)],
                          COMPOUND if name == 'date' else EVERYWHERE, mc)
            if run.reached < 2:
                break
            m += 7
    return m
