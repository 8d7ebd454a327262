# -*- coding: utf-8 -*-
"""C04: mappings admit exactly their declared keys."""
import itertools

from flatland import (Array, Boolean, Date, DateYYYYMMDD, Dict, Enum, Float,
                      Form, Integer, JoinedString, List, Mapping, MultiValue,
                      SparseDict, String)
from lib import Violation, eq, same, seqs, true

LEVEL = 'model_checking'
RULE = ('A case is (kind of mapping, initial contents, history of '
        'operations), and covers every choice of the last operation. The '
        'reference model is a dictionary key -> (value, text); keys, values, '
        'texts, results and exceptions are compared after every step. '
        'Non-trivial: some operation of the case was accepted.')
BOUNDS = {
    'quick': '13 kinds (plain with 3 policies, nested, form, base mapping, '
             'sparse with 3 policies x 2 minimum-field settings), all '
             'histories of <=2 operations over the full alphabet (50-60 '
             'operations) and of 3 where the first two are from a core '
             'alphabet (15-19 operations); 16 types of field soiled in all '
             'sequences of <=2 of 12 ways and left out of 8 kinds of set',
    'thorough': 'all histories of 3 full operations, and 4 where the first '
                'three are from the core alphabet',
}
ASSUMPTIONS = ['sparse get() of a declared but absent key may raise KeyError '
               'or return the default']

REFUSED = (TypeError, KeyError, NotImplementedError, ValueError)


class DictLike(object):
    def __init__(self, data):
        self.data = data

    def keys(self):
        return self.data.keys()

    def __getitem__(self, key):
        return self.data[key]


class Kind(object):
    """a: required text, b: optional integer, c: a required mapping."""

    def __init__(self, name):
        self.name = name
        a = String.named(u'a')
        b = Integer.named(u'b').using(optional=True)
        c = Dict.named(u'c').of(Integer.named(u'x'))
        base, _, policy = name.partition('-')
        self.policy = policy or 'subset'
        self.sparse = base.startswith('Sparse')
        self.required = ()
        self.nested = base == 'Nested'
        if base == 'Mapping':
            self.policy = 'strict'

            class M(Mapping):
                field_schema = (a, b)
            cls = M.named(u'm')
        elif base == 'Form':
            class F(Form):
                field_schema = [b]
                a = String
            cls = F.named(u'm')
        elif base == 'Nested':
            cls = Dict.named(u'm').of(a, c)
        elif base == 'Dict':
            cls = Dict.named(u'm').of(a, b).using(policy=self.policy)
        else:
            cls = SparseDict.named(u'm').of(a, b).using(policy=self.policy)
            if base == 'SparseReq':
                cls = cls.using(minimum_fields='required')
                self.required = (u'a',)
        self.cls = cls
        self.keys = (u'a', u'c') if self.nested else (u'a', u'b')

    # -- model helpers

    def cell(self, key, raw):
        """(accepted, model data) of a field set from *raw*."""
        if key == u'a':
            if raw is None:
                return True, (None, u'')
            t = unicode(raw).strip()
            return True, (t, t)
        if key == u'b':
            if raw is None:
                return True, (None, u'')
            try:
                n = int(raw)
            except ValueError:
                return False, (None, unicode(raw))
            return True, (n, u'%d' % n)
        ok, x = self.cell(u'b', raw[u'x'])
        return ok, (x,)

    def blank(self, key):
        return ((None, u''),) if key == u'c' else (None, u'')

    def initial(self):
        if self.sparse:
            return dict((k, self.blank(k)) for k in self.required)
        return dict((k, self.blank(k)) for k in self.keys)


KINDS = ['Dict', 'Dict-strict', 'Dict-duck', 'Nested', 'Form', 'Mapping',
         'Sparse', 'Sparse-strict', 'Sparse-duck', 'SparseReq',
         'SparseReq-strict', 'SparseReq-duck']
_kinds = {}


def kind_of(name):
    if name not in _kinds:
        _kinds[name] = Kind(name)
    return _kinds[name]


def alphabet(name):
    """(all operations, core operations)"""
    second = u'c' if name == 'Nested' else u'b'
    if name == 'Nested':
        vals = {u'a': (u'p', None), u'c': ({u'x': 4}, {u'x': u'no'})}
    else:
        vals = {u'a': (u'p', u' q', None), u'b': (3, u'04', u'no', None)}
    a, b = u'a', second
    one, two = u'p', vals[b][0]
    bad = vals[b][1] if name == 'Nested' else u'no'
    full = []
    for k in (a, b):
        for v in vals[k]:
            full.append(('setitem', k, v))
    full.append(('setitem', u'z', 1))
    full.append(('setitem', u'A', 1))
    for k in (a, b, u'z'):
        full.append(('del', k))
        full.append(('pop', k))
        full.append(('get', k))
        full.append(('setdefault', k, vals.get(k, (1,))[0]))
        if name != 'Nested':
            full.append(('setdefault', k, None))
        full.append(('may', k))
    full += [('popitem',), ('clear',), ('update2',)]
    data = [{}, {a: one}, {b: two}, {a: one, b: two}, {b: bad},
            {u'z': 1}, {a: one, u'z': 1}, {a: one, b: two, u'z': 1}]
    for d in data:
        full.append(('update', tuple(sorted(d.items()))))
        for policy in ('', 'strict', 'subset', 'duck'):
            if name in ('Mapping',) and policy:
                continue
            full.append(('set', tuple(sorted(d.items())), policy))
    full.append(('updatekw', ((a, one),)))
    full.append(('updatekw', ((u'z', one),)))
    full.append(('updatelike', ((a, one), (b, two))))
    full.append(('setlike', ((a, one), (b, two))))
    full.append(('setpairs', ((a, u'q'), (b, two), (a, one)), ''))
    full.append(('setpairs', ((b, bad), (a, one), (b, two)), ''))
    # pairs repeating a key, with and without keys missing or unknown
    for policy in ('', 'strict', 'subset', 'duck'):
        if name == 'Mapping' and policy:
            continue
        full.append(('setpairs', ((a, u'q'), (a, one)), policy))
        full.append(('setpairs', ((a, one), (u'z', 1)), policy))
        full.append(('setpairs', ((b, two), (b, bad), (a, one)), policy))
    full.append(('updatepairs', ((a, u'q'), (a, one))))
    full.append(('updatepairs', ((a, one), (u'z', 1), (b, two))))
    full.append(('child', a, u'w'))
    full.append(('child', b, vals[b][-1]))
    if name.startswith('Sparse'):
        full.append(('element', a, u'e'))
        full.append(('element', b, 5))
    core = [('setitem', a, u'p'), ('setitem', b, two), ('setitem', u'z', 1),
            ('del', a), ('del', b), ('pop', b), ('clear',),
            ('setdefault', a, u'p'), ('setdefault', b, two),
            ('update', ((a, one), (u'z', 1))),
            ('set', ((a, one), (b, two)), ''), ('set', ((b, two),), 'subset'),
            ('set', ((a, one), (u'z', 1)), ''), ('set', (), 'duck'),
            ('child', a, u'w')]
    if name == 'Mapping':
        core = [op for op in core if not (op[0] == 'set' and op[2])]
    if name.startswith('Sparse'):
        core += [('element', a, u'e'), ('pop', a)]
    return full, core


_alphabets = {}


def ops_of(name):
    if name not in _alphabets:
        _alphabets[name] = alphabet(name)
    return _alphabets[name]


def cases(tier):
    deep = tier == 'thorough'
    for case in reset_cases():
        yield case
    for name in KINDS:
        full, core = ops_of(name)
        for init in (0, 1):
            for n in range(0, 3 if deep else 2):
                for idx in seqs(range(len(full)), n, n):
                    yield (name, init, 'full', idx)
            n = 3 if deep else 2
            for idx in seqs(range(len(core)), n, n):
                yield (name, init, 'core', idx)


# -- fields left out of a set come out as new

FIELD_TYPES = (
    (String, u'x', None), (Integer, 3, u'no'), (Boolean, True, u'no'),
    (Enum.valued(u'a', u'b'), u'a', u'z'), (Float, 1.5, u'no'),
    (Date, u'2009-10-11', u'no'), (Date.using(optional=True), None, u'no'),
    (List.of(String), [u'x', u'y'], 7), (Array.of(String), [u'x'], 7),
    (List.of(String).using(default=2), [u'x'], 7),
    (MultiValue.of(Integer), [1], [u'no']), (JoinedString, u'x,y', u' ,'),
    (Dict.of(String.named(u'k'), Boolean.named(u'f')),
     {u'k': u'1', u'f': True}, {}),
    (SparseDict.of(String.named(u'k')), {u'k': u'1'}, {}),
    (DateYYYYMMDD, u'2009-10-11', u'no'),
    (String.using(default=u'd'), u'x', None))
SOILINGS = ('good', 'bad', 'error', 'warning', 'invalid', 'optional', 'label',
            'properties', 'validators', 'raw', 'replaced', 'default')
RESETS = ('set', 'set other', 'set pairs', 'set duck', 'set refused',
          'set strict', 'from object', 'set default')
HOLDERS = ('Dict', 'Form', 'Sparse', 'SparseReq', 'Mapping')


def face(el):
    """What there is to see of an element."""
    return (repr(el.value), el.u, el.errors, el.warnings, repr(el.valid),
            repr(el.raw), el.optional, el.label, el.name,
            dict(el.properties.items()), len(el.validators), el.is_empty,
            sorted((c.fq_name(), repr(c.value), c.u, c.errors)
                   for c in el.all_children))


def soil(top, el, how, good, bad):
    if how in ('good', 'bad'):
        el.set(good if how == 'good' else bad)
    elif how == 'error':
        el.add_error(u'e')
        for c in el.children:
            c.add_error(u'ce')
    elif how == 'warning':
        el.add_warning(u'w')
    elif how == 'invalid':
        el.valid = False
    elif how == 'optional':
        el.optional = not el.optional
    elif how == 'label':
        el.label = u'L'
    elif how == 'properties':
        el.properties['p'] = 1
    elif how == 'validators':
        el.validators = [None]
    elif how == 'raw':
        el.raw = u'r'
    elif how == 'default':
        el.set_default()
    elif how == 'replaced':
        top.update({u'f': good})


class Attrs(object):
    g = u'new'


def reset_cases():
    for holder in HOLDERS:
        for i in range(len(FIELD_TYPES)):
            yield ('reset', holder, i)
            if FIELD_TYPES[i][0].__name__ != 'MultiValue':
                yield ('own', holder, i)


def check_own(case, mc):
    """What is set may be drawn from the fields as they are now."""
    cls, there, good = holder_of(case)
    for source in range(5):
        el = cls()
        el.update({u'f': good, u'g': u'1'})
        before, text = el.value, el.u
        if source == 0:
            ok = el.set((k, c.value) for k, c in el.iteritems())
        elif source == 1:
            ok = el.set((k, el[k].value) for k in sorted(el))
        elif source == 2:
            ok = el.set((c.name, c.value) for c in el.children)
        elif source == 3:
            ok = el.set({u'g': el[u'g'].value, u'f': el[u'f'].value})
        else:
            ok = el.set((k, c.value) for k, c in el.iteritems()
                        if k == u'f' or not isinstance(el, SparseDict))
            if isinstance(el, SparseDict):
                del before[u'g']
                text = el.u
        true(ok is True, 'result of set', source, case)
        eq((el.value, el.u), (before, text), 'set to its own values', source,
           case)
        for c in el.children:
            same(c.parent, el, 'parent', source, case)
        mc.transition()
    return case


def holder_of(case):
    _, holder, which = case
    schema, good, bad = FIELD_TYPES[which]
    fields = (schema.named(u'f'), String.named(u'g').using(optional=True))
    if holder == 'Form':
        cls = type(Form)('F', (Form,), {'field_schema': list(fields)})
    elif holder == 'Mapping':
        cls = type(Mapping)('M', (Mapping,), {'field_schema': list(fields)})
    elif holder == 'Dict':
        cls = Dict.of(*fields)
    else:
        cls = SparseDict.of(*fields)
        if holder == 'SparseReq':
            cls = cls.using(minimum_fields='required')
    there = holder != 'Sparse' and not (holder == 'SparseReq' and
                                        schema.optional)
    return cls, there, good


def check_reset(case, mc):
    _, holder, which = case
    cls, there, good = holder_of(case)
    bad = FIELD_TYPES[which][2]
    for n in (1, 2):
        for how in itertools.permutations(SOILINGS, n):
            for reset in RESETS:
                if holder == 'Mapping' and reset not in (
                        'set', 'set other', 'set pairs', 'set refused'):
                    continue
                fresh = cls()
                el = cls()
                if holder.startswith('Sparse'):
                    el[u'f'] = good
                for h in how:
                    soil(el, el[u'f'], h, good, bad)
                try:
                    if reset == 'set':
                        el.set({})
                    elif reset == 'set other':
                        el.set({u'g': u'new'})
                    elif reset == 'set pairs':
                        el.set([(u'g', u'new')])
                    elif reset == 'set duck':
                        el.set({u'zz': 1}, policy='duck')
                    elif reset == 'set refused':
                        el.set({u'zz': 1})
                    elif reset == 'set strict':
                        el.set({u'g': u'new'}, policy='strict')
                    elif reset == 'from object':
                        el.set_by_object(Attrs())
                    elif reset == 'set default':
                        if not holder.startswith('Sparse') or \
                                holder == 'SparseReq':
                            continue
                        el.set_default()
                except (TypeError, KeyError):
                    true(reset in ('set refused', 'set strict') or
                         holder == 'Mapping', 'refused', reset, case)
                eq(u'f' in el, there, 'field after %s' % reset, how, case)
                if there:
                    eq(face(el[u'f']), face(fresh[u'f']),
                       'a field left out of %s' % reset, how, case)
                    same(el[u'f'].parent, el, 'parent of the field', how)
                    eq(el[u'f'].validate(), fresh[u'f'].validate(),
                       'validity of a field left out', how, case)
                mc.transition()
    return case


def check(case, mc):
    if case[0] == 'own':
        return check_own(case, mc)
    if case[0] == 'reset':
        return check_reset(case, mc)
    name, init, which, idx = case
    kind = kind_of(name)
    full, core = ops_of(name)
    source = full if which == 'full' else core
    prefix = [source[i] for i in idx]
    accepted = 0
    for last in full:
        history = prefix + [last]
        el = kind.cls()
        model = kind.initial()
        if init:
            data = {u'a': u'i', u'b': 9}
            if kind.nested:
                data = {u'a': u'i', u'c': {u'x': 9}}
            true(el.set(data) is True, 'initial set', case)
            model = dict((k, kind.cell(k, v)[1]) for k, v in data.items())
        try:
            compare(kind, el, model)
            for op in history:
                model, ok = step(kind, el, model, op)
                compare(kind, el, model)
                mc.transition()
                mc.state((name, sorted(model.items())))
                accepted += ok
        except Violation, v:
            raise Violation('%s (%s, init %r, history %r)' % (
                v, name, init, history))
        mc.trace()
    if not accepted:
        mc.trivial()
    return accepted


def read(kind, el):
    out = {}
    for k in el.keys():
        child = el[k]
        if k == u'c':
            out[k] = ((child[u'x'].value, child[u'x'].u),)
        else:
            out[k] = (child.value, child.u)
    return out


def native(kind, model):
    return dict((k, {u'x': v[0][0]} if k == u'c' else v[0])
                for k, v in model.items())


def compare(kind, el, model):
    keys = sorted(el.keys())
    eq(keys, sorted(model), 'keys')
    eq(sorted(el), keys, 'iteration')
    eq(len(el), len(keys), 'len')
    for k in kind.keys + (u'z',):
        eq(k in el, k in model, 'membership of %r' % k)
    eq(read(kind, el), model, 'values and texts')
    eq(el.value, native(kind, model), 'native value')
    kids = list(el.children)
    eq(len(kids), len(keys), 'number of children')
    for k in keys:
        child = el[k]
        eq(child.name, k, 'child name')
        same(child.parent, el, 'parent of child %r' % k)
        true(any(c is child for c in kids), 'children hold the items')
        true(isinstance(child, kind.cls.field_schema_mapping[k]),
             'child of the declared schema')
    eq(sorted(kind.cls.field_schema_mapping), sorted(kind.keys),
       'declared fields')


def step(kind, el, model, op):
    """Run *op*; returns (new model, accepted)."""
    model = dict(model)
    verb = op[0]
    if verb == 'may':
        eq(bool(el.may_contain(op[1])), op[1] in kind.keys, 'may_contain')
        return model, 0
    if verb == 'get':
        key = op[1]
        if key in model:
            same(el.get(key), el[key], 'get')
            same(el.get(key, 'unused'), el[key], 'get')
        else:
            for args in ((key,), (key, 'd')):
                try:
                    got = el.get(*args)
                except KeyError:
                    continue
                true(key in kind.keys and got in (None, 'd'),
                     'get of a missing key', key, got)
        return model, 0
    if verb == 'child':
        if op[1] in model:
            ok, data = kind.cell(op[1], op[2])
            eq(el[op[1]].set(op[2]), ok, 'set of a child')
            model[op[1]] = data
            return model, 1
        return model, 0

    expect, result = plan(kind, model, op)
    try:
        got = run(kind, el, op)
    except REFUSED, e:
        if expect is not None:
            raise Violation('%r raised %s: %s' % (op, type(e).__name__, e))
        # contents may be partly processed, but never the key sets
        after = read(kind, el)
        if kind.sparse:
            true(set(after) <= set(kind.keys), 'keys after a refusal',
                 sorted(after), op)
            true(set(kind.required) <= set(after), 'required keys kept',
                 sorted(after), op)
            if verb in ('setitem', 'del', 'pop', 'popitem', 'setdefault',
                        'update2'):
                eq(after, model, 'contents after a refused %r' % (op,))
        else:
            eq(sorted(after), sorted(model), 'keys after a refused %r' % (op,))
            if verb not in ('set', 'setpairs', 'setlike', 'update',
                            'updatekw', 'updatelike', 'updatepairs'):
                eq(after, model, 'contents after a refused %r' % (op,))
        return after, 0
    if expect is None:
        raise Violation('%r was accepted with result %r' % (op, got))
    if result is not ANY:
        eq(got, result, 'result of %r' % (op,))
    return expect, 1


ANY = object()


def plan(kind, model, op):
    """(model afterwards or None when refused, result or ANY)"""
    verb = op[0]
    new = dict(model)
    if verb == 'setitem' or verb == 'element':
        key, raw = op[1:]
        if key not in kind.keys:
            return None, None
        new[key] = kind.cell(key, raw)[1]
        return new, None
    if verb in ('del', 'pop'):
        key = op[1]
        if not kind.sparse or key not in model or key in kind.required:
            return None, None
        del new[key]
        return new, (None if verb == 'del' else model[key])
    if verb == 'popitem' or verb == 'update2':
        return None, None
    if verb == 'clear':
        if not kind.sparse:
            return None, None
        return kind.initial(), None
    if verb == 'setdefault':
        key, raw = op[1:]
        if not kind.sparse or key not in kind.keys:
            return None, None
        if key in model and model[key] != (None, u''):
            return new, model[key][0]
        new[key] = kind.cell(key, raw)[1]
        return new, raw
    if verb in ('update', 'updatekw', 'updatelike', 'updatepairs'):
        for k, raw in op[1]:
            if k not in kind.keys:
                return None, None
            new[k] = kind.cell(k, raw)[1]
        return new, None
    # set
    policy = kind.policy
    if verb in ('set', 'setpairs') and op[2]:
        policy = op[2]
    new = kind.initial()
    good = True
    mentioned = set()
    for k, raw in op[1]:
        if k not in kind.keys:
            if policy != 'duck':
                return None, None
            continue
        ok, new[k] = kind.cell(k, raw)
        good = good and ok
        mentioned.add(k)
    if policy == 'strict' and mentioned != set(kind.keys):
        return None, None
    return new, good


def run(kind, el, op):
    verb = op[0]
    if verb == 'setitem':
        el[op[1]] = op[2]
    elif verb == 'element':
        new = kind.cls.field_schema_mapping[op[1]](op[2])
        el[op[1]] = new
        same(el[op[1]], new, 'an element of the field is stored itself')
    elif verb == 'del':
        del el[op[1]]
    elif verb == 'pop':
        got = el.pop(op[1])
        return (got.value, got.u)
    elif verb == 'popitem':
        el.popitem()
    elif verb == 'clear':
        el.clear()
    elif verb == 'setdefault':
        return el.setdefault(op[1], op[2])
    elif verb == 'update':
        el.update(dict(op[1]))
    elif verb == 'updatelike':
        el.update(DictLike(dict(op[1])))
    elif verb == 'updatekw':
        el.update(**dict((str(k), v) for k, v in op[1]))
    elif verb == 'update2':
        el.update({u'a': 1}, {u'a': 1})
    elif verb == 'set':
        if op[2]:
            return el.set(dict(op[1]), policy=op[2])
        return el.set(dict(op[1]))
    elif verb == 'setlike':
        return el.set(DictLike(dict(op[1])))
    elif verb == 'setpairs':
        if op[2]:
            return el.set(list(op[1]), policy=op[2])
        return el.set(list(op[1]))
    elif verb == 'updatepairs':
        el.update(list(op[1]))
    else:
        raise AssertionError(op)
