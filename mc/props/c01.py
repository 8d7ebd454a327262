# -*- coding: utf-8 -*-
"""C01: flatten and set_flat are inverse."""
import itertools

import schemas
from lib import Violation, eq, true

LEVEL = 'exploration'
RULE = ('A case is (schema spec, data, separator). The tree is filled with the '
        'data, flattened, compared with the reference flattening, restored '
        'into fresh elements and compared with the reference expansion. '
        'Non-trivial: at least one pair with a non-empty text.')
BOUNDS = {
    'quick': 'all schemas of nesting depth <=3 built from 8 leaf kinds, dicts '
             'of 1-2 fields, sparse dicts, forms, lists; lists of <=2 members '
             '(and 11), leaf texts from a 2-3 text alphabet with one- and '
             'two-leaf variations; 3 prune settings, 3 separators',
    'thorough': 'as quick with nesting depth 4, 6 separators and more texts',
}
ASSUMPTIONS = ['field names do not contain the separator',
               'dict fields are named']

LEAVES = ('S', 'I', 'B', 'J', 'C', 'A', 'Am', 'M')


def leaf(kind, name, prune):
    if kind in ('A', 'M'):
        return (kind, name, None, prune)
    if kind == 'Am':
        return ('A', name, u'm', prune)
    return (kind, name)


def level(depth, prune, lprune):
    """Specs (named 'a'; rename with with_name) of nesting exactly depth."""
    key = (depth, prune, lprune)
    if key in _levels:
        return _levels[key]
    out = []
    if depth == 0:
        out = [leaf(k, u'a', prune) for k in LEAVES]
    else:
        inner = level(depth - 1, prune, lprune)
        for sub in inner:
            out.append(('D', u'a', (sub,)))
            out.append(('L', u'a', schemas.with_name(sub, None), lprune))
            out.append(('L', u'a', schemas.with_name(sub, u'm'), lprune))
        for i, sub in enumerate(inner):
            # a sibling whose name extends the other's
            out.append(('D', u'a', (sub, ('S', u'ab'))))
            if depth == 1:
                for other in inner:
                    out.append(('D', u'a', (
                        sub, schemas.with_name(other, u'b'))))
            elif i % 3 == 0:
                out.append(('D', u'a', (sub, ('L', u'b', ('I', None),
                                              lprune))))
            out.append(('P', u'a', (sub, ('S', u'ab'))))
            if i % 2 == 0:
                out.append(('F', u'a', (sub, ('I', u'ab'))))
        out = [s for s in out if not _unnamed_field(s)]
    _levels[key] = out
    return out


_levels = {}


def _unnamed_field(spec):
    return spec[0] in 'DPF' and any(f[1] is None for f in spec[2])


TEXTS = {
    'S': (u'x', u'', u'0_a'),
    'I': (u'7', u'007', u'x', u''),
    'B': (u'1', u''),
    'J': (u'p,q', u''),
    'C': ((u'2010', u'02', u'03'), (u'', u'', u''), (u'2010', u'', u'x')),
    'A': ([u'x', u'y'], [], [u'x', u'', u'x'], [u'']),
    'M': ([u'x', u'y'], [], [u'x', u'', u'x'], [u'']),
}


def values(spec, rich):
    """Data variants, most ordinary first."""
    kind = spec[0]
    if kind in TEXTS:
        return list(TEXTS[kind]) if rich else list(TEXTS[kind][:2])
    if kind in 'DPF':
        per = [values(f, rich and len(spec[2]) == 1) for f in spec[2]]
        out = []
        if len(per) == 1:
            out = [{spec[2][0][1]: v} for v in per[0]]
        else:
            a, b = spec[2][0][1], spec[2][1][1]
            for v, w in itertools.product(per[0][:3], per[1][:2]):
                out.append({a: v, b: w})
            for v in per[0][3:]:
                out.append({a: v, b: per[1][0]})
        if kind == 'P':
            out.append({})
            out.append({spec[2][0][1]: per[0][0]})
            out.append({spec[2][-1][1]: per[-1][0]})
        return out
    inner = values(spec[2], rich)
    out = [[inner[0]], []]
    for v in inner[1:]:
        out.append([v])
    for v, w in itertools.product(inner[:3], inner[:3]):
        out.append([v, w])
    if len(inner) > 1:
        out.append([inner[1], inner[0], inner[1], inner[0]])
    return out


SPECIAL_NAMES = (u'b.c', u'b+(', u'\xe9', u'0', u'[x]', u'B$', u'\\d', u'^a',
                 u'a b', u'1a', u'')


def cases(tier):
    seps = (u'_', u'.', u'__')
    deep = 3
    if tier == 'thorough':
        seps += (u'-', u'+', u'|')
        deep = 4
    prunes = ((True, True), (False, False), (True, False))
    for depth in range(deep):
        for prune, lprune in prunes:
            if depth >= 2 and prune != lprune and tier != 'thorough':
                continue
            for i, spec in enumerate(level(depth, prune, lprune)):
                if depth == 0 and spec[0] in 'C' and prune is False:
                    continue
                vals = values(spec, depth < 2 or tier == 'thorough')
                for root in (u'a', None):
                    if root is None and spec[0] not in 'DPFLAM':
                        continue   # nothing to name the only pair with
                    spec_ = schemas.with_name(spec, root)
                    for j, v in enumerate(vals):
                        if depth < 2 or tier == 'thorough':
                            use = seps
                        else:
                            use = (seps[(i + j) % len(seps)],)
                        for sep in use:
                            yield (spec_, v, sep)
    if tier != 'thorough':
        for i, spec in enumerate(level(3, False, False)):
            for j, v in enumerate(values(spec, False)[:4]):
                yield (spec, v, seps[(i + j) % 3])
        for i, spec in enumerate(level(3, True, True)):
            for j, v in enumerate(values(spec, False)[:4]):
                yield (spec, v, seps[(i + j) % 3])
    # names that are special to pattern matching, eleven members
    for n in SPECIAL_NAMES:
        for sep in (u'_', u'~', u'*'):
            for prune in (True, False):
                for spec in (
                        ('L', n, ('S', None), prune),
                        ('L', n, ('S', n), prune),
                        ('A', n, None, prune),
                        ('A', n, n, prune),
                        ('D', n, (('L', n, ('I', n), prune),)),
                        ('D', n, (('S', n), ('S', n + u'x'),
                                  ('A', u'y' + n, None, prune))),
                        ('D', u'a', (('I', n), ('C', n + u'x'),
                                     ('J', n + u'y'))),
                        ('P', n, (('A', n, n, prune),
                                  ('M', n + u'y', n, prune))),
                        ('D', None, (('D', n, (('S', n),)),
                                     ('S', n + u'y'))),
                        ('L', u'l', ('D', None, (('S', n),)), prune),
                        ('L', u'l', ('A', n, None, prune), prune),
                        ('L', None, ('L', n, ('S', n), prune), prune),
                        ('M', n, n, prune), ('A', u'a', n, prune),
                        ('A', None, n, prune)):
                    for v in values(spec, True):
                        yield (spec, v, sep)
                for m in (11, 12, 101):
                    yield (('L', n, ('S', None), prune),
                           [u'v%d' % i for i in range(m)], sep)
                    yield (('L', n, ('L', None, ('S', u's'), prune), prune),
                           [[u'v%d' % i] for i in range(m)], sep)


def joined(pairs, sep):
    return [(sep.join(p), t) for p, t in pairs]


def check(case, mc):
    spec, data, sep = case
    cls = schemas.build(spec)
    el = cls()
    schemas.fill(spec, el, data)
    model = schemas.normalize(spec, data)
    eq(schemas.read(spec, el), model, 'tree after filling', case)

    mpairs = schemas.flat(spec, model)
    want = schemas.grouped(joined(mpairs, sep))
    pairs = el.flatten(sep=sep)
    eq(schemas.grouped(pairs), want, 'flattened pairs', case)
    names = [k for k, v in el.flatten(sep=sep, value=lambda e: e.value)]
    eq(names, [k for k, v in pairs], 'names with a custom value', case)
    # every element flattens itself under the name it has in the whole
    for node in el.all_children:
        if node.flattenable and not _inside_joined(node):
            true(node.flattened_name(sep) in want, 'name of a descendant',
                 node.flattened_name(sep), case)
            own = dict(node.flatten(sep=sep))
            true(own.get(node.flattened_name(sep)) == node.u,
                 'descendant flattens with its own name and text', case)

    restored = schemas.parse(spec, mpairs)
    variants = [('list', list(pairs)), ('tuple', tuple(pairs)),
                ('reversed names', _regroup(pairs))]
    if all(len(v) == 1 for v in want.values()):
        variants.append(('dict', dict(pairs)))
    for label, variant in variants:
        again = cls()
        snapshot = repr(variant)
        again.set_flat(variant, sep=sep)
        eq(repr(variant), snapshot, 'input left alone', label, case)
        eq(schemas.read(spec, again), restored, 'restored tree', label, case)
        eq(schemas.grouped(again.flatten(sep=sep)),
           schemas.grouped(joined(schemas.flat(spec, restored), sep)),
           'flattening the restored tree', label, case)
    if sep == u'_':
        again = cls.from_flat(list(pairs))
        eq(schemas.read(spec, again), restored, 'from_flat', case)
    if not _prunes(spec):
        # nothing that has a flattened form is lost
        eq(schemas.grouped(again.flatten(sep=sep)), want, 'lossless', case)
    third = cls()
    third.set_flat(again.flatten(sep=sep), sep=sep)
    settled = schemas.parse(spec, schemas.flat(spec, restored))
    eq(schemas.read(spec, third), settled, 'second round trip', case)
    if settled == restored:
        eq(third.value, again.value,
           'native values of the second round trip', case)
    if not any(t for p, t in mpairs):
        mc.trivial()
    return (spec[0], len(pairs), len(want))


def _inside_joined(node):
    return any(not p.children_flattenable for p in node.parents)


def _regroup(pairs):
    """Another order that keeps the order of equally named pairs."""
    names = []
    for k, v in pairs:
        if k not in names:
            names.append(k)
    return [(k, v) for n in reversed(names) for k, v in pairs if k == n]


def _prunes(spec):
    if spec[0] in 'AML' and spec[3]:
        return True
    if spec[0] == 'J':
        return False
    if spec[0] in 'DPF':
        return any(_prunes(f) for f in spec[2])
    if spec[0] == 'L':
        return _prunes(spec[2])
    return False
