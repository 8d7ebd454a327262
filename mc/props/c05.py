# -*- coding: utf-8 -*-
"""C05: all views of a tree describe the same tree."""
import c01
import schemas
from flatland import (Array, DateYYYYMMDD, Dict, Form, Integer, JoinedString,
                      List, MultiValue, SparseDict, String)
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is a populated schema shape, or a tree and a history of '
        'mutations (covering every choice of the last one). In every tree '
        'reached every node and every ordered pair of nodes is checked '
        'against a reference walk over the containers. Non-trivial: the tree '
        'has at least two nodes below the root.')
BOUNDS = {
    'quick': 'all schema shapes of nesting depth <=2 of the C01 family with '
             'their data variants, a depth-3 selection, 7 separators; 5 '
             'mutable trees of up to ~25 nodes, all histories of <=2 '
             'operations over the full alphabet (15-30 operations), and a '
             'third from a third of it',
    'thorough': 'all shapes of depth <=3, histories of <=3 full operations '
                'and 4 from the reduced alphabet',
}
ASSUMPTIONS = ['field names do not contain the separator']

# some begin or end with what names begin or end with
SEPS = (u'.', u'/', u'::', u's~', u'~s', u'0~', u'~0')


# -- trees that get mutated

def _trees():
    out = {}
    S, I = String.named(u's'), Integer.named(u'i')
    D = Dict.named(u'd').of(S, I)
    out['list'] = (
        Dict.named(u'r').of(List.named(u'l').of(D), S,
                            List.named(u'k').of(String)),
        {u'l': [{u's': u'a', u'i': 1}, {u's': u'b', u'i': 2}], u's': u'x',
         u'k': [u'a']})
    out['deep'] = (
        List.of(List.named(u'm').of(List.of(Integer))),
        [[[1], []], [[2, 3]]])
    out['array'] = (
        Dict.of(Array.named(u'a').of(S), MultiValue.named(u'v').of(Integer),
                JoinedString.named(u'j')),
        {u'a': [u'x', u'y'], u'v': [1], u'j': u'p,q'})
    out['sparse'] = (
        SparseDict.named(u'p').of(S, D, List.named(u'l').of(
            SparseDict.of(I, DateYYYYMMDD.named(u'c')))),
        {u's': u'x', u'l': [{u'i': 3}, {u'c': u'2010-01-02'}]})

    class F(Form):
        s = String
        e = DateYYYYMMDD
        l = List.of(Form.of(S, List.named(u'n').of(S)))
    out['form'] = (F, {u's': u'x', u'l': [{u's': u'1', u'n': [u'a', u'b']}]})
    return out


TREES = _trees()


def _pop(where):
    def op(r):
        seq = where(r)
        if len(seq):
            seq.pop()
    return op


def _el(path):
    def where(r):
        return r.el(path)
    return where


def list_ops(path, *values):
    def at(fn):
        def op(r):
            try:
                seq = r.el(path)
            except KeyError:
                return
            fn(seq)
        return op

    def setitem(s):
        if len(s):
            s[0] = values[0]

    def setel(s):
        if len(s):
            s[-1] = s.member_schema(values[-1])

    def delitem(s):
        if len(s):
            del s[0]

    def remove(s):
        if len(s):
            s.remove(s[-1].value)
    out = [
        ('append', at(lambda s: s.append(values[0]))),
        ('append-el', at(lambda s: s.append(s.member_schema(values[0])))),
        ('insert', at(lambda s: s.insert(0, values[-1]))),
        ('insert-el', at(lambda s: s.insert(
            1, s.member_schema(values[0])))),
        ('setitem', at(setitem)), ('setitem-el', at(setel)),
        ('delitem', at(delitem)),
        ('delslice', at(lambda s: s.__delslice__(1, 9))),
        ('slice', at(lambda s: s.__setslice__(0, 1, list(values)))),
        ('slice-els', at(lambda s: s.__setslice__(
            1, 1, [s.member_schema(v) for v in values]))),
        ('reverse', at(lambda s: s.reverse())),
        ('sort', at(lambda s: s.sort(key=lambda e: repr(e.value)))),
        ('extend', at(lambda s: s.extend(values))),
        ('iadd', at(lambda s: s.__iadd__([s.member_schema(values[0])]))),
        ('pop', at(lambda s: len(s) and s.pop())),
        ('remove', at(remove)),
        ('set', at(lambda s: s.set(list(values)))),
        ('set-none', at(lambda s: s.set([]))),
    ]
    return [(path + ' ' + n, f) for n, f in out]


def pick(ops, *names):
    return [(n, f) for n, f in ops if n.split()[1] in names]


def _key(path, key, value):
    def op(r):
        r.el(path)[key] = value
    return ('%s[%s]' % (path, key), op)


def _guard(fn):
    def op(r):
        try:
            fn(r)
        except KeyError:
            pass
    return op


OPS = {
    'list': list_ops('.l', {u's': u'q'}, {u'i': 7}) + pick(
        list_ops('.k', u'q', u'w'), 'append', 'setitem', 'reverse',
        'slice-els', 'set') + [
        ('root set', lambda r: r.set({u'l': [{u's': u'z'}]})),
        ('root flat', lambda r: r.set_flat(
            [(u'r_l_0_d_s', u'1'), (u'r_l_5_d_i', u'2'), (u'r_k_2', u'3')])),
        ('default', lambda r: r.set_default()),
        ('member set', _guard(lambda r: r.el(u'.l.0').set({u'i': 3}))),
    ],
    'deep': list_ops('.', [[5]], []) + pick(
        list_ops('.0', [5], []), 'append', 'delitem', 'setitem-el',
        'reverse', 'slice', 'set', 'insert-el') + pick(
        list_ops('.0.0', 5, 6), 'append-el', 'pop', 'sort', 'setitem') + [
        ('root flat', lambda r: r.set_flat(
            [(u'0_m_0_0', u'1'), (u'0_m_1_3', u'2'), (u'3_m_0_0', u'2')])),
    ],
    'array': list_ops('.a', u'q', u'w') + pick(
        list_ops('.v', 5, 6), 'append', 'setitem-el', 'delitem', 'set',
        'slice-els', 'sort') + pick(
        list_ops('.j', u'q', u'w'), 'append', 'setitem-el', 'insert',
        'delitem') + [
        ('j set', lambda r: r[u'j'].set(u'x, y,z')),
        ('root flat', lambda r: r.set_flat(
            [(u'a_s', u'1'), (u'v', u'2'), (u'a_s', u'3'), (u'j', u'a,b')])),
        ('root set', lambda r: r.set({u'a': [u'1']})),
    ],
    'sparse': pick(list_ops('.l', {u'i': 5}, {u'c': u'2011-02-03'}),
                   'append', 'insert-el', 'setitem', 'delitem', 'reverse',
                   'set') + [
        ('del s', lambda r: r.may_contain(u's') and u's' in r and
         r.__delitem__(u's')),
        ('set s', lambda r: r.__setitem__(u's', u'n')),
        ('el s', lambda r: r.__setitem__(
            u's', r.field_schema_mapping[u's'](u'el'))),
        ('set d', lambda r: r.__setitem__(u'd', {u's': u'n'})),
        ('el d', lambda r: r.__setitem__(
            u'd', r.field_schema_mapping[u'd']({u'i': 1}))),
        ('default d', lambda r: r.setdefault(u'd', {u's': u'1'})),
        ('pop l', lambda r: u'l' in r and r.pop(u'l')),
        ('clear', lambda r: r.clear()),
        ('update', lambda r: r.update({u'l': [{}], u'd': {}})),
        ('root set', lambda r: r.set({u'd': {u'i': 2}, u'l': [{}]})),
        ('root flat', lambda r: r.set_flat(
            [(u'p_s', u'1'), (u'p_d_s', u'2'), (u'p_l_3_c_year', u'3'),
             (u'p_l_0_i', u'3')])),
        ('member', _guard(lambda r: r.el(u'.l.0').__setitem__(u'i', 4))),
        ('member c', _guard(lambda r: r.el(u'.l.0').__setitem__(
            u'c', u'2012-01-01'))),
        ('set_default', lambda r: r.set_default()),
    ],
    'form': pick(list_ops('.l', {u's': u'5'}, {u'n': [u'4']}), 'append',
                 'append-el', 'insert', 'setitem', 'setitem-el', 'delitem',
                 'slice-els', 'reverse', 'set') + pick(
        list_ops('.l.0.n', u'1', u'2'), 'append', 'setitem-el', 'insert-el',
        'delslice', 'extend', 'sort') + [
        ('date', lambda r: r[u'e'].set(u'2010-02-03')),
        ('no date', lambda r: r[u'e'].set(u'x')),
        ('root set', lambda r: r.set({u'l': [{}, {u'n': [u'y']}]})),
        ('update', lambda r: r.update({u'l': []})),
    ],
}


def cases(tier):
    deep = tier == 'thorough'
    for depth in range(4):
        if depth == 3 and not deep:
            specs = c01.level(3, False, False)[::6]
        else:
            specs = c01.level(depth, True, True)
        for i, spec in enumerate(specs):
            for j, v in enumerate(c01.values(spec, depth < 2)):
                if depth == 3 and j > 2:
                    break
                for root in ((u'a', None) if depth < 2 else (u'a',)):
                    yield ('shape', schemas.with_name(spec, root), v)
    for name in sorted(OPS):
        n = len(OPS[name])
        for upto in range(0, 3 if deep else 2):
            for head in seqs(range(n), upto, upto):
                yield ('ops', name, head)
        small = range(0, n, 3)
        k = 3 if deep else 2
        for head in seqs(small, k, k):
            yield ('ops', name, head)


def check(case, mc):
    if case[0] == 'shape':
        kind, spec, data = case
        el = schemas.build(spec)()
        schemas.fill(spec, el, data)
        n = consistent(el, mc)
        # and after it was restored, which builds members another way
        again = schemas.build(spec)()
        again.set_flat(el.flatten())
        consistent(again, mc)
        if n < 3:
            mc.trivial()
        return n
    kind, name, head = case
    cls, data = TREES[name]
    ops = OPS[name]
    big = 0
    for last in range(len(ops)):
        el = cls(data)
        done = []
        try:
            consistent(el, mc)
            for i in head + (last,):
                done.append(ops[i][0])
                try:
                    ops[i][1](el)
                except KeyError:
                    if u'l' in el:
                        raise
            big = max(big, consistent(el, mc))
        except Violation, v:
            raise Violation('%s (tree %s, after %r)' % (v, name, done))
    if big < 3:
        mc.trivial()
    return big


def walk(el, names=(), above=()):
    """[(element, names from the root, ancestors)] in depth-first order."""
    out = [(el, names, above)]
    for key, child in kids(el):
        out.extend(walk(child, names + (key,), above + (el,)))
    return out


def kids(el):
    if isinstance(el, dict):
        return [(k, el[k]) for k in el.keys()]
    if isinstance(el, list):
        return [(u'%d' % i, m) for i, m in enumerate(list(el))]
    return []


def consistent(root, mc):
    nodes = walk(root)
    ids = dict((id(n[0]), n) for n in nodes)
    eq(len(ids), len(nodes), 'every element is in the tree once')
    mc.count('nodes', len(nodes))

    def known(elements):
        return [id(e) for e in elements if id(e) in ids]

    for node, names, above in nodes:
        same(node.root, root, 'root', names)
        parents = list(node.parents)
        eq(known(parents), [id(a) for a in reversed(above)], 'parents', names)
        path = list(node.path)
        eq(known(path), [id(a) for a in above] + [id(node)], 'path', names)
        same(path[0], root, 'path starts at the root', names)
        same(path[-1], node, 'path ends at the node', names)
        direct = [id(c) for k, c in kids(node)]
        got = [id(c) for c in node.children]
        if isinstance(node, dict):
            direct.sort()
            got.sort()
        eq(got, direct, 'children', names)
        # breadth first, from the children of each node in turn
        want, queue = [], list(node.children)
        while queue:
            nxt = queue.pop(0)
            want.append(id(nxt))
            queue.extend(nxt.children)
        found = [id(c) for c in node.all_children]
        eq(found, want, 'all_children', names)
        eq(len(set(found)), len(found), 'all_children lists each once', names)
        eq(sorted(found), sorted(id(n) for n, ns, ab in nodes
                                 if node is not n and
                                 any(a is node for a in ab)),
           'all_children lists every descendant', names)

        for sep in SEPS:
            fq = node.fq_name(sep=sep)
            eq(fq, sep + sep.join(names), 'fully qualified name', names)
        eq(node.fq_name(), u'.' + u'.'.join(names), 'fq_name', names)
    mc.count('node_pairs', len(nodes) ** 2)
    for i, (node, names, above) in enumerate(nodes):
        sep = SEPS[i % len(SEPS)]
        fq = node.fq_name(sep)
        for other, onames, oabove in nodes:
            same(other.el(fq, sep=sep), node, 'lookup by full name', fq,
                 onames)
            if onames == names[:len(onames)] and len(onames) < len(names):
                rest = names[len(onames):]
                same(other.el(sep.join(rest), sep=sep), node,
                     'lookup by relative name', rest, onames)
                same(other.el(list(rest)), node, 'lookup by list of names',
                     rest, onames)
        for bad in (u'zzz', u'99', u'0.zzz.0', u'', u's.s'):
            target = resolve(node, bad.split(u'.'))
            try:
                got = node.el(bad)
            except KeyError:
                got = None
            same(got, target, 'lookup of %r' % bad, names)
        for bad in (u'zzz', u'0x', u'1000'):
            absent(root, (u'' if fq == sep else fq) + sep + bad, sep, names)
    return len(nodes)


def resolve(node, names):
    for name in names:
        for key, child in kids(node):
            if key == name:
                node = child
                break
        else:
            return None
    return node


def absent(root, path, sep, names):
    try:
        got = root.el(path, sep=sep)
    except KeyError:
        return
    raise Violation('%r names nothing but %r was found (%r)' % (
        path, got, names))
