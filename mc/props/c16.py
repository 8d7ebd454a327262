# -*- coding: utf-8 -*-
"""C16: path lookups select exactly the addressed elements, always."""
import itertools

from flatland import (Array, DateYYYYMMDD, Dict, Form, Integer, List,
                      MultiValue, SparseDict, String)
from lib import Violation, eq, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (tree, leading steps); every path continuing them within '
        'the bounds is looked up from every node of the tree, strict and '
        'tolerant, single or not, and compared with a walk over the tree. '
        'Non-trivial: some path selected something.')
BOUNDS = {
    'quick': 'all paths of <=3 steps over 20 steps (names, escaped names, '
             'indexes, slices, parent, self, empty) from 9-23 nodes of 4 '
             'trees, all of 4 steps over 8 steps; all 1-digit slices; all '
             'spellings of <=2 steps; all lookup/mutation histories of <=3 '
             'steps, all moves of members between two trees of <=4 steps; '
             '1400 distinct paths around the size of the cache; all texts of '
             '<=3 of 9 characters in 4 orders against each alone',
    'thorough': '4 steps over 13 steps, 5 steps over 6 steps, histories of '
                '<=4 steps, moves of <=5',
}
ASSUMPTIONS = [
    'steps followed by .. cancel out, as the tests say, so a child missing '
    'there is not reported',
    'paths that go up from a List member directly are the known finding',
    'a literal [ inside a name is escaped unless the bracket ends the name']


# ---------------------------------------------------------------- trees

def _form():
    class Inner(Form):
        a = Integer
        l = List.of(String)

    schema = Dict.of(
        String.named(u'a'), String.named(u'A'), Integer.named(u'1'),
        String.named(u'p/q'), String.named(u'..'), String.named(u'a[b]'),
        List.named(u'l').of(String.named(u's')),
        List.named(u'm').of(List.of(Integer)),
        List.named(u'e').of(String),
        Dict.named(u'd').of(String.named(u'a'), Inner.named(u'd'),
                            Array.named(u'l').of(Integer)),
        DateYYYYMMDD.named(u'dt'))
    return schema({
        u'a': u'1', u'A': u'2', u'1': 3, u'p/q': u'4', u'..': u'5',
        u'a[b]': u'6', u'l': [u'x', u'y', u'z'], u'm': [[1, 2], [], [3]],
        u'd': {u'a': u'7', u'd': {u'a': 8, u'l': [u'9']}, u'l': [1, 2]},
        u'dt': None})


def _list():
    row = Dict.of(String.named(u'a'), List.named(u'l').of(Integer),
                  SparseDict.named(u'd').of(String.named(u'a'),
                                            Integer.named(u'1')))
    return List.of(row)([
        {u'a': u'0', u'l': [1, 2], u'd': {u'a': u'x'}},
        {u'a': u'1', u'l': [], u'd': {u'1': 1}}])


def _named():
    return List.named(u'l').of(MultiValue.named(u'l').of(Integer))(
        [[1, 2, 3], [4]])


def _scalar():
    return String(u'x')


TREES = {'form': _form, 'list': _list, 'named': _named, 'scalar': _scalar}


class Tree(object):
    """A tree, and what is where in it."""

    def __init__(self, name, root=None):
        self.root = TREES[name]() if root is None else root
        self.refresh()

    def refresh(self):
        self.up, self.kids, self.byname, self.nodes = {}, {}, {}, []
        self.keep = []
        self._add(self.root, None, False)

    def _add(self, el, parent, inlist):
        self.nodes.append(el)
        self.up[id(el)] = parent
        named = {}
        if isinstance(el, dict):
            for key in dict.keys(el):
                named[key] = el[key]
            kids = list(el.values())
        elif isinstance(el, list):
            kids = [el[i] for i in range(len(el))]
            for i, kid in enumerate(kids):
                named[unicode(i)] = kid
        else:
            kids = list(el.children)
            for kid in kids:
                named[kid.name] = kid
        self.kids[id(el)] = kids
        self.byname[id(el)] = named
        for kid in kids:
            self._add(kid, el, isinstance(el, List))

    def inlist(self, el):
        return isinstance(self.up[id(el)], List)


class Missing(Exception):
    pass


class Excluded(Exception):
    """The walk goes up from a List member directly."""


def cancel(absolute, steps):
    """Drop self steps; let a parent step cancel the step before it."""
    out = []
    for step in steps:
        if step == ('.',):
            continue
        if step == ('..',):
            if out and out[-1] != ('..',):
                out.pop()
                continue
            if absolute and not out:
                continue
        out.append(step)
    return out


def walk(tree, el, absolute, steps, strict):
    if absolute:
        el = tree.root
    current = [el]
    for step in cancel(absolute, steps):
        following = []
        for el in current:
            if step == ('..',):
                if tree.inlist(el):
                    raise Excluded()
                parent = tree.up[id(el)]
                following.append(el if parent is None else parent)
            elif step[0] == 'slice':
                following.extend(tree.kids[id(el)][step[1]])
            else:
                named = tree.byname[id(el)]
                if step[1] in named:
                    following.append(named[step[1]])
                elif strict:
                    raise Missing()
        current = following
    return current


# ---------------------------------------------------------------- paths

def name(n):
    return ('name', n)


def sl(text):
    return ('slice', eval('slice(%s)' % ','.join(
        x or 'None' for x in text.split(':'))), text)


def neg(n):
    return ('slice', slice(-n, -n + 1 or None), '-%d' % n)


ALPHABET = [
    name(u'a'), name(u'l'), name(u'd'), name(u'm'), name(u'1'), name(u'0'),
    name(u'p/q'), name(u'..'), name(u'a[b]'), name(u'dt'), name(u'A'),
    ('idx', u'0'), ('idx', u'1'), ('idx', u'9'),
    sl(':'), sl('1:'), sl('::-1'), neg(1),
    ('..',), ('.',)]
SMALL = [name(u'd'), name(u'l'), ('idx', u'0'), sl(':'), sl('::-1'), neg(2),
         ('..',), name(u'a')]
MEDIUM = SMALL + [name(u'm'), name(u'1'), ('.',), sl(':1'), name(u'p/q')]
TINY = [name(u'd'), name(u'l'), ('idx', u'1'), sl(':'), ('..',), ('.',)]


def escape(n, every):
    if every or n in (u'.', u'..'):
        for c in u'/.[]':
            n = n.replace(c, u'\\' + c)
        return n
    return n.replace(u'/', u'\\/').replace(u'[', u'\\[')


def spell(absolute, steps, slash=False, every=False, tail=u''):
    """The text of a path."""
    out = u'/' if absolute else u''
    for i, step in enumerate(steps):
        brackets = step[0] in ('slice', 'idx')
        if i and (slash or not brackets or
                  steps[i - 1][0] in ('..', 'empty')):
            out += u'/'
        if step[0] == 'slice':
            out += u'[%s]' % step[2]
        elif step[0] == 'idx':
            out += u'[%s]' % step[1]
        elif step[0] == 'name':
            out += escape(step[1], every)
        elif step[0] == 'empty':
            pass
        else:
            out += unicode(step[0])
    return out + tail


def cases(tier):
    deep = tier == 'thorough'
    yield ('KF', 'slot')
    for t in sorted(TREES):
        for i in range(len(ALPHABET)):
            for j in range(-1, len(ALPHABET)):
                yield ('paths', t, 'ALPHABET', 1, (i, j))
        for i, j in itertools.product(range(len(SMALL)), repeat=2):
            yield ('paths', t, 'SMALL', 2, (i, j))
        if deep:
            for i, j in itertools.product(range(len(MEDIUM)), repeat=2):
                yield ('paths', t, 'MEDIUM', 2, (i, j))
            for i, j in itertools.product(range(len(TINY)), repeat=2):
                yield ('paths', t, 'TINY', 3, (i, j))
        yield ('slices', t)
        for i in range(len(ALPHABET)):
            yield ('spelling', t, i)
        yield ('roots', t)
    for ops in seqs(range(len(MUTATIONS)), 4 if deep else 3, 1):
        yield ('history', ops)
    for ops in seqs(range(len(MOVES)), 5 if deep else 4, 1):
        yield ('moves', ops)
        for n in range(len(MOVE_PROBES)):
            yield ('moves', ops, n)
    for order in (0, 1, 2):
        yield ('cache', order)
    for order in range(4):
        yield ('twins', order)
    yield ('types',)


def reset_cache():
    """Forget compiled paths, where the implementation lets us."""
    try:
        from flatland.schema import paths
        paths.expression_cache.clear()
    except (ImportError, AttributeError):
        pass


def ids(els):
    return [id(e) for e in els]


def one(tree, el, text, absolute, steps, mc):
    """Compare every flavour of one lookup; returns what matched."""
    try:
        loose = walk(tree, el, absolute, steps, False)
        try:
            strict = walk(tree, el, absolute, steps, True)
        except Missing:
            strict = None
    except Excluded:
        mc.count('excluded')
        return None
    mc.count('lookups')
    got = el.find(text, strict=False)
    if ids(got) != ids(loose):
        raise Violation('find(%r) from %r: got %r, expected %r' % (
            text, el, got, loose))
    if type(got) is not list:
        raise Violation('find(%r) returned %r' % (text, got))
    got.append(None)
    try:
        got = el.find(text)
    except LookupError:
        if strict is not None:
            raise Violation('strict find(%r) from %r raised' % (text, el))
        got = None
    if (got is None) != (strict is None) or \
            strict is not None and ids(got) != ids(strict):
        raise Violation('strict find(%r) from %r: got %r, expected %r' % (
            text, el, got, 'LookupError' if strict is None else strict))
    # single
    got = el.find(text, single=True, strict=False)
    if loose and not [e for e in loose if e is got] or \
            not loose and got is not None or \
            len(loose) == 1 and got is not loose[0]:
        raise Violation('single find(%r) from %r: got %r' % (text, el, got))
    try:
        got = el.find(text, single=True)
    except LookupError:
        if strict is not None and len(strict) < 2:
            raise Violation('strict single find(%r) from %r raised' % (
                text, el))
    else:
        if strict is None or len(strict) > 1 or \
                got is not (strict[0] if strict else None):
            raise Violation('strict single find(%r) from %r: got %r' % (
                text, el, got))
    return loose


def check(case, mc):
    kind = case[0]
    return globals()['check_' + kind.lower()](case, mc)


def check_kf(case, mc):
    root = Dict.of(List.named(u'l').of(String))({u'l': [u'x', u'y']})
    got = root[u'l'][0].find(u'..')
    if ids(got) != [id(root[u'l'])]:
        raise Violation('the parent of a List member is %r' % (got,))


def sweep(tree, text, absolute, steps, mc):
    """One path from every node; an absolute one selects the same."""
    hits = 0
    for el in tree.nodes:
        if one(tree, el, text, absolute, steps, mc):
            hits += 1
    return hits


def check_paths(case, mc):
    kind, t, alpha, more, (i, j) = case
    alphabet = globals()[alpha]
    tree = Tree(t)
    if j < 0:
        head, more = (alphabet[i],), 0
    else:
        head = (alphabet[i], alphabet[j])
    reset_cache()
    hits = 0
    for tail in seqs(alphabet, more, 0 if alpha == 'ALPHABET' else more):
        steps = head + tail
        for absolute in (False, True):
            text = spell(absolute, steps)
            if absolute:
                # the starting node is irrelevant: the last will do
                starts = tree.nodes[-1:]
            else:
                starts = tree.nodes
            for el in starts:
                if one(tree, el, text, absolute, steps, mc):
                    hits += 1
    if not hits:
        mc.trivial()
    return hits


def check_slices(case, mc):
    tree = Tree(case[1])
    numbers = ['', '0', '1', '2', '3', '7', '-1', '-2', '-3', '-7']
    texts = [a + ':' + b for a in numbers for b in numbers]
    texts += [a + ':' + b + ':' + c for a in numbers for b in numbers
              for c in ('', '1', '2', '-1', '-2', '9')]
    hits = 0
    for text in texts:
        steps = (sl(text),)
        for el in tree.nodes:
            if one(tree, el, spell(False, steps), False, steps, mc):
                hits += 1
    for n in range(1, 9):
        for steps in ((neg(n),), (sl(':'), neg(n)), (neg(n), sl('::2'))):
            sweep(tree, spell(False, steps), False, steps, mc)
    if not hits:
        mc.trivial()
    return hits


def check_spelling(case, mc):
    """Ways to write the same path."""
    kind, t, i = case
    tree = Tree(t)
    hits = 0
    for tail in seqs(ALPHABET, 1):
        steps = (ALPHABET[i],) + tail
        for absolute in (False, True):
            texts = set()
            for slash in (False, True):
                for every in (False, True):
                    text = spell(absolute, steps, slash, every)
                    texts.add(text)
                    texts.add(text + u'/')
                    if not absolute:
                        texts.add(u'./' + text)
            names = [s for s in steps if s[0] == 'name' and u'[' in s[1]]
            if names and steps[-1] == names[-1]:
                # a trailing [bogus] need not be escaped
                texts.add(spell(absolute, steps).replace(u'\\[', u'['))
            for text in texts:
                hits += sweep(tree, text, absolute, steps, mc)
                if len(text) == len(text.encode('ascii', 'replace')):
                    el = tree.nodes[0]
                    a = outcome(el, str(text))
                    b = outcome(el, text)
                    eq(a, b, 'byte and text spelling', text)
    if not hits:
        mc.trivial()
    return hits


def outcome(el, path):
    try:
        return ids(el.find(path))
    except LookupError:
        return 'LookupError'


def check_roots(case, mc):
    tree = Tree(case[1])
    for el in tree.nodes:
        for text in (u'', u'.', u'./', u'./.'):
            one(tree, el, text, False, (), mc)
        for text in (u'/', u'/.', u'/..', u'/../.', u'/./..'):
            one(tree, el, text, True, (), mc)
        for text in (u'//', u'//a', u'/a//', u'a//', u'a//b', u'l//0',
                     u'//[0]', u'd//a'):
            eq(el.find(text, strict=False), [], 'nobody is unnamed', text)
            try:
                el.find(text)
            except LookupError:
                continue
            raise Violation('strict %r found something' % (text,))
        if not tree.inlist(el) and not any(
                tree.inlist(p) for p in el.parents if id(p) in tree.up):
            depth = len(list(el.parents))
            for n in range(1, depth + 3):
                text = u'/'.join([u'..'] * n)
                one(tree, el, text, False, (('..',),) * n, mc)
                one(tree, el, text + u'/a', False,
                    (('..',),) * n + (name(u'a'),), mc)
    return len(tree.nodes)


def _m_append(t):
    t[u'l'].append(u'new')


def _m_pop(t):
    if len(t[u'l']):
        t[u'l'].pop(0)


def _m_replace(t):
    t[u'm'] = [[7], [8, 9]]


def _m_insert(t):
    t[u'm'].insert(0, [5])


def _m_set(t):
    t.set({u'a': u'zz', u'd': {u'a': u'8'}})


def _m_rebind(t):
    t[u'd'] = {u'a': u'r', u'l': [3, 4, 5]}


def _m_clear(t):
    del t[u'l'][:]


def _m_reverse(t):
    t[u'm'].reverse()


MUTATIONS = [_m_append, _m_pop, _m_replace, _m_insert, _m_set, _m_rebind,
             _m_clear, _m_reverse]

PROBES = [(False, (name(u'l'), ('idx', u'0'))),
          (False, (name(u'l'), sl(':'))),
          (True, (name(u'm'), sl(':'), sl('::-1'))),
          (True, (name(u'm'), neg(1), ('idx', u'0'))),
          (True, (name(u'd'), name(u'a'))),
          (False, (name(u'd'), name(u'l'), sl('1:'))),
          (False, (name(u'm'), ('idx', u'1'), ('..',), ('idx', u'0')))]


def check_history(case, mc):
    tree = Tree('form')
    other = Tree('form')
    last = None
    for n in case[1]:
        for absolute, steps in PROBES:
            one(tree, tree.root, spell(absolute, steps), absolute, steps, mc)
        MUTATIONS[n](tree.root)
        tree.refresh()
    for absolute, steps in PROBES:
        last = one(tree, tree.root, spell(absolute, steps), absolute, steps,
                   mc)
        one(other, other.root, spell(absolute, steps), absolute, steps, mc)
        for el in (tree.root[u'd'], tree.root[u'm']):
            one(tree, el, spell(absolute, steps), absolute, steps, mc)
    mc.trace()
    return len(last or ())


# (what, from or to)
MOVES = [('pop', 0), ('pop', 1), ('push', 0), ('push', 1), ('bind', 0),
         ('bind', 1)]
MOVE_PROBES = [
    (True, ()), (True, (name(u'r'), name(u'a'))),
    (True, (name(u'l'), sl(':'), name(u'a'))),
    (False, (('..',), name(u'x'))), (False, (('..',), ('..',))),
    (False, (name(u'a'),)), (True, (name(u'x'),))]


def check_moves(case, mc):
    """The same paths from elements that change trees meanwhile."""
    row = Dict.named(u'r').of(String.named(u'a'), String.named(u'x'))
    schema = SparseDict.of(row, List.named(u'l').of(row), String.named(u'x'))
    roots = [schema({u'x': u'1', u'r': {u'a': u'2'}, u'l': [{u'a': u'3'}]}),
             schema({u'x': u'4', u'r': {}, u'l': [{u'a': u'5'}, {}]})]
    held = [row({u'a': u'6', u'x': u'7'})]
    only = held[0]
    for op in (None,) + case[1]:
        if op is not None:
            what, n = MOVES[op]
            root = roots[n]
            if what == 'pop':
                if not len(root[u'l']):
                    mc.trivial()
                    return 0
                held.append(root[u'l'].pop(0))
            elif not held:
                mc.trivial()
                return 0
            elif what == 'push':
                root[u'l'].append(held.pop())
            else:
                old = root[u'r']
                root[u'r'] = held.pop()
                old.parent = None
                held.append(old)
        if len(case) > 2:
            # a single path, always from the same element
            (top,) = [t for t in roots + held
                      if only is t or any(only is e for e in t.all_children)]
            tree = Tree(None, top)
            absolute, steps = MOVE_PROBES[case[2]]
            one(tree, only, spell(absolute, steps), absolute, steps, mc)
            continue
        for top in roots + held:
            tree = Tree(None, top)
            for absolute, steps in MOVE_PROBES:
                text = spell(absolute, steps)
                for el in tree.nodes:
                    one(tree, el, text, absolute, steps, mc)
    mc.trace()
    return len(held)


def check_cache(case, mc):
    """More distinct paths than any table of them is likely to hold."""
    reset_cache()
    tree = Tree('form')
    alphabet = ALPHABET
    pool = []
    for n, steps in enumerate(itertools.islice(
            seqs(alphabet, 3, 1), 0, None, 6)):
        pool.append((bool(n % 2), steps))
        if len(pool) == 1400:
            break
    if case[1] == 1:
        pool.reverse()
    starts = [tree.root, tree.root[u'd'], tree.root[u'm']]
    rounds = (pool, pool[::-1], pool) if case[1] < 2 else (
        pool[:1010], pool[1010:1040], pool[:1010], pool[1000:], pool)
    for round_ in rounds:
        for absolute, steps in round_:
            text = spell(absolute, steps)
            for el in starts:
                one(tree, el, text, absolute, steps, mc)
    mc.trace()
    return len(pool)


TWINS = u'aA /.[]\\0'


def check_twins(case, mc):
    """What a path means doesn't depend on those looked up before it."""
    texts = [u''.join(c) for n in (1, 2, 3)
             for c in itertools.product(TWINS, repeat=n)]
    names = [u''.join(c) for n in (1, 2)
             for c in itertools.product(u'aA 0.[]', repeat=n)]
    leaf = SparseDict.of(*[String.named(n) for n in names])
    root = SparseDict.of(*[leaf.named(n) for n in names] + [
        List.named(u'').of(String)])()
    for n in names:
        root[n] = dict((m, u'x') for m in (u'a', u'A', u' ', u'0', u'.'))
    root[u''] = [u'x']
    el = root[u'a']

    def meant(text):
        try:
            return ids(el.find(text))
        except LookupError:
            return 'no child'

    alone = {}
    for text in texts:
        reset_cache()
        alone[text] = meant(text)
    order = [texts, texts[::-1], sorted(texts, key=lambda t: t.lower()),
             sorted(texts, key=lambda t: t[::-1])][case[1]]
    for again in range(2):
        reset_cache()
        for text in order:
            if meant(text) != alone[text]:
                raise Violation('%r finds something else after other paths'
                                % (text,))
            mc.transition()
    if len(set(map(repr, alone.values()))) < 50:
        raise Violation('assumed more results')
    mc.trace()
    return len(texts)


def check_types(case, mc):
    """Paths given as other things than text; names that look numeric."""
    el = Dict.of(Integer.named(u'1'), List.named(u'2').of(String))(
        {u'1': 5, u'2': [u'a', u'b']})
    eq(el.find(1, single=True).value, 5, 'a number as a path')
    eq([e.value for e in el.find(u'2[1]')], [u'b'], 'numeric names')
    eq([e.value for e in el.find(u'2/1')], [u'b'], 'numeric names')
    eq(el.find(u'[1]', single=True).value, 5, 'index on a mapping')
    uni = Dict.of(String.named(u'f\xe9e'), String.named(u'a b'),
                  String.named(u'a.b'), String.named(u'.a'))(
        {u'f\xe9e': u'1', u'a b': u'2', u'a.b': u'3', u'.a': u'4'})
    for path, want in ((u'f\xe9e', u'1'), (u'a b', u'2'), (u'a.b', u'3'),
                       (u'.a', u'4'), (u'/.a', u'4'), (u'./.a', u'4'),
                       (u'a\\.b', u'3'), (u'\\.a', u'4')):
        eq(uni.find(path, single=True).value, want, 'name', path)
    try:
        el.find(u'nope')
    except LookupError, e:
        true('nope' in str(e), 'the message names the child', str(e))
    return 1
