# -*- coding: utf-8 -*-
"""C11: bound form controls show exactly the element state."""
import itertools

from flatland import (Array, Boolean, Compound, DateYYYYMMDD, Dict, Enum,
                      Integer, List, MultiValue, String)
from flatland.out.markup import Generator
from flatland.util import Maybe
from lib import Violation, eq, seqs, true
import markup_model as mm

LEVEL = 'exploration'
RULE = ('A case is (space, tag, fixed part of the configuration); every '
        'choice of the remaining attributes, settings and binds is rendered, '
        'parsed and compared with the reference rules, including attribute '
        'order, contents, tag ending and the settings afterwards. '
        'Non-trivial: some rendering of the case is bound.')
BOUNDS = {
    'quick': '17 kinds of tag x 19 bound elements or none x attribute '
             'presence (name, value, id, for, tabindex, checked, selected) x '
             'own and context switches for each transform in turn, all '
             'switch spellings, all joint on/off/absent switches of all '
             'transforms, sequences of <=3 tags for tab indexes, lists of '
             '<=2 filters',
    'thorough': 'as quick with 5 switch settings for joint switches and tab '
                'index sequences of <=4 tags',
}
ASSUMPTIONS = [
    'input types the documentation does not name are out of scope, as are '
    'binds to List and Dict elements for choices',
]

INPUT_TYPES = (None, u'text', u'hidden', u'submit', u'radio', u'checkbox',
               u'password', u'file', u'image', u'button', u'reset')
OTHER = (u'button', u'select', u'option', u'textarea', u'form', u'label',
         u'div')
KINDS = [(u'input', t) for t in INPUT_TYPES] + [(t, None) for t in OTHER]


def _form():
    return Dict.named(u'f').of(
        String.named(u'x'),
        List.named(u'l').of(Dict.of(String.named(u'y')))).from_flat(
        [(u'f_x', u'a'), (u'f_l_0_y', u'b')])


def _boolean(value, **kw):
    el = Boolean.named(u'n').using(**kw)()
    el.set(value)
    return el


def _date():
    el = DateYYYYMMDD.named(u'n')()
    el.set(u'2010-01-02')
    return el


def _bad():
    el = Integer.named(u'n')()
    el.set(u'a')
    return el


B = mm.Bind
BINDS = [
    ('none', lambda: None, None),
    ('a', lambda: String.named(u'n')(u'a'), B(u'n', u'a')),
    ('b', lambda: String.named(u'n')(u'b'), B(u'n', u'b')),
    ('empty', lambda: String.named(u'n')(), B(u'n', u'')),
    ('unnamed', lambda: String(u'a'), B(u'', u'a')),
    ('odd name', lambda: String.named(u'n[] é')(u'a b'), B(u'n[] é', u'a b')),
    ('bool on', lambda: _boolean(True), B(u'n', u'1', true=u'1')),
    ('bool off', lambda: _boolean(False), B(u'n', u'', true=u'1')),
    ('bool custom', lambda: _boolean(u'a', true=u'a', false=u'b',
                                     true_synonyms=(), false_synonyms=()),
     B(u'n', u'a', true=u'a')),
    ('bool custom off', lambda: _boolean(u'b', true=u'a', false=u'b',
                                         true_synonyms=(),
                                         false_synonyms=()),
     B(u'n', u'b', true=u'a')),
    ('array', lambda: Array.named(u'n').of(String)([u'a', u'zz']),
     B(u'n', None, values=[u'a', u'zz'])),
    ('array empty', lambda: Array.named(u'n').of(String)(),
     B(u'n', None, values=[])),
    ('array int', lambda: Array.named(u'n').of(Integer)([1, u'b']),
     B(u'n', None, values=[u'1', u'b'])),
    ('multi', lambda: MultiValue.named(u'n').of(String)([u'a', u'b']),
     B(u'n', u'a', values=[u'a', u'b'])),
    ('int', lambda: Integer.named(u'n')(1), B(u'n', u'1')),
    ('bad int', _bad, B(u'n', u'a')),
    ('enum', lambda: Enum.named(u'n').valued(u'a', u'b')(u'b'), B(u'n', u'b')),
    ('child', lambda: _form()[u'x'], B(u'f_x', u'a')),
    ('grandchild', lambda: _form()[u'l'][0][u'y'], B(u'f_l_0_y', u'b')),
    ('date', _date, B(u'n', u'2010-01-02')),
]
BIND = dict((n, (mk, b)) for n, mk, b in BINDS)
SCALAR = [n for n, mk, b in BINDS if b is None or b.values is None]

TOGGLES = (None, u'on', u'off', u'auto', True, False)
CTX_TOGGLES = (None, u'on', u'off', u'auto')
EVERY = (True, False, Maybe, u'on', u'ON', u'off', u'Off', u'auto', u'AUTO',
         u'1', u'0', 1, 0, u'true', u'True', u'false', u't', u'nil', u'yes',
         u'no', u'maybe', u'', None, 'on', 'off', 'auto')
# u'f' and others are not documented; anything else means automatic


def expect(tagname, attrs, contents, ctx, bind, xml, call='property'):
    a, c = mm.transform(tagname, attrs, contents, ctx, bind)
    text = c[1] if isinstance(c, tuple) else (c or u'')
    return (tagname, mm.ordered(a), text if text else u'',
            mm.style(tagname, text, xml))


PROPERTY = ('input', 'button', 'select', 'option', 'textarea', 'form',
            'label')


def render(gen, tagname, attrs, contents, el, how):
    kw = dict((str(k), v) for k, v in attrs.items())
    for k in ('for', 'class'):
        if k in kw:
            kw[k + '_'] = kw.pop(k)
    if contents is not None:
        kw['contents'] = contents
    if how == 'property' and tagname in PROPERTY:
        return getattr(gen, str(tagname))(el, **kw)
    if how == 'open':
        t = getattr(gen, str(tagname)) if tagname in PROPERTY else \
            gen.tag(tagname)
        out = t.open(el, **kw)
        body = t.contents
        return (out, body, t.close())
    out = gen.tag(tagname.upper() if how == 'upper' else tagname, el, **kw)
    if hasattr(out, 'open'):         # nothing given: the tag itself
        out = out()
    return out


def compare(gen, ctx, tagname, attrs, contents, bindname, el, xml, how, mc):
    model = BIND[bindname][1]
    want = expect(tagname, attrs, contents, ctx, model, xml)
    out = render(gen, tagname, dict(attrs), contents, el, how)
    what = (tagname, sorted(attrs.items()), contents, bindname, how)
    if how == 'open':
        head, body, end = out
        eq(unicode(end), u'</%s>' % tagname, 'closing tag', what)
        name, pairs, none, style = mm.parse_tag(unicode(head))
        eq((none, style), (None, 'open'), 'opening tag', head, what)
        eq((name, pairs), want[:2], 'opening tag', head, what)
        eq(mm.decode(unicode(body)), want[2], 'contents', what)
    else:
        name, pairs, body, style = mm.parse_tag(unicode(out))
        eq((name, pairs, body or u'', style), want, 'tag', unicode(out), what)
    eq(gen['tabindex'], ctx.d['tabindex'], 'next tabindex', what)
    mc.count('tags_rendered')


def optional(key, values):
    return [{} if v is None else {key: v} for v in values]


def merged(*parts):
    out = {}
    for p in parts:
        out.update(p)
    return out


def contexts(key, values):
    return [{} if v is None else {key: v} for v in values]


def applicable(kind, bindname):
    """Choices are matched against scalars and arrays; values and bodies need
    a scalar."""
    tagname, t = kind
    if BIND[bindname][1] is not None and BIND[bindname][1].u is None:
        return tagname in (u'option', u'select', u'form', u'label') or t in (
            u'radio', u'checkbox')
    return True


# ---- spaces ------------------------------------------------------------

def space_value(kind, bindname):
    tagname, t = kind
    marks = [{}]
    if t in (u'radio', u'checkbox'):
        marks.append({u'checked': u'checked'})
    elif tagname == u'option':
        marks.append({u'selected': u'selected'})
    bodies = (None,)
    if tagname != u'input':
        bodies = (None, u'', u'a', u' \n a ', u'b', u'zz')
    for value in optional(u'value', (None, u'', u'a', u'b', u'zz', u'1')):
        for mark in marks:
            for body in bodies:
                for own in optional(u'auto_value', TOGGLES):
                    if own and trool(own) is True and t is None and \
                            not has_value_rule(kind) and \
                            BIND[bindname][1] and \
                            BIND[bindname][1].u is None:
                        continue
                    for ctx in contexts('auto_value', CTX_TOGGLES):
                        yield merged(value, mark, own), body, ctx


def trool(d):
    return mm.trool(list(d.values())[0])


def has_value_rule(kind):
    return kind[0] in mm.TAGS['value']


def space_name(kind, bindname):
    for name in optional(u'name', (None, u'', u'given', u'n')):
        for own in optional(u'auto_name', TOGGLES):
            for ctx in contexts('auto_name', CTX_TOGGLES):
                yield merged(name, own, {u'auto_value': u'off'}), None, ctx


def space_domid(kind, bindname):
    for i in optional(u'id', (None, u'', u'given')):
        for own in optional(u'auto_domid', TOGGLES):
            for name in optional(u'name', (None, u'', u'given')):
                for value in optional(u'value', (None, u'', u'a', u'é b:c.9')):
                    for ctx in contexts('auto_domid', CTX_TOGGLES):
                        yield (merged(i, own, name, value,
                                      {u'auto_value': u'off'}), None, ctx)
                    yield (merged(i, own, name, value,
                                  {u'auto_value': u'off'}), None,
                           {'domid_format': u'x-%s-y', 'auto_domid': True})


def space_for(kind, bindname):
    for i in optional(u'for', (None, u'', u'given')):
        for own in optional(u'auto_for', TOGGLES):
            for value in optional(u'value', (None, u'a')):
                for name in optional(u'name', (None, u'other')):
                    # left to its default, documentation and code disagree
                    for ctx in contexts('auto_for', (u'on', u'off', True)):
                        yield (merged(i, own, value, name,
                                      {u'auto_value': u'off'}), u'L', ctx)
            yield (merged(i, own, {u'auto_value': u'off'}), None,
                   {'domid_format': u'%s!', 'auto_for': True})


def space_tabindex(kind, bindname):
    for n in (-1, 0, 1, 99):
        for own in optional(u'auto_tabindex', TOGGLES):
            for given in optional(u'tabindex', (None, u'', u'5')):
                for ctx in contexts('auto_tabindex', CTX_TOGGLES):
                    yield (merged(own, given, {u'auto_value': u'off'}), None,
                           merged(ctx, {'tabindex': n}))


SPACES = {'value': space_value, 'name': space_name, 'domid': space_domid,
          'for': space_for, 'tabindex': space_tabindex}

SWITCHES = ('name', 'value', 'domid', 'for', 'tabindex', 'filter')


def cases(tier):
    for space in sorted(SPACES):
        for kind in KINDS:
            for bindname, mk, b in BINDS:
                if space == 'value' and not applicable(kind, bindname):
                    continue
                yield (space, kind, bindname)
    for key in SWITCHES:
        for where in ('own', 'begin', 'set', 'init'):
            yield ('spelling', key, where)
    vals = (None, u'on', u'off') if tier == 'quick' else TOGGLES[:5]
    for kind in ((u'input', None), (u'input', u'checkbox'),
                 (u'input', u'password'), (u'textarea', None),
                 (u'option', None), (u'label', None), (u'div', None)):
        for bindname in ('none', 'a', 'bool on', 'child', 'unnamed'):
            for v in vals:
                for w in vals:
                    yield ('joint', tier, kind, bindname, v, w)
    for start in (-2, 0, 1, 9, 100):
        for ctx in (u'off', u'on', u'auto'):
            for head in seqs(range(len(TABBED)), 2):
                yield ('tabs', tier, start, ctx, head)
    for names in seqs(sorted(FILTERS), 2):
        yield ('filters', names)
    for kind in KINDS:
        for how in ('property', 'tag', 'upper', 'open'):
            for markup in ('html', 'xhtml', 'xml'):
                yield ('form', kind, how, markup)
    yield ('order',)


TABBED = [
    (u'input', {}), (u'select', {}), (u'label', {}), (u'div', {}),
    (u'button', {u'tabindex': u'3'}),
    (u'input', {u'auto_tabindex': u'on'}),
    (u'label', {u'auto_tabindex': u'on'}),
    (u'textarea', {u'auto_tabindex': u'off'}),
    (u'textarea', {u'auto_tabindex': u'on', u'tabindex': u'3'}),
]


def _rename(a, c):
    a[u'seen'] = a.get(u'seen', u'') + u'r' + a.get(u'name', u'-')
    return c


def _body(a, c):
    a[u'seen'] = a.get(u'seen', u'') + u'b'
    return (c if c and not isinstance(c, tuple) else u'') + u'body'


def _drop(a, c):
    a.pop(u'value', None)
    return c


FILTERS = {
    'rename': (None, _rename), 'body': ((u'button', u'div'), _body),
    'drop': ((u'input',), _drop), 'empty tags': ((), _rename),
}


def real_filter(name):
    tags, fn = FILTERS[name]

    def filt(tagname, attributes, contents, context, bind):
        return fn(attributes, contents)
    if tags is not None:
        filt.tags = tags
    return filt


def check(case, mc):
    space = case[0]
    if space in SPACES:
        return check_space(case, mc)
    return globals()['check_' + space](case, mc)


def check_space(case, mc):
    space, kind, bindname = case
    tagname, t = kind
    el = BIND[bindname][0]()
    n = 0
    model = BIND[bindname][1]
    gen = Generator('xhtml')
    for attrs, body, settings in SPACES[space](kind, bindname):
        attrs = merged(attrs, {u'type': t} if t else {})
        if space != 'value':
            settings = merged(settings)
        if bindname.startswith('array') and needs_text(tagname, attrs,
                                                       settings):
            continue
        ctx = mm.Ctx(**settings)
        gen.begin(**dict((str(k), v) for k, v in settings.items()))
        compare(gen, ctx, tagname, attrs, body, bindname, el, True,
                'property', mc)
        gen.end()
        n += 1
    if model is None:
        mc.trivial()
    return n


def needs_text(tagname, attrs, settings):
    """Forcing the text of an array into a tag is not specified."""
    own = mm.trool(attrs.get(u'auto_value', u'auto'))
    t = attrs.get(u'type')
    if t in (u'radio', u'checkbox') or tagname == u'option':
        return False
    return own is True or own is None and tagname in mm.TAGS['value']


def check_spelling(case, mc):
    space, key, where = case
    n = 0
    name = 'auto_' + key
    for value in EVERY:
        if where in ('begin', 'init') and value == u'' or value is Maybe:
            model = u'auto'
        else:
            model = value
        for tagname in (u'input', u'label', u'div'):
            settings = {'tabindex': 4, 'filters': [real_filter('rename')]}
            ctx = mm.Ctx(tabindex=4, filters=[FILTERS['rename']])
            attrs = {}
            gen = None
            if where == 'own':
                gen = Generator(**settings)
                attrs[unicode(name)] = value
                want = {unicode(name): model}
            else:
                want = {}
                ctx.d[name] = model
                if where == 'init':
                    settings[name] = value
                    gen = Generator(**settings)
                else:
                    gen = Generator(**settings)
                    if where == 'begin':
                        gen.begin(**{name: value})
                    else:
                        gen.set(**{name: value})
            if key == 'for' and tagname == u'label' and \
                    mm.trool(model) is None:
                continue            # documentation and code disagree
            e = expect(tagname, want, None, ctx, BIND['a'][1], True)
            out = render(gen, tagname, attrs, None, BIND['a'][0](),
                         'property')
            got = mm.parse_tag(unicode(out))
            eq((got[0], got[1], got[2] or u'', got[3]), e, 'tag', value,
               where, key, tagname)
            n += 1
    return n


def check_joint(case, mc):
    space, tier, kind, bindname, v, w = case
    tagname, t = kind
    vals = (None, u'on', u'off') if tier == 'quick' else TOGGLES[:5]
    el = BIND[bindname][0]()
    base = {u'type': t} if t else {}
    for given in ({}, {u'name': u'g', u'value': u'a', u'id': u'i',
                       u'for': u'o', u'tabindex': u'2'}):
        gen = Generator('xhtml', tabindex=7, auto_for=False,
                        filters=[real_filter('rename')])
        for rest in itertools.product(vals, repeat=len(SWITCHES) - 2):
            ctx = mm.Ctx(tabindex=gen['tabindex'], auto_for=False,
                         filters=[FILTERS['rename']])
            attrs = dict(base)
            attrs.update(given)
            for key, value in zip(SWITCHES, (v, w) + rest):
                if value is not None:
                    attrs[u'auto_' + key] = value
            if attrs.get(u'auto_for') == u'auto':
                continue
            compare(gen, ctx, tagname, attrs, None, bindname, el, True,
                    'property', mc)
    if bindname == 'none':
        mc.trivial()
    return bindname


def check_tabs(case, mc):
    space, tier, start, switch, head = case
    more = 1 if tier == 'quick' else 2
    n = 0
    for tail in seqs(range(len(TABBED)), more, more):
        gen = Generator(auto_tabindex=switch)
        gen.set(tabindex=start)
        ctx = mm.Ctx(auto_tabindex=switch, tabindex=start)
        for i in head + tail:
            tagname, attrs = TABBED[i]
            compare(gen, ctx, tagname, attrs, None,
                    'none' if i % 2 else 'empty', BIND['empty'][0]()
                    if not i % 2 else None, True, 'property', mc)
        n += 1
    return n


def check_filters(case, mc):
    space, names = case
    n = 0
    for tagname in (u'input', u'button', u'div', u'label'):
        for own in (None, u'on', u'off', u'auto'):
            for c in (None, u'on', u'off', u'auto'):
                settings = {} if c is None else {'auto_filter': c}
                attrs = {} if own is None else {u'auto_filter': own}
                for bindname in ('a', 'none'):
                    gen = Generator(filters=[real_filter(f) for f in names],
                                    **settings)
                    ctx = mm.Ctx(filters=[FILTERS[f] for f in names],
                                 **settings)
                    compare(gen, ctx, tagname, attrs, None, bindname,
                            BIND[bindname][0](), True, 'property', mc)
                    n += 1
    return n


def check_form(case, mc):
    """Every way of asking for a tag, in every markup style."""
    space, kind, how, markup = case
    tagname, t = kind
    n = 0
    for bindname in ('none', 'a', 'empty', 'bool on', 'child'):
        for contents in (None, u'', u'body'):
            for given in ({}, {u'class': u'c', u'for': u'q', u'value': u'a',
                               u'name': u'm', u'zed': u'', u'alt': u'x'}):
                attrs = merged(given, {u'type': t} if t else {})
                gen = Generator(markup, tabindex=3, auto_tabindex=True)
                ctx = mm.Ctx(tabindex=3, auto_tabindex=True)
                compare(gen, ctx, tagname, attrs, contents, bindname,
                        BIND[bindname][0](), markup != 'html', how, mc)
                n += 1
    return n


def check_order(case, mc):
    names = (u'type', u'name', u'value', u'alt', u'zip', u'id', u'checked')
    for sub in itertools.chain(*[itertools.permutations(names, k)
                                 for k in range(1, 5)]):
        attrs = dict((k, k) for k in sub)
        compare(Generator(), mm.Ctx(), u'input', attrs, None, 'none', None,
                True, 'property', mc)
    return 1
