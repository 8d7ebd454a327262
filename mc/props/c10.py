# -*- coding: utf-8 -*-
"""C10: element data can never break out of generated markup."""
import itertools

from flatland import (Array, Boolean, Dict, Enum, Form, Integer, List, String)
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from lib import Violation, eq, seqs, true
from markup_model import decode, parse_tag

LEVEL = 'exploration'
RULE = ('A case is (position, markup style, prefix of the text); every text '
        'with that prefix is rendered in the position and parsed back. '
        'Non-trivial: some text of the case holds a character significant '
        'in markup.')
BOUNDS = {
    'quick': '34 positions (values, bodies, names, ids, explicit attributes, '
             'formats, objects that are markup, .x, .xa, nesting) x 3 markup '
             'styles x ordered or not x 3 wrappers; all texts of <=3 symbols '
             'over 8 characters and all of <=2 over 18 characters and tokens',
    'thorough': 'texts of <=4 over the 8 characters and <=3 over the 18 '
                'characters and tokens',
}
ASSUMPTIONS = ['explicit contents and the names of explicit attributes are '
               'the caller\'s own markup and are not escaped']

CHARS = u'&<>"\'a;\n'
TOKENS = (u'&', u'<', u'>', u'"', u"'", u'a', u'é', u' ', u'\u2028',
          u'\U0001f600', u'amp;', u'&lt;', u'&#34;', u']]>', u'<!--',
          u'</textarea>', u'"><script>', u'--')

Text = String.using(strip=False)


def bound(s, name=u'n'):
    el = Text.named(name)()
    true(el.set(s), 'set', s)
    eq(el.u, s, 'text of the element')
    return el


class HTML(object):
    def __init__(self, text):
        self.text = text

    def __html__(self):
        return self.text


class Sub(unicode):
    pass


def safe(s):
    """An escaping unlike the library's: every character as a reference."""
    return u''.join(u'&#x%x;' % ord(c) if c not in u'\U0001f600' else c
                    for c in s)


def no(d, **drop):
    return dict((k, v) for k, v in d.items() if v is not None)


POS = {}


def position(fn):
    POS[fn.__name__] = fn
    return fn


# each returns (markup, tagname, attributes, contents)
@position
def input_value(g, s):
    return g.input(bound(s)), u'input', {u'name': u'n', u'value': s}, u''


@position
def hidden_value(g, s):
    return (g.input(bound(s), type=u'hidden'), u'input',
            {u'type': u'hidden', u'name': u'n', u'value': s}, u'')


@position
def forced_password(g, s):
    return (g.input(bound(s), type=u'password', auto_value=True), u'input',
            {u'type': u'password', u'name': u'n', u'value': s}, u'')


@position
def forced_over_attribute(g, s):
    return (g.input(bound(s), value=u'old', auto_value=u'on'), u'input',
            {u'name': u'n', u'value': s}, u'')


@position
def forced_on_any_tag(g, s):
    return (g.tag(u'div', bound(s), auto_value=True), u'div',
            {u'value': s}, u'')


@position
def checkbox_value(g, s):
    return (g.input(bound(s), type=u'checkbox', value=s), u'input',
            {u'type': u'checkbox', u'name': u'n', u'value': s,
             u'checked': u'checked'}, u'')


@position
def checkbox_boolean(g, s):
    el = Boolean.named(u'n').using(true=s or u'1')()
    return (g.input(el, type=u'checkbox'), u'input',
            {u'type': u'checkbox', u'name': u'n', u'value': s or u'1'}, u'')


@position
def radio_array(g, s):
    el = Array.named(u'n').of(Text)([u'zz', s])
    return (g.input(el, type=u'radio', value=s), u'input',
            {u'type': u'radio', u'name': u'n', u'value': s,
             u'checked': u'checked'}, u'')


@position
def textarea_body(g, s):
    return g.textarea(bound(s)), u'textarea', {u'name': u'n'}, s


@position
def textarea_forced(g, s):
    return (g.textarea(bound(s), contents=u'<i>old</i>', auto_value=True),
            u'textarea', {u'name': u'n'}, s)


@position
def button_value(g, s):
    return g.button(bound(s)), u'button', {u'name': u'n', u'value': s}, u''


@position
def option_value(g, s):
    return (g.option(bound(s), value=s), u'option',
            {u'value': s, u'selected': u'selected'}, u'')


@position
def select_name(g, s):
    return (g.select(bound(u'v', s)), u'select',
            {u'name': s} if s else {}, u'')


@position
def input_name(g, s):
    return (g.input(bound(u'v', s)), u'input',
            {u'name': s, u'value': u'v'} if s else {u'value': u'v'}, u'')


@position
def nested_name(g, s):
    form = Dict.named(u'f').of(Text.named(s or u'x'))()
    return (g.input(form[s or u'x']), u'input',
            {u'name': u'f_' + (s or u'x'), u'value': u''}, u'')


@position
def dict_name(g, s):
    form = Dict.named(s).of(Text.named(u'x'))()
    return (g.form(form), u'form', {u'name': s} if s else {}, u'')


@position
def domid(g, s):
    want = {u'name': s, u'value': u'v', u'id': u'f_' + s} if s else \
        {u'value': u'v'}
    return g.input(bound(u'v', s), auto_domid=True), u'input', want, u''


@position
def domid_unbound(g, s):
    want = {u'name': s, u'id': u'f_' + s} if s else {u'name': u''}
    return g.input(name=s, auto_domid=True), u'input', want, u''


@position
def domid_format(g, s):
    g.begin(domid_format=s.replace(u'%', u'%%') + u'%s', auto_domid=True)
    out = g.input(bound(u'v'))
    g.end()
    return (out, u'input',
            {u'name': u'n', u'value': u'v', u'id': s + u'n'}, u'')


@position
def label_for(g, s):
    return (g.label(bound(u'v', s), auto_for=True), u'label',
            {u'for': u'f_' + s} if s else {}, u'')


@position
def attribute(g, s):
    return (g.input(class_=s, title=s, type=s), u'input',
            {u'class': s, u'title': s, u'type': s}, u'')


@position
def attribute_bound(g, s):
    return (g.input(bound(u'v'), name=s, value=s, id=s, auto_domid=u'auto'),
            u'input', {u'name': s, u'value': s, u'id': s}, u'')


@position
def attribute_subclass(g, s):
    return (g.textarea(rel=Sub(s), value=Sub(s)), u'textarea',
            {u'rel': s, u'value': s}, u'')


@position
def attribute_bytes(g, s):
    try:
        b = s.encode('ascii')
    except UnicodeError:
        b = s
    return g.tag(u'a', href=b), u'a', {u'href': s}, u''


@position
def attribute_of_any(g, s):
    return (g.tag('img', bound(u'v'), alt=s, src=s), u'img',
            {u'alt': s, u'src': s}, u'')


@position
def filter_attribute(g, s):
    def add(tagname, attributes, contents, context, bind):
        attributes[u'data'] = bind.u
        return contents
    g.begin(auto_filter=True, filters=[add])
    out = g.select(bound(s))
    g.end()
    return out, u'select', {u'name': u'n', u'data': s}, u''


@position
def enum_value(g, s):
    el = Enum.named(u'n').using(child_type=Text).valued(u'zz', s)(s)
    return g.input(el), u'input', {u'name': u'n', u'value': s}, u''


@position
def rejected_value(g, s):
    el = Integer.named(u'n')()
    s += u'x'
    el.set(s)
    return g.input(el), u'input', {u'name': u'n', u'value': s}, u''


@position
def markup_attribute(g, s):
    h = safe(s)
    for obj in (HTML(h), Markup(h), HTML(Sub(h)), Own(h)):
        out = g.input(value=obj, title=s)
        if u'value="%s"' % h not in out:
            raise Violation('markup changed on the way: %r in %r' % (h, out))
    return out, u'input', {u'value': s, u'title': s}, u''


@position
def markup_contents(g, s):
    h = safe(s)
    for obj in (HTML(h), Markup(h), Own(h)):
        out = g.tag(u'b', title=s, contents=obj)
        if h and not out.endswith(u'>%s</b>' % h):
            raise Violation('markup changed on the way: %r in %r' % (h, out))
    return out, u'b', {u'title': s}, s


@position
def open_close(g, s):
    tag = g.textarea
    out = tag.open(bound(s), title=s)
    out = out + tag.contents + tag.close()
    return out, u'textarea', {u'name': u'n', u'title': s}, s


@position
def embedded(g, s):
    inner = g.input(bound(s), title=s)
    outer = g.label(contents=inner)
    eq(unicode(outer), u'<label>' + unicode(inner) + u'</label>',
       'embedding', s)
    deeper = g.tag(u'p', contents=HTML(unicode(outer)))
    eq(unicode(deeper), u'<p>' + unicode(outer) + u'</p>', 'embedding', s)
    return (inner, u'input',
            {u'name': u'n', u'value': s, u'title': s}, u'')


@position
def x_text(g, s):
    el = bound(s)
    for e in (el, Enum.using(child_type=Text).valued(s)(s),
              List.of(Text)([s]), Dict.of(Text.named(u'k'))({u'k': s}),
              Array.of(Text)([s])):
        got = e.x
        if u'<' in got or u'>' in got:
            raise Violation('markup in .x of %r: %r' % (e, got))
        eq(decode(got), e.u, '.x decoded', s)
    return u'<b>%s</b>' % el.x, u'b', {}, s


@position
def xa_text(g, s):
    el = bound(s)
    for e in (el, List.of(Text)([s]), Dict.of(Text.named(u'k'))({u'k': s})):
        out = u'<b v="%s"></b>' % e.xa
        eq(parse_tag(out)[1], [(u'v', e.u)], '.xa decoded', s)
    return u'<b v="%s"></b>' % el.xa, u'b', {u'v': s}, u''


def texts(tier, prefix):
    kind, head = prefix
    alphabet, n = (CHARS, 3) if kind == 'chars' else (TOKENS, 2)
    if tier == 'thorough':
        n += 1
    if not head:
        yield u''
        return
    for tail in seqs(alphabet, n - len(head)):
        yield u''.join(head) + u''.join(tail)


GENERATORS = [(m, o, w) for m in ('html', 'xhtml', 'xml')
              for o in (True, False)
              for w in ('flatland', 'own', 'plain')]


class Own(unicode):
    def __html__(self):
        return unicode(self)


WRAPPERS = {'flatland': Markup, 'own': Own, 'plain': unicode}


def cases(tier):
    prefixes = [('chars', ())]
    prefixes += [('chars', (c,)) for c in CHARS]
    prefixes += [('tokens', (c,)) for c in TOKENS]
    for pos in sorted(POS):
        for markup in ('html', 'xhtml', 'xml'):
            for prefix in prefixes:
                yield (tier, pos, markup, prefix)


def check(case, mc):
    tier, pos, markup, prefix = case
    kinds = [g for g in GENERATORS if g[0] == markup]
    n = 0
    for s in texts(tier, prefix):
        # all of the styles for short texts, the default one for the rest
        for m, o, w in (kinds if len(s) < 2 else kinds[:1]):
            gen = Generator(m, ordered_attributes=o,
                            markup_wrapper=WRAPPERS[w])
            out, tagname, attrs, contents = POS[pos](gen, s)
            if not pos.startswith('x') and pos != 'open_close':
                true(w == 'plain' or
                     unicode(out.__html__()) == unicode(out),
                     'result is markup', s, pos)
                true(isinstance(out, WRAPPERS[w]), 'wrapper', s)
            name, got, body, end = parse_tag(unicode(out))
            eq(name, tagname, 'tag', s, case)
            eq(dict(got), attrs, 'attributes', s, case)
            eq(body or u'', contents, 'contents', s, case)
            n += 1
    mc.count('texts_rendered', n)
    if prefix[1] in ((u'a',), (u'é',), (u' ',), ()):
        mc.trivial()
    return n
