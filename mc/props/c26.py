# -*- coding: utf-8 -*-
"""C26: template directives produce the controls the generator produces."""
import itertools

from genshi.builder import tag as builder
from genshi.core import Markup as GenshiMarkup

from flatland import Array, Boolean, Dict, Integer, String
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from lib import Violation, eq, seqs, true
import markup_model as mm
import minigenshi as mg

LEVEL = 'model_checking'
RULE = ('A case is a group of templates. Rendered tags are compared with what '
        'the tag generator returns for the same tag ("tags") or with a '
        'rendering by the template engine alone, with the flatland attributes '
        'left out, to whose tags the reference transforms are applied in '
        'document order (the other spaces). Non-trivial: something is bound.')
BOUNDS = {
    'quick': 'tags: 12 controls x 9 sets of explicit attributes x 3 bodies x '
             '13 switches x 3 settings x 8 binds; switches: 21 computed texts '
             'for each of 6 switches x 4 engine directives, and for 15 pairs '
             'of them; bodies: all sequences of '
             '<=2 of 12 texts, expressions and tags x 4 controls x 4 binds, '
             'and of <=1 x 13 engine directives, and 9 interpolated '
             'attributes; selects: all sequences of <=2 of 25 kinds of '
             'children x 5 binds; scopes: all nestings of <=3 of 13 blocks, '
             'settings and tags, each rendered twice',
    'thorough': 'bodies <=3, selects <=3, scopes <=4',
}
ASSUMPTIONS = [
    'Genshi parses with expat, which Jython lacks: templates are given to it '
    'as event streams, and its expressions are evaluated by Jython itself '
    '(mc/minigenshi.py). Everything else is Genshi as installed.',
    'Settings made by a template function whose call is all of a bound '
    'tag\'s body are made before that tag: not examined.',
    'Switches on options defined in a template function are not examined.',
]

U = u'hit'
other = String.named(u'o')(u'miss')


def array():
    return Array.named(u'a').of(String)([U, u'x'])


BINDS = {
    'str': (lambda: String.named(u'n')(U), mm.Bind(u'n', U)),
    'odd': (lambda: String.named(u'n')(u'<&"'), mm.Bind(u'n', u'<&"')),
    'bool': (lambda: Dict.named(u'd').of(Boolean.named(u'b').using(true=U))(
        {u'b': True})[u'b'], mm.Bind(u'd_b', U, true=U)),
    'array': (array, mm.Bind(u'a', array().u, values=[U, u'x'])),
    'noname': (lambda: String(U), mm.Bind(None, U)),
    # these are false
    'empty': (lambda: String.named(u'n')(u''), mm.Bind(u'n', u'')),
    'zero': (lambda: Integer.named(u'n')(0), mm.Bind(u'n', u'0')),
    'none': (lambda: None, None),
    'other': (lambda: other, mm.Bind(u'o', u'miss')),
}


# ---- reading rendered templates --------------------------------------------

def tree(text):
    """[children]: texts, (tag, attributes, children) or ('!', comment)."""
    out, stack, pos = [], [], 0
    here = out

    def put(item):
        if isinstance(item, unicode) and here and \
                isinstance(here[-1], unicode):
            here[-1] += item
        elif item != u'':
            here.append(item)

    while pos < len(text):
        m = mg.TOKEN.match(text, pos)
        if not m:
            raise Violation('rendered %r' % (text,))
        comment, slash, name, attrs, closed, chars = m.groups()
        pos = m.end()
        if name is None:
            put(mm.decode(chars) if chars is not None else ('!', comment))
        elif slash:
            if not stack or stack[-1][0] != name:
                raise Violation('rendered %r' % (text,))
            here = stack.pop()[1]
        else:
            pairs = [(k, mm.decode(v)) for k, v in mg.ATTR.findall(attrs)]
            if len(dict(pairs)) != len(pairs):
                raise Violation('repeated attribute: %r' % (text,))
            node = (name, dict(pairs), [])
            put(node)
            if not closed:
                stack.append((name, here))
                here = node[2]
    if stack:
        raise Violation('rendered %r' % (text,))
    return out


def render(text, variables, method='xml', default=u''):
    made = mg.template(text, default)
    return mg.render(made, variables, method)


def text_of(children):
    """Text of a body as the transforms see it (None when there are tags)."""
    if not children:
        return u''
    if len(children) == 1 and isinstance(children[0], unicode):
        return children[0]
    return children


def apply_rules(node, ctx, bind, switches, static_body):
    """Transform a plainly rendered (tag, attributes, children)."""
    name, attrs, children = node
    body = text_of(children)
    if body == u'' and not static_body:
        body = None
    merged = dict(attrs, **switches)
    plain = body if isinstance(body, unicode) or body is None else u'\0'
    a, contents = mm.transform(name, merged, plain, ctx, bind)
    if isinstance(contents, tuple):
        children = [contents[1]] if contents[1] else []
    elif contents is not plain and contents != plain:
        children = [contents] if contents else []
    return (name, a, children)


# ---- space: tags -----------------------------------------------------------

CONTROLS = [(u'input', None), (u'input', u'text'), (u'input', u'checkbox'),
            (u'input', u'radio'), (u'input', u'password'),
            (u'button', None), (u'button', u'submit'), (u'select', None),
            (u'textarea', None), (u'option', None), (u'label', None),
            (u'form', None), (u'p', None)]
EXPLICIT = [{}, {u'value': U}, {u'value': u'x-1'}, {u'name': u'q'},
            {u'name': u'q', u'value': U, u'checked': u'yes'},
            {u'id': u'i', u'selected': u'1'}, {u'for': u'z', u'value': u''},
            {u'tabindex': u'-1', u'class': u'c', u'name': u''},
            {u'value': u'', u'id': u'', u'checked': u'1'}]
BODIES = [None, u'hit', u' hit ']
SWITCHES = [None] + [(k, v) for k in (u'name', u'value', u'domid', u'for',
                                      u'tabindex', u'filter')
                     for v in (u'on', u'off')]


def stamp(tagname, attributes, contents, context, bind):
    attributes[u'f'] = tagname
    return contents


def prune(tagname, attributes, contents, context, bind):
    return None


prune.tags = [u'label']
SETTINGS = [
    ({}, u''),
    (dict(auto_domid=u'on', domid_format=u'x%s', auto_for=u'on', tabindex=7,
          auto_tabindex=u'on', auto_filter=u'on', filters=[stamp, prune]),
     u'auto-domid="on" domid-format="x%s" auto-for="on" tabindex="7" '
     u'auto-tabindex="on" auto-filter="on" filters="[stamp, prune]"'),
    (dict(auto_name=u'off', auto_value=u'no', tabindex=-3, filters=[stamp]),
     u'auto-name="off" auto-value="no" tabindex="-3" filters="[stamp]"'),
]


# (what is written, what it says), with variables on, n0, f, t, empty and mk
WRITTEN = [(u'${f}', u'False'), (u'${t}', u'True'), (u'${n0}', u'0'),
           (u'${n0 + 1}', u'1'), (u'${empty}', u''), (u'o${empty}n', u'on'),
           (u'o$ch', u'on'), (u'o${ch}', u'on'), (u'of${\'f\'}', u'off'),
           (u'${on}', u'on'), (u'${mk}', u'off'), (u'${n0}${n0}', u'00'),
           (u'tr${u"ue"}', u'true'), (u'${empty}off', u'off'),
           (u'${on[:1]}${ch}', u'on'), (u'${None or on}', u'on'),
           (u'${f and 1 or 0}', u'0'), (u'$$on', u'$on'), (u' on ', u' on '),
           (u'auto', u'auto'), (u'', u'')]
AROUND = [u'', u' py:with="f=t;t=n0;on=u\'off\';ch=\'ff\'"',
          u' py:for="n0 in (1, f)"', u' py:if="t"']
SHIFTED = {u'${f}': u'True', u'${t}': u'0', u'${on}': u'off',
           u'o$ch': u'off', u'o${ch}': u'off', u'${on[:1]}${ch}': u'off',
           u'${None or on}': u'off', u'${f and 1 or 0}': u'0'}


def check_switches(case, mc):
    """Switches whose text is computed, alone and two at a time."""
    _, (name, kind), keys, setting, bind_name = case
    settings, written = SETTINGS[setting]
    el = BINDS[bind_name][0]()
    gen = Generator('xml', **settings)
    parts, wanted = [], []
    for around in AROUND:
        for explicit in ({}, {u'value': U, u'id': u'i', u'tabindex': u'3'}):
            attrs = dict(explicit)
            if kind:
                attrs[u'type'] = kind
            for picked in itertools.product(
                    WRITTEN if len(keys) == 1 else WRITTEN[::4],
                    repeat=len(keys)):
                if len(picked) > 1 and len(set(picked)) == 1:
                    continue
                extra = around
                if el is not None:
                    extra += u' form:bind="el"'
                for key, (text, _) in zip(keys, picked):
                    extra += u' form:auto-%s="%s"' % (key,
                                                      quote(text))
                parts.append(markup(name, attrs, None, extra))
                for n0 in ((1, False) if u'py:for' in around else (0,)):
                    kw = dict((k.encode('ascii'), v)
                              for k, v in attrs.items())
                    for key, (text, says) in zip(keys, picked):
                        if u'on=' in around:
                            says = SHIFTED.get(text, says)
                            if text == u'${f and 1 or 0}':
                                says = u'1'
                        elif u'py:for' in around and u'n0' in text:
                            says = {u'${n0}': u'%s' % n0,
                                    u'${n0 + 1}': u'%d' % (n0 + 1),
                                    u'${n0}${n0}': u'%s%s' % (n0, n0)}[text]
                        kw['auto_' + str(key)] = says
                    made = unicode(gen.tag(str(name), el, **kw))
                    got, a, contents, _ = mm.parse_tag(made)
                    wanted.append((name, dict(a),
                                   [contents] if contents else []))
    text = u'<form:with %s>%s</form:with>' % (written, u''.join(parts))
    variables = dict(el=el, stamp=stamp, prune=prune, f=False, t=True, n0=0,
                     empty=u'', ch=u'n', on=u'on', mk=Markup(u'off'))
    got = tree(render(text, variables))
    eq(len(got), len(wanted), 'tags', case)
    for n, (one, want) in enumerate(zip(got, wanted)):
        eq(one, want, 'rendered tag %d' % n, case)
    mc.count('tags_rendered', len(got))
    return len(got)


def quote(text):
    return text.replace(u'&', u'&amp;').replace(u'<', u'&lt;') \
               .replace(u'"', u'&#34;')


def markup(name, attrs, body=None, extra=u''):
    head = u'<' + name + u''.join(u' %s="%s"' % (k, quote(v))
                                  for k, v in sorted(attrs.items())) + extra
    if body is None:
        return head + u'/>'
    return head + u'>' + body + u'</' + name + u'>'


def check_tags(case, mc):
    _, (name, kind), setting, bind_name = case
    settings, written = SETTINGS[setting]
    make, _ = BINDS[bind_name]
    el = make()
    gen = Generator('xml', **settings)
    parts, wanted = [], []
    for explicit in EXPLICIT:
        attrs = dict(explicit)
        if kind:
            attrs[u'type'] = kind
        for body in BODIES:
            if name == u'input' and body:
                continue
            for switch in SWITCHES:
                extra = u' form:bind="el"' if el is not None else u''
                kw = dict((k.encode('ascii'), v) for k, v in attrs.items())
                if switch:
                    extra += u' form:auto-%s="%s"' % switch
                    kw['auto_' + str(switch[0])] = switch[1]
                elif el is None:
                    extra = u' form:bind=""'
                if body is not None:
                    kw['contents'] = body
                if el is None and not kw:
                    kw['auto_name'] = u'auto'    # a tag, not a tag factory
                parts.append(markup(name, attrs, body, extra))
                made = unicode(gen.tag(str(name), el, **kw))
                got, a, contents, _ = mm.parse_tag(made)
                wanted.append((name, dict(a), [contents] if contents else []))
    text = u'<form:with %s>%s</form:with>' % (written, u''.join(parts))
    variables = dict(el=el, stamp=stamp, prune=prune)
    got = tree(render(text, variables))
    eq(len(got), len(wanted), 'tags', case)
    for part, one, want in zip(parts, got, wanted):
        eq(one, want, 'rendered', part, written)
    mc.count('tags_rendered', len(parts))
    if el is None:
        mc.trivial()
    return len(parts)


# ---- space: bodies ---------------------------------------------------------

class Html(object):
    def __iter__(self):
        return iter(builder.i(u'&el'))


ITEMS = [u'hit', u' a&amp;&lt;', u'${s}', u'${None}', u'${3}', u'${raw}',
         u'${lst}', u'${fn(s)}', u'${el}', u'<b>x</b>', u'${empty}',
         u'<!--c-->']
ITEM_VARS = dict(s=u'hit', raw=Markup(u'<i>&amp;</i>'), lst=[u'h', u'it'],
                 el=builder.u(u'&el'), empty=u'')
FN = u'<py:def function="fn(v)">$v</py:def>' \
     u'<py:def function="rich(v)"><!--k-->$v<em a="$v"/></py:def>'
ENGINE = [u'', u' py:if="1"', u' py:if="0"', u' py:for="v in [1,2]" a="$v"',
          u' py:with="b=o"', u' py:attrs="{\'value\': \'hit\'}"',
          u' py:attrs="{\'value\': None}"', u' py:content="s"',
          u' py:content="rich(s)"', u' py:strip=""', u' py:strip="0"',
          u' py:replace="s"', u' py:with="b=o" py:for="v in [s]" py:if="v" '
          u'py:attrs="{\'a\': v}"']
INTERPOLATED = [u'value="${s}"', u'value="h${u\'it\'}"', u'value="${None}"',
                u'value="${None}x"', u'value="${3}"', u'value="${lst}"',
                u'value="${empty}"', u'value="${raw}" name="${s}"',
                u'type="checkbox" value="${fn(s)}" checked="${None}"']
HOLDERS = (u'button', u'textarea', u'option', u'p')


def bodies(tier, head):
    n = 3 if tier == 'thorough' else 2
    for tail in seqs(range(len(ITEMS)), n - len(head)):
        yield head + tail


def check_bodies(case, mc):
    _, tier, holder, bind_name, head = case
    tags = []
    for items in bodies(tier, head):
        body = u''.join(ITEMS[i] for i in items)
        for eng in (ENGINE if len(items) < 2 else ENGINE[:1]):
            tags.append((holder, eng, body))
    compare(tags, bind_name, mc, case)
    if bind_name == 'none':
        mc.trivial()
    return len(tags)


def check_attributes(case, mc):
    _, holder, bind_name = case
    tags = [(holder, u' ' + attr + eng, u'')
            for attr in INTERPOLATED for eng in ENGINE
            if u'value' not in eng or True]
    compare(tags, bind_name, mc, case)
    return len(tags)


def compare(tags, bind_name, mc, case):
    make, bind = BINDS[bind_name]
    variables = dict(ITEM_VARS, b=make(), o=other)
    flat, plain = [FN], [FN]
    for i, (name, extra, body) in enumerate(tags):
        # the item is kept apart from its neighbours
        flat.append(u'<z/>' + markup(
            name, {u'k': u'%d' % i}, body or None,
            u' form:bind="b"' + extra))
        plain.append(u'<z/>' + markup(
            name, {u'k': u'%d' % i}, body or None,
            u' n="$b"' .replace(u'$b', u'${b is o and 1 or 0}') + extra))
    got = split(tree(render(u'<r>' + u''.join(flat) + u'</r>', variables)))
    base = split(tree(render(u'<r>' + u''.join(plain) + u'</r>', variables)))
    eq(len(got), len(base), 'items', case)
    for i, (one, want) in enumerate(zip(got, base)):
        name, extra, body = tags[i]
        expected = []
        for node in want:
            if isinstance(node, tuple) and node[0] == name and \
                    node[1].get(u'k') == u'%d' % i:
                attrs = dict(node[1])
                b = BINDS['other'][1] if attrs.pop(u'n') == u'1' else bind
                node = apply_rules((name, attrs, node[2]), mm.Ctx(), b, {},
                                   bool(body) or u'py:content' in extra)
            expected.append(node)
        eq(one, expected, 'rendered', tags[i], bind_name)
        mc.transition()


def split(got):
    (root,) = got
    out = []
    for node in root[2]:
        if node == (u'z', {}, []):
            out.append([])
        else:
            out[-1].append(node)
    return out


# ---- space: selects --------------------------------------------------------

def opt(attrs=u'', body=None):
    return (u'option', attrs, body)


# (written in the template); k marks the options: k="s" takes the select's
# binding, k="n" has been bound to nothing, k="o" is bound to o, k="-" has its
# value switch off, k="d" takes its id from an own switch
CHILDREN = [
    u'<option k="s" value="hit"/>',
    u'<option k="s" value="miss" selected="1"/>',
    u'<option k="s"> hit </option>',
    u'<option k="n" value="hit" selected="1" form:bind=""/>',
    u'<option k="o" value="miss" form:bind="o"/>',
    u'<option k="s" value="hit" py:if="1"/>',
    u'<option k="s" value="hit" py:if="0"/>',
    u'<option k="s" py:for="v in [s, u\'x\']" value="$v"/>',
    u'<option k="s" py:for="v in [s, u\'x\']">$v</option>',
    u'<option k="-" value="hit" selected="1" form:auto-value="off"/>',
    u'<option k="d" value="hit" form:auto-domid="on" py:if="1"/>',
    u'<option k="s" py:attrs="{\'value\': s}"/>',
    u'<option k="s" py:content="s"/>',
    u'<option k="s" py:strip="">hit</option>',
    u'<optgroup label="hit"><option k="s">${s}</option> x</optgroup>',
    u'<optgroup form:bind=""><option k="x" value="hit"/></optgroup>',
    u'<form:with auto-value="off"><option k="-" value="hit"/>'
    u'<option k="s" value="hit" form:auto-value="on"/></form:with>',
    u'<py:choose><option py:when="0" k="s"/>'
    u'<option k="s" py:otherwise="">hit</option></py:choose>',
    u'<option k="s" value="hit"><option k="s" value="hit">'
    u'<option k="n" value="hit" form:bind="" py:if="1"/></option></option>',
    u'${one(s)}',
    u'${two(s)}',
    u'<py:for each="v in [s]"> <option k="s">$v</option>$v '
    u'<option k="o" form:bind="o" form:auto-value="on">$v</option></py:for>',
    u'${None}text',
    u'<form:with auto-value="off"><option k="-" value="hit"/></form:with>',
    u'<option k="s"><option k="s" value="x"/>hit</option>',
]
SELECT_FNS = (u'<py:def function="one(v)"><option k="s" value="$v"/></py:def>'
              u'<py:def function="two(v)"> <option k="n" form:bind="">$v'
              u'</option><option k="s">$v</option></py:def>')
SELECT_BINDS = ('str', 'array', 'none', 'other', 'zero')


def check_selects(case, mc):
    import re
    _, tier, bind_name, head = case
    make, bind = BINDS[bind_name]
    n = 3 if tier == 'thorough' else 2
    variables = dict(b=make(), o=other, s=u'hit')
    flat, plain, kids = [SELECT_FNS], [], []
    for tail in seqs(range(len(CHILDREN)), n - len(head)):
        items = head + tail
        body = u''.join(CHILDREN[i] for i in items)
        flat.append(u'<z/><select form:bind="b">%s</select>' % body)
        kids.append(items)
    flat = u'<r>' + u''.join(flat) + u'</r>'
    plain = re.sub(u'</?form:with[^>]*>', u'', flat)
    plain = re.sub(u' form:[\\w-]+="[^"]*"', u'', plain)
    got = split(tree(render(flat, variables)))
    base = split(tree(render(plain, variables)))
    eq(len(got), len(base), 'selects', case)
    for items, one, (want,) in zip(kids, got, base):
        name, attrs, children = want
        a, _ = mm.transform(u'select', attrs, u'\0', mm.Ctx(), bind)
        eq(one, [(name, a, expect_options(children, bind))], 'rendered',
           [CHILDREN[i] for i in items], bind_name)
        mc.transition()
    if bind is None:
        mc.trivial()
    return len(kids)


def expect_options(children, bind):
    out = []
    for node in children:
        if isinstance(node, tuple) and node[0] == u'option':
            k = node[1][u'k']
            switches = {}
            if k == u'-':
                switches = {u'auto_value': u'off'}
            elif k == u'd':
                switches = {u'auto_domid': u'on'}
            b = {u's': bind, u'd': bind, u'-': bind, u'n': None, u'x': None,
                 u'o': BINDS['other'][1]}[k]
            inner = text_of(node[2])
            a, _ = mm.transform(
                u'option', dict(node[1], **switches),
                inner if isinstance(inner, unicode) else u'\0', mm.Ctx(), b)
            out.append((node[0], a, expect_options(node[2], bind)))
        elif isinstance(node, tuple) and len(node) == 3:
            out.append((node[0], node[1], expect_options(node[2], bind)))
        else:
            out.append(node)
    return out


# ---- space: scopes ---------------------------------------------------------

LEAVES = [
    ('set', u'auto-name="off"', dict(auto_name=u'off')),
    ('set', u'auto-tabindex="on" tabindex="20"',
     dict(auto_tabindex=u'on', tabindex=20)),
    ('set', u'auto-filter="on" filters="[stamp]"',
     dict(auto_filter=u'on', filters=[stamp])),
    ('tag',),
    ('plain',),
]
BLOCKS = [
    ('with', u'auto-domid="on"', dict(auto_domid=u'on')),
    ('with', u'auto-value="off" domid-format="x%s" auto-name="on"',
     dict(auto_value=u'off', domid_format=u'x%s', auto_name=u'on')),
    ('with', u'auto-tabindex="on" tabindex="5"',
     dict(auto_tabindex=u'on', tabindex=5)),
    ('if0', u'auto-domid="on"', dict(auto_domid=u'on')),
    ('pywith',), ('pyfor',), ('form',), ('fn',),
]


def forests(n):
    """All forests of at most n nodes (blocks are not empty)."""
    for size in range(n + 1):
        for f in exactly(size):
            yield f


def exactly(size):
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        heads = []
        if first == 1:
            heads = [(leaf,) for leaf in range(len(LEAVES))]
        else:
            heads = [(len(LEAVES) + b, inner) for b in range(len(BLOCKS))
                     for inner in exactly(first - 1)]
        for rest in exactly(size - first):
            for head in heads:
                yield (head,) + rest


def write(forest, fns):
    out = []
    for node in forest:
        op = (LEAVES + BLOCKS)[node[0]]
        if op[0] == 'set':
            out.append(u'<form:set %s/>' % op[1])
        elif op[0] == 'tag':
            out.append(u'<input form:bind="b"/>')
        elif op[0] == 'plain':
            out.append(u'<input value="p"/>')
        else:
            inner = write(node[1], fns)
            if op[0] == 'with':
                out.append(u'<form:with %s>%s</form:with>' % (op[1], inner))
            elif op[0] == 'if0':
                out.append(u'<form:with %s py:if="0">%s</form:with>' % (
                    op[1], inner))
            elif op[0] == 'pywith':
                out.append(u'<py:with vars="c=1">%s</py:with>' % inner)
            elif op[0] == 'pyfor':
                out.append(u'<py:for each="c in [1, 2]">%s</py:for>' % inner)
            elif op[0] == 'form':
                out.append(u'<form form:bind="b"><b/>%s</form>'
                           % inner)
            elif op[0] == 'fn':
                name = u'f%d' % len(fns)
                fns.append(u'<py:def function="%s()">%s</py:def>' % (
                    name, inner))
                out.append(u'${%s()}' % name)
    return u''.join(out)


def filters_of(d):
    return [(None, lambda a, c: a.__setitem__(u'f', u'input') or c)
            for f in d['filters']]


def act(forest, frames, bind, mc):
    out = []
    for node in forest:
        op = (LEAVES + BLOCKS)[node[0]]
        mc.transition()
        if op[0] == 'set':
            frames[-1].update(op[2])
        elif op[0] == 'tag':
            out.append(expected_tag(u'input', frames, bind))
        elif op[0] == 'plain':
            out.append((u'input', {u'value': u'p'}, []))
        elif op[0] == 'with':
            frames.append(dict(frames[-1], **op[2]))
            out.extend(act(node[1], frames, bind, mc))
            frames.pop()
        elif op[0] == 'pyfor':
            out.extend(act(node[1], frames, bind, mc))
            out.extend(act(node[1], frames, bind, mc))
        elif op[0] in ('pywith', 'fn'):
            out.extend(act(node[1], frames, bind, mc))
        elif op[0] == 'form':
            name, attrs, _ = expected_tag(u'form', frames, bind)
            out.append((name, attrs, [(u'b', {}, [])] +
                        act(node[1], frames, bind, mc)))
        mc.state(sorted((k, v) for k, v in frames[-1].items()
                        if k != 'filters'))
    return out


def expected_tag(name, frames, bind):
    d = frames[-1]
    ctx = mm.Ctx(**d)
    ctx.d['filters'] = [(None, lambda a, c: a.__setitem__(u'f', name) or c)
                        for f in d.get('filters', ())]
    attrs, _ = mm.transform(name, {}, None, ctx, bind)
    if ctx.d['tabindex'] != d.get('tabindex', 0):
        d['tabindex'] = ctx.d['tabindex']
    return (name, attrs, [])


def check_scopes(case, mc):
    _, tier, part, parts = case
    make, bind = BINDS['str']
    variables = dict(b=make(), stamp=stamp)
    n = 0
    tail = ((3,),)
    for i, forest in enumerate(forests(4 if tier == 'thorough' else 3)):
        if i % parts != part:
            continue
        fns = []
        body = write(forest + tail, fns)
        text = u'<r>' + u''.join(fns) + body + u'</r>'
        made = mg.template(text)
        want = act(forest + tail, [{}], bind, mc)
        for again in (0, 1):
            ((_, _, got),) = tree(mg.render(made, variables))
            eq(got, want, 'rendered', text, again)
        mc.trace()
        n += 1
    return n


def cases(tier):
    for control in CONTROLS:
        for setting in range(len(SETTINGS)):
            for bind_name in ('str', 'odd', 'bool', 'array', 'none',
                              'noname', 'empty', 'zero'):
                yield ('tags', control, setting, bind_name)
    keys = (u'name', u'value', u'domid', u'for', u'tabindex', u'filter')
    for c, control in enumerate(CONTROLS):
        for k, key in enumerate(keys):
            for setting in (range(len(SETTINGS)) if tier == 'thorough' else
                            [(c + k) % 3]):
                yield ('switches', control, (key,), setting, 'str')
            yield ('switches', control, (key,), 1, 'none')
    for i, pair in enumerate(itertools.combinations(keys, 2)):
        for control in (CONTROLS if tier == 'thorough' else
                        (CONTROLS[0], CONTROLS[-3])):
            yield ('switches', control, pair, i % len(SETTINGS), 'str')
    for holder in HOLDERS:
        for bind_name in ('str', 'odd', 'none', 'zero'):
            yield ('bodies', tier, holder, bind_name, ())
            if tier == 'thorough':
                for i in range(len(ITEMS)):
                    yield ('bodies', tier, holder, bind_name, (i,))
    for holder in HOLDERS + (u'input', u'label'):
        for bind_name in ('str', 'none', 'array'):
            yield ('attributes', holder, bind_name)
    for bind_name in SELECT_BINDS:
        for i in range(len(CHILDREN)):
            if tier == 'thorough':
                for j in range(len(CHILDREN)):
                    yield ('selects', tier, bind_name, (i, j))
            yield ('selects', 'quick', bind_name, (i,))
    parts = 800 if tier == 'thorough' else 64
    for part in range(parts):
        yield ('scopes', tier, part, parts)


def check(case, mc):
    return {'tags': check_tags, 'switches': check_switches, 'bodies': check_bodies,
            'attributes': check_attributes, 'selects': check_selects,
            'scopes': check_scopes}[case[0]](case, mc)
