# -*- coding: utf-8 -*-
"""Independent reader of generated tags and a reference for tag transforms."""
import re

from lib import Violation

NAMED = {u'amp': u'&', u'lt': u'<', u'gt': u'>', u'quot': u'"',
         u'apos': u"'"}
ENTITY = re.compile(u'&(?:#(\\d+)|#[xX]([0-9a-fA-F]+)|([a-z]+));')
ATTR = re.compile(u' ([^\\s"<>=/&]+)="([^"<>]*)"')
HEAD = re.compile(u'<([A-Za-z][A-Za-z0-9]*)')


def decode(text):
    """Text of character data; every & must start a known reference."""
    out, pos = [], 0
    while True:
        amp = text.find(u'&', pos)
        if amp < 0:
            out.append(text[pos:])
            return u''.join(out)
        out.append(text[pos:amp])
        m = ENTITY.match(text, amp)
        if not m:
            raise Violation('unescaped & in %r' % (text,))
        if m.group(1):
            out.append(unichr(int(m.group(1))))
        elif m.group(2):
            out.append(unichr(int(m.group(2), 16)))
        elif m.group(3) in NAMED:
            out.append(NAMED[m.group(3)])
        else:
            raise Violation('unknown reference in %r' % (text,))
        pos = m.end()


def parse_tag(markup, raw_contents=False):
    """(tagname, [(attribute, text)], contents or None, closing style).

    *markup* must be exactly one tag holding nothing but character data
    (decoded), or anything at all when *raw_contents* (returned as is).
    """
    if not isinstance(markup, unicode):
        raise Violation('not text: %r' % (markup,))
    m = HEAD.match(markup)
    if not m:
        raise Violation('not a tag: %r' % (markup,))
    name, pos, attrs = m.group(1), m.end(), []
    while True:
        m = ATTR.match(markup, pos)
        if not m:
            break
        attrs.append((m.group(1), decode(m.group(2))))
        pos = m.end()
    if len(dict(attrs)) != len(attrs):
        raise Violation('repeated attribute: %r' % (markup,))
    rest = markup[pos:]
    if rest == u' />':
        return name, attrs, None, 'self'
    if rest == u'>':
        return name, attrs, None, 'open'
    end = u'</%s>' % name
    if not rest.startswith(u'>') or not rest.endswith(end) or \
            len(rest) < 1 + len(end):
        raise Violation('badly formed tag: %r' % (markup,))
    contents = rest[1:-len(end)]
    if not raw_contents:
        if u'<' in contents or u'>' in contents:
            raise Violation('markup in contents: %r' % (markup,))
        contents = decode(contents)
    return name, attrs, contents, 'pair'


# ---- reference of the transforms ------------------------------------------

TAGS = {
    'name': (u'input', u'button', u'select', u'textarea', u'form'),
    'value': (u'button', u'input', u'option', u'textarea'),
    'domid': (u'input', u'button', u'select', u'textarea'),
    'for': (u'label',),
    'tabindex': (u'input', u'button', u'select', u'textarea'),
}
BUILT_IN = {'name': True, 'value': True, 'domid': False, 'for': False,
            'tabindex': False, 'filter': False}
ON = (u'1', u'true', u't', u'on', u'yes')
OFF = (u'0', u'false', u'nil', u'off', u'no')


def trool(value):
    """True, False or None for 'use the built-in default'."""
    if value is True or value is False:
        return value
    text = unicode(value).lower()
    if text in ON:
        return True
    if text in OFF:
        return False
    return None


class Bind(object):
    """What the rules need to know about a bound element."""

    def __init__(self, name, u, values=None, true=None):
        self.name, self.u, self.values, self.true = name, u, values, true

    def has(self, value):
        if self.values is not None:
            return value in self.values
        return value == self.u


class Ctx(object):
    """Settings in effect (a plain copy, advanced by render)."""

    def __init__(self, **settings):
        self.d = dict(domid_format=u'f_%s', tabindex=0, filters=())
        for k in BUILT_IN:
            self.d['auto_' + k] = BUILT_IN[k]
        self.d.update(settings)

    def toggle(self, key, attrs):
        own = trool(attrs.pop(u'auto_' + key)) if u'auto_' + key in attrs \
            else None
        if own is not None:
            return own, own
        ctx = trool(self.d['auto_' + key])
        return (BUILT_IN[key] if ctx is None else ctx), False


class Unspecified(Exception):
    """The documentation does not settle this combination."""


def raw_id(tagname, attrs, bind):
    if bind is not None:
        basis = bind.name
    else:
        basis = attrs.get(u'name')
    if not basis:
        return None
    if tagname == u'input' and attrs.get(u'type') in (u'checkbox', u'radio'):
        suffix = u''.join(c for c in attrs.get(u'value', u'')
                          if c in u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP'
                                  u'QRSTUVWXYZ0123456789_:.-')
        if suffix:
            basis = basis + u'_' + suffix
    return basis


def transform(tagname, attrs, contents, ctx, bind):
    """Attributes and contents (text of a bound body as ('text', u)) of a tag.
    """
    a = dict(attrs)
    on, forced = ctx.toggle('name', a)
    if on and bind is not None and bind.name:
        if forced or tagname in TAGS['name'] and u'name' not in a:
            a[u'name'] = bind.name

    on, forced = ctx.toggle('value', a)
    if on and bind is not None and (forced or tagname in TAGS['value']):
        kind = a.get(u'type', u'') if tagname == u'input' else tagname
        if kind in (u'radio', u'checkbox') and tagname == u'input':
            if kind == u'checkbox' and u'value' not in a and bind.true:
                a[u'value'] = bind.true
            if u'value' in a:
                a.pop(u'checked', None)
                if bind.has(a[u'value']):
                    a[u'checked'] = u'checked'
        elif tagname == u'input' and kind in (u'password', u'file',
                                              u'image'):
            if forced:
                a[u'value'] = bind.u
        elif tagname == u'option':
            value = a[u'value'] if u'value' in a else (contents or u'').strip()
            a.pop(u'selected', None)
            if bind.has(value):
                a[u'selected'] = u'selected'
        elif tagname == u'textarea':
            if contents is None or forced:
                contents = ('text', bind.u)
        elif forced or u'value' not in a:
            a[u'value'] = bind.u

    on, forced = ctx.toggle('domid', a)
    if on and (forced or tagname in TAGS['domid'] and u'id' not in a):
        base = raw_id(tagname, a, bind)
        if base:
            a[u'id'] = ctx.d['domid_format'] % base

    on, forced = ctx.toggle('for', a)
    if on and bind is not None:
        if forced or tagname in TAGS['for'] and u'for' not in a:
            base = raw_id(tagname, a, bind)
            if base:
                a[u'for'] = ctx.d['domid_format'] % base

    on, forced = ctx.toggle('tabindex', a)
    n = ctx.d['tabindex']
    if on and n != 0 and (forced or tagname in TAGS['tabindex'] and
                          u'tabindex' not in a):
        a[u'tabindex'] = u'%d' % n
        if n > 0:
            ctx.d['tabindex'] = n + 1

    on, forced = ctx.toggle('filter', a)
    if on:
        for tags, fn in ctx.d['filters']:
            if not tags or tagname in tags:
                contents = fn(a, contents)
    return a, contents


def ordered(attrs):
    first = [u'type', u'name', u'value']
    return [(k, attrs[k]) for k in first if k in attrs] + \
        [(k, attrs[k]) for k in sorted(attrs) if k not in first]


PAIRED = (u'form', u'textarea', u'select', u'option')


def style(tagname, contents, xml):
    """How a tag ends."""
    if contents or tagname in PAIRED:
        return 'pair'
    if xml:
        return 'self'
    return 'open' if tagname == u'input' else 'pair'
