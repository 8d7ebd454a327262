# -*- coding: utf-8 -*-
"""Genshi templates from text without expat (Jython's lacks what Genshi needs).

Genshi accepts an event stream in place of a source text; `stream` reads a
well-formed snippet into one, with the positions and namespaces its own XML
parser would give.
"""
import re

from genshi.core import (Attrs, COMMENT, END, END_NS, QName, START, START_NS,
                         Stream, TEXT)
from genshi.template import MarkupTemplate

from markup_model import decode

TOKEN = re.compile(u'<!--(.*?)-->|<(/?)([A-Za-z][\\w:.-]*)'
                   u'((?:\\s+[\\w:.-]+="[^"]*")*)\\s*(/?)>|([^<]+)', re.S)
ATTR = re.compile(u'([\\w:.-]+)="([^"]*)"')
FORM = u'http://ns.discorporate.us/flatland/genshi'
PY = u'http://genshi.edgewall.org/'
XHTML = u'http://www.w3.org/1999/xhtml'


def stream(text, default=u''):
    prefixes = {u'form': FORM, u'py': PY}
    line = [1]

    def name(raw, is_attr):
        if u':' in raw:
            prefix, local = raw.split(u':', 1)
            return QName(u'%s}%s' % (prefixes[prefix], local))
        if default and not is_attr:
            return QName(u'%s}%s' % (default, raw))
        return QName(raw)

    events, pos = [], 0

    def add(kind, data):
        events.append((kind, data, (None, line[0], pos)))

    spaces = sorted(prefixes.items())
    if default:
        spaces.insert(0, (u'', default))
    for pair in spaces:
        add(START_NS, pair)
    depth = []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        assert m, text[pos:]
        comment, slash, tag, attrs, closed, chars = m.groups()
        if tag is None:
            if chars is not None:
                add(TEXT, decode(chars))
            else:
                add(COMMENT, comment)
        elif slash:
            assert depth.pop() == tag, text
            add(END, name(tag, False))
        else:
            q = name(tag, False)
            add(START, (q, Attrs([(name(k, True), decode(v))
                                  for k, v in ATTR.findall(attrs)])))
            if closed:
                add(END, q)
            else:
                depth.append(tag)
        line[0] += m.group(0).count(u'\n')
        pos = m.end()
    assert not depth, text
    for prefix, uri in reversed(spaces):
        add(END_NS, prefix)
    return Stream(events)


def template(text, default=u''):
    from flatland.out.genshi import setup
    made = MarkupTemplate(stream(text, default))
    setup(made)
    return made


def render(made, variables, method='xml'):
    return made.generate(**variables).render(method, encoding=None,
                                             strip_whitespace=False)


def install():
    """Make Genshi's expressions run on Jython.

    Genshi rewrites the syntax tree of an expression so that names come from
    the template context; Jython's trees do not bear its rewriter.  Plain
    evaluation with the context as the local names does the same for the
    expressions used here.
    """
    from genshi.template import eval as ge
    import _ast

    def init(self, source, filename=None, lineno=-1, lookup='strict',
             xform=None):
        self._globals = None
        self.source = source if isinstance(source, basestring) else '?'
        if isinstance(source, basestring):
            self.code = compile(source.strip(), '<template>', self.mode)
        else:
            self.code = compile(_ast.Expression(source), '<template>', 'eval')
        self.ast = None

    def evaluate(self, data):
        return eval(self.code, {}, Names(data))

    ge.Code.__init__ = init
    ge.Expression.evaluate = evaluate


class Names(object):

    def __init__(self, data):
        self.data = data

    def __getitem__(self, name):
        return self.data[name]


install()
