# -*- coding: utf-8 -*-
"""C12: markup settings nest; open tags are found again."""
from flatland import Dict, String
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from flatland.util import Maybe
from lib import Violation, eq, same, seqs, true
import markup_model as mm

LEVEL = 'model_checking'
RULE = ('A case is all operations of a history but the last; every choice of '
        'the last is replayed from scratch on a fresh generator next to a '
        'bystander generator and compared with a stack model. Non-trivial: '
        'the history opens a scope or a tag.')
BOUNDS = {
    'quick': 'settings: all histories of <=4 of 17 calls (begin, set, item '
             'assignment, end, rendering, opening; valid, invalid and mixed '
             'settings); tags: all histories of <=5 of 13 calls (asking, '
             'opening, closing, calling two kinds of tag, scopes) with up to '
             '4 tags in hand',
    'thorough': 'settings histories of <=5, tag histories of <=6',
}
ASSUMPTIONS = []


class Own(Markup):
    pass


def filt(tagname, attributes, contents, context, bind):
    attributes[u'f'] = u'1'
    return contents


FILTERS = [filt]
BASE = {'ordered_attributes': True, 'markup_wrapper': Markup,
        'domid_format': u'f_%s', 'tabindex': 0, 'filters': (),
        'auto_name': True, 'auto_value': True, 'auto_domid': False,
        'auto_for': False, 'auto_tabindex': False, 'auto_filter': False}

S_OPS = (
    ('begin', {}),
    ('begin', {'auto_name': u'off'}),
    ('begin', {'tabindex': 3, 'auto_tabindex': u'on'}),
    ('begin', {'bogus': 1}),
    ('begin', {'auto_name': u'off', 'bogus': 1, 'tabindex': 8,
               'auto_value': False, 'abogus': 2}),
    ('begin', {'auto_domid': True, 'domid_format': u'x%s'}),
    ('set', {'auto_name': u'on', 'tabindex': 9}),
    ('set', {'auto_tabindex': True}),
    ('set', {'auto_value': u'auto', 'auto_filter': True, 'filters': FILTERS}),
    ('set', {'bogus': 1}),
    ('set', {'auto_name': u'off', 'bogus': 1, 'tabindex': 8,
             'auto_value': u'off', 'abogus': 2}),
    ('item', 'tabindex', -1),
    ('item', 'bogus', 1),
    ('wrapper',),
    ('end',),
    ('render',),
    ('open',),
)


def cases(tier):
    deep = 1 if tier == 'thorough' else 0
    for head in seqs(range(len(S_OPS)), 2 + deep):
        yield ('settings', head)
    for head in seqs(range(len(T_OPS)), 3 + deep):
        yield ('tags', head)


def check(case, mc):
    space, head = case
    # all histories of the length of the case plus one, and (for the longest
    # cases) plus two
    deep = mc.tier == 'thorough'
    ops = S_OPS if space == 'settings' else T_OPS
    last = len(head) == (2 if space == 'settings' else 3) + deep
    run = run_settings if space == 'settings' else run_tags
    n = 0
    for tail in seqs(range(len(ops)), 2 if last else 1, 1):
        run(head + tail, mc)
        n += 1
    if not [i for i in head if ops[i][0] in ('begin', 'open')]:
        mc.trivial()
    return n


def check_against(gen, frames, mc, hist):
    d = frames[-1]
    for key in BASE:
        got, want = gen[key], d[key]
        if key.startswith('auto_'):
            got, want = mm.trool(got), mm.trool(want)
        eq(got, want, 'setting ' + key, hist)
        true(key in gen, 'membership')
    true('bogus' not in gen and 'abogus' not in gen, 'unknown setting', hist)
    try:
        gen['bogus']
    except KeyError:
        pass
    else:
        raise Violation('unknown setting found %r' % (hist,))


def expected_input(frames):
    d = frames[-1]
    ctx = mm.Ctx(**dict(d, filters=[
        (None, lambda a, c: a.__setitem__(u'f', u'1') or c)
        for f in d['filters']]))
    a, c = mm.transform(u'input', {}, None, ctx, mm.Bind(u'n', u'v'))
    d['tabindex'] = ctx.d['tabindex']
    return [(k, v) for k, v in mm.ordered(a)]


def run_settings(hist, mc):
    el = String.named(u'n')(u'v')
    other = Generator(auto_domid=u'on')
    gen = Generator()
    frames = [dict(BASE)]
    opened = []
    for step, i in enumerate(hist):
        op = S_OPS[i]
        mc.transition()
        d = frames[-1]
        bad = False
        if op[0] in ('begin', 'set'):
            bad = 'bogus' in op[1]
        elif op[0] == 'item':
            bad = op[1] == 'bogus'
        elif op[0] == 'end':
            bad = len(frames) == 1
        try:
            out = None
            if op[0] == 'begin':
                out = gen.begin(**op[1])
            elif op[0] == 'set':
                out = gen.set(**op[1])
            elif op[0] == 'item':
                gen[op[1]] = op[2]
            elif op[0] == 'wrapper':
                out = gen.set(markup_wrapper=Own)
            elif op[0] == 'end':
                out = gen.end()
            elif op[0] == 'render':
                got = gen.input(el)
            elif op[0] == 'open':
                got = gen.form.open(el)
            raised = None
        except (KeyError, TypeError, RuntimeError), e:
            raised = e
        if bad:
            true(raised is not None, 'refused', op, hist)
            true(isinstance(raised, RuntimeError) == (op[0] == 'end'),
                 'kind of refusal', op, raised)
            continue
        if raised is not None:
            raise Violation('%r raised %r in %r' % (op, raised, hist))
        if op[0] == 'begin':
            frames.append(dict(d, **op[1]))
        elif op[0] == 'set':
            d.update(op[1])
        elif op[0] == 'item':
            d[op[1]] = op[2]
        elif op[0] == 'wrapper':
            d['markup_wrapper'] = Own
        elif op[0] == 'end':
            frames.pop()
        elif op[0] == 'render':
            eq(mm.parse_tag(unicode(got))[1], expected_input(frames),
               'rendered tag', hist)
            same(got.__class__, frames[-1]['markup_wrapper'], 'wrapper', hist)
        elif op[0] == 'open':
            got.index(u'<form')
            on = mm.trool(d['auto_name'])
            eq(u'name="n"' in got, on is not False, 'opened form', hist)
        if out is not None:
            eq(unicode(out), u'', 'output of settings call')
    check_against(gen, frames, mc, hist)
    mc.state([(sorted((k, repr(v)) for k, v in f.items())) for f in frames])
    if len(hist) <= 4:
        eq(mm.parse_tag(unicode(other.input(el)))[1],
           [(u'name', u'n'), (u'value', u'v'), (u'id', u'f_n')],
           'other generator', hist)
        eq(mm.parse_tag(unicode(Generator().input(el)))[1],
           [(u'name', u'n'), (u'value', u'v')], 'new generator', hist)
    # unwinding every scope restores the enclosing settings one by one
    while len(frames) > 1:
        gen.end()
        frames.pop()
        check_against(gen, frames, mc, hist)
    try:
        gen.end()
    except RuntimeError:
        pass
    else:
        raise Violation('end() without begin() accepted: %r' % (hist,))
    check_against(gen, frames, mc, hist)
    mc.trace()


# asking for tags, opening and closing them in any order
T_OPS = (
    ('ask', 'textarea'), ('ask', 'p'),
    ('open', 0, None), ('open', 1, u'one'), ('open', 2, None),
    ('open', 3, u'three'),
    ('close', 0), ('close', 1), ('close', 2), ('close', 3),
    ('call', 0, u'called'), ('begin',), ('end',),
)


class Model(object):
    def __init__(self):
        self.refs = []              # [tagname, real tag, contents]
        self.open = {'textarea': [], 'p': []}
        self.depth = 0


def ask(gen, name):
    return gen.textarea if name == 'textarea' else gen.tag(name)


def run_tags(hist, mc):
    gen = Generator()
    m = Model()
    # two tags of each kind in hand from the start
    for name in ('textarea', 'textarea', 'p', 'p'):
        m.refs.append([name, ask(gen, name), None])
    for i in range(4):
        for j in range(i):
            true(m.refs[i][1] is not m.refs[j][1], 'distinct tags')
    for i in hist:
        op = T_OPS[i]
        mc.transition()
        if op[0] == 'ask':
            t = ask(gen, op[1])
            stack = m.open[op[1]]
            if stack:
                same(t, stack[-1][1], 'innermost open tag', hist)
            else:
                eq((t.tagname, t.contents), (op[1], None), 'new tag', hist)
                true(not [r for r in m.refs if r[1] is t], 'new tag', hist)
        elif op[0] in ('open', 'call'):
            ref = m.refs[op[1]]
            kw = {} if op[2] is None else {'contents': op[2]}
            ref[2] = op[2] or u''
            if op[0] == 'open':
                out = ref[1].open(title=u't', **kw)
                eq(unicode(out), u'<%s title="t">' % ref[0], 'open', hist)
                if ref not in m.open[ref[0]]:
                    m.open[ref[0]].append(ref)
            else:
                out = ref[1](title=u't', **kw)
                eq(unicode(out), u'<%s title="t">%s</%s>' % (
                    ref[0], op[2], ref[0]), 'call', hist)
        elif op[0] == 'close':
            ref = m.refs[op[1]]
            eq(unicode(ref[1].close()), u'</%s>' % ref[0], 'close', hist)
            if ref in m.open[ref[0]]:
                m.open[ref[0]].remove(ref)
        elif op[0] == 'begin':
            gen.begin(auto_name=False)
            m.depth += 1
        elif op[0] == 'end':
            if m.depth:
                gen.end()
                m.depth -= 1
    for name in ('textarea', 'p'):
        stack = m.open[name]
        t = ask(gen, name)
        if stack:
            same(t, stack[-1][1], 'innermost open tag', hist)
            eq(unicode(t.contents), stack[-1][2], 'contents', hist)
        else:
            true(not [r for r in m.refs if r[1] is t], 'new tag', hist)
    for r in m.refs:
        eq(r[1].contents, r[2], 'contents kept', hist)
        eq(r[1].tagname, r[0], 'tag name')
    eq(mm.trool(gen['auto_name']), m.depth == 0, 'setting', hist)
    if len(hist) <= 4:
        fresh = Generator()
        true(ask(fresh, 'p') is not ask(fresh, 'p'), 'other generator')
        eq(unicode(ask(fresh, 'p')()), u'<p />', 'other generator')
    mc.state((sorted((k, [m.refs.index(r) for r in v])
                     for k, v in m.open.items()),
              [r[2] for r in m.refs], m.depth))
    mc.trace()
