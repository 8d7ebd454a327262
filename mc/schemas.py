# -*- coding: utf-8 -*-
"""Schema specs, real schemas built from them, and reference models.

A spec is a tuple:
  ('S', name)  String         ('I', name)  Integer    ('B', name) Boolean
  ('J', name)  JoinedString   ('C', name)  DateYYYYMMDD
  ('A', name, member_name, prune)  Array of String
  ('M', name, member_name, prune)  MultiValue of String
  ('D', name, fields)  Dict     ('P', name, fields)  SparseDict
  ('F', name, fields)  Form
  ('L', name, member, prune[, maximum])  List

Data ("model") for a spec:
  S I B J -> text     C -> (year, month, day) texts
  A M -> [texts]      D F P -> {name: data}     L -> [data]
"""
from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Form, Integer,
                      JoinedString, List, MultiValue, SparseDict, String)

_SCALARS = {'S': String, 'I': Integer, 'B': Boolean, 'J': JoinedString,
            'C': DateYYYYMMDD}
_cache = {}


def build(spec):
    try:
        return _cache[spec]
    except KeyError:
        cls = _cache[spec] = _build(spec)
        return cls


def _build(spec):
    kind, name = spec[:2]
    if kind in _SCALARS:
        return _SCALARS[kind].named(name)
    if kind in 'AM':
        base = Array if kind == 'A' else MultiValue
        return base.named(name).of(String.named(spec[2])).using(
            prune_empty=spec[3])
    if kind in 'DP':
        base = Dict if kind == 'D' else SparseDict
        return base.named(name).of(*[build(f) for f in spec[2]])
    if kind == 'F':
        members = dict((str(f[1]), build(f)) for f in spec[2])
        return type(Form)('F', (Form,), members).named(name)
    if kind == 'L':
        cls = List.named(name).of(build(spec[2])).using(prune_empty=spec[3])
        if len(spec) > 4:
            cls = cls.using(maximum_set_flat_members=spec[4])
        return cls
    raise AssertionError(spec)


def with_name(spec, name):
    return (spec[0], name) + spec[2:]


DATE_PARTS = (u'year', u'month', u'day')


def int_text(text, fmt=u'%i'):
    """The text an Integer shows after being set from *text*."""
    try:
        return fmt % int(text.strip())
    except ValueError:
        return text


def bool_text(text):
    if text in (u'1', u'on', u'true', u'True'):
        return u'1'
    if text in (u'', u'off', u'false', u'False', u'0'):
        return u''
    return text


def joined_text(text):
    return u','.join(p.strip() for p in text.split(u',') if p)


_norm = {
    'S': lambda t: t.strip(),
    'I': int_text,
    'B': bool_text,
    'J': joined_text,
}


def norm(kind, text):
    return _norm[kind](text)


def norm_date(parts):
    fmts = (u'%04i', u'%02i', u'%02i')
    return tuple(int_text(p, f) for p, f in zip(parts, fmts))


def blank(spec):
    kind = spec[0]
    if kind in 'SIBJ':
        return u''
    if kind == 'C':
        return (u'', u'', u'')
    if kind in 'AML':
        return []
    if kind == 'P':
        return {}
    return dict((f[1], blank(f)) for f in spec[2])


def _own(name, path):
    return path if name is None else path + (name,)


def flat(spec, data, path=()):
    """Reference flattening: [(path tuple, text)]"""
    kind, name = spec[:2]
    here = _own(name, path)
    if kind in 'SIBJ':
        return [(here, data)]
    if kind == 'C':
        out = [(here, date_text(data))]
        out.extend((here + (p,), t) for p, t in zip(DATE_PARTS, data))
        return out
    if kind in 'AM':
        sub = _own(spec[2], here)
        return [(sub, t) for t in data]
    if kind in 'DFP':
        out = []
        for f in spec[2]:
            if f[1] in data:
                out.extend(flat(f, data[f[1]], here))
        return out
    out = []
    for i, item in enumerate(data):
        out.extend(flat(spec[2], item, here + (u'%d' % i,)))
    return out


def date_text(parts):
    import datetime
    try:
        d = datetime.date(*[int(p) for p in parts])
    except ValueError:
        return u''
    return u'%04d-%02d-%02d' % (d.year, d.month, d.day)


def parse(spec, pairs, old=None):
    """Reference expansion of [(path tuple, text)].

    Onto an element holding *old* data, or a fresh one.
    """
    kind, name = spec[:2]
    want = () if name is None else (name,)
    if old is None:
        old = blank(spec)
    if kind in 'SIBJ':
        for path, text in pairs:
            if path == want:
                return norm(kind, text)
        return old
    # containers: drop the own name
    if name is not None:
        pairs = [(p[1:], t) for p, t in pairs if p and p[0] == name]
    if kind in 'AM':
        sub = () if spec[2] is None else (spec[2],)
        return [t.strip() for p, t in pairs
                if p == sub and not (spec[3] and t == u'')]
    if kind == 'C':
        out = []
        for part, before in zip(DATE_PARTS, old):
            for p, t in pairs:
                if p == (part,):
                    out.append(t)
                    break
            else:
                out.append(before)
        return norm_date(out)
    if kind in 'DFP':
        data = dict(old)
        for f in spec[2]:
            mine = [(p, t) for p, t in pairs if p and p[0] == f[1]]
            if mine:
                data[f[1]] = parse(f, mine, data.get(f[1]))
        return data
    # lists
    prune = spec[3]
    ceiling = spec[4] if len(spec) > 4 else 1024
    groups = {}
    for p, t in pairs:
        if not p or not p[0].isdecimal():
            continue
        if prune and t == u'':
            continue
        groups.setdefault(int(p[0]), []).append((p[1:], t))
    if not groups:
        return []
    if prune:
        return [parse(spec[2], groups[i]) for i in sorted(groups)[:ceiling]]
    top = min(max(groups) + 1, ceiling)
    return [parse(spec[2], groups[i]) if i in groups else blank(spec[2])
            for i in range(top)]


def read(spec, el):
    """The model data a real element shows through its text values."""
    kind = spec[0]
    if kind in 'SIBJ':
        return el.u
    if kind == 'C':
        return tuple(el[p].u for p in DATE_PARTS)
    if kind in 'AM':
        return [m.u for m in el]
    if kind in 'DFP':
        return dict((k, read(f, el[k])) for k in el.keys()
                    for f in spec[2] if f[1] == k)
    return [read(spec[2], m) for m in el]


def fill(spec, el, data):
    """Put model *data* into a fresh element, through set()."""
    kind = spec[0]
    if kind in 'SIBJ':
        el.set(data)
    elif kind == 'C':
        for p, t in zip(DATE_PARTS, data):
            el[p].set(t)
    elif kind in 'AM':
        el.set(list(data))
    elif kind in 'DFP':
        for f in spec[2]:
            if f[1] in data:
                if kind == 'P':
                    el[f[1]] = build(f)()
                fill(f, el[f[1]], data[f[1]])
    else:
        for item in data:
            member = build(spec[2])()
            el.append(member)
            fill(spec[2], member, item)


def normalize(spec, data):
    """What *data* reads back as once it was fill()ed in."""
    kind = spec[0]
    if kind in 'SIBJ':
        return norm(kind, data)
    if kind == 'C':
        return norm_date(data)
    if kind in 'AM':
        return [t.strip() for t in data]
    if kind in 'DFP':
        out = {} if kind == 'P' else blank(spec)
        for f in spec[2]:
            if f[1] in data:
                out[f[1]] = normalize(f, data[f[1]])
        return out
    return [normalize(spec[2], d) for d in data]


def grouped(pairs):
    """{name: [texts in order]}"""
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out
