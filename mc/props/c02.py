# -*- coding: utf-8 -*-
"""C02: flat input is data only."""
import schemas
from lib import Violation, eq, seqs, true

LEVEL = 'exploration'
RULE = ('A case is (schema, separator, pair indexes) or (schema, key prefix); '
        'it covers every choice of the last pair (or last characters of the '
        'key). Every list of pairs is set on a fresh element, and short ones '
        'on populated elements, and compared with the reference expansion. '
        'Non-trivial: some list of the case changes the element.')
BOUNDS = {
    'quick': '20 schemas, 7-14 keys (valid, near-miss, malformed, hostile) x '
             '2 texts, all pair lists of length <=3; all keys of length <=6 '
             'over {a,l,0,1,_} and of length <=4 over 10 characters; member '
             'ceilings 2, 3 and the default with up to 1100 indexes and '
             'indexes up to 10**40',
    'thorough': 'as quick, pair lists of length <=4, keys of length <=8 and '
                '<=5',
}
ASSUMPTIONS = ['field names do not contain the separator']

S, I, B = ('S', u'a'), ('I', u'n'), ('B', u'b')
UL = ('L', u'l', ('S', None), False, 3)      # unpruned, at most 3
PL = ('L', u'l', ('S', None), True, 2)       # pruned, at most 2

# (spec, keys with '_' for the separator)
SCHEMAS = [
    (('D', u'f', (S, ('S', u'ab'))),
     [u'f_a', u'f_ab', u'f', u'a', u'f_abc', u'ff_a', u'f_a_b', u'F_a',
      u'f_b', u'xf_a', u'f__a']),
    (UL, [u'l_0', u'l_1', u'l_2', u'l_7', u'l_01', u'l', u'l_-1', u'l_1x',
          u'l__1', u'l_0_x', u'l_99999999999999999999', u'll_1', u'l_1\n',
          u'0']),
    (PL, [u'l_0', u'l_1', u'l_5', u'l_40', u'l_300', u'l_1_', u'l_+1',
          u'l_ 1', u'l_\u0663', u'l_\xb2', u'l_1.0', u'l_x', u'xl_1']),
    (('L', u'l', ('D', None, (S, ('I', u'ab'))), True, 2),
     [u'l_0_a', u'l_0_ab', u'l_1_a', u'l_2_ab', u'l_0', u'l_3_x', u'l_a',
      u'l_0_0_a', u'l_10_a', u'l_0a']),
    (('L', u'l', ('D', None, (S, ('I', u'ab'))), False, 3),
     [u'l_0_a', u'l_0_ab', u'l_1_a', u'l_2_ab', u'l_0', u'l_4_x', u'l_a',
      u'l_0_0_a', u'l_10_a', u'l_0a']),
    (('L', u'l', ('L', None, ('S', u's'), True, 2), False, 2),
     [u'l_0_0_s', u'l_0_1_s', u'l_1_0_s', u'l_1_2_s', u'l_0_3_s', u'l_0_s',
      u'l_0', u'l_0_0', u'l_2_0_s', u'l_s']),
    (('L', u'l', ('L', u'm', ('I', None), False, 2), True, 2),
     [u'l_0_m_0', u'l_0_m_1', u'l_1_m_0', u'l_0_m_5', u'l_0_0', u'l_0_m',
      u'l_0', u'l_5_m_1', u'l_0_mm_0']),
    (('D', u'f', (('A', u'a', None, True), ('A', u'b', u'm', False),
                  ('M', u'c', None, False))),
     [u'f_a', u'f_b_m', u'f_c', u'f_b', u'f_a_m', u'f_b_zz', u'f_aa', u'f',
      u'f_c_c', u'f_b_m_m']),
    (('A', None, u'm', True), [u'm', u'mm', u'', u'm_m', u'_m', u'0', u'M']),
    (('L', u'l', ('A', None, None, True), False, 3),
     [u'l_0', u'l_1', u'l_2', u'l_3', u'l', u'l_0_0', u'l_x', u'l_00']),
    (('D', None, (S, ('C', u'd'), ('J', u'j'))),
     [u'a', u'd_year', u'd_month', u'd_day', u'd', u'd_yea', u'j', u'j_0',
      u'd_day_day', u'year']),
    (('P', u'p', (S, ('D', u'd', (('S', u'x'),)), ('L', u'l', S, True))),
     [u'p_a', u'p_d_x', u'p_d', u'p_d_y', u'p_l_0_a', u'p_l_0', u'p_l', u'p',
      u'p_aa', u'p_z', u'a']),
    (('F', u'f', (B, I, ('D', u'nn', (S,)))),
     [u'f_b', u'f_n', u'f_nn_a', u'f_nn', u'f_n_n', u'f_nna', u'f_n_a',
      u'f_nn_b', u'b']),
    (('L', None, ('S', None), False, 3),
     [u'0', u'1', u'5', u'', u'l', u'0_0', u'_0', u'00', u' 1']),
    (('L', u'l', ('P', u'p', (S, I)), True, 3),
     [u'l_0_p_', u'l_0_', u'l_0_p_a', u'l_0_p_n', u'l_1_p_a', u'l_2_p_n', u'l_3_p_a', u'l_0_p',
      u'l_0_a', u'l_4_p_z', u'l_0_pp_a']),
]

TEXTS = (u'7', u'')

# empty names are names
SCHEMAS += [
    (('D', u'f', (('S', u''), ('A', u'a', u'', True), ('A', u'b', None, True),
                  ('L', u'c', ('S', u''), False, 2))),
     [u'f_', u'f', u'f_a_', u'f_a', u'f_b_', u'f_b', u'f_c_0_', u'f_c_0',
      u'f__', u'_f_', u'f_a__']),
    (('L', u'', ('D', None, (('S', u''), ('M', u'm', u'', False))), True, 2),
     [u'_0_', u'_0', u'0_', u'_0__', u'_0_m_', u'_0_m', u'_1_', u'__0_',
      u'_']),
]

# names are not patterns
SCHEMAS += [
    (('D', u'f', (('A', u'a+', None, True), ('A', u'b', u'm?', False),
                  ('L', u'c*', ('S', u'[s]'), False, 2), ('S', u'x|y'),
                  ('M', u'(z', None, False))),
     [u'f_a+', u'f_aa', u'f_b_m?', u'f_b_m', u'f_b_', u'f_c*_0_[s]',
      u'f_c*_1_s', u'f_cc_0_[s]', u'f_x|y', u'f_x', u'f_(z', u'f_a']),
    (('L', u'l', ('A', u'^a$', None, True), True, 2),
     [u'l_0_^a$', u'l_0_a', u'l_1_^a$', u'l_0', u'l_1_^a$_', u'l_^a$']),
    (('A', u'[ab]', None, True), [u'[ab]', u'a', u'b', u'[ab]_a', u'']),
]

# every key over an alphabet is tried on these
BROAD = [
    ('D', None, (('S', u'a'), ('L', u'l', ('S', None), False, 3),
                 ('L', u'al', ('D', None, (('S', u'a'),
                                           ('S', u'l'))), True, 3),
                 ('A', u'la', None, True),
                 ('P', u'll', (('S', u'a'),
                               ('L', u'0', ('S', u'l'), True))))),
    ('D', u'a', (('S', u'a'), ('L', u'1', ('A', u'a', u'l', True), False),
                 ('F', u'l', (('J', u'aa'), ('S', u'0'))))),
    ('L', u'l', ('L', None, ('D', u'a', (('S', u'a'), ('S', u'aa'))), False,
                 2), False, 2),
    ('L', None, ('L', u'l', ('S', u'1'), True, 2), True, 3),
    ('M', u'a', None, True), ('A', u'l', u'a', False),
]
NARROW = u'al01_'
WIDE = u'al0_\n .\u0661\xb2-'


def cases(tier):
    upto = 4 if tier == 'thorough' else 3
    for n in range(1, upto + 1):
        for i, (spec, keys) in enumerate(SCHEMAS):
            pairs = len(keys) * len(TEXTS)
            for head in seqs(range(pairs), n - 1, n - 1):
                if n < 3:
                    for sep in (u'_', u'.', u'__'):
                        yield ('P', i, sep, head)
                else:
                    yield ('P', i, u'_', head)
    for i, (spec, keys) in enumerate(SCHEMAS):
        for k in range(len(keys)):
            yield ('O', i, k)
    # every key
    long_, short = (6, 2) if tier == 'thorough' else (4, 2)
    for i in range(len(BROAD)):
        for head in seqs(NARROW, long_):
            yield ('K', i, u''.join(head), NARROW)
        for head in seqs(WIDE, long_ - 2):
            yield ('K', i, u''.join(head), WIDE)
    for prune in (True, False):
        for ceiling in (0, 1, 2, 3, 1024, None):
            for shape in range(8):
                for sub in range(3):
                    yield ('X', prune, ceiling, shape, sub)


def split(key, sep):
    return tuple(key.split(sep)) if key else ()


def compare(spec, pairs, sep, el=None, old=None):
    cls = schemas.build(spec)
    if el is None:
        el = cls()
    el.set_flat(pairs, sep=sep)
    want = schemas.parse(spec, [(split(k, sep), t) for k, t in pairs], old)
    got = schemas.read(spec, el)
    if got != want:
        raise Violation('after setting %r (separator %r) onto %r: got %r, '
                        'expected %r (%r)' % (pairs, sep, old, got, want,
                                              spec))
    return el, want


def check(case, mc):
    return globals()['check_' + case[0]](case, mc)


def all_pairs(i, sep):
    keys = SCHEMAS[i][1]
    return [(k.replace(u'_', sep), t) for k in keys for t in TEXTS]


def check_P(case, mc):
    kind, i, sep, head = case
    spec = SCHEMAS[i][0]
    alphabet = all_pairs(i, sep)
    head = [alphabet[j] for j in head]
    empty = schemas.blank(spec)
    changed = 0
    for last in alphabet:
        pairs = head + [last]
        el, want = compare(spec, pairs, sep)
        mc.count('pair_lists')
        if want != empty:
            changed += 1
        if len(pairs) == 1:
            if sep == u'_':
                eq(schemas.read(spec, schemas.build(spec).from_flat(pairs)),
                   want, 'from_flat', pairs, spec)
            # onto what the first pair made
            for more in alphabet:
                el = schemas.build(spec)()
                compare(spec, pairs, sep, el)
                compare(spec, [more], sep, el, want)
    if not changed:
        mc.trivial()
    return changed


def check_O(case, mc):
    """One odd pair among valid ones, in every position."""
    kind, i, k = case
    spec, keys = SCHEMAS[i]
    for t in TEXTS:
        odd = (keys[k], t)
        base = [(key, u'%d' % n) for n, key in enumerate(keys)]
        for pos in range(len(base) + 1):
            compare(spec, base[:pos] + [odd] + base[pos:], u'_')
            compare(spec, tuple(reversed(base[:pos] + [odd] + base[pos:])),
                    u'_')
    return keys[k]


def check_K(case, mc):
    kind, i, head, alphabet = case
    spec = BROAD[i]
    empty = schemas.blank(spec)
    changed = 0
    tails = [a + b for a in alphabet for b in alphabet]
    if not head:
        tails = [u''] + list(alphabet) + tails
    for tail in tails:
        key = head + tail
        el, want = compare(spec, [(key, u'x')], u'_')
        mc.count('keys')
        if want != empty:
            changed += 1
    if not changed:
        mc.trivial()
    return changed


SHAPES = [
    lambda: range(1100),
    lambda: range(1100, -1, -1),
    lambda: [10 ** 6],
    lambda: [10 ** 30, 5, 10 ** 40, 3],
    lambda: range(0, 5000, 7),
    lambda: [1023, 1024, 1025, 1022],
    lambda: [2, 2, 1, 1, 3, 3, 0],
    lambda: [10 ** 9, 10 ** 9 + 1, 10 ** 18, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64],
]


def check_X(case, mc):
    kind, prune, ceiling, shape, sub = case
    member = [('S', None), ('D', None, (('S', u'a'),)),
              ('L', None, ('S', u'a'), False, 2)][sub]
    suffix = [u'', u'_a', u'_1_a'][sub]
    spec = ('L', u'l', member, prune)
    if ceiling is not None:
        spec += (ceiling,)
    pairs = [(u'l_%d%s' % (n, suffix), u'v%d' % n) for n in SHAPES[shape]()]
    el, want = compare(spec, pairs, u'_')
    true(len(el) <= (1024 if ceiling is None else ceiling), 'ceiling', case)
    if ceiling is not None:
        # the ceiling of one element
        el = schemas.build(spec[:4])(maximum_set_flat_members=ceiling)
        el.set_flat(pairs, sep=u'_')
        got = schemas.read(spec, el)
        if got != want:
            raise Violation('with the ceiling %r of one element: got %r, '
                            'expected %r (%r)' % (ceiling, got, want, case))
    # under a mapping as well
    outer = ('D', u'f', (spec,))
    compare(outer, [(u'f_' + k, v) for k, v in pairs], u'_')
    mc.count('pair_lists', 2)
    return len(el)
