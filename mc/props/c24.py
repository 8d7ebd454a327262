# -*- coding: utf-8 -*-
"""C24: card numbers are accepted exactly when genuine and allowed."""
import itertools

from flatland import Dict, Form
from flatland.ext.creditcard import (AMEX, DISCOVER, MASTERCARD, VISA,
                                     CreditCardNumber)
from lib import Violation, eq, seqs, true

LEVEL = 'exploration'
RULE = ('A case is a block of numbers, a way of writing one number, or a '
        'choice of accepted brands; every number is given to an element as a '
        'number and as text, validated, and result, message, value and text '
        'are compared with a recognizer written from the brand table. '
        'Non-trivial: the case both accepted and rejected.')
BOUNDS = {
    'quick': 'all 4-digit prefixes x lengths 12-17 with right and wrong check '
             'digits; 12 numbers with every placement of <=2 formatting '
             'characters and of one other character; every ordered choice of '
             'brands given in 4 ways; all texts of length <=4 over 7 '
             'characters and their extensions to 13 and 16 characters',
    'thorough': 'all 4-digit prefixes x lengths 10-19 x all check digits',
}
ASSUMPTIONS = [
    'at least one brand is accepted',
    'formatting characters are ASCII spaces and dashes',
    'a text is not converted when it has fewer than 13 characters; leading '
    'zeros do not count, as in any number']

NAMES = {VISA: 'Visa', MASTERCARD: 'MasterCard', AMEX: 'American Express',
         DISCOVER: 'Discover'}
BRANDS = (VISA, MASTERCARD, AMEX, DISCOVER)
DEFAULT = (VISA, MASTERCARD, AMEX)


def checked(digits):
    total = 0
    for i, c in enumerate(reversed(digits)):
        n = int(c)
        if i % 2:
            n = 2 * n
            if n > 9:
                n -= 9
        total += n
    return total % 10 == 0


def brand(digits):
    n = len(digits)
    if digits[0] == '4' and n in (13, 16):
        return VISA
    if n == 16 and 51 <= int(digits[:2]) <= 55:
        return MASTERCARD
    if n == 15 and digits[:2] in ('34', '37'):
        return AMEX
    if n == 16 and digits[:4] == '6011':
        return DISCOVER
    return None


GROUPS = {16: (4, 4, 4, 4), 15: (4, 6, 5), 13: (4, 3, 3, 3)}


def grouped(digits):
    out, i = [], 0
    for g in GROUPS.get(len(digits), (len(digits),)):
        out.append(digits[i:i + g])
        i += g
    return u'-'.join(out)


def sentence(accepted):
    names = [NAMES[b] for b in accepted]
    if len(names) > 2:
        return u'We accept %s, and %s' % (', '.join(names[:-1]), names[-1])
    return u'We accept ' + u' and '.join(names)


def expected(digits, accepted):
    """The error of an element holding the number, or None."""
    if not checked(digits):
        return u'The card was not entered correctly.'
    if brand(digits) not in accepted:
        return sentence(accepted)
    return None


Card = CreditCardNumber.named(u'card')


def judge(el, given, digits, accepted, mc):
    """Set the element; digits is None when it must not convert."""
    ok = el.set(given)
    what = 'card given %r' % (given,)
    if digits is None:
        eq((ok, el.value), (False, None), what)
        text = given if isinstance(given, unicode) else unicode(given)
        eq(el.u, text, what + ': text')
        error = (u'card is not correct.' if text
                 else u'card may not be blank.')
    else:
        eq((ok, el.value, el.u), (True, int(digits), grouped(digits)), what)
        error = expected(digits, accepted)
    got = el.validate()
    if got is not (error is None):
        raise Violation('%s: validate() gave %r, expected %r' % (
            what, got, error is None))
    eq(list(el.errors), [error] if error else [], what + ': errors')
    eq(el.valid, error is None, what + ': valid')
    if digits is not None and len(grouped(digits)) >= 13:
        back = Card()
        eq((back.set(el.u), back.value, back.u), (True, el.value, el.u),
           'text read back', given)
    mc.transition()
    return error is None


def with_check(body):
    return [body + d for d in '0123456789' if checked(body + d)][0]


def block(case, mc):
    _, length, lo, hi, every = case
    seen = set()
    for prefix in range(lo, hi):
        if prefix < 1000:
            continue
        body = (str(prefix) + '0950284361739204857')[:length - 1]
        right = with_check(body)
        wrong = body + str((int(right[-1]) + 1 + prefix % 9) % 10)
        numbers = [right, wrong]
        if every:
            numbers = [body + d for d in '0123456789']
        for digits in numbers:
            seen.add(judge(Card(), int(digits), digits, DEFAULT, mc))
            if length >= 13:
                seen.add(judge(Card(), unicode(digits), digits, DEFAULT, mc))
        el = Card(accepted=BRANDS)
        seen.add(judge(el, int(right), right, BRANDS, mc))
    if len(seen) < 2:
        mc.trivial()
    return ('block', sorted(seen))


SAMPLES = [with_check(b) for b in (
    '411111111111111', '422222222222', '555555555555444', '37828224631000',
    '601100099013942', '34000000000000', '511234567890123',
    '123456789012', '99999999999999', '1234567890123456')]
SAMPLES += ['4111111111111112', '378282246310006']


def written(case, mc):
    _, digits = case
    seen = set()
    n = len(digits)
    places = range(n + 1)
    texts = [digits]
    for c in (u'-', u' ', u'\t', u'--', u'\n'):
        for i in places:
            texts.append(digits[:i] + c + digits[i:])
            for j in range(i, n + 1):
                texts.append(digits[:i] + c + digits[i:j] + u'-' + digits[j:])
    texts += [u'-'.join(digits), u' '.join(digits), u'0' + digits,
              digits + u' ' * 50, u'-' * 50 + digits]
    for t in texts:
        seen.add(judge(Card(), unicode(t), digits, DEFAULT, mc))
        seen.add(judge(Card(), str(t), digits, DEFAULT, mc))
    for c in (u'x', u'.', u'\u0661', u'_', u'/', u'\xa0', u'+', u'\x00',
              u'\uff11'):
        for i in places:
            judge(Card(), digits[:i] + c + digits[i:], None, DEFAULT, mc)
    for i in range(1, n):
        short = digits[:i]
        judge(Card(), unicode(short), short.lstrip('0') or '0'
              if i >= 13 else None, DEFAULT, mc)
    for t in (int(digits), long(digits)):
        seen.add(judge(Card(), t, digits, DEFAULT, mc))
    el = Card()
    eq((el.set(-int(digits)), el.validate()), (True, False),
       'a negative number')
    eq(len(el.errors), 1, 'errors of a negative number')
    # through a form, and replaced afterwards
    for flat in (False, True):
        form = Dict.of(Card)
        f = form.from_flat([(u'card', unicode(digits))]) if flat else \
            form({u'card': unicode(digits)})
        eq(f.validate(), expected(digits, DEFAULT) is None, 'in a form')
        f[u'card'].set(None)
        eq((f[u'card'].value, f[u'card'].u, f.validate()), (None, u'', False),
           'a number taken back')
        eq(f[u'card'].errors[-1], u'card may not be blank.', 'errors')
    return ('written', sorted(seen))


def choice(case, mc):
    _, accepted, how = case
    seen = set()
    for digits in SAMPLES:
        if how == 'class':
            cls = Card.using(accepted=accepted)
            el = cls()
        elif how == 'subclass':
            el = type(Card)('Sub', (Card,), {'accepted': accepted})()
        elif how == 'constructor':
            el = Card(accepted=accepted)
        else:
            el = Card()
            el.accepted = accepted
        seen.add(judge(el, unicode(digits), digits, accepted, mc))
        eq(Card.accepted, DEFAULT, 'brands of the original class')
        judge(Card(), unicode(digits), digits, DEFAULT, mc)
    # all of a form, at once
    cls = type(Form)('F', (Form,), {'a': Card.using(accepted=accepted),
                                    'b': Card})
    for x, y in itertools.product(SAMPLES, repeat=2):
        f = cls({u'a': x, u'b': y})
        ea, eb = expected(x, accepted), expected(y, DEFAULT)
        eq(f.validate(), ea is None and eb is None, 'form', x, y)
        eq([e.replace(u'The a', u'The card') for e in f[u'a'].errors],
           [ea] if ea else [], 'errors of a', x)
        eq([e.replace(u'The b', u'The card') for e in f[u'b'].errors],
           [eb] if eb else [], 'errors of b', y)
    if len(seen) < 2:
        mc.trivial()
    return ('choice', sorted(seen))


CHARS = (u'4', u'0', u'-', u' ', u'x', u'\u0664', u'\n')


def odd(case, mc):
    _, first, upto = case
    for rest in seqs(CHARS, upto):
        for pad in (u'', u' ' * 16, u'4' + u'1' * 12, u'-' * 13,
                    u'4111 1111 1111 111'):
            text = first + u''.join(rest) + pad
            clean = u''.join(c for c in text if c in u'0123456789')
            fine = (clean and len(text) >= 13 and
                    all(c in u'0123456789- \n' for c in text))
            judge(Card(), text, str(int(clean)) if fine else None, DEFAULT,
                  mc)
    return 'odd'


class Odd(object):
    def __unicode__(self):
        return u'odd'
    __str__ = __unicode__


def special(case, mc):
    for v in (4111111111111111.0, [4111111111111111], (4,), {}, Odd(), 1.5,
              object):
        el = Card()
        eq((el.set(v), el.value), (False, None), 'card given %r' % (v,))
        eq(el.validate(), False, 'validate')
        eq(list(el.errors), [u'card is not correct.'], 'errors')
    for empty in (None, u'', ''):
        el = Card()
        el.set(empty)
        eq((el.value, el.u, el.validate()), (None, u'', False), 'blank card')
        eq(list(el.errors), [u'card may not be blank.'], 'errors')
        el = Card.using(optional=True)()
        el.set(empty)
        eq((el.validate(), list(el.errors)), (True, []), 'optional card')
    judge(Card(), 0, '0', DEFAULT, mc)
    for n in (100, 10000):
        judge(Card(), u'4' * n, '4' * n, DEFAULT, mc)
        judge(Card(), u'-' * n, None, DEFAULT, mc)
        judge(Card(), u'4' * n + u'x', None, DEFAULT, mc)

    class Mine(CreditCardNumber):
        class Present(CreditCardNumber.Present):
            missing = u'no %(label)s'

        class Converted(CreditCardNumber.Converted):
            incorrect = u'what is %(u)s'

        class Luhn10(CreditCardNumber.Luhn10):
            invalid = u'typo in %(u)s'

        class AcceptedType(CreditCardNumber.AcceptedType):
            not_accepted = u'not a %(label)s'
    cls = Mine.named(u'n')
    for given, error in ((None, u'no n'), (u'abc', u'what is abc'),
                         (u'4111111111111112', u'typo in 4111-1111-1111-1112'),
                         (u'6011000990139424', u'not a n'),
                         (u'4111111111111111', None)):
        el = cls()
        el.set(given)
        eq(el.validate(), error is None, 'own messages', given)
        eq(list(el.errors), [error] if error else [], 'own messages', given)
    return 'special'


def cases(tier):
    big = tier == 'thorough'
    for length in (range(10, 20) if big else range(12, 18)):
        for lo in range(1000, 10000, 250):
            yield ('block', length, lo, lo + 250, big)
    for digits in SAMPLES:
        yield ('written', digits)
    for n in range(1, 5):
        for accepted in itertools.permutations(BRANDS, n):
            for how in ('class', 'subclass', 'constructor', 'assigned'):
                yield ('choice', accepted, how)
    for c in CHARS:
        yield ('odd', c, 4 if big else 3)
    yield ('special',)


def check(case, mc):
    return {'block': block, 'written': written, 'choice': choice, 'odd': odd,
            'special': special}[case[0]](case, mc)
