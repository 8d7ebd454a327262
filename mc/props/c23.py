# -*- coding: utf-8 -*-
"""C23: network, phone and checksum validators are total and sound."""
import itertools
import re
import urlparse

import java.lang.Throwable

from flatland import Array, Dict, Integer, Long, String
from flatland.util import luhn10
from flatland.validation import (HTTPURLValidator, IsEmail, Luhn10, NANPphone,
                                 URLCanonicalizer, URLValidator)
from flatland.validation.number import NANPnpa_nxx, NANPnxx
from lib import Violation, eq, same, seqs, true

LEVEL = 'exploration'
RULE = ('A case is a prefix of a text (all its completions up to the bound '
        'are tried) or a combination of URL parts; the validator runs on an '
        'element holding the text and result, messages, value and text are '
        'compared with a recognizer written from the documentation. '
        'Non-trivial: the case both accepted and rejected.')
BOUNDS = {
    'quick': 'all domains of length <=4 over 10 characters x 9 local parts, '
             'label lengths 1-65 and totals 240-260, all options; all '
             'combinations of 9 URL parts from grids x all scheme, part, '
             'required, forbidden and discard configurations; all strings of '
             'length <=4 over 12 URL characters; all phone texts of length '
             '<=13 from 5 kinds of block, all exchange codes, directories by '
             'every option; checksums of 0-200000, and of all '
             'one-digit changes of 400 numbers of up to 19 digits',
    'thorough': 'domains and URL strings one character longer, checksums to '
                '2000000',
}
ASSUMPTIONS = [
    'the splitting of a URL into parts is that of the urlparse module',
    'the IDNA form of a domain is that of the codec of the platform; texts '
    'on which the codec itself fails with a Java exception are a known '
    'finding',
    'a domain of exactly 253 characters may be accepted or not',
    'checksums are taken of integers']


def note(el, want, ok, what, got):
    if got is not ok:
        raise Violation('%s: got %r, expected %r' % (what, got, ok))
    eq(list(el.errors), [] if ok else [want], what + ': errors')
    eq(list(el.warnings), [], what + ': warnings')


# -- e-mail ---------------------------------------------------------------

LOCALS = (u'b', u'', u' ', u'\t\n', u'\u2003', u'\xa0\x0b', u'\xe9 ',
          u'a@', u'#"$!+,,')
DOMAIN = (u'a', u'-', u'.', u'1', u'_', u' ', u'@', u'\u2603', u'\n',
          u'\u3002')
WORD = re.compile(u'[A-Za-z0-9-]{1,63}\\Z')


def ascii_domain(domain):
    """The IDNA form, None if there is none, or 'java'."""
    try:
        return domain.encode('idna').decode('ascii')
    except UnicodeError:
        return None
    except java.lang.Throwable:
        return 'java'


def is_email(text, non_local=True, local=None, pattern=None):
    """True, False, or None where the documentation does not say."""
    if len([c for c in text if c == u'@']) != 1:
        return False
    i = text.index(u'@')
    name, domain = text[:i], text[i + 1:]
    if not name.strip():
        return False
    if local and not local(name):
        return False
    if not domain:
        return False
    domain = ascii_domain(domain)
    if domain == 'java':
        return None
    if domain is None or len(domain) > 253:
        return False
    parts = domain.split(u'.')
    if pattern:
        if not pattern(domain):
            return False
        if not all(len(p) < 64 for p in parts):
            return False
    elif not all(WORD.match(p) for p in parts):
        return False
    if non_local and len(parts) < 2:
        return False
    return None if len(domain) == 253 else True


def one_email(v, text, want, mc):
    el = String.named(u'e').using(strip=False)(text)
    eq(el.u, text, 'assumed text')
    if want is None:
        mc.count('undecided by the documentation')
        return None
    got = v(el, None)
    note(el, u'e is not a valid email address.', want,
         'IsEmail on %r' % (text,), got)
    eq((el.value, el.u), (text, text), 'element after IsEmail')
    return want


def email(case, mc):
    _, what, arg, upto = case
    seen = set()
    if what == 'domain':
        for local in LOCALS:
            for rest in seqs(DOMAIN, upto):
                text = local + u'@' + arg + u''.join(rest)
                seen.add(one_email(IsEmail(), text, is_email(text), mc))
    elif what == 'noat':
        for rest in seqs((u'a', u'.', u'@', u' '), upto):
            text = u''.join(rest)
            seen.add(one_email(IsEmail(), text, is_email(text), mc))
    elif what == 'local':
        v = IsEmail(non_local=False)
        sub = type(IsEmail)('Sub', (IsEmail,), {'non_local': False})()
        for rest in seqs(DOMAIN, upto):
            text = u'b@' + arg + u''.join(rest)
            want = is_email(text, False)
            seen.add(one_email(v, text, want, mc))
            one_email(sub, text, want, mc)
    elif what == 'patterns':
        v = IsEmail(local_part_pattern=re.compile(u'^[a-z]+$'),
                    domain_pattern=re.compile(u'^[ab.-]+\\.b$'))
        for local in LOCALS:
            for rest in seqs((u'a', u'b', u'.', u'-', u'1'), upto):
                text = local + u'@' + u''.join(rest)
                want = is_email(
                    text, True,
                    lambda s: re.match(u'^[a-z]+$', s),
                    lambda s: re.match(u'^[ab.-]+\\.b$', s))
                seen.add(one_email(v, text, want, mc))
    elif what == 'label':
        # one label of every length around the bound, anywhere
        for ch in (u'x', u'\u2603', u'-', u'X9'):
            for n in arg:
                label = (ch * n)[:n]
                for shape in (u'%s.com', u'a.%s', u'a.%s.com', u'%s'):
                    text = u'bob@' + shape % label
                    for non_local in (True, False):
                        want = is_email(text, non_local)
                        seen.add(one_email(IsEmail(non_local=non_local),
                                           text, want, mc))
                        if ch == u'x' and want is not None:
                            eq(want, 0 < n < 64 and
                               (u'.' in shape or not non_local),
                               'model of label lengths')
    elif what == 'total':
        for total in arg:
            for size in (7, 30, 63):
                label, domain = u'y' * size, u''
                while len(domain) + size + 1 <= total - 2:
                    domain += label + u'.'
                domain += u'z' * (total - len(domain))
                if len(domain.split(u'.')[-1]) > 63:
                    continue
                text = u'bob@' + domain
                want = is_email(text)
                if total != 253:
                    eq(want, total < 253, 'model of total lengths')
                seen.add(one_email(IsEmail(), text, want, mc))
    if len(seen - set([None])) < 2:
        mc.trivial()
    return (what, sorted(seen))


# -- URLs -----------------------------------------------------------------

PARTS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
GRID = {
    'scheme': (u'', u'http', u'https', u'ftp', u'HTTP', u'x+y'),
    'user': (None, u'me'),
    'password': (None, u'you'),
    'host': (u'', u'there', u'There.Org', u'[::1]'),
    'port': (None, u'80', u'', u'x', u'99999'),
    'path': (u'', u'/', u'/p/q'),
    'params': (u'', u'v=1'),
    'query': (u'', u'a=b&c'),
    'fragment': (u'', u'frag'),
}


class Parts(object):
    """A URL put together from known parts."""

    def __init__(self, scheme, user, password, host, port, path, params,
                 query, fragment):
        self.scheme = scheme.lower()
        loc = u''
        if user is not None:
            loc = user
            if password is not None:
                loc += u':' + password
            loc += u'@'
        loc += host
        if port is not None:
            loc += u':' + port
        self.netloc, self.host, self.port = loc, host, port
        self.user, self.password = user, password
        self.path, self.params = path, params
        self.query, self.fragment = query, fragment
        # only these schemes have parameters in a path
        if params and self.scheme == u'x+y':
            self.path, self.params = path + u';' + params, u''
        text = (scheme + u':' if scheme else u'') + u'//' + loc + path
        if params:
            text += u';' + params
        if query:
            text += u'?' + query
        if fragment:
            text += u'#' + fragment
        self.text = text


def urls(fixed):
    names = ('scheme', 'user', 'password', 'host', 'port', 'path', 'params',
             'query', 'fragment')
    grids = [(fixed[n],) if n in fixed else GRID[n] for n in names]
    for combo in itertools.product(*grids):
        p = Parts(*combo)
        if p.user is None and p.password is not None:
            continue
        if combo[6] and not combo[5]:
            continue
        if not p.netloc and p.path == u'':
            continue
        yield p


SCHEMES = (('*',), (), ('http',), ('https', 'ftp'), set(['http', 'x+y']))


def url_config(case, mc):
    _, scheme, host = case
    seen = set()
    subsets = [frozenset(s) for n in range(7)
               for s in itertools.combinations(PARTS, n)]
    for p in urls({'scheme': scheme, 'host': host}):
        # every restriction of schemes with all parts; of parts with one port
        runs = [(s, frozenset(PARTS)) for s in SCHEMES]
        if p.port in (None, u'80'):
            runs += [(('*',), s) for s in subsets]
        for schemes, allowed in runs:
            if p.scheme == u'':
                key = 'S'
            elif schemes != ('*',) and p.scheme not in schemes:
                key = 'S'
            elif any(getattr(p, part) and part not in allowed
                     for part in PARTS):
                key = 'P'
            else:
                key = None
            v = URLValidator(allowed_schemes=schemes, allowed_parts=allowed,
                             bad_format=u'F', blocked_scheme=u'S',
                             blocked_part=u'P')
            el = String.named(u'u')(p.text)
            note(el, key, key is None, 'URLValidator(%r, %r) on %r' % (
                schemes, sorted(allowed), p.text), v(el, None))
            eq((el.value, el.u), (p.text, p.text), 'element afterwards')
            seen.add(key)
            mc.transition()
    return ('url', sorted(seen))


REQUIRED = [dict(scheme=('http', 'https'), hostname=True), {},
            dict(port=True), dict(port=('80', '8080')),
            dict(path=('/', '/p/q')), dict(fragment=True, query=True),
            dict(username=True, password=True), dict(params=('v=1',)),
            dict(hostname=('there', '::1')), dict(scheme=False)]
FORBIDDEN = [dict(username=True, password=True), {}, dict(port=True),
             dict(hostname=('there.org',)), dict(scheme=('ftp', '')),
             dict(query=True, fragment=('frag',)), dict(path=('/',)),
             dict(params=True), dict(port=('80',), username=('me',))]
HTTP_PARTS = ('scheme', 'username', 'password', 'hostname', 'port', 'path',
              'params', 'query', 'fragment')


MORE_PORTS = (u'0', u'00', u'080', u'65535', u'65536', u'8080')


def port_text(port):
    """A port is a number up to 65535; urlparse passes over others."""
    if port in (None, u'', u'x') or int(port) > 65535:
        return None
    return str(int(port))


def http_key(p, required, forbidden):
    values = {'scheme': p.scheme, 'username': p.user, 'password': p.password,
              'hostname': p.host.strip(u'[]').lower() or None,
              'port': port_text(p.port), 'path': p.path,
              'params': p.params, 'query': p.query, 'fragment': p.fragment}
    for part in HTTP_PARTS:
        if part == 'port' and p.port in (u'', u'x'):
            return 'F'
        rule = required.get(part)
        if rule is True and not values[part]:
            return 'R'
        if rule and rule is not True and values[part] not in rule:
            return 'R'
        rule = forbidden.get(part)
        if rule is True and values[part]:
            return 'X'
        if rule and rule is not True and values[part] in rule:
            return 'X'
    return None


def http_config(case, mc):
    _, scheme, host = case
    seen = set()
    more = [urls({'scheme': scheme, 'host': host, 'port': port, 'user': None,
                  'query': u'', 'params': u''}) for port in MORE_PORTS]
    for p in itertools.chain(urls({'scheme': scheme, 'host': host}), *more):
        for r, f in itertools.product(REQUIRED, FORBIDDEN):
            if r is not REQUIRED[0] and f is not FORBIDDEN[0] and \
                    (p.path == u'' or p.password):
                continue
            v = HTTPURLValidator(required_parts=r, forbidden_parts=f,
                                 bad_format=u'F', required_part=u'R',
                                 forbidden_part=u'X')
            key = http_key(p, r, f)
            el = String.named(u'u')(p.text)
            note(el, key, key is None, 'HTTPURLValidator(%r, %r) on %r' % (
                r, f, p.text), v(el, None))
            eq((el.value, el.u), (p.text, p.text), 'element afterwards')
            seen.add(key)
            mc.transition()
        key = http_key(p, REQUIRED[0], FORBIDDEN[0])
        el = String.named(u'u')(p.text)
        note(el, u'u is not a valid URL.', key is None,
             'HTTPURLValidator() on %r' % (p.text,),
             HTTPURLValidator()(el, None))
    return ('http', sorted(seen))


def put_together(p, discard):
    """What is left of a URL without some parts."""
    have = dict((n, u'' if n in discard else getattr(p, n)) for n in PARTS)
    out, path = u'', have['path']
    if have['params']:
        path += u';' + have['params']
    hierarchical = have['scheme'] in (u'http', u'https', u'ftp')
    if have['netloc'] or (hierarchical and path[:2] != u'//'):
        if path and path[:1] != u'/':
            path = u'/' + path
        out = u'//' + have['netloc'] + path
    else:
        out = path
    if have['scheme']:
        out = have['scheme'] + u':' + out
    if have['query']:
        out += u'?' + have['query']
    if have['fragment']:
        out += u'#' + have['fragment']
    return out


def canon_config(case, mc):
    _, scheme, host = case
    subsets = [s for n in range(7) for s in itertools.combinations(PARTS, n)]
    for p in urls({'scheme': scheme, 'host': host}):
        for discard in subsets:
            if discard not in ((), ('fragment',)) and p.port not in (
                    None, u'x'):
                continue
            v = URLCanonicalizer(discard_parts=discard)
            el = String.named(u'u')(p.text)
            note(el, None, True, 'URLCanonicalizer(%r) on %r' % (
                discard, p.text), v(el, None))
            want = put_together(p, discard) if discard else p.text
            eq((el.value, el.u), (want, want), 'value and text', p.text,
               discard)
            if not discard:
                continue
            note(el, None, True, 'URLCanonicalizer(%r) again on %r' % (
                discard, want), v(el, None))
            # (without its scheme a text is split differently)
            if p.scheme != u'x+y' or 'scheme' not in discard:
                eq((el.value, el.u), (want, want), 'value and text again',
                   p.text, discard)
            eq(el.value, el.u, 'value and text again', p.text, discard)
            mc.transition()
        el = String.named(u'u')(p.text)
        note(el, None, True, 'URLCanonicalizer', URLCanonicalizer()(el, None))
        eq(el.value, put_together(p, ('fragment',)), 'value', p.text)
    return 'canon'


RAW = u'a:/?#@[];1% '


class Broken(object):
    """A urlparse that fails."""

    def urlparse(self, url):
        raise ValueError(url)

    def urlunparse(self, parts):
        raise AssertionError


class Fine(object):
    urlunparse = staticmethod(urlparse.urlunparse)
    urlparse = staticmethod(urlparse.urlparse)


def raw(case, mc):
    _, prefix, upto = case
    seen = set()
    for rest in seqs(RAW, upto):
        text = prefix + u''.join(rest)
        try:
            parsed = urlparse.urlparse(text)
        except ValueError:
            parsed = None
        for strip in (False, True):
            cls = String.named(u'u').using(strip=strip)
            shown = text.strip() if strip else text
            el = cls(text)
            try:
                whole = urlparse.urlparse(text.strip())
            except ValueError:
                whole = None
            ok = whole is not None and whole.scheme != ''
            note(el, u'u is not a valid URL.', ok,
                 'URLValidator on %r' % (text,), URLValidator()(el, None))
            eq((el.value, el.u), (shown, shown), 'element afterwards')
            seen.add(ok)

            try:
                # this one does not look at the text without its whitespace
                p = urlparse.urlparse(shown)
                p.port
                ok = (p.scheme in ('http', 'https') and bool(p.hostname)
                      and not p.username and not p.password)
            except ValueError:
                ok = False
            el = cls(text)
            note(el, u'u is not a valid URL.', ok,
                 'HTTPURLValidator on %r' % (text,),
                 HTTPURLValidator()(el, None))
            eq((el.value, el.u), (shown, shown), 'element afterwards')
            seen.add(ok)

            try:
                p = urlparse.urlparse(shown)
            except ValueError:
                p = None
            el = cls(text)
            note(el, u'u is not a valid URL.', p is not None,
                 'URLCanonicalizer on %r' % (text,),
                 URLCanonicalizer()(el, None))
            if p is None:
                eq((el.value, el.u), (shown, shown), 'element afterwards')
                continue
            want = urlparse.urlunparse(tuple(p[:5]) + ('',))
            if strip:
                want = want.strip()
            eq((el.value, el.u), (want, want), 'canonical URL', text)
            eq(u'#' in want, False, 'fragment', text)
            if p.path[:2] != '//' or p.netloc:
                # (urlparse takes its own output for another URL otherwise)
                note(el, None, True, 'URLCanonicalizer again on %r' % (want,),
                     URLCanonicalizer()(el, None))
            eq(el.value, el.u, 'value and text again', text)
        mc.transition()
    if len(seen) < 2:
        mc.trivial()
    return sorted(seen)


def special(case, mc):
    for v in (URLValidator(), URLCanonicalizer()):
        el = String.named(u'u')()
        note(el, u'u is not a valid URL.', False, '%r without a value' % v,
             v(el, None))
        eq((el.value, el.u), (None, u''), 'element afterwards')
    el = String.named(u'u')()
    note(el, None, True, 'HTTPURLValidator without a value',
         HTTPURLValidator()(el, None))
    for cls in (URLValidator, HTTPURLValidator, URLCanonicalizer):
        el = String.named(u'u')(u'http://a/#f')
        note(el, u'bad', False, 'a urlparse that fails',
             cls(urlparse=Broken(), bad_format=u'bad')(el, None))
        eq(el.value, u'http://a/#f', 'element afterwards')
        el = String.named(u'u')(u'http://a/#f')
        note(el, None, True, 'another urlparse',
             cls(urlparse=Fine())(el, None))
    return 'special'


# -- phone numbers --------------------------------------------------------

BLOCKS = (u'5', u'0', u'(', u' x', u'-', u'\u0665', u'\u0660', u'\U0001d7d7')
DIGITS = {u'\u0665': u'5', u'\u0660': u'0', u'\U0001d7d7': u'9'}


def phone(case, mc):
    _, prefix, upto = case
    seen = set()
    classes = {}
    for rest in seqs(BLOCKS, upto):
        text = prefix + u''.join(rest)
        digits = u''.join(DIGITS.get(c, c) for c in text
                          if c in u'0123456789' or c in DIGITS)
        for ext in (False, True, 'strip'):
            shown = text.strip()
            el = String.named(u'p')(text)
            if len(digits) < 10:
                want, key = shown, u'The p is not valid.'
            elif len(digits) == 10 or ext == 'strip':
                want, key = u'(%s) %s-%s' % (digits[:3], digits[3:6],
                                             digits[6:10]), None
            elif ext:
                want, key = u'(%s) %s-%s x%s' % (
                    digits[:3], digits[3:6], digits[6:10],
                    digits[10:].lstrip(u'0') or u'0'), None
            else:
                want, key = shown, (u'p must be a ten-digit phone number '
                                    u'without extension.')
            v = NANPphone(extensions=ext) if ext else NANPphone()
            note(el, key, key is None, 'NANPphone(%r) on %r' % (ext, text),
                 v(el, None))
            eq((el.value, el.u), (want, want), 'value and text', text, ext)
            if key is None:
                note(el, None, True, 'NANPphone again on %r' % (want,),
                     v(el, None))
                eq((el.value, el.u), (want, want), 'value and text again')
            seen.add(key)
    if len(seen) < 2:
        mc.trivial()
    return ('phone', len(seen))


# codes of exchanges that are not given to lines
RESERVED = [u'%d11' % d for d in range(3, 10)] + [
    u'555', u'700', u'950', u'958', u'959', u'976', u'990']


def exchange(case, mc):
    """The middle part of a phone number, on its own."""
    _, lo, hi = case
    for code in range(lo, hi):
        el = Integer.named(u'x').using(format=u'%03i')(code)
        good = code >= 200 and unicode(code) not in RESERVED
        note(el, None, True, 'set', True)
        same(NANPnxx()(el, None), good, 'NANPnxx of', code)
        eq((list(el.errors), list(el.warnings)), ([], []), 'messages', code)
        eq(el.value, code, 'value', code)
        if good:
            eq(el.u, unicode(code), 'text', code)
    for bad in (None, u'', u'x', u'2x2'):
        el = Integer.named(u'x')(bad)
        same(NANPnxx()(el, None), False, 'NANPnxx of', bad)
    return 'exchange'


class Directory(object):
    """Knows which exchanges are in use; may be a state or in one."""

    def __init__(self, answer):
        self.answer, self.asked = answer, []

    def valid_npanxx(self, npa, nxx):
        self.asked.append(('valid_npanxx', npa, nxx))
        return self.answer

    def known(self, npa, nxx):
        self.asked.append(('known', npa, nxx))
        return self.answer


class Holder(object):
    pass


def area(case, mc):
    """The first two parts of a phone number, by way of a directory."""
    _, npa, nxx, errors_to, lookup, method = case
    schema = Dict.named(u'phone').of(
        Integer.named(u'npa'), Integer.named(u'nxx'), String.named(u'x'),
        Dict.named(u'd').of(String.named(u'y')))
    options = {}
    if lookup:
        options['lookup'] = lookup
    if method:
        options['method'] = method
    for messages in ({}, {'incomplete': u'what %(label)s?'},
                     {'incomplete': u'inc', 'invalid': u'no %(label)s'}):
        for answer in (True, False, 1, 0, None, u'yes'):
            for state_kind in ('item', 'attr'):
                el = schema({u'npa': npa, u'nxx': nxx})
                before = el.flatten()
                book = Directory(answer)
                if state_kind == 'item':
                    state = {lookup or 'aq': book}
                else:
                    state = Holder()
                    setattr(state, lookup or 'aq', book)
                kw = dict(options)
                kw.update(messages)
                v = NANPnpa_nxx(u'npa', u'nxx', errors_to, **kw)
                got = v(el, state)
                err = el.find(errors_to, single=True) if errors_to else el
                label = errors_to and errors_to.split(u'/')[-1] or u'phone'
                where = (case, messages, answer, state_kind)
                if el[u'npa'].value is None or el[u'nxx'].value is None:
                    want, asked = False, []
                    text = messages.get('incomplete')
                else:
                    want = bool(answer)
                    asked = [(method or 'valid_npanxx', el[u'npa'].value,
                              el[u'nxx'].value)]
                    text = None if want else messages.get(
                        'invalid', u'The %(label)s can not be verified.')
                same(got, want, 'NANPnpa_nxx', where)
                eq(book.asked, asked, 'asked', where)
                eq(list(err.errors), [] if text is None else
                   [text.replace(u'%(label)s', label)], 'errors', where)
                for other in [el] + list(el.all_children):
                    if other is not err:
                        eq(list(other.errors), [], 'errors elsewhere', where)
                    eq(list(other.warnings), [], 'warnings', where)
                eq(el.flatten(), before, 'data', where)
    return 'area'


# -- checksums ------------------------------------------------------------

def reference(digits):
    total = 0
    for i, c in enumerate(reversed(digits)):
        n = int(c)
        if i % 2:
            n = sum(int(x) for x in str(2 * n))
        total += n
    return total % 10 == 0


def luhn_range(case, mc):
    _, lo, hi = case
    for n in xrange(lo, hi):
        want = reference(str(n))
        got = luhn10(n)
        if got is not want:
            raise Violation('luhn10(%d): got %r' % (n, got))
        if n % 7 == 0:
            for cls in (Integer, Long):
                el = cls.named(u'c')(n)
                note(el, u'The c was not entered correctly.', want,
                     'Luhn10 on %d' % n, Luhn10()(el, None))
                eq((el.value, el.u), (n, unicode(n)), 'element afterwards')
        if n:
            true(not luhn10(-n), 'luhn10 of a negative number', -n)
    return 'luhn'


def luhn_long(case, mc):
    _, length, seed = case
    # a number of the length with a valid check digit
    body = ''.join(str((seed * (i + 3) + i * i) % 10)
                   for i in range(length - 1))
    body = (str(seed % 9 + 1) + body)[:length - 1]
    valid = [d for d in '0123456789' if reference(body + d)]
    eq(len(valid), 1, 'check digits')
    number = body + valid[0]
    true(luhn10(int(number)), 'luhn10', number)
    for i in range(length):
        for d in '0123456789':
            changed = number[:i] + d + number[i + 1:]
            want = reference(changed)
            eq(want, d == number[i], 'model of one-digit changes')
            for n in (int(changed), long(changed)):
                if luhn10(n) is not want:
                    raise Violation('luhn10(%s): got %r' % (changed,
                                                            luhn10(n)))
            el = Long.named(u'c')(changed)
            note(el, u'The c was not entered correctly.', want,
                 'Luhn10 on %s' % changed, Luhn10()(el, None))
        if i + 1 < length:
            swapped = (number[:i] + number[i + 1] + number[i] +
                       number[i + 2:])
            eq(luhn10(int(swapped)), reference(swapped), 'luhn10', swapped)
    for bad in (None, u'', u'abc'):
        el = Integer.named(u'c')(bad)
        note(el, u'The c was not entered correctly.', False,
             'Luhn10 without a value', Luhn10()(el, None))
    return 'luhn'


def known(case, mc):
    """The codec of the platform may fail with an exception of its own."""
    el = String.named(u'e')(u'bob@a\u05d0.com')
    try:
        got = IsEmail()(el, None)
    except java.lang.Throwable, e:
        raise Violation('IsEmail raised %s' % (type(e).__name__,))
    note(el, u'e is not a valid email address.', False, 'IsEmail', got)
    return 'known'


def cases(tier):
    more = 1 if tier == 'thorough' else 0
    yield ('KF', 'idna')
    for c in DOMAIN:
        yield ('email', 'domain', c, 3 + more)
        yield ('email', 'local', c, 3 + more)
    yield ('email', 'noat', u'', 6 + more)
    yield ('email', 'patterns', u'', 4 + more)
    yield ('email', 'label', range(1, 30), 0)
    yield ('email', 'label', range(30, 66), 0)
    yield ('email', 'total', range(240, 261), 0)
    for scheme in GRID['scheme']:
        for host in GRID['host']:
            yield ('url', scheme, host)
            yield ('http', scheme, host)
            yield ('canon', scheme, host)
    for c in RAW:
        yield ('raw', c, 3 + more)
        yield ('raw', u'http://' + c, 2 + more)
        yield ('raw', u'HTTPS:' + c, 2 + more)
        yield ('raw', u'http://a' + c, 2 + more)
    yield ('special',)
    for prefix in (u'', u'123456789', u'1234567890', u'\u0665' * 7,
                   u'\u0660555555', u'(555) 123-45', u'555.123.4567 x1',
                   u'+1 (555) 123-'):
        for b in BLOCKS:
            yield ('phone', prefix + b, 3 + more)
    for lo in range(-20, 1000, 60):
        yield ('exchange', lo, lo + 60)
    for npa in (None, u'', u'x', 0, 415, u'212'):
        for nxx in (None, u'x', 0, 555, u'867'):
            for errors_to in (None, u'npa', u'x', u'd/y'):
                for lookup in (None, 'book'):
                    for method in (None, 'known'):
                        yield ('area', npa, nxx, errors_to, lookup, method)
    step = 10000
    for lo in range(0, (10 if more else 1) * 200000, step):
        yield ('luhn', lo, lo + step)
    for length in range(2, 20):
        for seed in range(22):
            yield ('luhnlong', length, seed)


def check(case, mc):
    return {'email': email, 'url': url_config, 'http': http_config,
            'canon': canon_config, 'raw': raw, 'special': special,
            'phone': phone, 'exchange': exchange, 'area': area,
            'luhn': luhn_range, 'luhnlong': luhn_long, 'KF': known,
            }[case[0]](case, mc)
