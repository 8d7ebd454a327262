# -*- coding: utf-8 -*-
"""C29: every public name is one object, however it is reached."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from lib import Violation, eq, same, true

LEVEL = 'exploration'
RULE = ('A case is a sequence of first accesses (imports, attribute reads, '
        'listings, failing accesses) from a state in which no module of the '
        'package is loaded; afterwards every public name is read in every '
        'form and must be the object of its home module, listings must match '
        'and unknown names must fail. Synthetic packages do the same for the '
        'mechanism behind it. Non-trivial: at least one access before the '
        'reading.')
BOUNDS = {
    'quick': 'all 37 public names and submodules of flatland and 18 of '
             'flatland.util as the first access x 6 forms (and 5 more for '
             'a quarter of them); all ordered '
             'pairs of one of 25 modules and one of 12; all orders of the submodules; all '
             'ordered pairs of 14 representative accesses; synthetic '
             'packages: 9 import graphs x all sequences of up to 3 accesses '
             'out of 15 (the third out of 4); 24 runs in interpreters of their own',
    'thorough': 'the same with all pairs of modules, all triples of representative accesses, '
                'all pairs of (name, form) over 12 names, sequences of up to '
                '4 accesses in synthetic packages and 120 interpreters',
}
ASSUMPTIONS = [
    'a state with the package removed from sys.modules behaves as a fresh '
    'interpreter (confirmed for a sample in interpreters of their own)']

B, S, C, K, F, P, U = (
    'flatland.schema.base', 'flatland.schema.scalars',
    'flatland.schema.containers', 'flatland.schema.compound',
    'flatland.schema.forms', 'flatland.schema.properties',
    'flatland.util.base')
HOME = {
    'AdaptationError': 'flatland.exc', 'Array': C, 'Boolean': S,
    'Compound': K, 'Constrained': S, 'Container': C, 'Date': S,
    'DateTime': S, 'DateYYYYMMDD': K, 'Decimal': S, 'Dict': C, 'Element': B,
    'Enum': S, 'Float': S, 'Form': F, 'Integer': S, 'JoinedString': K,
    'List': C, 'Long': S, 'Mapping': C, 'MultiValue': C, 'Number': S,
    'Properties': P, 'Ref': S, 'Scalar': S, 'Sequence': C, 'Skip': B,
    'SkipAll': B, 'SkipAllFalse': B, 'SparseDict': C, 'String': S, 'Time': S,
    'Unevaluated': B, 'Unset': B, 'Unspecified': U, 'class_cloner': U,
}
SUBS = ('exc', 'schema', 'signals', 'util', 'validation')
UTIL = ('Maybe', 'Unspecified', 'adict', 'as_mapping',
        'assignable_class_property', 'assignable_property',
        'autodocument_from_superclasses', 'class_cloner', 'decode_repr',
        'keyslice_pairs', 'lazy_property', 'luhn10', 'named_int_factory',
        're_ucompile', 're_uescape', 'symbol', 'threading', 'to_pairs')
UTIL_HOME = dict((n, U) for n in UTIL)
UTIL_HOME['deferred_module'] = 'flatland.util.deferred'
VALIDATION = {
    'flatland.validation.base': ('Validator', 'as_format_mapping'),
    'flatland.validation.scalars': (
        'Converted', 'IsFalse', 'IsTrue', 'LengthBetween', 'LongerThan',
        'MapEqual', 'NoLongerThan', 'Present', 'ShorterThan', 'UnisEqual',
        'ValueAtLeast', 'ValueAtMost', 'ValueBetween', 'ValueGreaterThan',
        'ValueIn', 'ValueLessThan', 'ValuesEqual'),
    'flatland.validation.containers': (
        'HasAtLeast', 'HasAtMost', 'HasBetween', 'NotDuplicated'),
    'flatland.validation.network': (
        'HTTPURLValidator', 'IsEmail', 'URLCanonicalizer', 'URLValidator'),
    'flatland.validation.number': ('Luhn10',),
    'flatland.validation.string': ('NANPphone',),
}
MODULES = (
    'flatland', 'flatland.exc', 'flatland.schema', 'flatland.schema.base',
    'flatland.schema.scalars', 'flatland.schema.containers',
    'flatland.schema.compound', 'flatland.schema.forms',
    'flatland.schema.properties', 'flatland.schema.paths',
    'flatland.schema.util', 'flatland.signals', 'flatland.util',
    'flatland.util.base', 'flatland.util.deferred', 'flatland.validation',
    'flatland.validation.base', 'flatland.validation.scalars',
    'flatland.validation.containers', 'flatland.validation.network',
    'flatland.validation.number', 'flatland.validation.string',
    'flatland.out.markup', 'flatland.out.generic', 'flatland.ext.creditcard')
QUICK_MODULES = (
    'flatland', 'flatland.exc', 'flatland.schema', 'flatland.schema.base',
    'flatland.schema.compound', 'flatland.schema.properties',
    'flatland.signals', 'flatland.util', 'flatland.util.base',
    'flatland.validation', 'flatland.validation.base', 'flatland.out.markup')
# what each name is, apart from its identity
NAMED = {
    'Skip': 'Skip', 'SkipAll': 'SkipAll', 'SkipAllFalse': 'SkipAllFalse',
    'Unevaluated': 'Unevaluated', 'Unset': 'Unset',
    'Unspecified': 'Unspecified',
}


def home_of(package, name):
    if package == 'flatland.util':
        return UTIL_HOME[name]
    return HOME[name]


# forms of first access: (package, name) -> source that leaves it in x
def f_attr(p, n):
    return 'import %s\nx = %s.%s' % (p, p, n)


def f_from(p, n):
    return 'from %s import %s as x' % (p, n)


def f_getattr(p, n):
    return 'import sys, %s\nx = getattr(sys.modules[%r], %r)' % (p, p, n)


def f_import(p, n):
    return 'x = getattr(__import__(%r, None, None, [%r]), %r)' % (p, n, n)


def f_star(p, n):
    return 'from %s import *\nx = %s' % (p, n)


def f_home(p, n):
    return 'from %s import %s as x' % (home_of(p, n), n)


def f_home_attr(p, n):
    h = home_of(p, n)
    return 'import %s\nx = %s.%s' % (h, h, n)


def f_sub(p, n):
    h = home_of(p, n).split('.')
    if p == 'flatland.util':
        return 'import flatland\nx = flatland.util.%s.%s' % (h[2], n)
    return 'import flatland\nx = flatland.%s.%s' % (h[1], n)


def f_sub_from(p, n):
    h = home_of(p, n).split('.')
    if p == 'flatland.util':
        return 'from flatland import util\nx = util.%s.%s' % (h[2], n)
    return 'from flatland import %s as m\nx = m.%s' % (h[1], n)


def f_home_then(p, n):
    return 'import %s\nimport %s\nx = %s.%s' % (home_of(p, n), p, p, n)


def f_import_as(p, n):
    return 'import %s as m\nx = m.%s' % (p, n)


FORMS = [('attr', f_attr), ('from', f_from), ('getattr', f_getattr),
         ('__import__', f_import), ('star', f_star), ('home', f_home),
         ('home attr', f_home_attr), ('submodule', f_sub),
         ('from submodule', f_sub_from), ('home then package', f_home_then),
         ('import as', f_import_as)]
FORMD = dict(FORMS)


def purge(prefix='flatland'):
    for k in list(sys.modules):
        if k == prefix or k.startswith(prefix + '.'):
            del sys.modules[k]


def execute(src):
    ns = {'__name__': '__probe__'}
    exec src in ns
    return ns.get('x')


def read_everything(what):
    """Every public name, in every form, is the object of its home."""
    n = 0
    for package, names in (('flatland', sorted(HOME)),
                           ('flatland.util', sorted(UTIL_HOME))):
        for name in names:
            h = home_of(package, name)
            __import__(h)
            try:
                home = getattr(sys.modules[h], name)
            except AttributeError:
                raise Violation('%s is not in %s' % (name, h))
            label = getattr(home, '__name__', None)
            if name in NAMED:
                eq(repr(home), NAMED[name], 'name of constant', name)
            elif isinstance(home, type):
                eq(label, name, '__name__', name)
                eq(home.__module__, h, 'home module', name)
            pkg = sys.modules.get(package) or __import__(package)
            pkg = sys.modules[package]
            try:
                same(getattr(pkg, name), home, '%s.%s %s' % (
                    package, name, what))
            except AttributeError, e:
                raise Violation('%s.%s: %s %s' % (package, name, e, what))
            for form, f in FORMS:
                if form == 'star':
                    continue
                try:
                    got = execute(f(package, name))
                except Violation:
                    raise
                except Exception, e:
                    raise Violation('%s of %s.%s raised %r %s' % (
                        form, package, name, e, what))
                same(got, home, '%s of %s.%s %s' % (form, package, name,
                                                    what))
                n += 1
    return n


def check_listing(what):
    flatland = sys.modules['flatland']
    util = sys.modules.get('flatland.util')
    if util is None:
        __import__('flatland.util')
        util = sys.modules['flatland.util']
    for mod, names, subs in (
            (flatland, set(HOME), set(SUBS)),
            (util, set(UTIL_HOME), set(['base', 'deferred']))):
        eq(sorted(mod.__all__), sorted(names | subs),
           '__all__ of %s %s' % (mod.__name__, what))
        listed = dir(mod)
        for n in mod.__all__:
            true(n in listed, 'dir(%s) lacks %s %s' % (
                mod.__name__, n, what))
        for n in listed:
            try:
                getattr(mod, n)
            except Exception, e:
                raise Violation('dir(%s) lists %s: %r' % (mod.__name__, n, e))
        ns = {}
        exec 'from %s import *' % mod.__name__ in ns
        ns.pop('__builtins__', None)
        eq(sorted(ns), sorted(names | subs), 'import * of %s %s' % (
            mod.__name__, what))
        for n in ns:
            same(ns[n], getattr(mod, n), 'import * gives %s' % n)
        for n in subs:
            same(getattr(mod, n), sys.modules['%s.%s' % (mod.__name__, n)],
                 'submodule %s %s' % (n, what))
    eq(flatland.__version__, 'dev', 'version')
    eq(flatland.__doc__, 'Schemas for structured data.', 'doc')


def check_unknown(what):
    for package in ('flatland', 'flatland.util'):
        if package not in sys.modules:
            __import__(package)
        mod = sys.modules[package]
        for bad in ('nope', 'string', 'Strin', '__nope__', 'symbols', '',
                    'schema.String', 'decorator', 'Slot'):
            try:
                got = getattr(mod, bad)
            except AttributeError:
                pass
            except Exception, e:
                raise Violation('%s.%s raised %r %s' % (package, bad, e,
                                                        what))
            else:
                raise Violation('%s.%s is %r %s' % (package, bad, got, what))
            true(not hasattr(mod, bad), 'hasattr', bad)
        for bad in ('nope', 'Strin'):
            try:
                exec 'from %s import %s' % (package, bad) in {}
            except ImportError:
                pass
            else:
                raise Violation('from %s import %s %s' % (package, bad, what))


def check_validators(what):
    from flatland import validation
    for h in sorted(VALIDATION):
        __import__(h)
        for n in VALIDATION[h]:
            home = getattr(sys.modules[h], n)
            same(getattr(validation, n), home, 'flatland.validation.%s %s' % (
                n, what))
            same(getattr(sys.modules['flatland'].validation, n), home,
                 'flatland.validation.%s %s' % (n, what))
            # an alias
            label = 'ShorterThan' if n == 'NoLongerThan' else n
            eq((home.__module__, home.__name__), (h, label), 'home')
    from flatland import schema
    for n, h in sorted(HOME.items()):
        if h.startswith('flatland.schema.'):
            same(getattr(schema, n), getattr(sys.modules[h], n),
                 'flatland.schema.%s %s' % (n, what))
    for m in MODULES:
        mod = __import__(m, None, None, ['x'])
        same(sys.modules[m], mod, 'module %s %s' % (m, what))
        parts = m.split('.')
        parent = sys.modules['.'.join(parts[:-1])] if parts[1:] else None
        if parent is not None:
            same(getattr(parent, parts[-1]), mod, 'attribute %s %s' % (
                m, what))
        for n in getattr(mod, '__all__', ()):
            if not hasattr(mod, n):
                raise Violation('%s.__all__ lists %s' % (m, n))


REPRESENTATIVE = [
    ('flatland', 'String', 'attr'), ('flatland', 'AdaptationError', 'from'),
    ('flatland', 'Form', 'home'), ('flatland', 'Unspecified', 'attr'),
    ('flatland', 'class_cloner', 'from'), ('flatland', 'Skip', 'star'),
    ('flatland.util', 'Maybe', 'attr'), ('flatland.util', 'symbol', 'from'),
    ('flatland.util', 'deferred_module', 'attr'),
    ('flatland', 'Properties', 'submodule'),
]
OTHER = {
    'dir': 'import flatland\nx = dir(flatland)',
    'dir util': 'import flatland.util\nx = dir(flatland.util)',
    'unknown': 'import flatland\ntry:\n    flatland.nope\n'
               'except AttributeError:\n    pass\nelse:\n    raise ValueError',
    'use': 'import flatland\nx = flatland.List.of(flatland.String)([u"a"])',
    'validate': 'import flatland\nfrom flatland.validation import Present\n'
                'x = flatland.String.validated_by(Present())().validate()',
}
REPS = REPRESENTATIVE + sorted(OTHER)


def rep_source(r):
    if isinstance(r, tuple):
        return FORMD[r[2]](r[0], r[1])
    return OTHER[r]


# ------------------------------------------------------ synthetic packages
# how submodules refer to one another: source of a, source of b
GRAPHS = [
    ('apart', '', ''),
    ('a uses Z', 'from pkg import Z', ''),
    ('a uses .b', 'from .b import Z', ''),
    ('a uses pkg.b', 'import pkg.b', ''),
    ('b uses X', '', 'from pkg import X'),
    ('b uses .a', '', 'from .a import X, Y'),
    ('b uses pkg', '', 'import pkg\nq = pkg.X'),
    ('lazily both', 'def go():\n    from pkg import Z\n    return Z',
     'def go():\n    from pkg import X\n    return X'),
    ('b twice', '', 'from pkg import a\nfrom pkg import Y\nassert a.Y is Y'),
]
ACCESS = [
    'import pkg\nx = pkg.X', 'import pkg\nx = pkg.Y', 'import pkg\nx = pkg.Z',
    'import pkg\nx = pkg.a', 'import pkg\nx = pkg.b', 'from pkg import X',
    'from pkg import Z, Y', 'from pkg import *', 'from pkg.a import X',
    'import pkg.b', 'import pkg\nx = dir(pkg)',
    'import pkg\ntry:\n    pkg.nope\nexcept AttributeError:\n    pass',
    'import pkg\nx = hasattr(pkg, "c")', 'import pkg.c',
    'import pkg\ntry:\n    pkg.Missing\nexcept AttributeError:\n    pass',
]


def write_package(root, a, b):
    base = os.path.join(root, 'pkg')
    os.mkdir(base)
    for name, text in (
            ('__init__', 'from flatland.util.deferred import deferred_module\n'
             '"""doc"""\n'
             'deferred_module.shadow("pkg", {"a": ("X", "Y", "Missing"), '
             '"b": ("Z",)}, extra=5)\n'),
            ('a', a + '\nX = ["X"]\nY = ["Y"]\n'),
            ('b', b + '\nZ = ["Z"]\nX = ["not X"]\n'),
            ('c', 'C = 1\n')):
        f = open(os.path.join(base, name + '.py'), 'w')
        f.write(text)
        f.close()


def check_package(what):
    pkg = sys.modules['pkg']
    a = __import__('pkg.a', None, None, ['X'])
    b = __import__('pkg.b', None, None, ['Z'])
    same(a, sys.modules['pkg.a'], 'module a')
    for n, mod in (('X', a), ('Y', a), ('Z', b)):
        same(getattr(pkg, n), getattr(mod, n), 'pkg.%s %s' % (n, what))
        same(execute('from pkg import %s as x' % n), getattr(mod, n),
             'from pkg import %s %s' % (n, what))
        eq(getattr(pkg, n), [n], 'value', what)
    same(pkg.a, a, 'pkg.a %s' % what)
    same(pkg.b, b, 'pkg.b %s' % what)
    eq(pkg.extra, 5, 'extra')
    eq(sorted(pkg.__all__), ['Missing', 'X', 'Y', 'Z', 'a', 'b'], '__all__')
    for n in ('X', 'Y', 'Z', 'a', 'b', 'extra'):
        true(n in dir(pkg), 'dir lacks %s' % n)
    for n in ('nope', 'Missing', 'q', 'go'):
        try:
            getattr(pkg, n)
        except AttributeError:
            pass
        else:
            raise Violation('pkg.%s exists %s' % (n, what))
    if hasattr(a, 'go'):
        same(a.go(), b.Z, 'a.go()')
        same(b.go(), a.X, 'b.go()')


def synthetic(graph, first, depth, mc):
    name, a, b = GRAPHS[graph]
    root = tempfile.mkdtemp(prefix='c29-')
    write_package(root, a, b)
    sys.path.insert(0, root)
    n = 0
    try:
        for k in range(depth):
            for rest in itertools.product(range(len(ACCESS)), repeat=k):
                if mc.tier == 'quick' and k == 2 and rest[1] % 4:
                    continue
                seq = (first,) + rest
                purge('pkg')
                what = '(%s, %r)' % (name, [ACCESS[i] for i in seq])
                for i in seq:
                    try:
                        if '*' in ACCESS[i]:
                            # a listed name that is missing
                            try:
                                exec ACCESS[i] in {}
                            except (AttributeError, ImportError):
                                pass
                        else:
                            exec ACCESS[i] in {}
                    except Exception, e:
                        raise Violation('%r raised %r %s' % (
                            ACCESS[i], e, what))
                    mc.transition()
                check_package(what)
                n += 1
    finally:
        sys.path.remove(root)
        purge('pkg')
        shutil.rmtree(root)
    return n


def broken(which, mc):
    """A submodule that cannot be imported yet."""
    root = tempfile.mkdtemp(prefix='c29-')
    write_package(root, 'import __builtin__\n'
                  'if getattr(__builtin__, "c29_broken", False):\n'
                  '    raise %s("not yet")' % which, '')
    sys.path.insert(0, root)
    import __builtin__
    try:
        for seq in itertools.product(
                ('pkg.X', 'pkg.a', 'pkg.Z', 'from pkg import Y'), repeat=2):
            purge('pkg')
            __builtin__.c29_broken = True
            for s in seq:
                src = s if s.startswith('from') else 'import pkg\nx = %s' % s
                try:
                    exec src in {}
                except Exception, e:
                    if s == 'pkg.Z' or not isinstance(
                            e, (ImportError, eval(which))):
                        raise Violation('%s raised %r' % (src, e))
                else:
                    true(s == 'pkg.Z', 'the failure was hidden', s)
                mc.transition()
            __builtin__.c29_broken = False
            check_package('after a failure, %r' % (seq,))
    finally:
        __builtin__.c29_broken = False
        del __builtin__.c29_broken
        sys.path.remove(root)
        purge('pkg')
        shutil.rmtree(root)
    return which


def interpreter(sources):
    """Run *sources* first thing in an interpreter of their own."""
    script = tempfile.mkdtemp(prefix='c29-')
    try:
        path = os.path.join(script, 'go.py')
        f = open(path, 'w')
        here = os.path.dirname(os.path.abspath(__file__))
        f.write('import sys\n')
        for s in sources:
            f.write('exec %r in {"__name__": "__probe__"}\n' % s)
        f.write('sys.path[:0] = [%r, %r]\n' % (here, os.path.dirname(here)))
        f.write('import c29, lib\n'
                'try:\n'
                '    c29.read_everything("(own interpreter)")\n'
                '    c29.check_listing("(own interpreter)")\n'
                '    c29.check_unknown("(own interpreter)")\n'
                '    c29.check_validators("(own interpreter)")\n'
                'except lib.Violation, v:\n'
                '    print "VIOLATED", v\n'
                'else:\n'
                '    print "FINE"\n')
        f.close()
        out = open(os.path.join(script, 'out'), 'w')
        code = subprocess.call(['jython', '-B', path], stdout=out,
                               stderr=out, cwd=script)
        out.close()
        text = open(os.path.join(script, 'out')).read()
    finally:
        shutil.rmtree(script)
    if 'FINE' not in text.splitlines():
        raise Violation('in an interpreter of its own, after %r: %s' % (
            sources, text[-1500:]))
    return code


def cases(tier):
    yield ('first', None, None, None)
    for package, names in (('flatland', sorted(HOME)),
                           ('flatland.util', sorted(UTIL_HOME))):
        for name in names:
            yield ('first', package, name, None)
    for a in MODULES:
        yield ('modules', a)
    for p in itertools.permutations(SUBS, 2):
        yield ('orders', p)
    for a in range(len(REPS)):
        yield ('reps', a)
    for g in range(len(GRAPHS)):
        for i in range(len(ACCESS)):
            yield ('synthetic', g, i)
    for which in ('ImportError', 'ValueError', 'AttributeError'):
        yield ('broken', which)
    n = 24 if tier == 'quick' else 120
    for i in range(n):
        yield ('interpreter', i, n)


def everything(what, mc):
    n = read_everything(what)
    check_listing(what)
    check_unknown(what)
    check_validators(what)
    mc.trace()
    mc.count('names read', n)
    return n


def light(what, mc):
    """The cheaper reading: each name once per package."""
    n = 0
    for package, names in (('flatland', HOME), ('flatland.util', UTIL_HOME)):
        if package not in sys.modules:
            __import__(package)
        pkg = sys.modules[package]
        for name in names:
            h = home_of(package, name)
            try:
                got = getattr(pkg, name)
                ns = {}
                exec 'from %s import %s as y' % (package, name) in ns
                home = getattr(__import__(h, None, None, [name]), name)
            except Exception, e:
                raise Violation('%s.%s: %r %s' % (package, name, e, what))
            same(got, home, '%s.%s %s' % (package, name, what))
            same(ns['y'], home, 'from %s import %s %s' % (package, name,
                                                          what))
            n += 1
    check_listing(what)
    mc.trace()
    mc.count('names read', n)
    return n


def fresh(sources, mc, full=False):
    purge()
    what = 'after %r' % (sources,)
    for s in sources:
        try:
            exec s in {'__name__': '__probe__'}
        except Exception, e:
            raise Violation('%r raised %r %s' % (s, e, what))
        mc.transition()
    mc.state(tuple(sorted(k for k in sys.modules
                          if k.split('.')[0] == 'flatland')))
    if full:
        return everything(what, mc)
    return light(what, mc)


def check(case, mc):
    what = case[0]
    if what == 'first':
        _, package, name, _ = case
        if package is None:
            mc.trivial()
            return fresh((), mc, True)
        n = 0
        names = sorted(HOME) + sorted(UTIL_HOME)
        for i, (form, f) in enumerate(FORMS):
            if mc.tier == 'quick' and i > 5 and names.index(name) % 4 != i % 4:
                continue
            n += fresh((f(package, name),), mc, form == 'attr')
        return n
    if what == 'modules':
        a = case[1]
        n = 0
        for b in (MODULES if mc.tier == 'thorough' else QUICK_MODULES):
            n += fresh(('import ' + a, 'import ' + b), mc)
        return n
    if what == 'orders':
        n = 0
        rest = [s for s in SUBS if s not in case[1]]
        for tail in itertools.permutations(rest):
            order = case[1] + tail
            n += fresh(tuple('import flatland\nflatland.%s' % s
                             for s in order), mc)
            n += fresh(tuple('from flatland import %s' % s for s in order[:3])
                       + tuple('import flatland.%s' % s for s in order[3:]),
                       mc)
        return n
    if what == 'reps':
        n = 0
        for j in range(len(REPS)):
            pair = (rep_source(REPS[case[1]]), rep_source(REPS[j]))
            n += fresh(pair, mc)
            if mc.tier == 'thorough':
                for k in range(len(REPS)):
                    n += fresh(pair + (rep_source(REPS[k]),), mc)
        if mc.tier == 'thorough' and isinstance(REPS[case[1]], tuple):
            p, name, _ = REPS[case[1]]
            for f1, f2 in itertools.product(FORMS, repeat=2):
                for q, name2, _ in REPRESENTATIVE:
                    n += fresh((f1[1](p, name), f2[1](q, name2)), mc)
        return n
    if what == 'synthetic':
        return synthetic(case[1], case[2],
                         3 if mc.tier == 'quick' else 4, mc)
    if what == 'broken':
        return broken(case[1], mc)
    if what == 'interpreter':
        i, n = case[1:]
        pool = [(p, nm, fm) for p, names in (
            ('flatland', sorted(HOME)), ('flatland.util', sorted(UTIL_HOME)))
            for nm in names for fm, _ in FORMS]
        p, nm, fm = pool[(i * len(pool)) // n]
        mc.trace()
        return interpreter([FORMD[fm](p, nm)])
