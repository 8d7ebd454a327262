# -*- coding: utf-8 -*-
"""C13: element properties inherit like overlays and never leak upward."""
from flatland import Integer, String
from flatland.schema.properties import Properties
from lib import Violation, eq, seqs, true

LEVEL = 'model_checking'
RULE = ('A case is all operations of a history but the last; every choice of '
        'the last is replayed from a clean hierarchy and every view of every '
        'holder is compared with an overlay model. Non-trivial: all.')
BOUNDS = {
    'quick': 'a diamond of four classes, a class with its own replaced '
             'properties and its subclass, three instances; all histories of '
             '<=2 of 70 operations (assign, delete, pop, setdefault, clear, '
             'update, replace) on any of them and of <=3 on three levels of '
             'the diamond; histories of <=2 with classes derived along the '
             'way',
    'thorough': 'histories of <=4 operations over one diamond leg (32 '
                'operations), <=3 over everything with derived classes',
}
ASSUMPTIONS = ['properties replaced on one side of a diamond only are out of '
               'scope']

GONE = object()


class R(String):
    properties = Properties(a=u'r')


class A(R):
    pass


class B(R):
    pass


class M(A, B):
    pass


class X(A):
    properties = Properties(a=u'x')


class Y(X):
    pass


CLASSES = {'R': R, 'A': A, 'B': B, 'M': M, 'X': X, 'Y': Y}
MRO = {'R': 'R', 'A': 'AR', 'B': 'BR', 'M': 'MABR', 'X': 'X', 'Y': 'YX'}
INSTANCES = {'iA': 'A', 'iM': 'M', 'iY': 'Y'}

VERBS = (('set', 'a'), ('set', 'b'), ('del', 'a'), ('del', 'b'), ('pop', 'a'),
         ('pop?', 'b'), ('default', 'a'), ('default', 'b'), ('clear',),
         ('update',), ('popitem',))
ON_CLASS = [(h,) + v for h in ('R', 'A', 'B', 'M') for v in VERBS[:10]]
ON_CLASS += [(h,) + v for h in ('X', 'Y') for v in (VERBS[0], VERBS[3],
                                                    VERBS[8])]
ON_INST = [(h,) + v for h in ('iA', 'iM') for v in VERBS]
ON_INST += [('iY',) + v for v in (VERBS[1], VERBS[2])]
ON_INST += [(h, 'replace') for h in ('iA', 'iM')]
OPS = ON_CLASS + ON_INST
LEG = [o for o in OPS if o[0] in ('R', 'A', 'iA')]
SPINE = [o for o in OPS if o[0] in ('R', 'M', 'iM') and
         o[1] != 'popitem']
DERIVE = [(h, 'derive', kw) for h in ('R', 'A', 'M', 'Y')
          for kw in ('a', 'c')] + [(h, 'using') for h in ('R', 'M')] + [
    (h, 'make') for h in ('R', 'A', 'X')]


def cases(tier):
    for head in seqs(range(len(OPS)), 2 if tier == 'thorough' else 1):
        yield ('plain', head)
    for head in seqs(range(len(SPINE)), 2, 2):
        yield ('spine', head)
    wide = OPS + DERIVE
    for head in seqs(range(len(wide)), 2 if tier == 'thorough' else 1):
        yield ('derive', head)
    if tier == 'thorough':
        for head in seqs(range(len(LEG)), 3, 3):
            yield ('leg', head)


class World(object):
    def __init__(self):
        # a clean slate: new descriptors with nothing recorded
        R.properties = Properties(a=u'r')
        X.properties = Properties({u'a': u'x'})
        self.real = dict(CLASSES)
        self.mro = dict(MRO)
        self.frames = dict((c, {}) for c in MRO)
        self.frames['R'] = {'a': u'r'}
        self.frames['X'] = {'a': u'x'}
        self.inst = {}
        self.local = {}
        for i, c in INSTANCES.items():
            self.make(i, c)
        self.n = 0

    def make(self, name, cls):
        self.real[name] = self.real[cls]()
        self.inst[name] = cls
        self.local[name] = {}

    def lookup(self, h):
        """The overlay model: a plain dictionary for the holder."""
        out = {}
        if h in self.inst:
            local = self.local[h]
            if isinstance(local, list):
                return dict(local[0])
            chain = [self.frames[c] for c in self.mro[self.inst[h]]]
            chain = [local] + chain
        else:
            chain = [self.frames[c] for c in self.mro[h]]
        for frame in reversed(chain):
            out.update(frame)
        return dict((k, v) for k, v in out.items() if v is not GONE)

    def frame(self, h):
        if h in self.inst:
            local = self.local[h]
            return local[0] if isinstance(local, list) else local
        return self.frames[h]

    def hide(self, h, key):
        f = self.frame(h)
        if h in self.inst and isinstance(self.local[h], list):
            del f[key]
        else:
            f[key] = GONE


def run(world, op, hist):
    h, verb = op[0], op[1]
    holder = world.real[h]
    seen = world.lookup(h)
    world.n += 1
    # None is a value like any other
    value = u'v%d' % world.n if world.n > 1 else None
    if verb in ('derive', 'using', 'make'):
        name = unichr(0x61 + world.n)
        if verb == 'make':
            world.make('i' + name, h)
            return
        if verb == 'derive':
            key = str(op[2])
            world.real[name] = holder.with_properties(
                {'z': value}, **{key: value})
            world.frames[name] = {key: value, 'z': value}
            world.mro[name] = name + world.mro[h]
        else:
            world.real[name] = holder.using(properties={'a': value})
            world.frames[name] = {'a': value}
            world.mro[name] = name
        return
    props = holder.properties
    if verb == 'replace':
        mine = {'b': value}
        holder.properties = mine
        world.local[h] = [dict(mine)]
        return
    plain = h in world.inst and isinstance(world.local[h], list)
    if verb == 'set':
        props[op[2]] = value
        world.frame(h)[op[2]] = value
    elif verb in ('del', 'pop', 'pop?'):
        key = op[2]
        try:
            if verb == 'del':
                del props[key]
                got = None
            elif verb == 'pop':
                got = props.pop(key)
            else:
                got = props.pop(key, u'none')
            ok = True
        except KeyError:
            ok = False
        eq(ok, key in seen or verb == 'pop?', 'deletion accepted', hist)
        if verb != 'del' and ok:
            eq(got, seen.get(key, u'none'), 'popped', hist)
        if key in seen:
            world.hide(h, key)
    elif verb == 'default':
        got = props.setdefault(op[2], value)
        eq(got, seen.get(op[2], value), 'setdefault', hist)
        if op[2] not in seen:
            world.frame(h)[op[2]] = value
    elif verb == 'clear':
        props.clear()
        if h in world.inst and not plain:
            # an instance also forgets what it knew of other keys
            world.local[h] = {}
            seen = world.lookup(h)
        for key in seen:
            world.hide(h, key)
    elif verb == 'update':
        props.update({'b': value}, c=value)
        world.frame(h).update({'b': value, 'c': value})
    elif verb == 'popitem':
        if plain:
            return
        try:
            props.popitem()
        except NotImplementedError:
            pass
        else:
            raise Violation('popitem: %r' % (hist,))


def compare(world, hist):
    for h in sorted(world.real):
        want = world.lookup(h)
        props = world.real[h].properties
        where = (h, hist)
        for key in ('a', 'b', 'c', 'z'):
            try:
                got = props[key]
            except KeyError:
                got = None
            eq(got, want.get(key), 'item %s' % key, *where)
            eq(key in props, key in want, 'membership of %s' % key, *where)
            eq(props.get(key, 0), want.get(key, 0), 'get', *where)
        items = sorted(props.items())
        eq(items, sorted(want.items()), 'items', *where)
        eq(sorted(props.iteritems()), items, 'iteritems', *where)
        eq(sorted(props.keys()), sorted(want), 'keys', *where)
        eq(sorted(props.iterkeys()), sorted(want), 'iterkeys', *where)
        eq(sorted(props.values()), sorted(want.values()), 'values', *where)
        eq(sorted(props.itervalues()), sorted(want.values()), 'itervalues',
           *where)
        copied = props.copy()
        eq(copied, want, 'copy', *where)
        copied['a'] = u'changed'
        copied['q'] = u'changed'
        eq('q' in props, False, 'copy is independent', *where)
        true(props == want and not (props != want), 'equality', *where)
        true(props != dict(want, q=1) and not (props == dict(want, q=1)),
             'inequality', *where)
        eq(bool(props), bool(want), 'truth', *where)
        eq(eval(repr(props)), want, 'repr', *where)
    # what is not involved stays away
    eq(Integer.properties.copy(), {}, 'unrelated class', hist)
    eq(String.properties.copy(), {}, 'base class', hist)


def check(case, mc):
    space, head = case
    ops = {'plain': OPS, 'spine': SPINE, 'leg': LEG,
           'derive': OPS + DERIVE}[space]
    n = 0
    for last in range(len(ops)):
        hist = [ops[i] for i in head] + [ops[last]]
        if space == 'derive' and not [
                o for o in hist if o[1] in ('derive', 'using', 'make')]:
            continue
        world = World()
        for op in hist:
            run(world, op, hist)
            mc.transition()
        compare(world, hist)
        mc.state([(h, sorted(world.lookup(h).items()))
                  for h in sorted(world.real)])
        mc.trace()
        n += 1
    return n
