# -*- coding: utf-8 -*-
"""Shared pieces of the bounded explorers (Python 2.7 / Jython)."""
import itertools


class Violation(Exception):
    """The implementation disagrees with the property."""


class MC(object):
    """Collects what one shard of an exploration covered."""

    def __init__(self, tier):
        self.tier = tier
        self.shard, self.nshards = 0, 1
        self.evaluations = 0
        self.nontrivial_count = 0
        self.duplicates = 0
        self.outcomes = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self._case = None
        self._nontrivial = True

    def begin(self, case):
        self._case = case
        self._nontrivial = True

    def trivial(self):
        """The current case satisfies the property vacuously."""
        self._nontrivial = False

    def state(self, key):
        """A reference-model state was visited (and compared)."""
        self.states.add(hash(repr(key)))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A model trace was replayed in full against the implementation."""
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def finish(self, outcome):
        self.evaluations += 1
        if self._nontrivial:
            self.nontrivial_count += 1
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(outcome)))
        n = self.evaluations
        # powers of 4: a deterministic handful of spread-out samples
        if n & (n - 1) == 0 and len(self.samples) < 12:
            self.samples.append({'case': repr(self._case)[:400],
                                 'outcome': repr(outcome)[:200]})


def eq(got, want, what, *ctx):
    """Compare by value *and* type-insensitive of text subclass."""
    if got != want:
        raise Violation('%s: got %r, expected %r%s' % (
            what, got, want, ' (%s)' % (', '.join(map(repr, ctx)),)
            if ctx else ''))


def same(got, want, what, *ctx):
    if got is not want:
        raise Violation('%s: got %r, expected the object %r%s' % (
            what, got, want, ' (%s)' % (', '.join(map(repr, ctx)),)
            if ctx else ''))


def true(cond, what, *ctx):
    if not cond:
        raise Violation('%s%s' % (
            what, ' (%s)' % (', '.join(map(repr, ctx)),) if ctx else ''))


def raises(excs, fn, what, *ctx):
    try:
        res = fn()
    except excs, e:
        return e
    raise Violation('%s: expected %r, got result %r%s' % (
        what, excs, res, ' (%s)' % (', '.join(map(repr, ctx)),)
        if ctx else ''))


def seqs(alphabet, upto, frm=0):
    """All sequences over *alphabet* with frm <= length <= upto, short first."""
    for n in range(frm, upto + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield s


def outcome_of(fn):
    """('ok', result) or ('raise', exception type name)."""
    try:
        return ('ok', fn())
    except Exception, e:
        return ('raise', type(e).__name__)
