# -*- coding: utf-8 -*-
"""A controlled scheduler: real threads, one at a time, switched where asked.

The library is loaded from its real source with a scheduling point before
every statement of every function (its modules' and classes' own statements
are left alone, as they run under the import lock).  Exactly one thread holds
the baton; a schedule says after how many points it moves and to whom.  Locks
made through ``threading`` are replaced by locks that know about the baton, so
a thread that has to wait hands it on, and a deadlock is seen as one.
"""
import __builtin__
import ast
import imp
import os
import sys
import threading

from java.lang import Runnable
from java.lang import Thread as JThread
from java.util.concurrent import Semaphore, TimeUnit

MANAGED = {}          # java thread id -> Worker


def me():
    return MANAGED.get(JThread.currentThread().getId())


class Deadlock(Exception):
    pass


class SchedLock(object):
    """A lock the scheduler can see."""

    reentrant = False

    def __init__(self, *args):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        key = JThread.currentThread().getId()
        while self.owner is not None and not (
                self.reentrant and self.owner == key):
            worker = me()
            if worker is None:
                raise Deadlock('a lock was left locked')
            if not blocking:
                return False
            worker.run.block(worker)
        self.owner = key
        self.depth += 1
        return True

    def release(self):
        key = JThread.currentThread().getId()
        if self.owner is None or self.reentrant and self.owner != key:
            raise RuntimeError('release of a lock that is not held')
        self.depth -= 1
        if not self.depth:
            self.owner = None
            worker = me()
            if worker is not None:
                worker.run.unblock()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class SchedRLock(SchedLock):
    reentrant = True


class Points(ast.NodeTransformer):
    """Puts a scheduling point before every statement of every function."""

    def __init__(self, tag):
        self.tag = tag
        self.inside = 0

    def point(self, node):
        call = ast.Expr(ast.Call(ast.Name('__sched_point__', ast.Load()),
                                 [ast.Str(self.tag)], [], None, None))
        ast.copy_location(call, node)
        return ast.fix_missing_locations(call)

    def body(self, statements):
        out = []
        for i, node in enumerate(statements):
            node = self.visit(node)
            # docstrings and declarations stay where they are
            if self.inside and not isinstance(node, ast.Global) and not (
                    isinstance(node, ast.Expr) and
                    isinstance(node.value, ast.Str)):
                out.append(self.point(node))
            out.append(node)
        return out

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            statements = getattr(node, field, None)
            if isinstance(statements, list):
                setattr(node, field, self.body(statements))
        for handler in getattr(node, 'handlers', ()):
            handler.body = self.body(handler.body)
        return node

    def visit_FunctionDef(self, node):
        self.inside += 1
        self.generic_visit(node)
        self.inside -= 1
        return node

    def visit_ClassDef(self, node):
        inside, self.inside = self.inside, 0
        self.generic_visit(node)
        self.inside = inside
        return node


class Importer(object):
    """Loads the library with scheduling points."""

    def find_module(self, fullname, path=None):
        if fullname.split('.')[0] != 'flatland':
            return None
        for base in sys.path:
            stem = os.path.join(base, *fullname.split('.'))
            for filename, package in ((os.path.join(stem, '__init__.py'), True),
                                      (stem + '.py', False)):
                if os.path.isfile(filename):
                    return Loader(filename, package, stem)
        return None


class Loader(object):

    def __init__(self, filename, package, stem):
        self.filename, self.package, self.stem = filename, package, stem

    def load_module(self, fullname):
        if fullname in sys.modules:
            return sys.modules[fullname]
        tree = ast.parse(open(self.filename).read(), self.filename)
        tag = fullname + ('.__init__' if self.package else '')
        code = compile(Points(tag).visit(tree), self.filename, 'exec')
        module = sys.modules[fullname] = imp.new_module(fullname)
        module.__file__ = self.filename
        module.__loader__ = self
        if self.package:
            module.__path__ = [self.stem]
            module.__package__ = fullname
        else:
            module.__package__ = fullname.rpartition('.')[0]
        try:
            exec code in module.__dict__
        except:
            del sys.modules[fullname]
            raise
        return sys.modules[fullname]


def point(tag):
    worker = MANAGED.get(JThread.currentThread().getId())
    if worker is not None:
        worker.run.point(worker.worker, tag)


def install():
    """Locks and library modules made from now on can be scheduled."""
    if [m for m in sys.modules if m.split('.')[0] == 'flatland']:
        raise RuntimeError('the library is loaded already')
    __builtin__.__sched_point__ = point
    sys.meta_path.insert(0, Importer())
    threading.Lock = SchedLock
    threading.RLock = SchedRLock


class Worker(Runnable):

    def __init__(self, run, index, fn):
        self._run = run
        self.index = index
        self.fn = fn
        self.baton = Semaphore(0)
        self.steps = 0
        self.done = self.blocked = False
        self.result = self.error = None

    # java.lang.Runnable has the method name run
    def run(self):
        run = self._run
        MANAGED[JThread.currentThread().getId()] = Handle(self)
        self.baton.acquire()
        try:
            if run.aborted:
                return
            try:
                self.result = self.fn()
            except Exception, e:
                self.error = e
        finally:
            del MANAGED[JThread.currentThread().getId()]
            self.done = True
            run.finished(self)


class Handle(object):
    """What a lock sees of the thread it runs in."""

    def __init__(self, worker):
        self.worker, self.run = worker, worker._run


class Run(object):
    """One execution of some functions under a schedule.

    *schedule* is a list of (thread, lines): run that thread for so many
    lines, or to its end where lines is None.  What is left when the schedule
    is used up runs to completion in thread order.
    """

    def __init__(self, fns, schedule, files):
        self.workers = [Worker(self, i, fn) for i, fn in enumerate(fns)]
        self.schedule = list(schedule)
        self.files = files
        self.wanted = {}
        self.all_done = Semaphore(0)
        self.aborted = False
        self.deadlock = False
        self.current = None
        self.left = None
        self.segments = []       # lines run in each segment
        self.reached = 0         # how many switches happened as asked

    def point(self, worker, tag):
        """*worker* is about to execute a statement of module *tag*."""
        ok = self.wanted.get(tag)
        if ok is None:
            ok = self.wanted[tag] = self.files(tag)
        if ok:
            self.step(worker)

    def step(self, worker):
        if self.left is not None and worker is self.current:
            if self.left == 0:
                self.reached += 1
                self.left = None
                nxt = self.choose()
                if nxt is not worker and nxt is not None:
                    self.give(nxt)
                    worker.baton.acquire()
                    if self.aborted:
                        raise Deadlock()
            if self.left is not None:
                self.left -= 1
        worker.steps += 1

    # -- switching

    def choose(self):
        """The next thread to run, according to the schedule."""
        while self.schedule:
            index, lines = self.schedule.pop(0)
            worker = self.workers[index]
            if not worker.done and not worker.blocked:
                self.left = lines
                return worker
        self.left = None
        for worker in self.workers:
            if not worker.done and not worker.blocked:
                return worker
        return None

    def give(self, worker):
        self.current = worker
        worker.baton.release()

    def finished(self, worker):
        nxt = self.choose()
        if nxt is not None:
            self.give(nxt)
        elif [w for w in self.workers if not w.done]:
            self.abort()
        else:
            self.all_done.release()

    def abort(self):
        self.deadlock = self.aborted = True
        self.all_done.release()
        for w in self.workers:
            w.baton.release()

    def block(self, handle):
        """The current thread cannot go on."""
        worker = handle.worker
        worker.blocked = True
        nxt = self.choose()
        if nxt is None:
            self.abort()
            raise Deadlock('all threads wait for each other')
        self.give(nxt)
        worker.baton.acquire()
        if self.aborted:
            raise Deadlock('all threads wait for each other')

    def unblock(self):
        for w in self.workers:
            w.blocked = False

    def go(self, timeout=60):
        threads = [JThread(w) for w in self.workers]
        for t in threads:
            t.setDaemon(True)
            t.start()
        self.give(self.choose())
        if not self.all_done.tryAcquire(timeout, TimeUnit.SECONDS):
            self.deadlock = True
        else:
            for t in threads:
                t.join(5000)
        return self
