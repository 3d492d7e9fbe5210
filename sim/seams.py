"""Seams between liblarch and the world.

liblarch touches three sources of nondeterminism: which thread runs
(threading), when the main loop runs an idle handler (GLib/GObject) and the
iteration order of sets of strings (hash randomisation).  This module replaces
the first two by stand-ins controlled by the current World; the third one is
fixed by PYTHONHASHSEED and varied through randomly drawn node names.

There is no clock, file, socket or randomness in liblarch.  The stand-ins
nevertheless provide timeouts driven by a simulated clock, so that code which
starts to use them stays inside the simulation.
"""

import importlib
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading as real_threading

REPO = os.environ.get('VERIF_REPO', '/repo')

OWNER = 0          # index of the task which creates the tree and runs the loop


class SimAbort(BaseException):
    """Raised inside a task to unwind it when the run is over."""


class SimDeadlock(BaseException):
    """The running task waits for a lock nobody will ever release."""


class Violation(BaseException):
    """A property is broken.  Not an Exception: raised inside of callbacks, it
    must not be handled by the code under test."""

    def __init__(self, kind, text):
        BaseException.__init__(self, '%s: %s' % (kind, text))
        self.kind = kind
        self.text = text


class SimThread(object):
    """What threading.current_thread() gives inside the simulation."""

    def __init__(self, index, name):
        self.index = index
        self.name = name
        self.ident = 1000 + index
        self.native_id = self.ident
        self.daemon = False

    def is_alive(self):
        return True

    isAlive = is_alive

    def getName(self):
        return self.name

    def __repr__(self):
        return '<SimThread %s>' % self.name


class World(object):
    """One simulated process: threads, main loop, clock.

    This base class runs every API call atomically; `cur` says on behalf of
    which thread.  fine.FineWorld preempts between lines.
    """

    def __init__(self, nthreads, owner_is_main=True):
        self.cur = OWNER
        # names of threads do not have to be unique
        self.threads = [SimThread(i, 'sim-%d' % (i // 2))
                        for i in range(nthreads)]
        if owner_is_main:
            self.main_thread = self.threads[OWNER]
        elif nthreads > 1:
            # the process started with one of the others
            self.main_thread = self.threads[1]
        else:
            self.main_thread = SimThread(nthreads, 'sim-main')
        self.sources = {}
        self.next_source = 1
        self.round = []
        self.now = 0
        self.excs = []           # exceptions reported by the main loop
        self.dispatches = 0
        self.bad_removals = 0
        self.in_dispatch = None
        self.locks_contended = 0

    # scheduling ----------------------------------------------------------
    def yield_point(self, what):
        pass

    def block(self, what, ready):
        if not ready():
            raise SimDeadlock('thread %d waits forever for %s' %
                              (self.cur, what))

    # main loop -----------------------------------------------------------
    def add_source(self, due, priority, func, args, interval=None):
        self.yield_point('idle_add')
        source_id = self.next_source
        self.next_source += 1
        self.sources[source_id] = (due, priority, func, args, interval)
        return source_id

    def remove_source(self, source_id):
        self.yield_point('source_remove')
        if self.sources.pop(source_id, None) is None:
            self.bad_removals += 1
            return False
        return True

    def has_ready(self):
        return bool(self.sources)

    def dispatch_one(self):
        """Dispatch one source, as GLib does it: an iteration runs all the
        ready sources of the best priority, oldest first.  Returns False if
        there is none."""
        while True:
            while self.round:
                source_id = self.round.pop(0)
                if source_id in self.sources:
                    self._dispatch(source_id)
                    return True
            if not self.sources:
                return False
            ready = [(s[1], sid) for sid, s in self.sources.items()
                     if s[0] <= self.now]
            if not ready:
                # nothing to do now, jump to the next timeout
                self.now = min(s[0] for s in self.sources.values())
                continue
            best = min(ready)[0]
            self.round = [sid for prio, sid in sorted(ready) if prio == best]

    def _dispatch(self, source_id):
        due, priority, func, args, interval = self.sources[source_id]
        self.dispatches += 1
        self.in_dispatch = source_id
        try:
            again = func(*args)
        except Exception:
            # PyGObject prints it and drops the source
            self.report(*sys.exc_info())
            again = False
        finally:
            self.in_dispatch = None
        if source_id in self.sources:
            if again:
                if interval is not None:
                    self.sources[source_id] = (
                        self.now + interval, priority, func, args, interval)
            else:
                del self.sources[source_id]

    def report(self, etype, value, tb):
        self.excs.append((etype, value, tb))


WORLD = None


def set_world(world):
    global WORLD
    WORLD = world


# threading ---------------------------------------------------------------
class SimLock(object):
    """threading.Lock scheduled by the simulator."""

    def __init__(self):
        self.holder = None

    def acquire(self, blocking=True, timeout=-1):
        world = WORLD
        if world is None:
            self.holder = -1
            return True
        if not blocking:
            if self.holder is not None:
                return False
            self.holder = world.cur
            return True
        world.yield_point('acquire')
        if self.holder is not None:
            world.locks_contended += 1
            world.block('a lock', lambda: self.holder is None)
        self.holder = world.cur
        return True

    def release(self):
        if self.holder is None:
            raise RuntimeError('release unlocked lock')
        self.holder = None
        if WORLD is not None:
            WORLD.yield_point('release')

    def locked(self):
        return self.holder is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class SimRLock(object):
    def __init__(self):
        self.holder = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        world = WORLD
        me = world.cur if world is not None else -1
        if self.holder == me:
            self.count += 1
            return True
        if not blocking:
            if self.holder is not None:
                return False
        elif world is not None:
            world.yield_point('acquire')
            if self.holder is not None:
                world.locks_contended += 1
                world.block('a lock', lambda: self.holder is None)
        self.holder = me
        self.count = 1
        return True

    def release(self):
        me = WORLD.cur if WORLD is not None else -1
        if self.holder != me:
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.holder = None
            if WORLD is not None:
                WORLD.yield_point('release')

    def _is_owned(self):
        return self.holder == (WORLD.cur if WORLD is not None else -1)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class _ThreadingModule(type(sys)):
    """Stand-in for the threading module inside the simulated process."""

    def __getattr__(self, name):
        return getattr(real_threading, name)


def _make_threading():
    mod = _ThreadingModule('threading')
    mod.Lock = SimLock
    mod.RLock = SimRLock
    mod._allocate_lock = SimLock

    def current_thread():
        if WORLD is None:
            return real_threading.current_thread()
        return WORLD.threads[WORLD.cur]

    def get_ident():
        if WORLD is None:
            return real_threading.get_ident()
        return WORLD.threads[WORLD.cur].ident

    def main_thread():
        if WORLD is None:
            return real_threading.main_thread()
        return WORLD.main_thread

    def condition(lock=None):
        return real_threading.Condition(lock if lock is not None
                                        else SimRLock())

    mod.current_thread = current_thread
    mod.currentThread = current_thread
    mod.get_ident = get_ident
    mod.get_native_id = get_ident
    mod.main_thread = main_thread
    mod.Condition = condition
    return mod


# GLib --------------------------------------------------------------------
def _patch_glib():
    from gi.repository import GLib, GObject

    def idle_add(func, *args, **kwargs):
        priority = kwargs.get('priority', 200)
        return WORLD.add_source(0, priority, func, args)

    def timeout_add(interval, func, *args, **kwargs):
        priority = kwargs.get('priority', 0)
        return WORLD.add_source(WORLD.now + interval, priority, func, args,
                                interval)

    def timeout_add_seconds(interval, func, *args, **kwargs):
        return timeout_add(interval * 1000, func, *args, **kwargs)

    def source_remove(source_id):
        return WORLD.remove_source(source_id)

    for mod in (GLib, GObject):
        mod.idle_add = idle_add
        mod.timeout_add = timeout_add
        mod.timeout_add_seconds = timeout_add_seconds
        mod.source_remove = source_remove
    GLib.Source.remove = staticmethod(source_remove)


LIB = None


class Lib(object):
    """The code under test, loaded from the current tree behind the seams."""


def load(gtk=False):
    """Import liblarch (and liblarch_gtk) from REPO behind the seams."""
    global LIB
    if LIB is not None and (LIB.gtk or not gtk):
        return LIB
    sys.dont_write_bytecode = True
    import gi
    gi.require_version('Gtk', '3.0')
    _patch_glib()
    if LIB is None:
        sys.modules['threading'] = _make_threading()
        sys.modules.pop('queue', None)
        for name in [n for n in sys.modules if n.startswith('liblarch')]:
            del sys.modules[name]
        sys.path.insert(0, REPO)
    lib = Lib()
    lib.liblarch = importlib.import_module('liblarch')
    path = os.path.dirname(os.path.abspath(lib.liblarch.__file__))
    if path != os.path.join(os.path.abspath(REPO), 'liblarch'):
        raise RuntimeError('liblarch comes from %s' % path)
    lib.gtk = gtk
    if gtk:
        lib.treemodel = importlib.import_module('liblarch_gtk.treemodel')
        lib.widget = importlib.import_module('liblarch_gtk').TreeView
    lib.prefixes = (os.path.join(os.path.abspath(REPO), 'liblarch') + os.sep,
                    os.path.join(os.path.abspath(REPO), 'liblarch_gtk') +
                    os.sep)

    def excepthook(etype, value, tb):
        if WORLD is not None:
            WORLD.report(etype, value, tb)
        else:
            sys.__excepthook__(etype, value, tb)
    sys.excepthook = excepthook
    LIB = lib
    return lib


class _Cached(importlib.machinery.SourceFileLoader):
    codes = {}

    def get_code(self, fullname):
        if fullname not in self.codes:
            self.codes[fullname] = self.source_to_code(
                self.get_data(self.path), self.path)
        return self.codes[fullname]


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] != 'liblarch':
            return None
        where = os.path.join(os.path.abspath(REPO), *name.split('.'))
        if os.path.isdir(where):
            return importlib.util.spec_from_file_location(
                name, os.path.join(where, '__init__.py'),
                loader=_Cached(name, os.path.join(where, '__init__.py')),
                submodule_search_locations=[where])
        if os.path.exists(where + '.py'):
            return importlib.util.spec_from_file_location(
                name, where + '.py', loader=_Cached(name, where + '.py'))
        return None


def fresh():
    """Load liblarch again, so that nothing is left from other runs"""
    lib = load()
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    for name in [n for n in sys.modules
                 if n == 'liblarch' or n.startswith('liblarch.')]:
        del sys.modules[name]
    lib.liblarch = importlib.import_module('liblarch')


def rng_of(*parts):
    """A PRNG which depends only on the given values."""
    return random.Random('/'.join(str(p) for p in parts))
