"""Fine simulation: real threads run real code, but one at a time; the
simulator may preempt the running one at every line of liblarch, at every lock
operation, call of the main loop and between API calls.

A spec (one run) is plain JSON:
  names     node names
  programs  one list of ops per thread; thread 0 is the owner of the tree
  sched     seed and rates of the random scheduler, or
  switches  [[step, thread], ...]: the explicit schedule of a replay.  Where no
            switch is given, the running thread goes on; if it cannot, the
            runnable one with the lowest number does.
"""

import sys
import threading as real_threading

from . import seams
from .coarse import describe
from .seams import SimAbort, Violation, rng_of

MAX_STEPS = 600000


class FineWorld(seams.World):
    def __init__(self, nthreads, prefixes, sched=None, switches=None,
                 owner_is_main=True):
        seams.World.__init__(self, nthreads, owner_is_main)
        self.prefixes = prefixes
        self.n = nthreads
        self.sems = [real_threading.Semaphore(0) for _ in range(nthreads)]
        self.state = ['ready'] * nthreads       # ready, blocked, done
        self.ready_when = [None] * nthreads
        self.finished = real_threading.Semaphore(0)
        self.aborting = False
        self.failure = None
        self.steps = 0
        self.preemptions = 0
        self.record = []
        self.switches = None
        self.where = []
        # called when a thread goes on after others did something
        self.watch = {}
        self.quiet = False
        self.rng = None
        if switches is not None:
            self.switches = dict((s, t) for s, t in switches)
        else:
            self.rng = rng_of('sched', sched['seed'])
            self.p = sched['p']
            self.p_sync = sched['p_sync']
            self.hot = sched['hot']
            self.hot_salt = sched['seed']
            self.p_ask = sched.get('p_ask', 0)
            self.focus, self.p_focus = sched.get('focus') or ('', 0)
            self.hot_cache = {}

    # scheduling ----------------------------------------------------------
    def runnable(self):
        out = []
        for i in range(self.n):
            if self.state[i] == 'ready' or (
                    self.state[i] == 'blocked' and self.ready_when[i]()):
                out.append(i)
        return out

    def is_hot(self, where):
        """A random subset of the lines, drawn once per run"""
        if where not in self.hot_cache:
            self.hot_cache[where] = (
                rng_of('hot', self.hot_salt, *where).random() < self.hot)
        return self.hot_cache[where]

    def choose(self, candidates, p):
        """The next thread; None: the running one goes on"""
        step = self.steps
        if self.switches is not None:
            target = self.switches.get(step)
            return target if target in candidates else None
        if self.rng.random() >= p:
            return None
        others = [c for c in candidates if c != self.cur]
        if not others:
            return None
        return self.rng.choice(others)

    def yield_point(self, what, where=None):
        if self.aborting:
            raise SimAbort()
        if self.quiet:
            return
        self.steps += 1
        if self.watch:
            # what the other threads could see at this moment
            for thread in self.watch:
                if thread != self.cur:
                    self.watch[thread]()
        if self.steps > MAX_STEPS:
            self.abort(Violation('hang', 'no end after %d steps' % MAX_STEPS))
            raise SimAbort()
        if self.switches is not None:
            if self.steps not in self.switches:
                return
            p = 1
        elif what == 'line':
            p = 0.5 if self.is_hot(where) else self.p
            if where[0] == self.focus:
                p = max(p, self.p_focus)
            if self.cur in self.watch:
                p = max(p, self.p_ask)
        else:
            p = self.p_sync
        if self.switches is None and self.rng.random() >= p:
            return
        target = self.choose(self.runnable(), 1)
        if target is None or target == self.cur:
            return
        self.preemptions += 1
        self.switch(target, what, where)

    def switch(self, target, what, where=None):
        me = self.cur
        self.record.append([self.steps, target])
        self.where.append((me, what, where, target))
        self.cur = target
        if self.state[target] == 'blocked':
            self.state[target] = 'ready'
        self.sems[target].release()
        self.sems[me].acquire()
        if self.aborting:
            raise SimAbort()
        if me in self.watch:
            self.watch[me]()

    def block(self, what, ready):
        """The running thread cannot go on until ready()"""
        if self.aborting:
            raise SimAbort()
        while not ready():
            self.steps += 1
            me = self.cur
            self.state[me] = 'blocked'
            self.ready_when[me] = ready
            candidates = self.runnable()
            if not candidates:
                self.abort(Violation('deadlock', 'every thread waits: %s' %
                                     what))
                raise SimAbort()
            if me in candidates:
                break
            target = None
            if self.switches is not None:
                target = self.switches.get(self.steps)
                if target not in candidates:
                    target = None
            elif len(candidates) > 1:
                target = self.rng.choice(candidates)
            if target is None:
                target = candidates[0]
            self.switch(target, 'block', None)
            if len(self.record) and target == candidates[0]:
                pass
        self.state[self.cur] = 'ready'

    def end_task(self):
        me = self.cur
        self.state[me] = 'done'
        self.steps += 1
        if self.aborting:
            self.next_abort()
            return
        candidates = self.runnable()
        if not candidates:
            if any(s == 'blocked' for s in self.state):
                self.abort(Violation('deadlock', 'the threads which are left '
                                     'wait forever'))
                self.next_abort()
            else:
                self.finished.release()
            return
        target = None
        if self.switches is not None:
            target = self.switches.get(self.steps)
            if target not in candidates:
                target = None
        elif len(candidates) > 1:
            target = self.rng.choice(candidates)
        if target is None:
            target = candidates[0]
        self.record.append([self.steps, target])
        self.where.append((me, 'end', None, target))
        self.cur = target
        self.state[target] = 'ready'
        self.sems[target].release()

    def abort(self, violation):
        if self.failure is None:
            self.failure = violation
        self.aborting = True

    def next_abort(self):
        """Unwind the remaining threads one after another"""
        for i in range(self.n):
            if self.state[i] != 'done':
                self.cur = i
                self.state[i] = 'ready'
                self.sems[i].release()
                return
        self.finished.release()

    # threads -------------------------------------------------------------
    def tracer(self, frame, event, arg):
        filename = frame.f_code.co_filename
        if filename.startswith(self.prefixes):
            return self.local_tracer
        return None

    def local_tracer(self, frame, event, arg):
        if event == 'line':
            self.yield_point('line', (
                frame.f_code.co_filename.rpartition('/')[2], frame.f_lineno))
        return self.local_tracer

    def task(self, index, func):
        self.sems[index].acquire()
        try:
            if not self.aborting:
                sys.settrace(self.tracer)
                func(index)
        except SimAbort:
            pass
        except Violation as exc:
            self.abort(exc)
        except Exception as exc:
            self.abort(Violation('exc', 'thread %d: %s' % (
                index, describe(exc))))
        finally:
            sys.settrace(None)
            self.end_task()

    def run(self, funcs):
        """Run the threads to their end."""
        threads = [real_threading.Thread(target=self.task, args=(i, f),
                                         daemon=True)
                   for i, f in enumerate(funcs)]
        for thread in threads:
            thread.start()
        self.cur = seams.OWNER
        self.sems[seams.OWNER].release()
        self.finished.acquire()
        for thread in threads:
            thread.join()
        return self.failure

    def others_done(self):
        return all(s == 'done' for i, s in enumerate(self.state)
                   if i != seams.OWNER)

    def dispatch_one(self):
        # the main loop itself is not liblarch
        sys.settrace(None)
        try:
            return seams.World.dispatch_one(self)
        finally:
            if not self.aborting:
                sys.settrace(self.tracer)

    def _dispatch(self, source_id):
        sys.settrace(self.tracer)
        seams.World._dispatch(self, source_id)
