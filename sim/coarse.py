"""Coarse simulation: API calls are atomic, their order over the threads, the
moments at which the main loop gets to run and the faults are simulated.

A spec (one run) is plain JSON:
  names    node names, ops refer to nodes by index
  threads  number of threads (0 is the owner of the tree)
  views    number of views, `own_main`: the owner is the process main thread
  ops      [[thread, name, args...], ...]
Every op is meaningful in every state, so a spec can be shrunk by dropping ops.
"""

import collections
import functools
import hashlib
import os
import traceback
import weakref

from . import model as M
from . import seams
from .seams import Violation
from .letgo import LetGo
from .siblings import Siblings
from .widget import WidgetOps

DRAIN_LIMIT = 40


class Inconclusive(Exception):
    """The tree itself is broken, which is the business of another check."""


class Listener(object):
    """Replays the events of a view, as a widget does."""

    def __init__(self, run, index, view, events=0):
        self.run = run
        self.index = index
        self.view = view
        self.rows = {}
        self.kids = {}
        self.broadcast = False
        self.dead = False
        # leave, from inside of a callback, after this many events
        self.events = events
        self.keys = [
            ('node-added-inview',
             view.register_cllbck('node-added-inview', self.added)),
            ('node-deleted-inview',
             view.register_cllbck('node-deleted-inview', self.deleted)),
            ('node-modified-inview',
             view.register_cllbck('node-modified-inview', self.modified))]

    def detach(self):
        for event, key in self.keys:
            self.view.deregister_cllbck(event, key)
        self.dead = True
        self.run.watch('a deregistered listener', self)

    def forget(self):
        self.rows, self.kids = {}, {}

    def where(self):
        return 'view %d' % self.index

    def check(self, event, node_id, path):
        self.run.stats['events'] += 1
        if self.dead:
            self.run.fail('listener', '%s: %s event for a listener which was '
                          'deregistered' % (self.where(), event))
        if self.run.world.cur != seams.OWNER:
            self.run.fail('thread', '%s: %s event on thread %d' %
                          (self.where(), event, self.run.world.cur))
        self.run.heard(self.index, event, node_id, path)
        self.ask(event, node_id)
        if not path or path[-1] != node_id:
            self.run.fail('stream', '%s: %s %r with path %r' %
                          (self.where(), event, node_id, path))
        if self.events:
            self.events -= 1
            if not self.events:
                self.detach()
                view = self.run.views.get(self.index)
                if view is not None and self in view.listeners:
                    view.listeners.remove(self)
                self.run.stats['unlisten'] += 1

    def ask(self, event, node_id):
        """A listener may ask about any node"""
        if self.run.spec['mode'] != 'coarse':
            return
        for name in self.view.get_all_nodes():
            try:
                self.view.get_paths_for_node(name)
                self.view.node_parents(name)
                self.view.node_all_children(name)
                self.view.node_n_children(name, recursive=True)
                self.view.get_node_for_path((name, ))
            except Exception as exc:
                self.run.fail('stream', '%s: while %s %r is announced, asking '
                              'about %r gives %r' % (
                                  self.where(), event, node_id, name, exc))

    def look(self, event, node_id, path):
        """The node has to be there when it is announced"""
        if not self.view.is_displayed(node_id):
            self.run.fail('stream', '%s: %s %r, but it is not displayed' %
                          (self.where(), event, node_id))
        try:
            paths = self.view.get_paths_for_node(node_id)
        except Exception as exc:
            self.run.fail('stream', '%s: %s %r, but the paths give %r' %
                          (self.where(), event, node_id, exc))
        else:
            if path not in paths:
                self.run.fail('stream', '%s: %s %r at %r, its paths are %r' %
                              (self.where(), event, node_id, path, paths))
        try:
            return self.view.get_node(node_id).data
        except Exception as exc:
            self.run.fail('stream', '%s: %s %r, but get_node gives %r' %
                          (self.where(), event, node_id, exc))

    def added(self, node_id, path):
        self.check('added', node_id, path)
        data = self.look('added', node_id, path)
        if path in self.rows:
            if not self.broadcast:
                self.run.fail('stream', '%s: added %r twice' %
                              (self.where(), path))
            self.rows[path] = data
            return
        if len(path) > 1:
            if path[:-1] not in self.rows:
                self.run.fail('stream', '%s: added %r below nothing' %
                              (self.where(), path))
                return
            self.kids[path[:-1]] += 1
        self.rows[path] = data
        self.kids[path] = 0

    def deleted(self, node_id, path):
        self.check('deleted', node_id, path)
        if path not in self.rows:
            self.run.fail('stream', '%s: deleted %r which is not there' %
                          (self.where(), path))
            return
        if self.kids[path]:
            self.run.fail('stream', '%s: deleted %r before what is below' %
                          (self.where(), path))
        del self.rows[path], self.kids[path]
        if path[:-1] in self.kids:
            self.kids[path[:-1]] -= 1

    def modified(self, node_id, path):
        self.check('modified', node_id, path)
        data = self.look('modified', node_id, path)
        if path not in self.rows:
            self.run.fail('stream', '%s: modified %r which is not there' %
                          (self.where(), path))
            return
        self.rows[path] = data


class MainListener(object):
    """A listener of the main view, which may leave after some events"""

    def __init__(self, run, events):
        self.run = run
        self.events = events
        self.start = len(run.main_log)
        self.log = []
        self.keys = []
        self.dead = False
        for event in ('added', 'deleted', 'modified'):
            self.keys.append(('node-' + event, run.main.register_cllbck(
                'node-' + event, functools.partial(self.told, event))))

    def told(self, event, node_id, path):
        run = self.run
        if self.dead:
            run.fail('listener', 'main view: %s %r for a listener which was '
                     'deregistered' % (event, node_id))
        if run.world.cur != seams.OWNER:
            run.fail('thread', 'main view: %s event on thread %d' % (
                event, run.world.cur))
        self.log.append((event, run.index.get(node_id)))
        if self.events:
            self.events -= 1
            if not self.events:
                self.detach()

    def check(self):
        if self.log != self.run.main_log[self.start:]:
            self.run.fail('listener', 'main view: a listener was told %s, '
                          'another one %s' % (
                              self.log, self.run.main_log[self.start:]))

    def detach(self):
        self.dead = True
        if self in self.run.main_listeners:
            self.run.main_listeners.remove(self)
        for event, key in self.keys:
            self.run.main.deregister_cllbck(event, key)
        self.run.watch('a deregistered listener of the main view', self)


class Boom(Exception):
    """An injected failure of a callback of the application"""


BOOMS = [Boom] + [type('Boom' + base.__name__, (Boom, base), {}) for base in (
    ValueError, KeyError, IndexError, RuntimeError, TypeError, AttributeError,
    StopIteration, OSError)]


class View(object):
    def __init__(self, real):
        self.real = real
        self.filters = []
        self.stale = False
        self.listeners = []
        self.stores = []
        self.widgets = []
        self.levels = {}


class Count(object):
    def __init__(self, run, real):
        self.run = run
        self.real = real
        self.filters = []
        self.stale = False
        self.seen = None
        self.calls = 0
        self.on = False
        self.guests = []

    def changed(self):
        if not self.on:
            self.run.fail('count', 'the callback was unregistered')
        self.told()
        self.seen = self.real.get_n_nodes()

    def told(self):
        self.calls += 1
        if self.run.world.cur != seams.OWNER:
            self.run.fail('thread', 'count callback on thread %d' %
                          self.run.world.cur)

    def guest(self, stay):
        """Another callback, which leaves when it was called"""
        state = {'on': True}

        def callback():
            if not state['on']:
                self.run.fail('count', 'a callback was unregistered')
            self.told()
            state['seen'] = self.real.get_n_nodes()
            state['calls'] -= 1
            if not state['calls']:
                state['on'] = False
                self.guests.remove(state)
                self.real.unregister_cllbck(callback)
                self.run.watch('a callback a count has unregistered',
                               callback)
        state['seen'] = self.real.get_n_nodes()
        state['calls'] = stay
        self.guests.append(state)
        self.real.register_cllbck(callback)


class Action(object):
    def __init__(self, view, nid, result):
        self.view = view
        self.nid = nid
        self.result = result
        self.runs = 0
        self.must = False
        self.may = False


class Coarse(WidgetOps, LetGo):
    """One run."""

    world_class = seams.World
    # there is no other tree which shares the main loop
    alone = True

    def __init__(self, spec, oracles, stats=None):
        self.spec = spec
        self.step = -1
        self.names = spec['names']
        self.index = {n: i for i, n in enumerate(self.names)}
        self.oracles = oracles
        if 'leak' in oracles:
            self.watch_ids()
        self.stats = stats if stats is not None else new_stats()
        self.first = None
        self.trace = hashlib.blake2b(digest_size=8)
        self.states = set()

        self.lib = seams.load(gtk=bool(spec.get('gtk')))
        self.world = self.world_class(spec['threads'],
                                      spec.get('own_main', True))
        seams.set_world(self.world)
        liblarch = self.lib.liblarch

        class Node(liblarch.TreeNode):
            data = 0

        self.Node = Node
        self.tree = liblarch.Tree()
        self.main = self.tree.get_main_view()
        self.objs = []
        self.registry = {}
        self.models = [M.Model()]
        self.views = {}
        self.counts = {}
        self.actions = []
        self.levels = {}
        self.register_filters()
        self.main_log = []
        self.main_set = set()
        self.main_listeners = []
        self.booms, self.passed_on, self.saboteurs = [], [], []
        self.diverged = False
        for event in ('added', 'deleted', 'modified'):
            self.main.register_cllbck('node-' + event,
                                      lambda nid, path, event=event:
                                      self.on_main(event, nid))
        self.last_rows = 0
        self.siblings = Siblings(self) if (
            'sibling' in oracles and spec['mode'] == 'coarse') else None

    # ---------------------------------------------------------------------
    def fail(self, kind, text):
        if kind in self.oracles:
            raise Violation(kind, text)

    def name(self, nid):
        return None if nid is None else self.names[nid]

    def register_filters(self):
        tree = self.tree

        def red(node, parameters=None):
            return bool(node.data & 1)

        def blue(node, parameters=None):
            return bool(node.data & 2)

        def leaf(node, parameters=None):
            return not node.has_child()

        def descendant_red(node):
            for child_id in node.get_children():
                child = tree.get_node(child_id)
                if child.data & 1 or descendant_red(child):
                    return True
            return False

        def busy(node, parameters=None):
            return red(node) or descendant_red(node)

        def blueleaf(node, parameters=None):
            return blue(node) and leaf(node)

        def kids(node, parameters=None):
            return sum(1 for c in node.get_children()
                       if tree.get_node(c).data & 2) < 2

        def below(node):
            found, todo = set(), node.get_children()
            while todo:
                cur = todo.pop()
                if cur not in found:
                    found.add(cur)
                    todo.extend(tree.get_node(cur).get_children())
            return found

        def odd(node, parameters=None):
            return sum(tree.get_node(c).data & 1
                       for c in below(node)) % 2 == 0

        funcs = {'odd': odd, 'flatodd': odd, 'red': red, 'blue': blue, 'leaf': leaf, 'busy': busy,
                 'blueleaf': blueleaf, 'kids': kids, 'notred': red,
                 'notleaf': leaf, 'notbusy': busy, 'flatred': red,
                 'flatleaf': leaf, 'flatbusy': busy,
                 'flatall': lambda node, parameters=None: True,
                 'all': lambda node, parameters=None: True,
                 'none': lambda node, parameters=None: False,
                 'noflatred': red}
        def preemptible(func):
            def filt(node, parameters=None):
                self.world.yield_point('filter')
                return func(node)
            return filt

        def on_owner(func):
            def filt(node, parameters=None):
                if self.world.cur != seams.OWNER:
                    self.fail('thread', 'a filter is called on thread %d' %
                              self.world.cur)
                return func(node)
            return filt

        funcs = {name: on_owner(func) for name, func in funcs.items()}
        for name, func in funcs.items():
            if self.spec.get('race_filters'):
                func = preemptible(func)
            if not tree.add_filter(name, func, M.FILTERS[name][1]):
                self.fail('bank', 'filter %s was not added' % name)
        self.funcs = funcs
        if self.spec.get('fragile'):
            def fails(name, below, func):
                def filt(node, parameters=None):
                    for one in ([node] if not below else map(
                            tree.get_node, below(node))):
                        if one.data & 4:
                            self.boom('filter', name)
                    return func(node)
                return filt
            for name, (_, func, params) in M.FRAGILE.items():
                tree.add_filter(name, on_owner(fails(
                    name, below if 'busy' in name else None,
                    busy if 'busy' in name else
                    funcs['all'] if 'flat' in name else red)), params)

        def level(node, parameters=None):
            return (node.data >> 2) >= parameters['level']

        for i in range(self.spec.get('views', 0)):
            self.levels[M.LEVEL % i] = (0, False)
            tree.add_filter(M.LEVEL % i, level, {'level': 0})

    def on_main(self, event, node_id):
        self.stats['events'] += 1
        if self.siblings:
            self.siblings.look()
        if self.world.cur != seams.OWNER:
            self.fail('thread', 'main view: %s event on thread %d' %
                      (event, self.world.cur))
        nid = self.index.get(node_id)
        if event == 'added':
            if nid in self.main_set:
                self.fail('stream', 'main view: added %r twice' % node_id)
            if not self.main.is_displayed(node_id):
                self.fail('stream', 'main view: added %r, which is not there'
                          % node_id)
            self.main_set.add(nid)
        elif event == 'deleted':
            if nid not in self.main_set:
                self.fail('stream', 'main view: deleted %r which was not '
                          'there' % node_id)
            if self.main.is_displayed(node_id):
                self.fail('stream', 'main view: deleted %r, which is still '
                          'there' % node_id)
            self.main_set.discard(nid)
        self.main_log.append((event, nid))

    def heard(self, vid, event, node_id, path):
        """A listener of a view was told something"""

    # the run -------------------------------------------------------------
    def run(self):
        """Returns the violation, or None."""
        try:
            for self.step, op in enumerate(self.spec['ops']):
                self.do(op)
            self.step = len(self.spec['ops'])
            self.drain()
            self.final()
            if 'leak' in self.oracles:
                self.check_leaks()
        except Violation as exc:
            exc.step = self.step
            return exc
        except Inconclusive:
            return None
        except seams.SimDeadlock as exc:
            return self.caught(Violation('deadlock', str(exc)))
        except Exception as exc:
            return self.caught(Violation('exc', describe(exc)))
        finally:
            self.stats['runs'] += 1
            self.stats['dispatches'] += self.world.dispatches
            for view in self.views.values():
                for widget in view.widgets:
                    widget.close()
            seams.set_world(None)
        return None

    def caught(self, exc):
        exc.step = self.step
        return exc if exc.kind in self.oracles else None

    def do(self, op):
        if self.siblings:
            self.siblings.claim(op[1], op[2:])
        self.stats['ops'] += 1
        if op[0] >= self.spec['threads']:
            return
        self.world.cur = op[0]
        try:
            getattr(self, 'op_' + op[1])(op[0], *op[2:])
        finally:
            self.world.cur = seams.OWNER
        self.trace.update(repr(op).encode())
        self.check()

    def call(self, thread, real, model):
        """Run an API call on the code and on the model."""
        owner = thread == seams.OWNER
        error = None
        before = len(self.main_log)
        silent = self.failures()
        self.raised = True
        try:
            result = real()
            self.raised = False
        except Boom as exc:
            self.passed_on.append(exc)
            result = None
        except Exception as exc:
            error, result = exc, None
        self.unnoticed(silent)
        models = []
        for before_call in self.models:
            for cand, refused in M.alternatives(
                    before_call, lambda m: model(m, owner), owner):
                if refused == (error is not None):
                    models.append(cand)
        if not models:
            if error is None:
                self.fail('refuse', 'a circular relationship was not refused')
                self.fail('state', 'a circular relationship was not refused')
            else:
                self.fail('exc', 'unexpected %r' % error)
            models = self.models
        elif error is not None:
            self.stats['refused'] += 1
        self.models = models
        if not owner:
            self.stats['remote'] += 1
            if len(self.main_log) != before:
                self.fail('thread', 'a call from another thread was executed '
                          'there')
        return result

    def pump(self, n, idle=False):
        """Let the main loop dispatch up to n sources.  With idle, it is
        expected to get idle, so that nothing waits any more."""
        self.world.cur = seams.OWNER
        done = 0
        for _ in range(n):
            if not self.world.dispatch_one():
                break
            done += 1
        if not done:
            return False
        self.absorb(idle)
        return True

    def absorb(self, idle=False):
        """The loop may have executed any number of waiting requests, in
        order"""
        idle = idle and not self.world.sources
        cands, todo = [], list(self.models)
        while todo:
            if idle:
                cands = [c for c in cands if not c.waiting()]
            cands.extend(todo)
            if len(cands) > 600:
                # too many possibilities to keep track of
                self.stats['inconclusive'] += 1
                raise Inconclusive()
            after = {}
            for cand in todo:
                if cand.waiting():
                    for new, _ in M.alternatives(cand, lambda m: m.pop()):
                        after.setdefault(new.key('log' in self.oracles), new)
            todo = list(after.values())
        # the last one has executed everything
        self.models = cands
        self.narrow()

    def narrow(self):
        """Keep the candidates which agree with what can be observed."""
        if self.diverged:
            self.models = self.models[-1:]
            return
        real = self.snapshot()
        models = [c for c in self.models if c.snapshot() == real]
        if 'log' in self.oracles:
            models = [c for c in models if c.log == self.main_log]
        if not models:
            kind = ('log' if any(c.snapshot() == real for c in self.models)
                    else 'state')
            self.fail(kind, self.explain(real))
            # Another property is broken.  Go on with what the tree is, the
            # views are checked only when no request waits.
            self.diverged = True
            self.stats['diverged'] += 1
            models = self.models[-1:]
        # forget candidates which are equal
        if len(models) > 1:
            unique = {}
            for cand in models:
                unique.setdefault(cand.key(), cand)
            models = list(unique.values())
        self.models = models
        most = max(c.refusals for c in models)
        if self.failures() > most and not self.diverged:
            etype, value, tb = [e for e in self.world.excs
                                if not isinstance(e[1], Boom)][-1]
            self.fail('exc', 'a request failed: %s: %s' %
                      (etype.__name__, value))
        least = min(c.refusals for c in models)
        if self.alone and self.failures() < least and not self.diverged:
            self.fail('refuse', 'nobody is told that the request of another '
                      'thread was refused: %d refused, %d told' % (
                          least, self.failures()))

    def explain(self, real):
        def show(snap):
            return '{%s}' % ', '.join(
                '%s: parents %s children %s' % (
                    self.names[n] if isinstance(n, int) else n,
                    self.show_ids(snap[n][1]), self.show_ids(snap[n][2]))
                for n in sorted(snap, key=str))
        want = [show(c.snapshot()) for c in self.models]
        text = 'the tree is %s, expected %s' % (
            show(real), ' or '.join(sorted(set(want))[:3]))
        if 'log' in self.oracles:
            text += '; events %r, expected %s' % (
                self.main_log[-6:],
                ' or '.join(sorted({repr(c.log[-6:])
                                    for c in self.models})[:3]))
        return text

    def show_ids(self, ids):
        return '[%s]' % ' '.join(self.names[i] if isinstance(i, int) else
                                 str(i) for i in ids)

    def backlog(self):
        return 0

    def drain(self):
        """All the waiting requests have to be executed by a bounded number
        of dispatches, and then the loop has nothing to do."""
        waiting = max(c.waiting() for c in self.models) + self.backlog()
        limit = waiting + len(self.world.sources) + DRAIN_LIMIT
        if waiting > 10 and 'stall' not in self.oracles:
            self.pump(limit - 10, True)
        for _ in range(limit):
            if not self.pump(1):
                break
        else:
            if self.world.sources:
                self.fail('stall', 'the main loop is still busy after %d '
                          'dispatches' % limit)
        done = [c for c in self.models if not c.waiting()]
        if not done and not self.diverged:
            self.fail('stall', '%d requests are never executed' %
                      min(c.waiting() for c in self.models))
            self.fail('state', 'requests are never executed: %s' %
                      self.explain(self.snapshot()))
            return
        self.models = done or self.models
        self.check(True)

    # state ---------------------------------------------------------------
    def snapshot(self):
        """The tree as its public interface shows it."""
        tree, index = self.tree, self.index
        snap = {}
        for nid, name in enumerate(self.names):
            if tree.has_node(name):
                node = tree.get_node(name)
                for idx, obj in enumerate(self.objs):
                    if obj is node:
                        break
                else:
                    idx = None
                snap[nid] = (
                    idx,
                    tuple(sorted(index.get(n, -1) for n in node.get_parents())),
                    tuple(sorted(index.get(n, -1)
                                 for n in node.get_children())))
        return snap

    def actual(self, real):
        """A model of what the tree is.  Views, counts and answers to
        questions are compared with it, so that each check blames the part it
        is about."""
        if not sane(real):
            self.stats['inconclusive'] += 1
            raise Inconclusive()
        model = M.Model()
        model.objs = {}
        for nid, (idx, parents, children) in real.items():
            node = self.tree.get_node(self.names[nid])
            model.objs[nid] = M.Obj(nid, node.data)
            model.nodes[nid] = nid
            model.parents[nid] = list(parents)
            model.children[nid] = list(children)
        return model

    def check(self, drained=False):
        oracles = self.oracles
        for vid in sorted(self.views):
            for widget in self.views[vid].widgets:
                widget.track_selection()
                if 'expand' in oracles:
                    widget.track()
        for listener in self.main_listeners:
            listener.check()
        if self.siblings:
            self.siblings.look()
            self.check_siblings()
        real = self.snapshot()
        self.integrity(real)
        self.narrow()
        dirty = any(c.dirty for c in self.models) or (
            self.diverged and not drained)
        model = self.actual(real)
        if 'roots' in oracles:
            roots = sorted(self.index.get(n, -1)
                           for n in self.main.node_all_children())
            if roots != model.roots():
                self.fail('roots', 'root level is %s, expected %s' % (
                    self.show_ids(roots), self.show_ids(model.roots())))
        if sorted(self.main_set) != sorted(model.nodes):
            self.fail('stream', 'main view: the announced nodes are %s, the '
                      'tree has %s' % (self.show_ids(sorted(self.main_set)),
                                       self.show_ids(sorted(model.nodes))))
        key = [sorted(real.items()), sorted((n, model.data(n))
                                            for n in model.nodes)]
        if not dirty:
            for vid in sorted(self.views):
                view = self.views[vid]
                key.append((vid, view.filters, view.stale))
                if not view.stale:
                    self.check_view(vid, view, model)
            if 'nav' in oracles:
                self.check_nav(-1, self.main, M.Shown(model, [], {}), True)
            for cid in sorted(self.counts):
                self.check_count(cid, self.counts[cid], model)
            self.states.add(hash_of(key))
            self.trace.update(b'.')
        else:
            self.stats['unsettled'] += 1

    def integrity(self, real):
        """The graph is sound, whatever the requests were"""
        if 'integrity' not in self.oracles:
            return
        names = sorted(self.index.get(n, -1) for n in self.tree_nodes())
        if names != sorted(real):
            self.fail('integrity', 'get_all_nodes gives %s' %
                      self.show_ids(names))
        roots = [self.index.get(n, -1) for n in self.main.node_all_children()]
        if len(set(roots)) != len(roots):
            self.fail('integrity', 'node twice at the root level: %s' %
                      self.show_ids(roots))
        for nid, (idx, parents, children) in real.items():
            if idx is None:
                self.fail('integrity', '%s is not the node which was added' %
                          self.names[nid])
            for what, ids in (('parent', parents), ('child', children)):
                if len(set(ids)) != len(ids):
                    self.fail('integrity', '%s twice a %s of %s' % (
                        self.show_ids(ids), what, self.names[nid]))
                for other in ids:
                    if other not in real:
                        self.fail('integrity', 'a %s of %s does not exist' % (
                            what, self.names[nid]))
                    elif nid not in real[other][2 if what == 'parent' else 1]:
                        self.fail('integrity', '%s is a %s of %s, but not the '
                                  'other way round' % (
                                      self.names[other], what,
                                      self.names[nid]))
            if (not parents) != (nid in roots):
                self.fail('integrity', '%s has %d parents and is %sat the '
                          'root level' % (self.names[nid], len(parents),
                                          '' if nid in roots else 'not '))
            node = self.tree.get_node(self.names[nid])
            raw = node.get_parents(), node.get_children()
            if (len(raw[0]) > 0) != node.has_parent() or \
                    (len(raw[1]) > 0) != node.has_child() or \
                    node.get_n_children() != len(raw[1]) or \
                    any(not node.has_parent(p) for p in raw[0]) or \
                    any(not node.has_child(c) for c in raw[1]) or \
                    [node.get_nth_child(i) for i in range(len(raw[1]))] != \
                    raw[1] or \
                    [node.get_child_index(c) for c in raw[1]] != \
                    list(range(len(raw[1]))):
                self.fail('integrity', 'the answers of node %s do not agree' %
                          self.names[nid])
            for other in self.names:
                if node.has_parent(other) != (other in raw[0]) or \
                        node.has_child(other) != (other in raw[1]):
                    self.fail('integrity', 'the answers of node %s about %s '
                              'do not agree' % (self.names[nid], other))
        # acyclic: every node is below the root level
        seen, todo = set(), list(roots)
        while todo:
            nid = todo.pop()
            if nid in seen or nid not in real:
                continue
            seen.add(nid)
            todo.extend(real[nid][2])
        if seen != set(real):
            self.fail('integrity', 'not reachable from the root level: %s' %
                      self.show_ids(sorted(set(real) - seen)))
        if has_cycle(real):
            self.fail('integrity', 'the tree is circular: %s' %
                      self.explain(real))

    def tree_nodes(self):
        return self.main.get_all_nodes()

    def ids(self, names):
        return sorted(self.index.get(n, -1) for n in names)

    def check_view(self, vid, view, model):
        oracles = self.oracles
        shown = M.Shown(model, view.filters, self.levels)
        real = view.real
        if 'view' in oracles:
            if self.ids(real.get_all_nodes()) != sorted(shown.parents):
                self.fail('view', 'view %d %r shows %s, expected %s' % (
                    vid, view.filters, self.show_ids(
                        self.ids(real.get_all_nodes())),
                    self.show_ids(sorted(shown.parents))))
            for nid, name in enumerate(self.names):
                if real.is_displayed(name) != (nid in shown.parents):
                    self.fail('view', 'view %d: is_displayed(%s) is wrong' % (
                        vid, name))
            for nid, pars in shown.parents.items():
                got = self.ids(real.node_parents(self.names[nid]))
                if got != sorted(pars):
                    self.fail('view', 'view %d %r shows %s below %s, expected '
                              '%s' % (vid, view.filters, self.names[nid],
                                      self.show_ids(got),
                                      self.show_ids(sorted(pars))))
            for nid, kids in shown.children.items():
                got = self.ids(real.node_all_children(self.name(nid)))
                if got != sorted(kids):
                    self.fail('view', 'view %d %r has below %s: %s, expected '
                              '%s' % (vid, view.filters, self.name(nid),
                                      self.show_ids(got),
                                      self.show_ids(sorted(kids))))
            if real.get_n_nodes() != len(shown.parents):
                self.fail('view', 'view %d counts %d nodes' % (
                    vid, real.get_n_nodes()))
        if 'nav' in oracles:
            self.check_nav(vid, real, shown, False)
        want = {tuple(self.names[i] for i in path): model.data(nid)
                for nid, paths in shown.paths.items() for path in paths}
        for listener in view.listeners:
            if set(listener.rows) != set(want):
                self.fail('stream', 'view %d %r: the events add up to %s, the '
                          'view shows %s' % (
                              vid, view.filters, sorted(listener.rows),
                              sorted(want)))
            elif listener.rows != want:
                bad = sorted(p for p in want if listener.rows[p] != want[p])
                self.fail('fresh', 'view %d: no event told that %s changed' %
                          (vid, bad))
        if 'gtk' in oracles:
            for store in view.stores:
                self.check_gtk(vid, store, want)
        if oracles & {'gtk', 'sorted', 'cells'}:
            for widget in view.widgets:
                widget.check_rows(want)
        for action in self.actions:
            if action.view == vid:
                if action.nid in shown.parents:
                    action.must = True
        self.last_rows = len(want)

    def check_nav(self, vid, real, shown, static):
        names = self.names
        what = 'main view' if static else 'view %d' % vid

        def bad(text, *args):
            self.fail('nav', '%s: %s' % (what, text % args))

        missing = [n for i, n in enumerate(names) if i not in shown.parents]
        for name in missing:
            if real.get_node_for_path((name, )) is not None:
                bad('the path of %s, which is not displayed, leads to %r',
                    name, real.get_node_for_path((name, )))
        following = {}
        for nid, paths in shown.paths.items():
            name = names[nid]
            want = sorted(tuple(names[i] for i in path) for path in paths)
            got = real.get_paths_for_node(name)
            if sorted(got) != want:
                bad('paths of %s are %r, expected %r', name, got, want)
            for path in want:
                if real.get_node_for_path(path) != name:
                    bad('path %r leads to %r', path,
                        real.get_node_for_path(path))
                other = path[1:] if len(path) > 1 else path + path
                if other not in want and \
                        real.get_node_for_path(other) is not None:
                    bad('path %r, which does not exist, leads to %r', other,
                        real.get_node_for_path(other))
                if len(missing) and real.get_node_for_path(
                        path + (missing[0], )) is not None:
                    bad('something is below the path %r', path)
            if real.node_has_parent(name) != bool(shown.parents[nid]):
                bad('node_has_parent(%s) is wrong', name)
            if sorted(real.node_parents(name)) != sorted(
                    names[i] for i in shown.parents[nid]):
                bad('node_parents(%s) is %r', name, real.node_parents(name))
        if real.get_paths_for_node(None) != [()]:
            bad('path of the root is %r', real.get_paths_for_node(None))
        if real.get_node_for_path(()) is not None:
            bad('the empty path leads to %r', real.get_node_for_path(()))
        for nid, kids in shown.children.items():
            name = self.name(nid)
            got = list(real.node_all_children(name))
            if sorted(got) != sorted(names[i] for i in kids):
                bad('children of %s are %r', name, got)
            if real.node_n_children(name) != len(kids):
                bad('node_n_children(%s) is %r', name,
                    real.node_n_children(name))
            if real.node_n_children(name, recursive=True) != shown.count(nid):
                bad('node_n_children(%s, recursive) is %r, expected %d', name,
                    real.node_n_children(name, recursive=True),
                    shown.count(nid))
            if real.node_has_child(name) != bool(kids):
                bad('node_has_child(%s) is %r', name,
                    real.node_has_child(name))
            for i, child in enumerate(got):
                if real.node_nth_child(name, i) != child:
                    bad('node_nth_child(%s, %d) is %r', name, i,
                        real.node_nth_child(name, i))
                after = got[i + 1] if i + 1 < len(got) else None
                following.setdefault(child, []).append(after)
                if real.next_node(child, name) != after:
                    bad('next_node(%s, %s) is %r, expected %r', child, name,
                        real.next_node(child, name), after)
            try:
                extra = real.node_nth_child(name, len(got))
            except ValueError:
                pass
            else:
                bad('node_nth_child(%s, %d) is %r', name, len(got), extra)
        for name, after in following.items():
            if real.next_node(name) not in after:
                bad('next_node(%s) is %r, expected one of %r', name,
                    real.next_node(name), after)
        self.check_printed(what, real.print_tree(True), shown)
        if real.get_n_nodes() != len(shown.parents):
            bad('get_n_nodes is %r', real.get_n_nodes())
        if sorted(real.get_all_nodes()) != sorted(
                names[i] for i in shown.parents):
            bad('get_all_nodes is %r', real.get_all_nodes())
        for name in missing[:1]:
            for what_of in ('next_node', 'node_n_children', 'node_has_child',
                            'node_all_children', 'node_parents',
                            'node_has_parent'):
                try:
                    got = getattr(real, what_of)(name)
                except Exception:
                    continue
                if got:
                    bad('%s(%s) is %r, it is not displayed', what_of, name,
                        got)
        self.check_own_answers(bad, real, shown, static)

    def check_own_answers(self, bad, real, shown, static):
        """An answer belongs to who asked: changing it changes nothing"""
        if self.step % 3:
            return
        questions = [('get_all_nodes', real.get_all_nodes),
                     ('get_nodes', real.get_nodes),
                     ('list_filters', self.tree.list_filters)]
        if not static:
            questions.append(('list_applied_filters',
                              real.list_applied_filters))
        for nid in [None] + sorted(shown.parents)[self.step // 3 % 3:][:2]:
            name = self.name(nid)
            questions.append(('node_all_children(%s)' % name, functools.partial(
                real.node_all_children, name)))
            questions.append(('get_paths_for_node(%s)' % name,
                              functools.partial(real.get_paths_for_node,
                                                name)))
            if nid is not None:
                node = real.get_node(name)
                questions += [
                    ('node_parents(%s)' % name,
                     functools.partial(real.node_parents, name)),
                    ('get_children of %s' % name, node.get_children),
                    ('get_parents of %s' % name, node.get_parents)]
        for text, ask in questions:
            answer = ask()
            if not isinstance(answer, list):
                continue
            before = list(answer)
            answer[:1] = ['somebody else', 'nobody']
            if sorted(ask()) != sorted(before):
                bad('who changes the answer of %s, changes the tree', text)

    def check_printed(self, what, text, shown):
        """One line for every path, below its parent"""
        above, got = [], []
        for line in text.split('\n'):
            name = line.lstrip(' ')
            depth = len(line) - len(name)
            if depth:
                above[depth - 1:] = [name]
                got.append(tuple(above))
        want = sorted(tuple(self.names[i] for i in path)
                      for paths in shown.paths.values() for path in paths)
        if sorted(got) != want:
            self.fail('nav', '%s: printed are %r, expected %r' % (
                what, sorted(got), want))

    def check_siblings(self):
        for vid, view in self.views.items():
            for listener in view.listeners:
                self.siblings.rows(vid, 'a listener of view %d' % vid,
                                   listener.rows)
            for store in view.stores:
                if not store.sort_column:
                    self.siblings.rows(
                        vid, 'a Gtk model of view %d' % vid,
                        [row[0] for row in self.rows_of(store)])

    @staticmethod
    def rows_of(store):
        got = []

        def walk(it, path):
            while it is not None:
                here = path + (store.get_value(it, 0), )
                got.append((here, store.get_value(it, 1),
                            store.get_value(it, 2)))
                walk(store.iter_children(it), here)
                it = store.iter_next(it)

        walk(store.get_iter_first(), ())
        return got

    def check_gtk(self, vid, store, want):
        got = self.rows_of(store)
        self.stats['rows'] += len(got)
        expected = [(path, 'd%d' % data, data) for path, data in want.items()]
        if self.spec.get('fragile'):
            # no value is told where the function of the column fails
            expected = [(path, text if not data & 8 else None,
                         data if not data & 4 else None)
                        for path, text, data in expected]
            known = {row[0]: row for row in expected}
            got = [tuple(None if told is None else value for value, told in
                         zip(row, known.get(row[0], row))) for row in got]
        expected.sort(key=repr)
        got.sort(key=repr)
        if got != expected:
            paths = [sorted(row[0] for row in rows) for rows in (got, expected)]
            if paths[0] != paths[1]:
                self.fail('gtk', 'view %d: the rows are %r, expected %r' % (
                    vid, paths[0], paths[1]))
            self.fail('gtk', 'view %d: rows %r, expected %r' % (
                vid, got, expected))

    def check_count(self, cid, count, model):
        if 'count' not in self.oracles or count.stale:
            return
        want = sum(1 for nid in model.nodes
                   if M.passes(model, nid, count.filters, {}))
        got = count.real.get_n_nodes()
        if got != want:
            self.fail('count', 'count %d %r is %d, expected %d' % (
                cid, count.filters, got, want))
        if count.seen is not None and count.seen != want:
            self.fail('count', 'count %d: the callback told %d, it is %d' % (
                cid, count.seen, want))
        for state in count.guests:
            if state['seen'] != want:
                self.fail('count', 'count %d: another callback told %d, it is '
                          '%d' % (cid, state['seen'], want))

    def final(self):
        for action in self.actions:
            text = 'action %d for %s in view %d ran %d times' % (
                self.actions.index(action), self.names[action.nid],
                action.view, action.runs)
            if action.runs > 1:
                self.fail('action', text)
            if action.must and not action.runs:
                self.fail('action', text + ', it was displayed')
            if action.runs and not action.may:
                self.fail('action', text + ', it never existed')
        if 'boom' in self.oracles:
            self.check_booms()
        if 'bank' in self.oracles:
            self.check_bank()
        if 'withfilters' in self.oracles:
            self.check_withfilters()
        self.trace.update(repr(self.main_log).encode())

    def op_vask(self, thread, vid, extra):
        """Ask a view (or the main view) with additional filters"""
        view = self.views.get(vid)
        if view is None:
            real, filters = self.main, []
        else:
            real, filters = view.real, view.filters
        asks = [extra]
        if filters and filters[-1] in M.FILTERS:
            # those which are applied may be given as well
            asks.append(filters[-1:] + extra[:1])
        for extra in asks:
            self.ask_withfilters(vid, view, real, filters, extra)

    def ask_withfilters(self, vid, view, real, filters, extra):
        first = self.guard(real.get_n_nodes, withfilters=extra)
        got = self.ids(self.guard(real.get_nodes, withfilters=extra) or ())
        if first != len(got):
            self.fail('withfilters', 'view %d %r with %r counts %r, shows %s' %
                      (vid, filters, extra, first, self.show_ids(got)))
        if 'withfilters' not in self.oracles:
            return
        # those which are displayed, although they would not be if the change
        # of their data had been announced
        model = self.actual(self.snapshot())
        want = sorted(nid for nid in self.ids(real.get_all_nodes())
                      if nid in model.nodes and
                      M.passes(model, nid, extra, self.levels))
        if got == want and not (any(c.dirty for c in self.models) or
                                self.diverged or
                                view is not None and view.stale):
            want = sorted(nid for nid in model.nodes if M.passes(
                model, nid, filters + extra, self.levels))
        if got != want:
            self.fail('withfilters', 'view %d %r with %r has %s, expected %s' %
                      (vid, filters, extra, self.show_ids(got),
                       self.show_ids(want)))

    def check_withfilters(self):
        """Every view with one or two more filters"""
        model = self.actual(self.snapshot())
        rng = seams.rng_of('withfilters', repr(self.spec['ops']))
        names = sorted(M.FILTERS)
        for vid in [-1] + sorted(self.views):
            view = self.views.get(vid)
            if view is not None and view.stale:
                continue
            real = view.real if view is not None else self.main
            filters = view.filters if view is not None else []
            for _ in range(4):
                extra = rng.sample(names, rng.randint(0, 2))
                want = sorted(
                    nid for nid in model.nodes
                    if M.passes(model, nid, filters + extra, self.levels))
                for _ in range(2):
                    got = self.ids(real.get_nodes(withfilters=extra))
                    if got != want:
                        self.fail('withfilters', 'view %d %r with %r has %s, '
                                  'expected %s' % (
                                      vid, filters, extra, self.show_ids(got),
                                      self.show_ids(want)))
                    if real.get_n_nodes(withfilters=extra) != len(want):
                        self.fail('withfilters', 'view %d %r with %r counts '
                                  '%d, expected %d' % (
                                      vid, filters, extra,
                                      real.get_n_nodes(withfilters=extra),
                                      len(want)))

    # ops: tree -----------------------------------------------------------
    EARLY = {'nparent': ('add_parent', 'obj_add_parent'),
             'nchild': ('add_child', 'obj_add_child'),
             'nset': ('set_parent', 'obj_set_parent'),
             'nunset': ('remove_parent', 'obj_remove_parent')}

    def op_add(self, thread, nid, par, data, pri, pars, kids, pe, ce, ctor,
               early=()):
        """Create a node, change its mind about its relatives and add it"""
        name = self.names[nid]
        node = self.Node(name, parent=self.name(ctor))
        node.data = data
        for other in pars:
            node.add_parent(self.names[other])
        for other in kids:
            node.add_child(self.names[other])
        for kind, other in early:
            getattr(node, self.EARLY[kind][0])(self.name(other))
        if early and (node.get_parents() or node.get_children() or
                      node.has_parent() or node.has_child() or
                      node.has_parent(self.name(early[0][1])) or
                      node.has_child(self.name(early[0][1])) or
                      node.get_n_children()):
            self.fail('state', '%s has relatives before it is added' % name)
        if not pe:
            node.set_parents_enabled(False)
        if not ce:
            node.set_children_enabled(False)
        idx = len(self.objs)
        self.objs.append(node)
        self.registry[nid] = idx
        for cand in self.models:
            obj = M.Obj(nid, data)
            cand.objs.append(obj)
            for other in ([] if ctor is None else [ctor]) + pars:
                cand.obj_add_parent(False, idx, other)
            for other in kids:
                cand.obj_add_child(False, idx, other)
            for kind, other in early:
                getattr(cand, self.EARLY[kind][1])(False, idx, other)
            obj.pe, obj.ce = bool(pe), bool(ce)
        self.op_readd(thread, nid, par, pri)

    def op_readd(self, thread, nid, par, pri):
        """Add the last node object created for this id (again)"""
        idx = self.registry.get(nid)
        if idx is None:
            return
        node = self.objs[idx]
        lane = M.LANE[pri]
        for action in self.actions:
            if action.nid == nid:
                action.may = True
        self.call(thread,
                  lambda: self.tree.add_node(node, self.name(par), pri),
                  lambda m, o: m.request(o, lane, 'add', idx, par))

    def op_del(self, thread, nid, recursive):
        name = self.names[nid]
        self.call(thread,
                  lambda: self.tree.del_node(name, recursive=bool(recursive)),
                  lambda m, o: m.request(o, M.NORMAL, 'del', nid,
                                         bool(recursive)))

    def op_move(self, thread, nid, par):
        name = self.names[nid]

        def model(m, owner):
            if nid in m.nodes:
                m.obj_set_parent(owner, m.nodes[nid], par)

        there = self.tree.has_node(name)
        result = self.call(
            thread, lambda: self.tree.move_node(name, self.name(par)), model)
        if result is not there and not self.raised:
            self.fail('state', 'moving a node which is %sthere gives %r' % (
                '' if there else 'not ', result))

    def op_tparent(self, thread, nid, par):
        name = self.names[nid]

        def model(m, owner):
            if nid in m.nodes:
                m.obj_add_parent(owner, m.nodes[nid], par)

        there = self.tree.has_node(name)
        result = self.call(
            thread, lambda: self.tree.add_parent(name, self.names[par]), model)
        if not there and result is not False:
            self.fail('state', 'a parent for a missing node gives %r' % result)

    def handle(self, nid):
        idx = self.registry.get(nid)
        return (None, None) if idx is None else (idx, self.objs[idx])

    def op_nparent(self, thread, nid, par):
        idx, node = self.handle(nid)
        if node is not None:
            self.call(thread, lambda: node.add_parent(self.names[par]),
                      lambda m, o: m.obj_add_parent(o, idx, par))

    def op_nchild(self, thread, nid, child):
        idx, node = self.handle(nid)
        if node is not None:
            self.call(thread, lambda: node.add_child(self.names[child]),
                      lambda m, o: m.obj_add_child(o, idx, child))

    def op_nset(self, thread, nid, par):
        idx, node = self.handle(nid)
        if node is not None:
            self.call(thread, lambda: node.set_parent(self.names[par]),
                      lambda m, o: m.obj_set_parent(o, idx, par))

    def op_nunset(self, thread, nid, par):
        idx, node = self.handle(nid)
        if node is not None:
            self.call(thread, lambda: node.remove_parent(self.names[par]),
                      lambda m, o: m.obj_remove_parent(o, idx, par))

    def op_flags(self, thread, nid, which, value):
        idx, node = self.handle(nid)
        if node is not None:
            self.world.cur = seams.OWNER
            func = (node.set_parents_enabled if which == 'p'
                    else node.set_children_enabled)
            self.call(seams.OWNER, lambda: func(bool(value)),
                      lambda m, o: m.obj_flags(o, idx, which, bool(value)))

    def op_data(self, thread, nid, data, pri):
        """Change what the node holds and tell it"""
        idx, node = self.handle(nid)
        if node is None:
            return
        node.data = data

        def model(m, owner):
            obj = m.objs[idx]
            obj.data = data
            if obj.attached:
                if m.nodes.get(nid) == idx:
                    m.dirty.add(nid)
                m.request(owner, M.LANE[pri], 'modify', nid)

        self.call(thread, lambda: node.modified(priority=pri), model)

    def op_refresh(self, thread, nid, pri):
        name = self.names[nid]
        self.call(thread, lambda: self.tree.refresh_node(name, pri),
                  lambda m, o: m.request(o, M.LANE[pri], 'modify', nid))

    def op_refreshall(self, thread):
        def model(m, owner):
            for nid in list(m.nodes):
                m.request(owner, M.LOW, 'modify', nid)
        # everybody who knows the tree can do this
        who = [self.tree, self.main] + [
            self.views[vid].real for vid in sorted(self.views)]
        self.call(thread, who[self.step % len(who)].refresh_all, model)

    # ops: main loop ------------------------------------------------------
    def op_dispatch(self, thread, n):
        if self.pump(n):
            self.stats['partial'] += 1

    def op_mainstate(self, thread):
        """The main view tells its state on request"""
        before = len(self.main_log)
        self.guard(self.main.get_current_state)
        told = sorted(nid for event, nid in self.main_log[before:])
        if told != sorted(self.snapshot()):
            self.fail('listener', 'main view: told the state of %s' %
                      self.show_ids(told))
        for cand in self.models:
            cand.dirty.clear()
            cand.log.extend(self.main_log[before:])

    def op_drain(self, thread):
        self.drain()

    # ops: views (on the owner's thread) ----------------------------------
    def guard(self, func, *args, **kwargs):
        """A call which has to work"""
        self.world.cur = seams.OWNER
        silent = self.failures()
        try:
            return func(*args, **kwargs)
        except Boom as exc:
            self.passed_on.append(exc)
        except Exception as exc:
            self.fail('exc', 'unexpected %r' % exc)
        finally:
            self.unnoticed(silent)

    # failures of the application
    def boom(self, *where):
        self.stats['booms'] += 1
        self.stats['boom ' + where[0]] += 1
        exc = BOOMS[len(self.booms) % len(BOOMS)](*where)
        self.booms.append(exc)
        raise exc

    def failures(self):
        """Number of failures reported which were not injected"""
        return sum(1 for e in self.world.excs if not isinstance(e[1], Boom))

    def unnoticed(self, before):
        if self.failures() > before and not self.diverged:
            etype, value, tb = [e for e in self.world.excs
                                if not isinstance(e[1], Boom)][-1]
            self.fail('exc', 'a call failed: %s: %s' % (etype.__name__, value))

    def check_booms(self):
        """Every failure is told to somebody"""
        told = set(map(id, self.passed_on))
        told.update(id(e[1]) for e in self.world.excs)
        for exc in self.booms:
            if id(exc) not in told:
                self.fail('boom', 'nobody is told about the failure of %r' %
                          (exc.args, ))

    def saboteur(self, where, period):
        state = {'left': period}

        def fails(*args):
            if self.world.cur != seams.OWNER:
                self.fail('thread', 'callback on thread %d' % self.world.cur)
            state['left'] -= 1
            if state['left'] <= 0:
                state['left'] = period
                self.boom(where)
        return fails

    def op_boom(self, thread, where, idx, event, period):
        """A callback which fails every now and then"""
        fails = self.saboteur(where, period)
        if where == 'main':
            event = 'node-' + event
            key = self.main.register_cllbck(event, fails)
            self.saboteurs.append(
                lambda: self.main.deregister_cllbck(event, key))
        elif where == 'view':
            view = self.view_of(idx)
            if view is not None:
                event = 'node-%s-inview' % event
                real = view.real
                key = real.register_cllbck(event, fails)
                self.saboteurs.append(
                    lambda: real.deregister_cllbck(event, key))
        else:
            count = self.count_of(idx)
            if count is not None:
                count.real.register_cllbck(fails)
                self.saboteurs.append(
                    lambda: count.real.unregister_cllbck(fails))

    def op_unboom(self, thread, which):
        if self.saboteurs:
            self.saboteurs.pop(which % len(self.saboteurs))()

    def op_view(self, thread, vid, named, refresh):
        name = 'v%d' % vid if named else None
        known = self.views.get(vid)
        if known is not None:
            if named and known.named:
                if self.tree.get_viewtree(name=name) is not known.real:
                    self.fail('view', 'another view of the same name')
            return
        # refreshing is the default
        more = {} if refresh and vid % 2 else {'refresh': bool(refresh)}
        real = self.guard(self.tree.get_viewtree, name=name, **more)
        if real is None:
            return
        if real.get_basetree() is not self.tree:
            self.fail('view', 'a view belongs to another tree')
        view = View(real)
        view.named = named
        view.stale = not refresh
        self.views[vid] = view
        self.built(vid, refresh)

    def view_of(self, vid):
        if vid not in self.views:
            self.op_view(0, vid, vid % 2, 1)
        return self.views.get(vid)

    def op_apply(self, thread, vid, name, reset, refresh, level):
        """level: parameter for the level filter of this view"""
        view = self.view_of(vid)
        if view is None:
            return
        params = None
        if name == 'level':
            name = M.LEVEL % vid
            params = {'level': level[0]}
            if level[1]:
                params['negate'] = True
            elif (level[0] + vid) % 2:
                params['negate'] = False
        if reset:
            view.filters = []
        known = name in view.filters
        if not known:
            view.filters = view.filters + [name]
        if params:
            self.levels[name] = (level[0], bool(level[1]))
        built = refresh and (params or not known)
        if built:
            view.stale = False
        elif params or not known or reset:
            view.stale = True
        self.building(vid)
        more = {} if refresh and vid % 2 else {'refresh': bool(refresh)}
        if reset or vid % 2 == 0:
            more['reset'] = bool(reset)
        if params:
            more['parameters'] = params
        self.guard(view.real.apply_filter, name, **more)
        self.built(vid, built)
        self.check_applied(vid, view)

    def check_applied(self, vid, view):
        for _ in range(2):
            got = view.real.list_applied_filters()
            if sorted(got) != sorted(view.filters):
                self.fail('view', 'view %d has the filters %r, expected %r' % (
                    vid, got, view.filters))
            # the list belongs to who asked
            got[:1] = ['somebody else', 'nobody']

    def op_badapply(self, thread, vid, reset):
        """A filter nobody knows cannot be given parameters"""
        view = self.view_of(vid)
        if view is None:
            return
        try:
            view.real.apply_filter('nobody knows it', {'level': 1},
                                   reset=bool(reset))
        except ValueError:
            self.stats['unknown filters'] += 1
        else:
            self.fail('view', 'parameters for an unknown filter')
        self.check_applied(vid, view)

    def op_bankadd(self, thread, slot, base):
        """Register a filter under a name which may be taken"""
        name = M.SLOTS[slot]
        taken = name in self.levels
        got = self.guard(self.tree.add_filter, name, self.funcs[base],
                         M.FILTERS[base][1])
        if got is not (not taken):
            self.fail('bank', 'add_filter(%s) gives %r, the name was %s' % (
                name, got, 'taken' if taken else 'free'))
        if not taken:
            self.levels[name] = base
            self.bank_changed(name)

    def op_bankdel(self, thread, slot):
        name = M.SLOTS[slot]
        taken = name in self.levels
        got = self.guard(self.tree.remove_filter, name)
        if got is not taken:
            self.fail('bank', 'remove_filter(%s) gives %r, it was %sthere' % (
                name, got, '' if taken else 'not '))
        if taken:
            del self.levels[name]
            self.bank_changed(name)

    def bank_changed(self, name):
        """A view which uses this filter notices with the next refresh"""
        for view in self.views.values():
            if name in view.filters:
                view.stale = True
        for count in self.counts.values():
            if name in count.filters:
                count.stale = True

    def check_bank(self):
        want = sorted(list(M.FILTERS) + list(self.levels))
        got = sorted(self.tree.list_filters())
        if got != want:
            self.fail('bank', 'list_filters gives %r, expected %r' % (
                got, want))

    def op_unapply(self, thread, vid, name, refresh):
        view = self.view_of(vid)
        if view is None:
            return
        if name == 'level':
            name = M.LEVEL % vid
        built = refresh and name in view.filters
        if name in view.filters:
            view.filters = [f for f in view.filters if f != name]
            view.stale = not refresh
        self.building(vid)
        more = {} if refresh and vid % 2 else {'refresh': bool(refresh)}
        self.guard(view.real.unapply_filter, name, **more)
        self.built(vid, built)
        self.check_applied(vid, view)

    def op_reset(self, thread, vid, refresh):
        view = self.view_of(vid)
        if view is None:
            return
        view.filters = []
        view.stale = not refresh
        self.building(vid)
        more = {} if refresh and vid % 2 else {'refresh': bool(refresh)}
        self.guard(view.real.reset_filters, **more)
        self.built(vid, refresh)
        self.check_applied(vid, view)

    def building(self, vid):
        if self.siblings:
            self.siblings.forget(vid)

    def built(self, vid, really):
        if self.siblings and really:
            self.stats['rebuilt'] += 1
            self.siblings.fresh(vid)

    def op_listen(self, thread, vid, events=0):
        view = self.view_of(vid)
        if view is None or len(view.listeners) > 2:
            return
        for listener in view.listeners:
            listener.broadcast = True
        view.listeners.append(Listener(self, vid, view.real, events))
        self.guard(view.real.get_current_state)
        for listener in view.listeners:
            listener.broadcast = False
        self.stats['listen'] += 1

    def op_mlisten(self, thread, events):
        if len(self.main_listeners) < 3:
            self.main_listeners.append(MainListener(self, events))
            self.stats['listen'] += 1

    def op_munlisten(self, thread):
        if self.main_listeners:
            self.main_listeners[0].detach()
            self.stats['unlisten'] += 1

    def op_unlisten(self, thread, vid):
        view = self.views.get(vid)
        if view is not None and view.listeners:
            view.listeners.pop(0).detach()
            self.stats['unlisten'] += 1

    def op_gtk(self, thread, vid, sort):
        """Connect a real Gtk.TreeStore model"""
        view = self.view_of(vid)
        if view is None or len(view.stores) > 1:
            return
        from gi.repository import Gtk
        fragile = self.spec.get('fragile')

        def text(node):
            if fragile and node.data & 8:
                self.boom('column', node.get_id())
            return 'd%d' % node.data

        def number(node):
            if fragile and node.data & 4:
                self.boom('column', node.get_id())
            return node.data

        store = self.lib.treemodel.TreeModel(
            view.real, [[str, text], [int, number]])
        store.sort_column = sort
        if sort:
            store.set_sort_column_id(
                sort % 3, Gtk.SortType.ASCENDING if sort < 4
                else Gtk.SortType.DESCENDING)
        for listener in view.listeners:
            listener.broadcast = True
        view.stores.append(store)
        self.guard(store.connect_model)
        for listener in view.listeners:
            listener.broadcast = False

    def op_action(self, thread, vid, nid, result, then=None, inside=False):
        """Queue an action for a node of a view, which may queue another
        one for the node `then`"""
        view = self.view_of(vid)
        if view is None:
            return
        name = self.names[nid]
        action = Action(vid, nid, result)
        real = view.real
        action.may = inside or self.tree.has_node(name) or any(
            req[0] == 'add' and cand.objs[req[1]].nid == nid
            for cand in self.models for lane in cand.lanes for req in lane)
        shown = real.is_displayed(name)

        given = [action, 0, '', None, 'x', False, name][
            len(self.actions) % 7]

        def run(param):
            action.runs += 1
            if param is not given:
                self.fail('action', 'an action got %r, it should get %r' % (
                    param, given))
            if self.world.cur != seams.OWNER:
                self.fail('thread', 'action on thread %d' % self.world.cur)
            if not shown and not real.is_displayed(name):
                self.fail('action', 'the action for %s runs before it is '
                          'displayed' % name)
            if then is not None:
                self.op_action(thread, vid, then, result, None, True)
            if result == 'boom':
                self.boom('action', name)
            return action.result

        action.ref = weakref.ref(run)
        action.given = given
        action.must = shown
        self.actions.append(action)
        self.guard(real.queue_action, name, run, param=given)

    # ops: counts ---------------------------------------------------------
    def op_count(self, thread, cid, named, refresh):
        name = 'c%d' % cid if named else None
        if cid in self.counts:
            known = self.counts[cid]
            if named and known.named and \
                    self.tree.get_viewcount(name=name) is not known.real:
                self.fail('count', 'another count of the same name')
            return
        more = {} if refresh and cid % 2 else {'refresh': bool(refresh)}
        real = self.guard(self.tree.get_viewcount, name=name, **more)
        if real is None:
            return
        count = Count(self, real)
        count.named = named
        count.stale = not refresh
        self.counts[cid] = count

    def count_of(self, cid):
        if cid not in self.counts:
            self.op_count(0, cid, cid % 2, 1)
        return self.counts.get(cid)

    def op_capply(self, thread, cid, name):
        count = self.count_of(cid)
        if count is None:
            return
        if name not in count.filters and (
                name in M.FILTERS or name in M.FRAGILE):
            count.filters = count.filters + [name]
            if count.stale:
                count.stale = False
        self.guard(count.real.apply_filter, name)

    def op_cunapply(self, thread, cid, name):
        count = self.count_of(cid)
        if count is None or count.stale:
            return
        count.filters = [f for f in count.filters if f != name]
        self.guard(count.real.unapply_filter, name)

    def op_clisten(self, thread, cid, on):
        count = self.count_of(cid)
        if count is None:
            return
        count.on = bool(on)
        if on:
            count.seen = count.real.get_n_nodes()
            self.guard(count.real.register_cllbck, count.changed)
        else:
            self.guard(count.real.unregister_cllbck, count.changed)
            count.seen = None

    def op_cguest(self, thread, cid, stay):
        count = self.count_of(cid)
        if count is not None and len(count.guests) < 3:
            self.guard(count.guest, stay)

    def op_cmodify(self, thread, cid, nid):
        count = self.count_of(cid)
        if count is not None:
            self.guard(count.real.modify, self.names[nid])


def new_stats():
    return collections.Counter()


def describe(exc):
    where = traceback.extract_tb(exc.__traceback__)
    return 'unexpected %s: %s (%s)' % (
        type(exc).__name__, exc,
        ' < '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                   for f in reversed(where[-4:])))


def hash_of(value):
    return hashlib.blake2b(repr(value).encode(), digest_size=8).hexdigest()


def sane(snap):
    """Do all the links have two ends?"""
    for nid, (idx, parents, children) in snap.items():
        for par in parents:
            if par not in snap or nid not in snap[par][2]:
                return False
        for child in children:
            if child not in snap or nid not in snap[child][1]:
                return False
        if len(set(parents)) != len(parents) or \
                len(set(children)) != len(children):
            return False
    return not has_cycle(snap)


def has_cycle(snap):
    state = {}

    def visit(nid):
        if state.get(nid) == 1:
            return True
        if state.get(nid) == 2 or nid not in snap:
            return False
        state[nid] = 1
        for child in snap[nid][2]:
            if visit(child):
                return True
        state[nid] = 2
        return False

    return any(visit(nid) for nid in snap)
