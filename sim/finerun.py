"""Runs of the fine simulation and what is checked about them."""

import hashlib

from . import model as M
from . import seams
from .coarse import Boom, Coarse, Inconclusive, describe, hash_of
from .fine import FineWorld
from .gen import NOT_IN_BANK, SYLL, names_of
from .seams import OWNER, Violation, rng_of


class FineTree(Coarse):
    """Threads build their own parts of a common tree at the same time.

    Every thread has nodes of its own, which only this thread links, moves and
    removes, and there are common nodes, which are never removed or moved.
    Whatever the interleaving is, the final tree is therefore the one each
    thread's program gives on its own."""

    def __init__(self, spec, oracles, stats=None):
        lib = seams.load(gtk=bool(spec.get('gtk')))
        n = len(spec['programs'])

        def make(_n, own_main):
            return FineWorld(n, lib.prefixes, spec.get('sched'),
                             spec.get('switches'), own_main)
        self.world_class = make
        Coarse.__init__(self, dict(spec, threads=n, ops=spec['programs']),
                        oracles, stats)
        self.nodes = {}
        self.final_model = M.Model()
        self.live = True
        self.threads_running = False

    # the events are checked while the run goes on, the state at its end
    def run(self):
        world = self.world
        violation = None
        try:
            world.cur = OWNER
            # common and initial nodes are there before the threads start
            world.yield_point = lambda *args: None
            for op in self.spec['setup']:
                getattr(self, 'do_' + op[0])(OWNER, *op[1:])
            self.fixed = {
                nid: self.nodes[nid].get_parents()
                for nid in range(self.spec.get('shared', 0))
                if nid in self.nodes}
            del world.yield_point
            funcs = [self.main_program] + [
                self.worker_program] * (len(self.spec['programs']) - 1)
            self.threads_running = True
            try:
                violation = world.run(funcs)
            finally:
                self.threads_running = False
            if violation is None:
                world.cur = OWNER
                world.yield_point = lambda *args: None
                self.settled()
        except Violation as exc:
            violation = exc
        except Inconclusive:
            pass
        except Exception as exc:
            violation = Violation('exc', describe(exc))
        finally:
            stats = self.stats
            stats['runs'] += 1
            stats['ops'] += sum(map(len, self.spec['programs']))
            stats['dispatches'] += world.dispatches
            stats['preemptions'] += world.preemptions
            stats['steps'] += world.steps
            stats['contended'] += world.locks_contended
            seams.set_world(None)
        self.trace.update(repr(world.where).encode())
        self.trace.update(repr(self.main_log).encode())
        if violation is not None:
            violation.step = world.steps
            if violation.kind not in self.oracles:
                return None
        return violation

    def main_program(self, index):
        world = self.world
        for op in self.spec['programs'][OWNER]:
            world.yield_point('op')
            getattr(self, 'do_' + op[0])(OWNER, *op[1:])
        # idle main loop
        while True:
            world.block('work', lambda: world.sources or world.others_done())
            if world.others_done():
                break
            world.dispatch_one()
            world.yield_point('op')
        limit = 3 * sum(map(len, self.spec['programs'])) + 200
        while world.sources and limit:
            world.dispatch_one()
            limit -= 1
        if world.sources:
            raise Violation('stall', 'the main loop has still something to do')

    def worker_program(self, index):
        world = self.world
        for op in self.spec['programs'][index]:
            world.yield_point('op')
            self.stats['remote'] += 1
            getattr(self, 'do_' + op[0])(index, *op[1:])

    def fail(self, kind, text):
        # raised inside of callbacks: must not be swallowed by the code
        if kind in self.oracles:
            violation = Violation(kind, text)
            world = self.world
            if self.threads_running:
                world.abort(violation)
                raise seams.SimAbort()
            raise violation

    def expected(self):
        """Each program on its own"""
        model = M.Model()
        registry = {}
        for ops in [self.spec['setup']] + self.spec['programs'][1:] + \
                self.spec['programs'][:1]:
            for op in ops:
                name, args = op[0], op[1:]
                try:
                    if name == 'add':
                        nid, par, data = args[:3]
                        registry[nid] = len(model.objs)
                        model.objs.append(M.Obj(nid, data))
                        model.x_add(registry[nid], par)
                    elif name in ('link', 'kid', 'set', 'unset', 'tlink',
                                  'move'):
                        nid, other = args
                        idx = registry.get(nid)
                        if name in ('tlink', 'move'):
                            idx = model.nodes.get(nid)
                        if idx is None:
                            continue
                        func = {'link': model.obj_add_parent,
                                'tlink': model.obj_add_parent,
                                'kid': model.obj_add_child,
                                'set': model.obj_set_parent,
                                'move': model.obj_set_parent,
                                'unset': model.obj_remove_parent}[name]
                        func(True, idx, other)
                    elif name == 'del':
                        model.x_del(args[0], bool(args[1]))
                    elif name == 'data':
                        if args[0] in registry:
                            model.objs[registry[args[0]]].data = args[1]
                except M.Refused:
                    model.refusals += 1
        return model, registry

    def settled(self):
        model, registry = self.expected()
        # objects are compared by their id
        model.nodes = {nid: nid for nid in model.nodes}
        model.objs = {nid: model.objs[idx] for nid, idx in registry.items()}
        excs = [e for e in self.world.excs if not isinstance(e[1], Boom)]
        if excs:
            exc = excs[0]
            self.fail('exc', 'a request failed: %s' % describe(exc[1]))
        real = self.snapshot()
        self.integrity(real)
        want = model.snapshot()
        if real != want:
            self.models = [model]
            self.fail('state', self.explain(real))
        model = self.actual(real)
        roots = self.ids(self.main.node_all_children())
        if roots != model.roots():
            self.fail('roots', 'root level is %s' % self.show_ids(roots))
        if sorted(self.main_set) != sorted(model.nodes):
            self.fail('stream', 'main view: the announced nodes are %s, the '
                      'tree has %s' % (self.show_ids(sorted(self.main_set)),
                                       self.show_ids(sorted(model.nodes))))
        for vid in sorted(self.views):
            if not self.views[vid].stale:
                self.check_view(vid, self.views[vid], model)
        if 'nav' in self.oracles:
            self.check_nav(-1, self.main, M.Shown(model, [], {}), True)
        for cid in sorted(self.counts):
            self.check_count(cid, self.counts[cid], model)
        if 'boom' in self.oracles:
            self.check_booms()
        self.states.add(hash_of([sorted(real.items()), sorted(
            (n, model.data(n)) for n in model.nodes)]))

    def snapshot(self):
        tree, index = self.tree, self.index
        snap = {}
        for nid, name in enumerate(self.names):
            if tree.has_node(name):
                node = tree.get_node(name)
                snap[nid] = (
                    nid if node is self.nodes.get(nid) else None,
                    tuple(sorted(index.get(n, -1)
                                 for n in node.get_parents())),
                    tuple(sorted(index.get(n, -1)
                                 for n in node.get_children())))
        return snap

    # ops -----------------------------------------------------------------
    def on_error(self, thread, exc):
        # the owner is told about a refused relationship
        if thread != OWNER:
            self.fail('exc', 'thread %d: %s' % (thread, describe(exc)))

    def attempt(self, thread, func, *args, **kwargs):
        try:
            return func(*args, **kwargs)
        except Boom as exc:
            self.passed_on.append(exc)
            if thread != OWNER:
                self.fail('exc', 'thread %d: %s' % (thread, describe(exc)))
        except Exception as exc:
            self.fail('exc', 'thread %d: %s' % (thread, describe(exc)))

    def do_add(self, thread, nid, par, data, pri):
        node = self.Node(self.names[nid])
        node.data = data
        # a second node of the same id is not taken
        if not self.tree.has_node(self.names[nid]) or thread != OWNER:
            self.nodes[nid] = node
        self.attempt(thread, self.tree.add_node, node, self.name(par),
                     priority=pri)

    def handle(self, nid):
        return self.nodes.get(nid)

    def on_node(self, thread, nid, method, *args):
        node = self.nodes.get(nid)
        if node is not None:
            self.attempt(thread, getattr(node, method), *args)

    def do_link(self, thread, nid, other):
        self.on_node(thread, nid, 'add_parent', self.names[other])

    def do_kid(self, thread, nid, other):
        self.on_node(thread, nid, 'add_child', self.names[other])

    def do_set(self, thread, nid, other):
        self.on_node(thread, nid, 'set_parent', self.names[other])

    def do_unset(self, thread, nid, other):
        self.on_node(thread, nid, 'remove_parent', self.names[other])

    def do_tlink(self, thread, nid, other):
        self.attempt(thread, self.tree.add_parent, self.names[nid],
                     self.names[other])

    def do_move(self, thread, nid, other):
        self.attempt(thread, self.tree.move_node, self.names[nid],
                     self.name(other))

    def do_del(self, thread, nid, recursive):
        self.attempt(thread, self.tree.del_node, self.names[nid],
                     recursive=bool(recursive))

    def do_data(self, thread, nid, data, pri):
        node = self.nodes.get(nid)
        if node is not None:
            node.data = data
            self.attempt(thread, node.modified, priority=pri)

    def do_refresh(self, thread, nid, pri):
        self.attempt(thread, self.tree.refresh_node, self.names[nid], pri)

    def do_refreshall(self, thread):
        self.attempt(thread, self.tree.refresh_all)

    def do_look(self, thread, nid):
        """A thread looks a node up, which may disappear meanwhile"""
        name = self.names[nid]
        try:
            node = self.tree.get_node(name)
        except ValueError:
            return
        except Exception as exc:
            self.fail('exc', 'thread %d: %s' % (thread, describe(exc)))
            return
        if node is None or node.get_id() != name:
            self.fail('state', 'get_node(%s) gives %r' % (name, node))

    def do_use(self, thread, nid, other, how):
        """A thread changes a node which its own thread removes, sooner or
        later"""
        name, other = self.names[nid], self.names[other]
        tree = self.tree
        if how == 0:
            self.attempt(thread, tree.move_node, name, other)
        elif how == 1:
            self.attempt(thread, tree.add_parent, name, other)
        elif how == 2:
            self.attempt(thread, tree.del_node, name)
        elif how == 3:
            self.attempt(thread, tree.refresh_node, name)
        elif how == 4:
            node = self.nodes.get(nid)
            if node is not None:
                self.attempt(thread, node.modified)
        else:
            self.do_look(thread, nid)

    # reading: (question about the tree, is it about the node object?)
    def question(self, kind, nid, arg):
        tree, main, name = self.tree, self.main, self.names[nid]
        other = self.names[arg % len(self.names)]
        if kind.startswith('n.'):
            node = self.nodes.get(nid)
            if node is None:
                return None
            method = getattr(node, kind[2:])
            if kind in ('n.get_nth_child', ):
                return lambda: method(arg % 3)
            if kind in ('n.get_child_index', ):
                return lambda: method(other)
            if kind in ('n.has_parent', 'n.has_child') and arg & 1:
                return lambda: method(other) if node.get_tree() else False
            return method
        if kind == 'all':
            return main.get_all_nodes
        if kind == 'roots':
            return main.node_all_children
        if kind == 'back':
            path = (other, name) if arg & 1 else (name, )
            return lambda: main.get_node_for_path(path)
        if kind == 'next':
            return lambda: main.next_node(name)
        if kind == 'next2':
            return lambda: main.next_node(name, other)
        if kind == 'nth':
            return lambda: main.node_nth_child(name, arg % 3)
        if kind == 'has':
            return lambda: tree.has_node(name)
        if kind == 'node':
            return lambda: tree.get_node(name)
        method = getattr(main, kind)
        return lambda: method(name)

    def answer(self, func, kind=''):
        try:
            got = func()
            if isinstance(got, (str, self.Node)) or \
                    not hasattr(got, '__iter__'):
                return 'value', got
            # a thread takes its time to go through a list
            items = []
            for item in got:
                items.append(item)
                self.world.yield_point('item')
            return 'list', tuple(items)
        except ValueError:
            # the node is not there (any more)
            return 'raises', 'that it is not there'
        except Exception as exc:
            if isinstance(exc, IndexError) and kind in ('next', 'next2'):
                return 'raises', 'that it is not there'
            return 'fails', describe(exc)

    def do_ask(self, thread, kind, nid, arg):
        """The answer has to be one which could have been given at a moment
        during the call; for a list, what is in it all the time has to be in
        the answer, and nothing which was not in it at any moment."""
        func = self.question(kind, nid, arg)
        if func is None:
            return
        listed = None
        if kind == 'n.get_n_children':
            # as many as a list of them could have
            listed = self.question('n.get_children', nid, arg)
        world = self.world
        moments, places = [], set()

        def moment():
            quiet, world.quiet = world.quiet, True
            try:
                seen = self.answer(listed or func, kind)
                if moments[-1:] != [seen]:
                    moments.append(seen)
                if kind == 'back' and not self.tree.has_node(
                        self.names[nid]):
                    moments.append(('raises', 'that it is not there'))
                if kind in ('next', 'next2'):
                    # which siblings, while the node itself is moved?
                    places.add(self.answer(
                        lambda: self.main.node_parents(self.names[nid])))
            finally:
                world.quiet = quiet

        moment()
        world.watch[thread] = moment
        try:
            got = self.answer(func, kind)
        finally:
            del world.watch[thread]
        self.stats['reads'] += 1
        what = '%s of %s (%d)' % (kind, self.names[nid], arg)
        if listed is not None and got[0] == 'value':
            sets = [set(m[1]) for m in moments]
            if not len(set.intersection(*sets)) <= got[1] <= \
                    len(set.union(*sets)):
                self.fail('read', 'thread %d: %s gives %r, but it was %r' % (
                    thread, what, got, moments))
            got = moments[-1]
        if got[0] == 'fails':
            self.fail('read', 'thread %d: %s fails: %s' % (
                thread, what, got[1]))
        if len(moments) > 1:
            self.stats['reads_raced'] += 1
        if got in moments or len(places) > 1:
            pass
        elif any(m[0] == 'raises' for m in moments):
            # it was removed meanwhile
            pass
        elif got[0] == 'list' and all(m[0] == 'list' for m in moments):
            always = set(moments[0][1]).intersection(
                *[m[1] for m in moments])
            ever = set().union(*[m[1] for m in moments])
            if kind == 'get_paths_for_node':
                # the parents are asked one after another
                ever |= {p for p in got[1] if p[-1] == self.names[nid]}
            if len(set(got[1])) < len(got[1]) or \
                    not always <= set(got[1]) <= ever:
                self.fail('read', 'thread %d: %s gives %r, but it was %r' % (
                    thread, what, got[1], moments))
        else:
            self.fail('read', 'thread %d: %s gives %r, but it was %r' % (
                thread, what, got, moments))
        # common nodes of the beginning stay where they are
        fixed = self.fixed.get(nid)
        if fixed is not None:
            want = {'has': True, 'is_displayed': True,
                    'node': self.nodes[nid], 'node_parents': fixed,
                    'n.get_parents': fixed,
                    'node_has_parent': bool(fixed)}.get(kind, got[1])
            if kind == 'all':
                right = self.names[nid] in got[1]
            else:
                right = (tuple(want) if isinstance(want, list) else want
                         ) == got[1]
            if not right:
                self.fail('read', 'thread %d: %s gives %r, expected %r' % (
                    thread, what, got[1], want))

    def do_dispatch(self, thread, n):
        for _ in range(n):
            if not self.world.dispatch_one():
                break

    def do_view(self, thread, vid):
        self.op_view(0, vid, vid % 2, 1)

    def do_apply(self, thread, vid, name, reset):
        self.op_apply(0, vid, name, reset, 1, [0, 0])

    def do_unapply(self, thread, vid, name):
        self.op_unapply(0, vid, name, 1)

    def do_listen(self, thread, vid):
        self.op_listen(0, vid)

    def do_unlisten(self, thread, vid):
        self.op_unlisten(0, vid)

    def do_gtk(self, thread, vid, sort):
        self.op_gtk(0, vid, sort)

    def do_count(self, thread, cid, name):
        self.op_count(0, cid, 0, 1)
        self.op_capply(0, cid, name)
        self.op_clisten(0, cid, 1)

    def do_boom(self, thread, where, idx, event, period):
        self.op_boom(OWNER, where, idx, event, period)

    def do_unboom(self, thread, which):
        self.op_unboom(OWNER, which)

    def guard(self, func, *args, **kwargs):
        return self.attempt(OWNER, func, *args, **kwargs)


def sched_of(rng):
    return {'seed': rng.getrandbits(40),
            'p': rng.choice([0, 0.003, 0.01, 0.03]),
            'p_sync': rng.choice([0.1, 0.3, 0.6]),
            'hot': rng.choice([0, 0.03, 0.1]),
            # while a thread asks something
            'p_ask': rng.choice([0, 0.05, 0.2, 0.4]),
            # lines of one file
            'focus': [rng.choice(FOCUS), rng.choice([0.03, 0.1, 0.3])]}


FOCUS = ('', '', '', 'tree.py', 'filteredtree.py', 'filteredtree.py',
         'viewtree.py', 'processqueue.py', 'treenode.py', '__init__.py',
         'viewcount.py', 'treemodel.py')


QUESTIONS = (
    'all', 'roots', 'back', 'next', 'next2', 'nth', 'has', 'node',
    'is_displayed', 'node_all_children', 'node_parents', 'node_has_child',
    'node_has_parent', 'get_paths_for_node', 'n.get_parents',
    'n.get_children', 'n.has_parent', 'n.has_child', 'n.get_n_children',
    'n.get_nth_child', 'n.get_child_index', 'node_all_children',
    'n.get_children', 'next')


def gen_tree(seed, profile):
    """Programs for FineTree"""
    rng = rng_of('fine', profile['name'], seed)
    nthreads = rng.randint(2, profile.get('max_threads', 4))
    shared = rng.randint(1, 2)
    late = rng.randint(0, 2)
    per = rng.randint(*profile.get('per', (1, 3)))
    n = shared + late + nthreads * per
    names = names_of(rng, n)
    own = {t: list(range(shared + late + t * per,
                         shared + late + (t + 1) * per))
           for t in range(nthreads)}
    commons = list(range(shared + late))
    late_ids = list(range(shared, shared + late))
    mask = profile.get('mask', 15)
    setup, live = [], {t: set() for t in range(nthreads)}
    for nid in range(shared):
        setup.append(['add', nid, rng.choice([None] + list(range(nid))),
                      rng.randrange(16), 'normal'])
    for t in range(nthreads):
        for nid in own[t]:
            if rng.random() < (0.9 if profile.get('hotter') else 0.5):
                par = rng.choice([None] + list(range(shared)) +
                                 [i for i in own[t] if i < nid])
                if par is None and profile.get('hotter'):
                    par = rng.randrange(shared)
                if profile.get('chain') and nid > own[t][0] and \
                        nid - 1 in live[t] and rng.random() < 0.8:
                    par = nid - 1
                setup.append(['add', nid, par, rng.randrange(16), 'normal'])
                live[t].add(nid)
    views = rng.randint(*profile.get('views', (0, 0)))
    filters = profile.get('filters', sorted(M.FILTERS))
    filters = rng.sample(filters, min(3, len(filters)))
    for vid in range(views):
        setup.append(['view', vid])
        if rng.random() < 0.8:
            setup.append(['apply', vid, rng.choice(filters), 0])
        setup.append(['listen', vid])
        if profile.get('gtk'):
            setup.append(['gtk', vid, rng.randint(0, 6)])
    for cid in range(rng.randint(*profile.get('counts', (0, 0)))):
        setup.append(['count', cid, rng.choice(M.OWN_DATA)])
    counts = sum(op[0] == 'count' for op in setup)
    fragile = bool(profile.get('fragile'))

    def saboteur():
        where = rng.choice(['main'] + ['view'] * views + ['count'] * counts)
        return ['boom', where, rng.randrange(
            {'view': views, 'count': counts}.get(where, 1)),
            rng.choice(['added', 'modified', 'deleted']),
            rng.choice([1, 1, 2, 3, 5])]
    if profile.get('boom'):
        for _ in range(rng.randint(0 if fragile else 1, 3)):
            setup.append(saboteur())
    programs = [[] for _ in range(nthreads)]
    # late common nodes arrive from some thread
    for nid in late_ids:
        t = rng.randrange(nthreads)
        programs[t].append(['add', nid, rng.choice([None] + list(
            range(shared))), rng.randrange(16), 'normal'])
    asked = rng.sample(QUESTIONS, rng.choice([1, 2, 4, len(QUESTIONS)]))
    focus = rng.choice([[], rng.sample(range(n), 2), list(range(shared))])
    lo, hi = profile.get('length', (2, 7))
    pris = ['normal'] if rng.random() < 0.5 else ['normal', 'low', 'high']
    used = set()
    existed = {t: set(live[t]) for t in range(nthreads)}
    # nodes whose parents are declared by the parent
    by_parent = {nid for t in own for nid in own[t] if rng.random() < 0.25}
    # nodes which others use although their thread removes them
    doomed = {nid for t in own for nid in own[t]
              if profile.get('doomed') and rng.random() < profile['doomed']}
    for t in range(nthreads):
        ops = programs[t]
        initial = set(live[t])
        given, removed = set(), set()
        for _ in range(rng.randint(lo, hi)):
            kind = rng.choice(profile.get(
                'owner' if t == OWNER and 'owner' in profile else 'kinds', (
                'add', 'add', 'link', 'link', 'kid', 'set', 'unset', 'tlink',
                'move', 'del', 'data', 'data', 'refresh', 'look',
                'refreshall')))
            nid = rng.choice(own[t])
            uppers = commons + [i for i in own[t] if i < nid]
            if kind == 'add':
                if nid in live[t] or nid in doomed and nid in existed[t]:
                    continue
                live[t].add(nid)
                existed[t].add(nid)
                initial.discard(nid)
                par = rng.choice([None] + uppers)
                ops.append(['add', nid, par, rng.randrange(16), 'normal'])
                # The parent given to add_node is a part of this request,
                # which may still wait when the parent is dismissed
                given.discard(nid)
                if par is not None:
                    given.add(nid)
            elif kind in ('link', 'set', 'unset'):
                other = rng.choice(uppers)
                # What is declared about a node which is still to be added is
                # known when it is added, so before an earlier removal
                if nid in live[t] and nid not in by_parent and \
                        (kind == 'link' or nid not in given or t == OWNER) \
                        and (nid in initial or other not in removed or
                             t == OWNER):
                    ops.append([kind, nid, other])
            elif kind == 'kid':
                kids = [i for i in own[t] if i > nid and i in by_parent and
                        (nid in initial or t == OWNER or i not in removed)]
                if nid in live[t] and kids:
                    ops.append([kind, nid, rng.choice(kids)])
            elif kind in ('tlink', 'move'):
                # the node has to be in the tree when the call is made
                if nid in live[t] and nid in initial and \
                        nid not in by_parent:
                    ops.append([kind, nid, rng.choice(
                        uppers + ([None] if kind == 'move' else []))])
            elif kind == 'del':
                if nid in live[t]:
                    recursive = int(not profile.get('doomed') and
                                    rng.random() < 0.3)
                    ops.append(['del', nid, recursive])
                    if recursive:
                        # what is below goes as well: forget about the rest
                        for i in own[t]:
                            if i >= nid:
                                removed.add(i)
                                live[t].discard(i)
                                initial.discard(i)
                        live[t] &= {i for i in own[t] if i < nid}
                        own_left = [i for i in own[t] if i < nid]
                        if not own_left:
                            break
                        own[t] = own_left
                    else:
                        removed.add(nid)
                        live[t].discard(nid)
                        initial.discard(nid)
            elif kind == 'data':
                if nid in live[t]:
                    ops.append(['data', nid, rng.randrange(16),
                                rng.choice(pris)])
            elif kind == 'refresh':
                ops.append(['refresh', rng.randrange(n), rng.choice(pris)])
            elif kind == 'refreshall':
                ops.append(['refreshall'])
            elif kind == 'ask':
                what = rng.choice(asked)
                ops.append(['ask', what, rng.choice(
                    focus or commons + own[t] + list(range(n))),
                    rng.choice([0, rng.randrange(12)])])
            elif kind == 'look':
                ops.append(['look', rng.randrange(n)])
        for nid in sorted(doomed & live[t]):
            # it stays in the tree for a while at most
            ops.append(['del', nid, 0])
            live[t].discard(nid)
    for nid in sorted(doomed):
        for _ in range(rng.randint(1, 3)):
            ops = programs[rng.randrange(nthreads)]
            ops.insert(rng.randint(0, len(ops)), [
                'use', nid, rng.choice(commons), rng.randrange(6)])
    for t in [OWNER]:
        ops = programs[t]
        for _ in range(rng.randint(0, 6)):
            ops.insert(rng.randint(0, len(ops)),
                       ['dispatch', rng.choice([1, 1, 2, 4])])
        for _ in range(rng.randint(0, 2) if views else 0):
            vid = rng.randrange(views)
            ops.insert(rng.randint(0, len(ops)), rng.choice([
                ['apply', vid, rng.choice(filters), 0],
                ['unapply', vid, rng.choice(filters)],
                ['listen', vid]]))
        for _ in range(rng.randint(0, 2) if profile.get('boom') else 0):
            ops.insert(rng.randint(0, len(ops)), rng.choice([
                saboteur(), ['unboom', rng.randrange(4)]]))
    return {'profile': profile['name'], 'mode': 'tree', 'names': names,
            'own_main': rng.random() < 0.7, 'views': views, 'shared': shared, 'fragile': fragile,
            'race_filters': bool(rng.random() < 0.5 or profile.get('chain')),
            'setup': setup, 'programs': programs, 'sched': sched_of(rng)}


def well_formed(spec):
    """Does a program (which was made smaller) still follow the rules of
    gen_tree?  Otherwise its result could depend on the interleaving."""
    if spec['mode'] != 'fine':
        return True
    initial = {op[1] for op in spec['setup'] if op[0] == 'add'}
    if len(initial) != sum(op[0] == 'add' for op in spec['setup']):
        return False
    every = [op for ops in [spec['setup']] + spec['programs'] for op in ops]
    for nid in {op[1] for op in every if op[0] == 'use'}:
        # what others use has to be removed in the end, once for all
        life = [op[0] for op in every if op[0] in ('add', 'del') and
                op[1] == nid]
        if life not in ([], ['add', 'del']) or any(
                op[0] == 'del' and op[2] for op in every):
            return False
    for t, ops in enumerate(spec['programs']):
        live, here, given = set(initial), set(initial), set()
        removed = set()
        for op in ops:
            kind, nid = op[0], op[1] if len(op) > 1 else None
            if kind == 'add':
                if nid in live:
                    return False
                live.add(nid)
                here.discard(nid)
                given.discard(nid)
                if op[2] is not None:
                    given.add(nid)
            elif kind in ('link', 'set', 'unset', 'kid', 'data'):
                if nid not in live:
                    return False
                if kind in ('set', 'unset') and nid in given and t != OWNER:
                    return False
                if kind in ('link', 'set', 'unset', 'kid') and \
                        t != OWNER and nid not in here and \
                        op[2] in removed:
                    return False
            elif kind in ('tlink', 'move'):
                if nid not in here:
                    return False
            elif kind == 'del':
                if nid not in live:
                    return False
                removed.update(i for i in initial | live if i == nid or
                               op[2] and i > nid)
                if op[2]:
                    live = {i for i in live if i < nid}
                    here = {i for i in here if i < nid}
                else:
                    live.discard(nid)
                    here.discard(nid)
    return True
