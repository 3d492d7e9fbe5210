"""Histories of the request queue.

Threads send requests to a tree at the same time; every call (its beginning
and its return), every dispatch of the main loop and every execution (seen as
an event of the main view) gets a time stamp.  Afterwards the history is
checked:
  * an execution happens on the owner's thread, inside of the main loop;
  * a request is executed once: never without a call, never twice for one
    call, and after its call began; equal refresh requests may share one;
  * of two requests of the same priority the one whose call returned before
    the other began is executed first;
  * a request of a higher priority which waits when a dispatch starts, or when
    one more request was executed by it, is executed before the lower ones it
    still executes;
  * nothing waits when the main loop gets idle, and the loop gets idle.
Some of the executions fail: the application's callback raises.
"""

from . import model as M
from . import seams
from .coarse import BOOMS, Boom
from .finerun import FineTree, sched_of
from .gen import names_of
from .seams import OWNER, Violation, rng_of


class FineQueue(FineTree):
    def __init__(self, spec, oracles, stats=None):
        self.clock = 0
        self.calls = {}          # (event, nid) -> [(begin, end, lane)]
        self.execs = {}          # (event, nid) -> [(time, dispatch)]
        self.dispatch_times = []
        self.recording = False
        FineTree.__init__(self, spec, oracles, stats)
        world = self.world
        inner = world._dispatch

        def dispatch(source_id):
            self.clock += 1
            self.dispatch_times.append(self.clock)
            inner(source_id)
        world._dispatch = dispatch
        self.boom = set(spec.get('boom', ()))

    def on_main(self, event, node_id):
        nid = self.index.get(node_id)
        if self.recording:
            self.clock += 1
            self.stats['events'] += 1
            if self.world.cur != OWNER:
                self.fail('thread', '%s %s on thread %d' % (
                    event, node_id, self.world.cur))
            inside = self.world.in_dispatch is not None
            if not inside and nid not in self.direct:
                self.fail('thread', '%s %s outside of the main loop' % (
                    event, node_id))
            if inside:
                self.execs.setdefault((event, nid), []).append(
                    (self.clock, self.dispatch_times[-1]))
                # what waits now comes before the rest of this dispatch
                self.dispatch_times[-1] = self.clock
        self.main_log.append((event, nid))
        if nid in self.boom and self.recording and not self.spec.get('bad'):
            self.stats['booms'] += 1
            raise self.failure(node_id)

    def failure(self, what):
        return BOOMS[len(self.main_log) % len(BOOMS)](what)

    @property
    def direct(self):
        return self.spec['direct']

    def main_program(self, index):
        bad = self.spec.get('bad')
        if bad:
            # a view of the application fails
            def broken(node, parameters=None):
                if self.recording and \
                        self.index[node.get_id()] in self.boom:
                    self.stats['booms'] += 1
                    raise self.failure(node.get_id())
                return True

            def listener(node_id, path):
                if self.recording and self.index[node_id] in self.boom:
                    self.stats['booms'] += 1
                    raise self.failure(node_id)
            view = self.tree.get_viewtree()
            if bad == 'filter':
                self.tree.add_filter('broken', broken)
                view.apply_filter('broken')
            else:
                for event in ('added', 'deleted', 'modified'):
                    view.register_cllbck('node-%s-inview' % event, listener)
        self.recording = True
        FineTree.main_program(self, index)

    def call(self, thread, event, nid, pri, func):
        self.clock += 1
        begin = self.clock
        self.attempt(thread, func)
        self.clock += 1
        if thread != OWNER:
            self.calls.setdefault((event, nid), []).append(
                (begin, self.clock, M.LANE[pri]))

    def attempt(self, thread, func, *args, **kwargs):
        try:
            return func(*args, **kwargs)
        except Boom:
            if thread != OWNER:
                self.fail('thread', 'thread %d executed a request' % thread)
        except Exception as exc:
            self.fail('exc', 'thread %d: %s' % (thread, exc))

    # ops -----------------------------------------------------------------
    def do_padd(self, thread, nid, pri):
        node = self.Node(self.names[nid])
        self.nodes[nid] = node
        self.call(thread, 'added', nid, pri,
                  lambda: self.tree.add_node(node, priority=pri))

    def there(self, nid):
        """Requests are made for nodes which were there from the beginning
        (a minimised program could lack one)"""
        return any(op[0] == 'add' and op[1] == nid
                   for op in self.spec['setup'])

    def do_pdel(self, thread, nid):
        if not self.there(nid):
            return
        name = self.names[nid]
        self.call(thread, 'deleted', nid, None,
                  lambda: self.tree.del_node(name))

    def do_pref(self, thread, nid, pri):
        if not self.there(nid):
            return
        name = self.names[nid]
        self.call(thread, 'modified', nid, pri,
                  lambda: self.tree.refresh_node(name, pri))

    def do_pmod(self, thread, nid, pri):
        if not self.there(nid):
            return
        node = self.nodes[nid]
        self.call(thread, 'modified', nid, pri,
                  lambda: node.modified(priority=pri))

    # the history ---------------------------------------------------------
    def settled(self):
        known = self.stats
        excs = [e for e in self.world.excs if not isinstance(e[1], Boom)]
        if excs:
            self.fail('exc', 'a request failed: %s' % (excs[0][1], ))
        single = []
        for key in sorted(set(self.calls) | set(self.execs), key=str):
            event, nid = key
            what = '%s %s' % (event, self.names[nid])
            calls = self.calls.get(key, [])
            execs = self.execs.get(key, [])
            known['requests'] += len(calls)
            known['executions'] += len(execs)
            if event == 'modified':
                # refresh requests which wait may be merged
                known['merged'] += len(calls) - len(execs)
                for begin, end, lane in calls:
                    if not any(t > begin for t, d in execs):
                        self.fail('order', '%s is not executed after the '
                                  'request' % what)
                for i, (t, d) in enumerate(execs):
                    if sum(1 for c in calls if c[0] < t) < i + 1:
                        self.fail('order', '%s executed more often than '
                                  'requested' % what)
            elif len(execs) != len(calls):
                self.fail('order', '%s: %d requests, %d executions' % (
                    what, len(calls), len(execs)))
            if len(calls) == 1 and len(execs) == 1:
                if execs[0][0] < calls[0][0]:
                    self.fail('order', '%s executed before the request' %
                              what)
                single.append(calls[0] + execs[0] + (what, ))
        for a in single:
            for b in single:
                if a is b:
                    continue
                if a[2] == b[2] and a[1] < b[0]:
                    known['ordered'] += 1
                    if a[3] > b[3]:
                        self.fail('order', '%s was requested before %s with '
                                  'the same priority, but executed after it' %
                                  (a[5], b[5]))
                if a[2] < b[2] and a[1] < b[4]:
                    known['ranked'] += 1
                    if a[3] > b[3]:
                        self.fail('order', '%s has a higher priority than %s '
                                  'and waited, but was executed after it' %
                                  (a[5], b[5]))
        self.states.add(seams.rng_of(repr(sorted(
            self.execs.items(), key=str))).getrandbits(62))


def gen_queue(seed, profile):
    rng = rng_of('queue', profile['name'], seed)
    nthreads = rng.randint(2, profile.get('max_threads', 5))
    lanes = rng.choice([['normal'], ['low'], ['high'], ['low', 'normal'],
                        ['low', 'normal', 'high'], ['low', 'high']])
    n = rng.randint(nthreads, 14)
    names = names_of(rng, n)
    setup, programs = [], [[] for _ in range(nthreads)]
    direct = []
    again = rng.choice([0, 0.3, 0.7])
    for nid in range(n):
        t = rng.randrange(1, nthreads)
        pri = rng.choice(lanes)
        kind = rng.choice(['padd', 'pref', 'pref', 'pmod', 'pdel'])
        if kind != 'padd':
            setup.append(['add', nid, None, 0, 'normal'])
        if kind in ('pref', 'pmod') and rng.random() < again:
            # several requests for one node, which may be merged
            for _ in range(rng.randint(2, 4)):
                t = rng.randrange(1, nthreads)
                programs[t].append([kind, nid, pri])
        elif rng.random() < 0.1 and kind != 'pdel':
            direct.append(nid)
            programs[OWNER].append([kind, nid, pri])
        else:
            programs[t].append([kind, nid] +
                               ([pri] if kind != 'pdel' else []))
    for t in range(nthreads):
        rng.shuffle(programs[t])
    for _ in range(rng.randint(0, 8)):
        programs[OWNER].insert(rng.randint(0, len(programs[OWNER])),
                               ['dispatch', rng.choice([1, 1, 2, 4])])
    boom = []
    if rng.random() < 0.4:
        boom = [nid for nid in range(n) if rng.random() < 0.3]
    return {'profile': profile['name'], 'mode': 'queue', 'names': names,
            'own_main': rng.random() < 0.7, 'views': 0, 'setup': setup,
            'programs': programs, 'direct': direct, 'boom': boom,
            'bad': rng.choice([None, None, 'filter', 'listener']),
            'sched': sched_of(rng)}
