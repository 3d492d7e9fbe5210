"""Two trees in one process, with the same ids, names of views and names of
filters.  Each one is compared with a reference model of its own, after every
step of either.  What happens to the first tree may make its listeners change
the second one, as in applications which keep a tree of tags up to date with a
tree of tasks.

The ops of both trees are in one list; the thread of an op of the second tree
is 100 higher.  `bridge` registers a listener of the first tree which makes a
change of the second one.
"""

import hashlib

from . import seams
from .coarse import Boom, Coarse, Inconclusive, describe
from .seams import Violation, rng_of

SECOND = 100
BRIDGED = ('add', 'readd', 'del', 'move', 'tparent', 'nparent', 'nchild',
           'nset', 'nunset', 'data', 'refresh', 'apply', 'unapply', 'cmodify',
           'vask', 'listen', 'unlisten')


class Part(Coarse):
    """One of the trees"""
    other = None
    label = ''

    def pump(self, n, idle=False):
        if not Coarse.pump(self, n, idle):
            return False
        self.other.absorb()
        return True

    def backlog(self):
        return max(c.waiting() for c in self.other.models)

    alone = False

    def failures(self):
        return 0        # counted for both trees together

    def fail(self, kind, text):
        Coarse.fail(self, kind, '%s tree: %s' % (self.label, text))

    def op_bridge(self, thread, event, times, op):
        """A listener which changes the other tree"""
        left = [times]

        def told(node_id, path):
            if left[0]:
                left[0] -= 1
                self.stats['bridged'] += 1
                cur = self.world.cur
                self.other.absorb()
                getattr(self.other, 'op_' + op[1])(seams.OWNER, *op[2:])
                self.world.cur = cur
        self.main.register_cllbck('node-' + event, told)


class Pair(object):
    def __init__(self, spec, oracles, stats):
        self.spec = spec
        self.oracles = oracles
        self.stats = stats
        seams.fresh()
        self.parts = []
        for i, part in enumerate(spec['parts']):
            part = dict(part, mode='coarse', threads=spec['threads'],
                        own_main=spec['own_main'], ops=[])
            world_class = seams.World if not i else (
                lambda *args: self.parts[0].world)
            run = Part.__new__(Part)
            run.world_class = world_class
            Part.__init__(run, part, oracles, stats)
            run.label = ('first', 'second')[i]
            self.parts.append(run)
        one, two = self.parts
        one.other, two.other = two, one
        self.world = one.world
        self.trace = hashlib.blake2b(digest_size=8)
        self.states = set()
        self.main_log = one.main_log
        self.step = -1

    def run(self):
        try:
            for self.step, op in enumerate(self.spec['ops']):
                second, thread = divmod(op[0], SECOND)
                part = self.parts[second]
                part.step = part.other.step = self.step
                part.do([thread] + op[1:])
                part.other.check()
                self.failed()
            self.step = len(self.spec['ops'])
            for part in self.parts:
                part.drain()
            for part in self.parts:
                part.drain()
                part.final()
            self.failed()
        except Violation as exc:
            exc.step = self.step
            return exc
        except Inconclusive:
            return None
        except seams.SimDeadlock as exc:
            return self.parts[0].caught(Violation('deadlock', str(exc)))
        except Exception as exc:
            return self.parts[0].caught(Violation('exc', describe(exc)))
        finally:
            for part in self.parts:
                self.trace.update(part.trace.digest())
                self.states |= part.states
            self.stats['runs'] += 1
            self.stats['dispatches'] += self.world.dispatches
            seams.set_world(None)
        return None

    def failed(self):
        """Requests fail only if they are circular"""
        one, two = self.parts
        excs = [e for e in self.world.excs if not isinstance(e[1], Boom)]
        most = sum(max(c.refusals for c in part.models)
                   for part in self.parts)
        if len(excs) > most and not (one.diverged or two.diverged):
            etype, value, tb = excs[-1]
            one.fail('exc', 'or the second one: a request failed: %s: %s' % (
                etype.__name__, value))
        least = sum(min(c.refusals for c in part.models)
                    for part in self.parts)
        if len(excs) < least and not (one.diverged or two.diverged):
            one.fail('refuse', 'or the second one: nobody is told that the '
                     'request of another thread was refused')


def gen_pair(seed, profile):
    from .gen import Gen, names_of
    rng = rng_of('pair', profile['name'], seed)
    parts, queues = [], []
    for i in range(2):
        gen = Gen('%d/%d' % (seed, i), profile)
        part = gen.spec()
        queues.append([[op[0] + SECOND * i] + op[1:] for op in part['ops']])
        parts.append((gen, part))
    names = names_of(rng, max(len(p['names']) for g, p in parts))
    # both want to build something before they are mixed
    ops = []
    clump = rng.choice([0.3, 0.6, 0.9])
    cur = 0
    while queues[0] or queues[1]:
        if rng.random() > clump or not queues[cur]:
            cur = 1 - cur
        if queues[cur]:
            ops.append(queues[cur].pop(0))
    gen = parts[1][0]
    for _ in range(rng.choice([0, 1, 2, 3])):
        kinds = [k for k in gen.kinds if k in BRIDGED]
        op = getattr(gen, 'op_' + rng.choice(kinds))(0)
        op[0] = 0
        ops.insert(rng.randint(0, len(ops)),
                   [0, 'bridge', rng.choice(['added', 'modified', 'deleted']),
                    rng.choice([1, 1, 2, 5]), op])
    specs = []
    for gen, part in parts:
        part = dict(part, names=names[:len(part['names'])])
        del part['ops']
        specs.append(part)
    return {'profile': profile['name'], 'parts': specs, 'ops': ops,
            'threads': max(p['threads'] for g, p in parts),
            'own_main': parts[0][1]['own_main']}
