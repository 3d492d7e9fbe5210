"""Generation of runs: swarm style, every run draws its own sizes, mix of
operations and faults from its seed."""

from . import model as M
from .seams import rng_of

SYLL = ['ka', 'to', 'mi', 'ru', 'se', 'no', 'ha', 'li', 'vo', 'pe', 'du', 'ga']
# names which mean something inside the library
ODD = ['added', 'modified', 'deleted', 'reordered', 'None', '0', 'runonce',
       'parents', 'children', 'a b', 'é', '()', "it's", 'main', 'v0', 'v1',
       'red', 'all', 'root_', 'anonymous']
ALL_FILTERS = sorted(M.FILTERS)
NOT_IN_BANK = 'nosuchfilter'

TREE = {'add': 30, 'readd': 3, 'del': 8, 'move': 8, 'tparent': 6,
        'nparent': 6, 'nchild': 6, 'nset': 4, 'nunset': 6, 'flags': 2,
        'data': 8, 'refresh': 3, 'refreshall': 0.5}
LOOP = {'dispatch': 18, 'drain': 3}
VIEW = {'apply': 6, 'unapply': 4, 'reset': 1.5, 'listen': 2, 'unlisten': 1}


def names_of(rng, n):
    names = []
    while len(names) < n:
        if rng.random() < 0.1:
            name = rng.choice(ODD)
        else:
            name = ''.join(rng.choice(SYLL)
                           for _ in range(rng.randint(1, 3)))
        if name not in names:
            names.append(name)
    return names


class Gen(object):
    def __init__(self, seed, profile):
        self.rng = rng = rng_of('run', profile['name'], seed)
        self.profile = profile
        lo, hi = profile.get('nodes', (3, 7))
        self.n = rng.randint(lo, hi)
        lo, hi = profile.get('threads', (1, 3))
        self.threads = rng.randint(lo, hi)
        # how many of the calls come from other threads
        self.remote = rng.choice([0.15, 0.4, 0.7, 0.95])
        if profile.get('remote') is not None:
            self.remote = profile['remote']
        self.views = rng.randint(*profile.get('views', (0, 0)))
        self.filters = profile.get('filters', ALL_FILTERS)
        self.filters = rng.sample(
            self.filters, rng.randint(1, min(5, len(self.filters))))
        weights = dict(profile['ops'])
        # swarm: leave some operations out, stress others
        for name in list(weights):
            if name not in profile.get('always', ('add', )):
                roll = rng.random()
                if roll < 0.2:
                    weights[name] = 0
                elif roll < 0.35:
                    weights[name] *= 4
        if not self.threads > 1:
            weights['dispatch'] = min(weights.get('dispatch', 0), 2)
        if not self.views:
            for name in ('apply', 'unapply', 'reset', 'listen', 'unlisten',
                         'action', 'gtk', 'widget', 'wfold', 'wuser',
                         'wshow', 'wsort', 'wcolor', 'wcolumn', 'wselect',
                         'wdrop', 'wother', 'wclick', 'wseparate', 'wmode'):
                weights.pop(name, None)
        weights = {k: v for k, v in weights.items() if v}
        self.kinds = sorted(weights)
        self.weights = [weights[k] for k in self.kinds]
        # a shape: acyclic only, chains, anything
        self.shape = rng.choice(
            profile.get('shape', ['any', 'any', 'down', 'narrow']))
        self.late = rng.choice(profile.get('late', [0, 0.1, 0.4]))
        self.flagged = rng.choice(profile.get('flagged', [0, 0, 0.1]))
        self.pris = rng.choice([['low'], ['normal'], ['low', 'normal'],
                                ['low', 'normal', 'high']])
        self.slots = 0.5 if 'bankadd' in profile['ops'] else 0
        self.plain = profile.get('plain')
        self.own_data = list(M.OWN_DATA)
        if profile.get('fragile'):
            self.own_data += M.FRAGILE_OWN
        self.stall = rng.choice([0, 0, 0.5])

    def spec(self):
        rng = self.rng
        spec = {'profile': self.profile['name'],
                'names': names_of(rng, self.n), 'threads': self.threads,
                'own_main': rng.random() < 0.7, 'views': self.views}
        if self.profile.get('fragile'):
            spec['fragile'] = True
        ops = []
        # build something first
        build = rng.choice([0, 0.5, 1, 1])
        for nid in range(self.n):
            if rng.random() < build:
                ops.append(self.op_add(0 if rng.random() < 0.8 else
                                       self.thread(), nid=nid))
        for vid in range(self.views):
            ops.insert(rng.randint(0, len(ops)),
                       [0, 'view', vid, rng.randint(0, 1),
                        int(rng.random() < 0.8)])
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append(self.op_apply(0, vid=vid))
            if rng.random() < 0.8:
                ops.insert(rng.randint(0, len(ops)), [0, 'listen', vid])
            if self.profile.get('gtk'):
                ops.append([0, 'gtk', vid, rng.randint(0, 6)])
            if self.profile.get('widget'):
                ops.insert(rng.randint(0, len(ops)), self.op_widget(0, vid))
        for name in self.profile.get('setup', ()):
            ops.append(getattr(self, 'op_' + name)(0))
        lo, hi = self.profile.get('length', (5, 40))
        length = rng.randint(lo, hi)
        stalled = 0
        while length > 0:
            length -= 1
            kind = rng.choices(self.kinds, self.weights)[0]
            if kind in ('dispatch', 'drain'):
                # the main loop is busy with something else
                if stalled > 0:
                    stalled -= 1
                    continue
                if rng.random() < self.stall:
                    stalled = rng.randint(2, 10)
            thread = 0 if kind in OWNER_ONLY else self.thread()
            ops.append(getattr(self, 'op_' + kind)(thread))
        spec['ops'] = ops
        return spec

    def thread(self):
        if self.threads == 1 or self.rng.random() >= self.remote:
            return 0
        return self.rng.randint(1, self.threads - 1)

    def nid(self):
        return self.rng.randrange(self.n)

    def other(self, nid, below):
        """A relative for nid which is (usually) below or above it"""
        rng = self.rng
        if self.shape == 'any' or rng.random() < 0.1:
            return self.nid()
        if self.shape == 'tree':
            # mostly one parent
            return (min(self.n - 1, 2 * nid + rng.randint(1, 2)) if below
                    else max(0, (nid - 1) // 2))
        if self.shape == 'narrow':
            return min(self.n - 1, nid + 1) if below else max(0, nid - 1)
        if below:
            return rng.randint(min(nid + 1, self.n - 1), self.n - 1)
        return rng.randint(0, max(0, nid - 1))

    def pri(self):
        return self.rng.choice(self.pris)

    def op_add(self, thread, nid=None):
        rng = self.rng
        if nid is None:
            nid = self.nid()
        par = self.other(nid, False) if rng.random() < 0.5 else None
        pars = [self.other(nid, False)
                for _ in range(rng.choice([1, 2, 3]))] \
            if rng.random() < self.late else []
        kids = [self.other(nid, True) for _ in range(rng.choice([1, 2, 3]))] \
            if rng.random() < self.late else []
        ctor = self.other(nid, False) if rng.random() < self.late else None
        # what was declared is withdrawn or replaced before the node is added
        early = []
        if rng.random() < self.late / 2:
            for _ in range(rng.choice([1, 1, 2, 3])):
                kind = rng.choice(['nparent', 'nchild', 'nset', 'nunset',
                                   'nunset', 'nunset'])
                known = pars + ([] if ctor is None else [ctor]) + [
                    other for _kind, other in early if other is not None]
                if kind == 'nunset' and known:
                    early.append([kind, rng.choice(known)])
                elif kind == 'nset' and rng.random() < 0.2:
                    early.append([kind, None])
                else:
                    early.append([kind, self.other(nid, kind == 'nchild')])
        if self.plain:
            par, pars, kids, ctor, early = None, [], [], None, []
        return [thread, 'add', nid, par, rng.randrange(16), self.pri(), pars,
                kids, int(rng.random() >= self.flagged),
                int(rng.random() >= self.flagged), ctor] + (
                    [early] if early else [])

    def op_readd(self, thread):
        nid = self.nid()
        par = self.other(nid, False) if self.rng.random() < 0.5 else None
        if self.plain:
            par = None
        return [thread, 'readd', nid, par, self.pri()]

    def op_del(self, thread):
        return [thread, 'del', self.nid(), int(self.rng.random() < 0.4)]

    def op_move(self, thread):
        nid = self.nid()
        par = None if self.rng.random() < 0.2 else self.other(nid, False)
        return [thread, 'move', nid, par]

    def op_tparent(self, thread):
        nid = self.nid()
        return [thread, 'tparent', nid, self.other(nid, False)]

    def op_nparent(self, thread):
        nid = self.nid()
        return [thread, 'nparent', nid, self.other(nid, False)]

    def op_nchild(self, thread):
        nid = self.nid()
        return [thread, 'nchild', nid, self.other(nid, True)]

    def op_nset(self, thread):
        nid = self.nid()
        return [thread, 'nset', nid, self.other(nid, False)]

    def op_nunset(self, thread):
        nid = self.nid()
        return [thread, 'nunset', nid, self.other(nid, False)]

    def op_flags(self, thread):
        return [0, 'flags', self.nid(), self.rng.choice('pc'),
                self.rng.randint(0, 1)]

    def op_data(self, thread):
        return [thread, 'data', self.nid(), self.rng.randrange(16),
                self.pri()]

    def op_refresh(self, thread):
        return [thread, 'refresh', self.nid(), self.pri()]

    def op_refreshall(self, thread):
        return [thread, 'refreshall']

    def op_dispatch(self, thread):
        return [0, 'dispatch', self.rng.choice([1, 1, 1, 2, 3, 6])]

    def op_drain(self, thread):
        return [0, 'drain']

    def op_mainstate(self, thread):
        return [0, 'mainstate']

    def vid(self):
        return self.rng.randrange(self.views)

    def op_apply(self, thread, vid=None):
        rng = self.rng
        name = rng.choice(self.filters)
        if rng.random() < self.slots:
            name = M.SLOTS[rng.randint(0, 2)]
        elif rng.random() < 0.12:
            name = 'level'
        elif rng.random() < 0.02:
            name = NOT_IN_BANK
        return [0, 'apply', self.vid() if vid is None else vid, name,
                int(rng.random() < 0.15), int(rng.random() < 0.9),
                [rng.randint(0, 3), int(rng.random() < 0.3)]]

    def op_badapply(self, thread):
        return [0, 'badapply', self.vid(), int(self.rng.random() < 0.5)]

    def op_bankadd(self, thread):
        return [0, 'bankadd', self.rng.randint(0, 2),
                self.rng.choice(ALL_FILTERS)]

    def op_bankdel(self, thread):
        return [0, 'bankdel', self.rng.randint(0, 2)]

    def op_unapply(self, thread):
        rng = self.rng
        name = rng.choice(self.filters + ['level', NOT_IN_BANK])
        if rng.random() < self.slots:
            name = M.SLOTS[rng.randint(0, 2)]
        return [0, 'unapply', self.vid(), name, int(rng.random() < 0.9)]

    def op_reset(self, thread):
        return [0, 'reset', self.vid(), int(self.rng.random() < 0.9)]

    def op_listen(self, thread):
        return [0, 'listen', self.vid(),
                0 if self.rng.random() < 0.7 else self.rng.randint(1, 6)]

    def op_mlisten(self, thread):
        return [0, 'mlisten',
                0 if self.rng.random() < 0.7 else self.rng.randint(1, 6)]

    def op_munlisten(self, thread):
        return [0, 'munlisten']

    def op_vask(self, thread):
        rng = self.rng
        return [0, 'vask', rng.randint(-1, self.views - 1),
                rng.sample(self.filters, rng.randint(
                    0, min(2, len(self.filters))))]

    def op_unlisten(self, thread):
        return [0, 'unlisten', self.vid()]

    def op_view(self, thread):
        return [0, 'view', self.rng.randint(0, self.views),
                self.rng.randint(0, 1), 1]

    def op_action(self, thread):
        rng = self.rng
        result = rng.randint(0, 1)
        if 'boom' in self.profile['ops'] and rng.random() < 0.4:
            result = 'boom'
        return [0, 'action', self.vid(), self.nid(), result,
                None if rng.random() < 0.7 else self.nid()]

    def op_gtk(self, thread):
        return [0, 'gtk', self.vid(), self.rng.randint(0, 6)]

    def op_widget(self, thread, vid=None):
        rng = self.rng
        return [0, 'widget', self.vid() if vid is None else vid,
                rng.choice([0, 1, 2, 3, 4]), rng.randint(0, 8),
                rng.randint(0, 1)]

    def op_wfold(self, thread):
        return [0, 'wfold', self.vid(), self.nid(),
                int(self.rng.random() < 0.6)]

    def op_wuser(self, thread):
        return [0, 'wuser', self.vid(), self.rng.randrange(20),
                self.rng.randint(0, 1)]

    def op_wshow(self, thread):
        return [0, 'wshow', self.vid()]

    def op_wsort(self, thread):
        return [0, 'wsort', self.vid(), self.rng.randint(1, 4)]

    def op_wclick(self, thread):
        return [0, 'wclick', self.vid(), self.rng.choice(['title', 'data'])]

    def op_wseparate(self, thread):
        return [0, 'wseparate', self.vid(), self.rng.randint(0, 4)]

    def op_wmode(self, thread):
        return [0, 'wmode', self.vid(), self.rng.randint(0, 1)]

    def op_wcolor(self, thread):
        return [0, 'wcolor', self.vid()]

    def op_wcolumn(self, thread):
        rng = self.rng
        return [0, 'wcolumn', self.vid(),
                rng.choice(['title', 'data', 'bg']),
                rng.choice(['visible', 'resizable', 'expander', 'search']),
                rng.randint(0, 1)]

    def picks(self):
        return [self.rng.randrange(20)
                for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3, 5]))]

    def op_wselect(self, thread):
        return [0, 'wselect', self.vid(), self.picks()]

    def op_wdrop(self, thread):
        rng = self.rng
        return [0, 'wdrop', self.vid(), self.picks(),
                None if rng.random() < 0.15 else rng.randrange(20),
                rng.randrange(4)]

    def op_wother(self, thread):
        rng = self.rng
        return [0, 'wother', self.vid(), self.picks(),
                None if rng.random() < 0.15 else rng.randrange(20),
                rng.randrange(4)]

    def op_count(self, thread):
        return [0, 'count', self.rng.randint(0, 2), self.rng.randint(0, 1),
                self.rng.randint(0, 1)]

    def op_capply(self, thread):
        return [0, 'capply', self.rng.randint(0, 2),
                self.rng.choice(self.own_data + [NOT_IN_BANK])]

    def op_cunapply(self, thread):
        return [0, 'cunapply', self.rng.randint(0, 2),
                self.rng.choice(self.own_data)]

    def op_boom(self, thread):
        rng = self.rng
        where = rng.choice(['main', 'view', 'view', 'count'])
        if where == 'view' and not self.views:
            where = 'main'
        idx = rng.randrange(self.views) if where == 'view' else \
            rng.randint(0, 2)
        return [0, 'boom', where, idx,
                rng.choice(['added', 'modified', 'deleted']),
                rng.choice([1, 1, 2, 3, 7])]

    def op_unboom(self, thread):
        return [0, 'unboom', self.rng.randrange(8)]

    def op_clisten(self, thread):
        return [0, 'clisten', self.rng.randint(0, 2),
                int(self.rng.random() < 0.7)]

    def op_cguest(self, thread):
        return [0, 'cguest', self.rng.randint(0, 2), self.rng.randint(1, 4)]

    def op_cmodify(self, thread):
        return [0, 'cmodify', self.rng.randint(0, 2), self.nid()]


OWNER_ONLY = ('flags', 'bankadd', 'bankdel', 'dispatch', 'drain', 'apply', 'unapply', 'reset',
              'listen', 'unlisten', 'view', 'action', 'gtk', 'widget',
              'wfold', 'wuser', 'wshow', 'wsort', 'wcolor', 'wcolumn', 'wselect',
              'wdrop', 'wother', 'wclick', 'wseparate', 'wmode', 'count',
              'capply', 'cunapply', 'clisten', 'cguest', 'cmodify', 'mainstate',
              'mlisten', 'munlisten', 'vask', 'boom', 'unboom')


def generate(seed, profile):
    return Gen(seed, profile).spec()
