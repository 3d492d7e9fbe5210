"""Executable reference model of the tree, its request queue and its views.

Node ids are small integers here.  The model is deliberately naive: requests
are executed one at a time against plain dictionaries, views are recomputed
from scratch from their definition.
"""

import itertools

HIGH, NORMAL, LOW = 0, 1, 2
LANE = {'high': HIGH, 'low': LOW, 'normal': NORMAL, None: NORMAL}


class Obj(object):
    """A node object held by the application."""
    __slots__ = ('nid', 'data', 'pe', 'ce', 'attached', 'pend')

    def __init__(self, nid, data):
        self.nid = nid
        self.data = data
        self.pe = True          # accepts parents
        self.ce = True          # accepts children
        self.attached = False   # was adopted by the tree at some time
        self.pend = []          # relationships asked for before that

    def copy(self):
        new = Obj.__new__(Obj)
        new.nid, new.data, new.pe, new.ce = self.nid, self.data, self.pe, self.ce
        new.attached, new.pend = self.attached, list(self.pend)
        return new


class Refused(Exception):
    """The request would make the tree circular."""


class Model(object):
    def __init__(self):
        self.objs = []
        self.nodes = {}       # nid -> index of its object
        self.parents = {}
        self.children = {}
        self.pending = []     # (parent, child), in order of request
        self.lanes = [[], [], []]
        self.refusals = 0     # refused requests executed by the queue
        self.executed = 0     # requests executed by the queue
        self.stale_exec = 0   # ... whose target did not exist any more
        self.dirty = set()    # data changed, refresh request waits
        self.order = None     # of resolving contradicting declarations
        self.contradiction = 0
        self.log = []         # events of the main view (simple requests only)

    def copy(self):
        new = Model.__new__(Model)
        new.objs = [o.copy() for o in self.objs]
        new.nodes = dict(self.nodes)
        new.parents = {k: list(v) for k, v in self.parents.items()}
        new.children = {k: list(v) for k, v in self.children.items()}
        new.pending = list(self.pending)
        new.lanes = [list(q) for q in self.lanes]
        new.refusals = self.refusals
        new.executed = self.executed
        new.stale_exec = self.stale_exec
        new.dirty = set(self.dirty)
        new.order, new.contradiction = None, 0
        new.log = list(self.log)
        return new

    def key(self, log=False):
        """Everything which can make a difference later"""
        return repr((sorted(self.nodes.items()), sorted(self.parents.items()),
                     self.lanes, sorted(self.pending), sorted(self.dirty),
                     [(o.attached, o.pend) for o in self.objs],
                     self.refusals, self.log if log else None))

    # queue ---------------------------------------------------------------
    def request(self, owner, lane, *req):
        if owner:
            self.execute(req)
        elif req[0] != 'modify' or req not in self.lanes[lane]:
            self.lanes[lane].append(req)

    def waiting(self):
        return len(self.lanes[0]) + len(self.lanes[1]) + len(self.lanes[2])

    def pop(self):
        """Execute the next waiting request."""
        for queue in self.lanes:
            if queue:
                self.executed += 1
                try:
                    self.execute(queue.pop(0))
                except Refused:
                    self.refusals += 1
                return True
        return False

    def execute(self, req):
        getattr(self, 'x_' + req[0])(*req[1:])

    # requests ------------------------------------------------------------
    def allowed(self, par, nid):
        return (self.objs[self.nodes[par]].ce and
                self.objs[self.nodes[nid]].pe)

    def circular(self, par, nid):
        """Is nid an ancestor of par, or par itself?"""
        todo, seen = [par], set()
        while todo:
            cur = todo.pop()
            if cur == nid:
                return True
            if cur in seen or cur not in self.nodes:
                continue
            seen.add(cur)
            todo.extend(self.parents[cur])
        return False

    def _link(self, par, nid):
        if nid not in self.children[par]:
            self.children[par].append(nid)
        if par not in self.parents[nid]:
            self.parents[nid].append(par)

    def _unlink(self, par, nid):
        self.children[par].remove(nid)
        self.parents[nid].remove(par)

    def _pend(self, par, nid):
        if (par, nid) not in self.pending:
            self.pending.append((par, nid))

    def x_add(self, idx, par):
        obj = self.objs[idx]
        nid = obj.nid
        if nid in self.nodes:
            self.stale_exec += 1
            return
        obj.attached = True
        for rel in obj.pend:
            self._pend(*rel)
        obj.pend = []
        self.nodes[nid] = idx
        self.parents[nid] = []
        self.children[nid] = []
        rels = [rel for rel in self.pending if nid in rel and
                rel[0] in self.nodes and rel[1] in self.nodes]
        if self.order is not None:
            rels = [rels[i] for i in self.order]
        for rel in rels:
            self.pending.remove(rel)
            if self.allowed(*rel):
                if self.circular(*rel):
                    # They contradict each other: any of them may win
                    self.contradiction = len(rels)
                else:
                    self._link(*rel)
        self.dirty.discard(nid)
        self.log.append(('added', nid))
        if par is not None:
            if self.circular(par, nid):
                raise Refused()
            if par not in self.nodes:
                self._pend(par, nid)
            elif self.allowed(par, nid):
                self._link(par, nid)

    def x_del(self, nid, recursive):
        if nid not in self.nodes:
            self.stale_exec += 1
            return
        self.pending = [rel for rel in self.pending if nid not in rel]
        for par in list(self.parents[nid]):
            self._unlink(par, nid)
        for child in list(self.children[nid]):
            if child in self.nodes:
                if recursive:
                    self.x_del(child, True)
                else:
                    self._unlink(nid, child)
        del self.nodes[nid], self.parents[nid], self.children[nid]
        self.dirty.discard(nid)
        self.log.append(('deleted', nid))

    def x_modify(self, nid):
        if nid not in self.nodes:
            self.stale_exec += 1
            return
        self.dirty.discard(nid)
        self.log.append(('modified', nid))

    def x_link(self, par, nid):
        """Returns whether the relationship was accepted."""
        if (par, nid) in self.pending:
            self.pending.remove((par, nid))
        if par is None or nid is None or par == nid:
            return False
        if par not in self.nodes or nid not in self.nodes:
            self.stale_exec += 1
            self.pending.append((par, nid))
            return True
        if not self.allowed(par, nid):
            return False
        if par in self.parents[nid]:
            return True
        if self.circular(par, nid):
            raise Refused()
        self._link(par, nid)
        return True

    def x_unlink(self, par, nid):
        if (par, nid) in self.pending:
            self.pending.remove((par, nid))
        if nid in self.nodes and par in self.parents[nid]:
            self._unlink(par, nid)
        else:
            self.stale_exec += 1

    def x_set(self, par, nid):
        if par in self.nodes:
            if not self.x_link(par, nid):
                return
        if nid in self.nodes:
            for other in list(self.parents[nid]):
                if other != par:
                    self.x_unlink(other, nid)
        self.pending = [rel for rel in self.pending
                        if rel[1] != nid or rel[0] == par]
        if par not in self.nodes:
            self.x_link(par, nid)

    # what the methods of a node do at call time --------------------------
    def obj_add_parent(self, owner, idx, par):
        obj = self.objs[idx]
        if par != obj.nid and obj.pe:
            self._ask(owner, obj, par, obj.nid)

    def obj_add_child(self, owner, idx, child):
        obj = self.objs[idx]
        if child != obj.nid and obj.ce:
            self._ask(owner, obj, obj.nid, child)

    def _ask(self, owner, obj, par, nid):
        if obj.attached:
            self.request(owner, NORMAL, 'link', par, nid)
        else:
            obj.pend.append((par, nid))

    def obj_set_parent(self, owner, idx, par):
        obj = self.objs[idx]
        if par != obj.nid and obj.pe:
            if obj.attached:
                self.request(owner, NORMAL, 'set', par, obj.nid)
            else:
                obj.pend = [rel for rel in obj.pend if rel[1] != obj.nid]
                if par is not None:
                    obj.pend.append((par, obj.nid))

    def obj_remove_parent(self, owner, idx, par):
        obj = self.objs[idx]
        if obj.pe:
            if obj.attached:
                self.request(owner, NORMAL, 'unlink', par, obj.nid)
            else:
                obj.pend = [rel for rel in obj.pend
                            if rel != (par, obj.nid)]

    def obj_flags(self, owner, idx, which, value):
        obj = self.objs[idx]
        nid = obj.nid
        in_tree = self.nodes.get(nid) == idx
        if which == 'p':
            if not value and obj.pe and in_tree:
                for par in list(self.parents[nid]):
                    self.request(owner, NORMAL, 'unlink', par, nid)
            obj.pe = value
        else:
            if not value and obj.ce and in_tree:
                for child in list(self.children[nid]):
                    self.request(owner, NORMAL, 'unlink', nid, child)
            obj.ce = value

    # observable state ----------------------------------------------------
    def get_parents(self, nid):
        if not self.objs[self.nodes[nid]].pe:
            return []
        return self.parents[nid]

    def get_children(self, nid):
        if not self.objs[self.nodes[nid]].ce:
            return []
        return self.children[nid]

    def data(self, nid):
        return self.objs[self.nodes[nid]].data

    def snapshot(self):
        return {nid: (self.nodes[nid], tuple(sorted(self.get_parents(nid))),
                      tuple(sorted(self.get_children(nid))))
                for nid in self.nodes}

    def roots(self):
        return sorted(nid for nid in self.nodes if not self.parents[nid])


def alternatives(model, func, may_add=True):
    """All the outcomes of func(model): [(model, was it refused), ...].  There
    are several if declarations made in advance contradict each other."""
    def attempt(order, new=None):
        if new is None:
            new = model.copy()
        new.order = order
        try:
            func(new)
            refused = False
        except Refused:
            refused = True
        new.order = None
        return new, refused

    if not may_add:
        return [attempt(None, model)]
    first = attempt(None)
    if not first[0].contradiction:
        return [first]
    size = min(first[0].contradiction, 4)
    rest = list(range(size, first[0].contradiction))
    out = [first]
    for order in itertools.permutations(range(size)):
        out.append(attempt(list(order) + rest))
    unique = {}
    for new, refused in out:
        key = repr((new.snapshot(), new.pending, refused))
        unique.setdefault(key, (new, refused))
    return list(unique.values())


# filters -----------------------------------------------------------------
# name -> (function(model, nid), parameters given when it is registered)
def _descendant_red(model, nid):
    return any(model.data(c) & 1 or _descendant_red(model, c)
               for c in model.get_children(nid))


def _red(model, nid):
    return bool(model.data(nid) & 1)


def _blue(model, nid):
    return bool(model.data(nid) & 2)


def _leaf(model, nid):
    return not model.get_children(nid)


def _blue_leaf(model, nid):
    return _blue(model, nid) and _leaf(model, nid)


def _busy(model, nid):
    """red, or has a red descendant"""
    return _red(model, nid) or _descendant_red(model, nid)


def _level(model, nid, level):
    return (model.data(nid) >> 2) >= level


def _kids(model, nid):
    return sum(1 for c in model.get_children(nid) if model.data(c) & 2) < 2


def _below(model, nid):
    found, todo = set(), list(model.get_children(nid))
    while todo:
        cur = todo.pop()
        if cur not in found:
            found.add(cur)
            todo.extend(model.get_children(cur))
    return found


def _odd(model, nid):
    """an even number of red descendants"""
    return sum(model.data(c) & 1 for c in _below(model, nid)) % 2 == 0


# Names of the filters which come and go in the bank (op bankadd)
SLOTS = ['slot0', '!red', 'slot 2']

FILTERS = {
    'odd': (_odd, None),
    'flatodd': (_odd, {'flat': True}),
    'red': (_red, None),
    'blue': (_blue, None),
    'leaf': (_leaf, None),
    'busy': (_busy, None),
    'blueleaf': (_blue_leaf, None),
    'kids': (_kids, None),
    'notred': (_red, {'negate': True}),
    'notleaf': (_leaf, {'negate': True}),
    'notbusy': (_busy, {'negate': True}),
    'flatred': (_red, {'flat': True}),
    'flatleaf': (_leaf, {'flat': True}),
    'flatbusy': (_busy, {'flat': True}),
    'flatall': (lambda model, nid: True, {'flat': True}),
    'all': (lambda model, nid: True, None),
    'none': (lambda model, nid: False, None),
    'noflatred': (_red, {'negate': True, 'flat': True}),
}
OWN_DATA = ('red', 'blue', 'notred', 'flatred', 'all', 'none', 'noflatred')


def _fragile(model, nid):
    return bool(model.data(nid) & 4)


def _fragile_below(model, nid):
    return any(model.data(n) & 4 for n in _below(model, nid))


# Filters which fail for some nodes: (for which, what they let through
# otherwise, parameters).  They do not let these nodes through.
FRAGILE = {
    'fragile': (_fragile, _red, None),
    'notfragile': (_fragile, _red, {'negate': True}),
    'flatfragile': (_fragile, lambda model, nid: True, {'flat': True}),
    'fragilebusy': (_fragile_below, _busy, None),
    'notfragilebusy': (_fragile_below, _busy, {'negate': True}),
}
FRAGILE_OWN = ('fragile', 'notfragile', 'flatfragile')
# One filter per view whose parameter is changed by that view only
LEVEL = 'level%d'


def passes(model, nid, filters, levels):
    """Does the node pass all these filters?"""
    for name in filters:
        if name in levels and isinstance(levels[name], str):
            name = levels[name]      # registered under another name
        if name in FRAGILE:
            fails, func, params = FRAGILE[name]
            value = not fails(model, nid) and (
                func(model, nid) != bool(params and params.get('negate')))
        elif name in FILTERS:
            func, params = FILTERS[name]
            value = func(model, nid)
            if params and params.get('negate'):
                value = not value
        elif name in levels:
            level, negate = levels[name]
            value = _level(model, nid, level)
            if negate:
                value = not value
        else:
            value = False        # not in the bank
        if not value:
            return False
    return True


def is_flat(filters, levels):
    for name in filters:
        if isinstance(levels.get(name), str):
            name = levels[name]
        if name in FILTERS and (FILTERS[name][1] or {}).get('flat'):
            return True
        if name in FRAGILE and (FRAGILE[name][2] or {}).get('flat'):
            return True
    return False


class Shown(object):
    """What a view has to show, computed from its definition."""
    __slots__ = ('parents', 'children', 'paths')

    def __init__(self, model, filters, levels):
        shown = [nid for nid in model.nodes
                 if passes(model, nid, filters, levels)]
        inside = set(shown)
        flat = is_flat(filters, levels)
        self.parents = {}
        self.children = {None: []}
        for nid in shown:
            self.children[nid] = []
        for nid in shown:
            pars = ([] if flat else
                    [p for p in model.get_parents(nid) if p in inside])
            self.parents[nid] = pars
            for par in pars or [None]:
                self.children[par].append(nid)
        self.paths = {}
        for nid in shown:
            self._paths(nid)

    def _paths(self, nid):
        if nid not in self.paths:
            if self.parents[nid]:
                self.paths[nid] = [path + (nid, ) for par in self.parents[nid]
                                   for path in self._paths(par)]
            else:
                self.paths[nid] = [(nid, )]
        return self.paths[nid]

    def count(self, nid):
        """Instances below the node"""
        return sum(1 + self.count(c) for c in self.children[nid])
