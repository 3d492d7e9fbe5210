"""What was removed is let go: nothing in the library refers any more to nodes,
ids and callbacks which are gone."""

import gc
import weakref


class Id(str):
    """An id whose lifetime can be watched"""


class LetGo(object):
    """Mixin of the coarse simulation"""

    frozen = []

    def watch_ids(self):
        self.names = [Id(name) for name in self.names]
        self.index = {name: i for i, name in enumerate(self.names)}
        self.gone = []         # [(what, weak reference)]
        if not LetGo.frozen:
            gc.collect()
            gc.freeze()
            LetGo.frozen.append(True)

    def watch(self, what, thing):
        if 'leak' in self.oracles:
            self.gone.append((what, weakref.ref(thing)))

    def check_leaks(self):
        """Remove everything, then look at what is left"""
        for name in self.names:
            if self.tree.has_node(name):
                self.guard(self.tree.del_node, name)
        waits = set()          # somebody may still come for these
        for cand in self.models:
            for pair in cand.pending:
                waits.update(pair)
        acts = []
        for number, action in enumerate(self.actions):
            if action.runs:
                acts.append(('the action %d, which was run' % number,
                             action.ref))
            else:
                waits.add(action.nid)
                if action.given in self.index:
                    waits.add(self.index[action.given])
        watched = self.gone + acts
        watched += [('the node %s' % node.get_id(), weakref.ref(node))
                    for node in self.objs]
        watched += [('the id %s' % str(name), weakref.ref(name))
                    for nid, name in enumerate(self.names)
                    if nid not in waits]
        for view in self.views.values():
            for listener in view.listeners:
                listener.forget()
        kept = [view.real for view in self.views.values()]
        kept += [count.real for count in self.counts.values()]
        kept += [view.stores for view in self.views.values()]
        kept += [self.tree, self.main]
        self.objs, self.names, self.index, self.actions = [], [], {}, []
        self.registry = {}
        self.main_listeners = []
        self.world.excs = []
        name = node = view = listener = action = None
        gc.collect()
        self.stats['watched'] += len(watched)
        for what, ref in watched:
            if ref() is not None:
                self.fail('leak', '%s is still there, though everything was '
                          'removed' % what)
