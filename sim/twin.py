"""The same requests twice in one process: the second time with other ids for
the nodes, with more spectators around (views, filters applied to these,
counts, listeners, Gtk models, questions), with more nodes which are not
related to the others or with requests for what is there already.  What the first run has shown, in which order, is
compared with what the second one shows, step by step.

The ops `shadow` are the spectators, the ops `stranger` the other nodes,
`again` the requests which change nothing; they are skipped in the first run.
"""

import hashlib

from . import model as M
from . import seams
from .coarse import Coarse
from .seams import Violation, rng_of


AGAIN = ['add', 'add', 'del', 'refresh', 'link', 'link', 'link', 'move',
         'move', 'unlink', 'flags', 'view', 'count']
STRANGERS = ['stranger%d' % i for i in range(4)]


class One(Coarse):
    """One of the two runs; keeps everything which can be observed, with ids
    replaced by the numbers of the nodes."""

    second = False
    kind = 'same'
    earlier = None      # what the first run has shown

    def __init__(self, *args):
        self.history = []
        self.shadow_views, self.shadow_counts = [], []
        self.shadow_stores = []
        self.strangers = frozenset(STRANGERS)
        Coarse.__init__(self, *args)

    def tell(self, *what):
        at = len(self.history)
        self.history.append((self.step, ) + what)
        if self.earlier is None or at >= len(self.earlier):
            return
        if self.earlier[at] != self.history[at]:
            self.fail(self.kind, 'in step %d the first run shows %r, the '
                      'second one with %s: %r' % (
                          self.step, self.earlier[at][1:],
                          {'same': 'other ids', 'apart': 'more spectators',
                           'local': 'unrelated nodes',
                           'noop': 'requests which change nothing'}[self.kind],
                          self.history[at][1:]))

    def number(self, names):
        return tuple(self.index.get(name, name) for name in names
                     if name not in self.strangers)

    # what happens
    def on_main(self, event, node_id):
        if node_id in self.strangers:
            return
        Coarse.on_main(self, event, node_id)
        self.tell('main view:', event, self.index.get(node_id, node_id))

    def heard(self, vid, event, node_id, path):
        if path[-1] not in self.strangers:
            self.tell('view %d:' % vid, event, self.number(path))

    # what there is
    def levels_of(self, what, view, names):
        # "all the nodes" are in no special order
        self.tell(what, 'nodes', tuple(sorted(
            self.number(view.get_all_nodes()), key=repr)))
        self.tell(what, 'root', self.number(view.node_all_children()))
        for name in names:
            if view.is_displayed(name):
                self.tell(what, 'children', self.index[name],
                          self.number(view.node_all_children(name)))
                self.tell(what, 'parents', self.index[name],
                          self.number(view.node_parents(name)))
                self.tell(what, 'paths', self.index[name], tuple(
                    map(self.number, view.get_paths_for_node(name))))

    def check(self, drained=False):
        Coarse.check(self, drained)
        tree = self.tree
        self.tell('the tree:', 'root', self.number(
            self.main.node_all_children()))
        for name in self.names:
            if tree.has_node(name):
                node = tree.get_node(name)
                self.tell('the tree:', 'children', self.index[name],
                          self.number(node.get_children()))
                self.tell('the tree:', 'parents', self.index[name],
                          self.number(node.get_parents()))
                self.tell('the tree:', 'paths', self.index[name], tuple(
                    map(self.number, self.main.get_paths_for_node(name))))
        for vid, view in sorted(self.views.items()):
            self.levels_of('view %d:' % vid, view.real, self.names)
            for store in view.stores:
                if not store.sort_column:
                    self.tell('a Gtk model of view %d:' % vid, tuple(
                        self.number(row[0]) for row in self.rows_of(store)
                        if row[0][-1] not in self.strangers))
            for widget in view.widgets:
                self.tell('a widget of view %d:' % vid, 'rows', tuple(
                    (self.number(row[0]), row[2], row[3])
                    for row in widget.rows()))
                self.tell('a widget of view %d:' % vid, 'selected', tuple(
                    sorted(map(self.number, widget.selection()))))
        for cid, count in sorted(self.counts.items()):
            if self.kind == 'local':
                break
            self.tell('count %d:' % cid, count.real.get_n_nodes(),
                      count.calls)

    # the other nodes
    def op_stranger(self, thread, what, one, other, data):
        if not self.second:
            return
        self.world.cur = seams.OWNER
        tree, guard = self.tree, self.guard
        name, more = STRANGERS[one], STRANGERS[max(one, other)]
        known = tree.has_node(name)
        if what == 'add' and not known:
            node = self.Node(name)
            node.data = data
            guard(tree.add_node, node, STRANGERS[other]
                  if other < one and tree.has_node(STRANGERS[other])
                  else None)
        elif not known:
            return
        elif what == 'del':
            guard(tree.del_node, name, bool(data & 1))
        elif what == 'data':
            tree.get_node(name).data = data
            guard(tree.refresh_node, name)
        elif what == 'link' and other > one:
            # also declared in advance
            guard(tree.get_node(name).add_child, more)
        elif what == 'move':
            guard(tree.move_node, name, STRANGERS[other]
                  if other < one and tree.has_node(STRANGERS[other])
                  else None)

    # the requests which change nothing
    def op_again(self, thread, what, one, other, how):
        if not self.second:
            return
        self.world.cur = seams.OWNER
        if getattr(self, 'again_' + what)(one, other, how):
            self.stats['asked again: ' + what] += 1

    def refused(self, func, *args):
        try:
            func(*args)
        except Exception:
            # Circular relationships are refused like this
            pass
        return True

    def awaited(self, nid, as_parent=False):
        """Could a request for this node change what is waiting for it?"""
        return any(child == nid or as_parent and par == nid
                   for cand in self.models for par, child in cand.pending)

    def again_add(self, one, other, how):
        """This id is taken"""
        if self.tree.has_node(self.names[one]):
            node = self.Node(self.names[one], parent=self.names[other]
                             if how & 1 else None)
            node.data = 15 - how
            if how & 2:
                node.add_child(self.names[other])
            return self.refused(
                self.tree.add_node, node,
                self.names[other] if how & 4 else None)

    def again_del(self, one, other, how):
        """There is no such node"""
        name = self.names[one]
        if not self.tree.has_node(name) and not self.awaited(one, True):
            return self.refused(self.tree.del_node, name, bool(how & 1))

    def again_refresh(self, one, other, how):
        name = self.names[one]
        if not self.tree.has_node(name):
            return self.refused(self.tree.refresh_node, name)

    def both(self, one, other, how):
        """Both of the nodes, when they are in the tree.  Half of the time
        such which are related"""
        related = [
            (name, par) for name in self.names if self.tree.has_node(name)
            for par in self.tree.get_node(name).get_parents()]
        names = self.names[one], self.names[other]
        if related and how >= 8:
            names = related[(one + other) % len(related)][::how % 3 - 1 or 1]
            one, other = map(self.index.get, names)
        if one != other and all(map(self.tree.has_node, names)):
            return [self.tree.get_node(name) for name in names]

    def below(self, name, above):
        todo, seen = [name], set()
        while todo:
            cur = todo.pop()
            if cur == above:
                return True
            if cur not in seen:
                seen.add(cur)
                todo += self.tree.get_node(cur).get_parents()
        return False

    def again_link(self, one, other, how):
        """The relationship exists, is circular or one of the nodes does not
        want it"""
        pair = self.both(one, other, how)
        if not pair:
            return
        node, par = pair
        if node.has_parent(par.get_id()) or \
                self.below(par.get_id(), node.get_id()) or \
                not node.has_parents_enabled() or \
                not par.has_children_enabled():
            return self.refused(*[
                (node.add_parent, par.get_id()),
                (par.add_child, node.get_id()),
                (self.tree.add_parent, node.get_id(), par.get_id())][how % 3])

    def again_move(self, one, other, how):
        """The node is there already or must not go there"""
        pair = self.both(one, other, how)
        if not pair or self.awaited(self.index[pair[0].get_id()]):
            return
        node, par = pair
        if node.get_parents() == [par.get_id()] or \
                self.below(par.get_id(), node.get_id()) or \
                not node.has_parents_enabled() or \
                not par.has_children_enabled():
            return self.refused(*[
                (node.set_parent, par.get_id()),
                (self.tree.move_node, node.get_id(), par.get_id())][how % 2])

    def again_unlink(self, one, other, how):
        """There is no such relationship"""
        pair = self.both(one, other, how)
        if pair and not pair[0].has_parent(pair[1].get_id()):
            return self.refused(pair[0].remove_parent, pair[1].get_id())

    def again_flags(self, one, other, how):
        if self.tree.has_node(self.names[one]):
            node = self.tree.get_node(self.names[one])
            if how & 1 and not (self.awaited(one)
                                and not node.has_parents_enabled()):
                self.refused(node.set_parents_enabled,
                             node.has_parents_enabled())
            if how & 2 and not (self.awaited(one, True)
                                and not node.has_children_enabled()):
                self.refused(node.set_children_enabled,
                             node.has_children_enabled())
            return True

    def again_view(self, one, other, how):
        """Filters which are applied or are not, names which are taken"""
        for vid, view in sorted(self.views.items()):
            real = view.real
            known = real.list_applied_filters()
            for name in known:
                if how & 1:
                    self.refused(real.apply_filter, name)
                else:
                    self.refused(real.apply_filter, name, None, False,
                                 bool(how & 2))
            for name in sorted(M.FILTERS):
                if name not in known:
                    self.refused(real.unapply_filter, name, bool(how & 4))
            self.refused(real.deregister_cllbck, 'node-added-inview', -1)
            self.refused(real.deregister_cllbck, 'node-deleted-inview', 'x')
        for name in self.tree.list_filters():
            self.refused(self.tree.add_filter, name, lambda node: False,
                         {'flat': True} if how & 1 else None)
        self.refused(self.tree.remove_filter, 'nobody knows it')
        return True

    def again_count(self, one, other, how):
        for cid, count in sorted(self.counts.items()):
            for name in sorted(M.FILTERS):
                if name in count.filters:
                    self.refused(count.real.apply_filter, name)
                else:
                    self.refused(count.real.unapply_filter, name)
            self.refused(count.real.apply_filter, 'nobody knows it')
            self.refused(count.real.unregister_cllbck, print)
            if count.on:
                self.refused(count.real.register_cllbck, count.changed)
        return True

    # the spectators
    def op_shadow(self, thread, what, *args):
        if self.second:
            self.world.cur = seams.OWNER
            getattr(self, 'shadow_' + what)(*args)

    def shadow_view(self, refresh):
        if len(self.shadow_views) < 3:
            self.shadow_views.append(
                self.tree.get_viewtree(refresh=bool(refresh)))

    def shadow_count(self, name):
        if len(self.shadow_counts) < 2:
            count = self.tree.get_viewcount()
            if name:
                count.apply_filter(name)
            self.shadow_counts.append(count)

    def run(self):
        try:
            return Coarse.run(self)
        finally:
            for store in self.shadow_stores:
                if hasattr(store, 'destroy'):
                    store.destroy()

    def one_view(self, which):
        if self.shadow_views:
            return self.shadow_views[which % len(self.shadow_views)]

    def shadow_apply(self, which, name, reset):
        view = self.one_view(which)
        if view:
            view.apply_filter(name, reset=bool(reset))

    def shadow_unapply(self, which):
        view = self.one_view(which)
        if view and view.list_applied_filters():
            view.unapply_filter(view.list_applied_filters()[0])

    def shadow_reset(self, which):
        view = self.one_view(which)
        if view:
            view.reset_filters()

    def shadow_listen(self, which):
        """A listener which asks about everything"""
        view = self.one_view(which)
        if view:
            def told(node_id, path):
                self.shadow_ask(0)
            for event in ('added', 'modified', 'deleted'):
                view.register_cllbck('node-%s-inview' % event, told)

    def shadow_clisten(self):
        for count in self.shadow_counts:
            count.register_cllbck(lambda: self.shadow_ask(0))

    def shadow_main(self):
        for event in ('added', 'modified', 'deleted'):
            self.main.register_cllbck('node-' + event,
                                      lambda node_id, path: None)

    def shadow_gtk(self, which):
        view = self.one_view(which)
        if self.spec.get('gtk') and view:
            store = self.lib.treemodel.TreeModel(
                view, [[str, lambda node: 'd%d' % node.data]])
            store.connect_model()
            self.shadow_stores.append(store)

    def shadow_widget(self, which):
        view = self.one_view(which)
        if self.spec.get('display') and view:
            widget = self.lib.widget(view, {
                'text': {'value': [str, lambda node: 'd%d' % node.data]}})
            widget.collapse_all()
            self.shadow_stores.append(widget)

    def shadow_ask(self, spoil):
        """Ask everything.  With `spoil`, whoever asks changes the lists which
        were the answers."""
        for view in [self.main] + [v.real for v in self.views.values()
                                   ] + self.shadow_views:
            answers = [view.get_all_nodes(), view.node_all_children(),
                       view.get_n_nodes(), view.node_n_children(None, True),
                       view.list_applied_filters()
                       if view is not self.main else None]
            for name in self.names:
                answers.append(self.tree.has_node(name))
                if view.is_displayed(name):
                    answers += [
                        view.node_all_children(name),
                        view.node_n_children(name, True),
                        view.node_parents(name),
                        view.get_paths_for_node(name),
                        view.node_has_child(name)]
                    for par in answers[-2] and view.node_parents(name) or ():
                        if par in view.get_all_nodes():
                            view.next_node(name, par)
            if spoil:
                self.spoil(answers)
        for name in self.names:
            if self.tree.has_node(name):
                node = self.tree.get_node(name)
                answers = [node.get_parents(), node.get_children(),
                           node.has_parent(), node.has_child()]
                if spoil:
                    self.spoil(answers)
        answers = [self.tree.list_filters()]
        if spoil:
            self.spoil(answers)

    @staticmethod
    def spoil(answers):
        for answer in answers:
            if isinstance(answer, list):
                answer.reverse()
                answer.append('changed')


class Twin(object):
    def __init__(self, spec, oracles, stats):
        self.spec = spec
        self.oracles = oracles
        self.stats = stats
        self.trace = hashlib.blake2b(digest_size=8)
        self.states = set()
        self.main_log = []
        self.make(False)

    def make(self, second):
        spec = dict(self.spec, mode='twin')
        if second and spec.get('other_names'):
            spec['names'] = spec['other_names']
        run = self.cur = One(spec, self.oracles, self.stats)
        run.kind = spec['kind']
        run.second = second
        self.world = run.world
        return run

    def run(self):
        first = self.cur
        found = first.run()
        if found is None:
            second = self.make(True)
            second.earlier = first.history
            found = second.run()
            self.stats['compared'] += len(second.history)
            self.trace.update(second.trace.digest())
        self.trace.update(first.trace.digest())
        self.states = first.states
        self.main_log = first.main_log
        return found


def other_names(rng, names):
    from .gen import names_of
    n = len(names)
    style = rng.randint(0, 7)
    if style == 0:
        new = rng.sample(names, n)
    elif style == 1:
        letter = rng.choice('a1/\u00e9')
        new = [letter * (i + 1) for i in range(n)]
    elif style == 2:
        new = [str(i) for i in rng.sample(range(3 * n), n)]
    elif style == 3:
        new = [rng.choice('xyz') * 300 + str(i) for i in range(n)]
    elif style == 4:
        new = [rng.choice('/:,;|!.%') + name for name in names]
    elif style == 5:
        new = ['n%d' % i for i in range(n)]
    else:
        new = names_of(rng, n)
    rng.shuffle(new)
    return new


def gen_twin(seed, profile):
    from .gen import Gen
    rng = rng_of('twin', profile['name'], seed)
    spec = Gen(seed, profile).spec()
    spec['kind'] = profile['kind']
    if profile['kind'] == 'same':
        spec['other_names'] = other_names(rng, spec['names'])
        return spec
    ops = spec['ops']
    if profile['kind'] == 'local':
        # nobody leaves after a number of events, there are more of them, and
        # no requests for the others are queued
        ops[:] = [op[:3] if op[1] == 'listen' else
                  [0] + op[1:] if op[1] == 'refreshall' else op for op in ops]
        for _ in range(rng.choice([2, 6, 15, 30])):
            what = rng.choice(['add', 'add', 'add', 'del', 'data', 'data',
                               'link', 'link', 'move'])
            ops.insert(rng.randint(0, len(ops)), [
                0, 'stranger', what, rng.randrange(4), rng.randrange(4),
                rng.randrange(16)])
        return spec
    if profile['kind'] == 'noop':
        n = len(spec['names'])
        for _ in range(rng.choice([2, 6, 15, 30])):
            what = rng.choice(AGAIN)
            ops.insert(rng.randint(0, len(ops)), [
                0, 'again', what, rng.randrange(n), rng.randrange(n),
                rng.randrange(16)])
        return spec
    filters = sorted(M.FILTERS)
    new = [[0, 'shadow', 'view', int(rng.random() < .7)]]
    for _ in range(rng.choice([0, 1, 3, 8, 15])):
        what = rng.choice(['view', 'count', 'apply', 'apply', 'apply',
                           'unapply', 'reset', 'listen', 'clisten',
                           'main', 'gtk', 'widget', 'ask', 'spoil', 'spoil'])
        args = {'view': lambda: [int(rng.random() < .7)],
                'count': lambda: [rng.choice(filters + [None])],
                'apply': lambda: [rng.randint(0, 2), rng.choice(filters),
                                  rng.randint(0, 1)],
                'ask': lambda: [0], 'clisten': lambda: [],
                'main': lambda: []}.get(what, lambda: [rng.randint(0, 2)])()
        if what == 'spoil':
            what, args = 'ask', [1]
        new.append([0, 'shadow', what] + args)
    for op in new:
        ops.insert(rng.randint(0, len(ops)), op)
    return spec
