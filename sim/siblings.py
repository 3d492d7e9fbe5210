"""The order of siblings.

A level is the list of the children of a node, or the root level.  Between two
events a level loses members and gets new ones at its end; who stays keeps the
place among the others.
"""


class Siblings(object):
    """Watches the levels of the tree and of its views."""

    def __init__(self, run):
        self.run = run
        self.tree = {}
        self.views = {}
        self.declared = {}
        self.claims = {}

    # what there is
    def of_tree(self):
        run = self.run
        levels = {None: list(run.main.node_all_children())}
        for name in run.names:
            if run.tree.has_node(name):
                levels[name] = list(run.tree.get_node(name).get_children())
        return levels

    @staticmethod
    def of_view(real):
        levels = {None: list(real.node_all_children())}
        for name in real.get_all_nodes():
            levels[name] = list(real.node_all_children(name))
        return levels

    # rules
    def kept(self, what, old, new):
        for key in new:
            was, now = old.get(key, []), new[key]
            stay = [name for name in was if name in now]
            if now[:len(stay)] != stay:
                self.run.fail('sibling', '%s: below %s was %r, now it is %r' % (
                    what, key, was, now))

    # which relations were ever asked for, and how often
    PARENT = {'add': 1, 'readd': 1, 'move': 1, 'tparent': 1, 'nparent': 1,
              'nset': 1}

    def claim(self, kind, args):
        names = self.run.names
        pairs = []
        if kind in self.PARENT and args[1] is not None:
            pairs.append((args[1], args[0]))
        if kind == 'nchild':
            pairs.append((args[0], args[1]))
        if kind == 'add':
            pars, kids, ctor = args[4], list(args[5]), args[8]
            for other, nid in args[9] if len(args) > 9 else ():
                if other == 'nchild':
                    kids.append(nid)
                elif other in self.PARENT and nid is not None:
                    pairs.append((nid, args[0]))
            pairs += [(p, args[0]) for p in pars + [ctor] if p is not None]
            pairs += [(args[0], k) for k in set(kids)]
            self.declared.setdefault(names[args[0]], []).append(
                [names[k] for k in kids])
        for par, kid in pairs:
            key = names[par], names[kid]
            self.claims[key] = self.claims.get(key, 0) + 1

    def as_declared(self, name, now):
        """A new node has the children it declared in this order"""
        if len(self.declared.get(name, ())) != 1:
            return
        kids = [kid for i, kid in enumerate(self.declared[name][0])
                if kid in now and kid not in self.declared[name][0][:i]
                and self.claims[name, kid] == 1]
        got = [kid for kid in now if kid in kids]
        if got != kids:
            self.run.fail('sibling', 'the tree: %s declared the children %r, '
                          'it has them in the order %r' % (name, kids, got))

    def look(self):
        """Something happened"""
        new = self.of_tree()
        self.kept('the tree', self.tree, new)
        for name in new:
            if name is not None and name not in self.tree:
                self.as_declared(name, new[name])
        self.tree = new
        for vid, view in self.run.views.items():
            new = self.of_view(view.real)
            if vid in self.views:
                self.kept('view %d' % vid, self.views[vid], new)
            self.views[vid] = new

    def forget(self, vid):
        """The view is built anew"""
        self.views.pop(vid, None)

    def rows(self, vid, what, paths):
        """Rows added one by one, each after the last one below its parent,
        are in the order of the view"""
        levels = {}
        for path in paths:
            levels.setdefault(path[:-1], []).append(path[-1])
        real = self.run.views[vid].real
        for path, names in levels.items():
            want = real.node_all_children(path[-1] if path else None)
            if list(want) != names:
                self.run.fail('sibling', '%s has below %r the rows %r, the '
                              'view %r' % (what, path, names, list(want)))

    def fresh(self, vid):
        """A view which was just built has the order of the tree, if the tree
        is a forest"""
        run = self.run
        tree = self.of_tree()
        count = {}
        for names in tree.values():
            for name in names:
                count[name] = count.get(name, 0) + 1
        if any(n > 1 for n in count.values()):
            return
        for key, names in self.of_view(run.views[vid].real).items():
            for level in tree.values():
                want = [name for name in level if name in names]
                got = [name for name in names if name in level]
                if want != got:
                    run.fail('sibling', 'view %d: %r are in this order '
                             'below %s of the new view, but in the tree it is '
                             '%r' % (vid, got, key, want))
