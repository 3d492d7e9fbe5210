"""The Gtk widget: what is expanded, sorted, selected, drawn, dropped.

The widget is the real liblarch_gtk.TreeView on a real (virtual) X display.  It
is never mapped, so that Gtk does nothing on its own initiative.
"""

import ast

from . import model as M
from . import seams

COLORS = ('#000000', '#ffffff', '#ff0000', '#c0ffee', '#00ff00', '#0000ff',
          '#606060', '#a0a0a0')
FREE, COLLAPSED, UNKNOWN = 'free', 'collapsed', 'unknown'


def cmp(a, b):
    return (a > b) - (a < b)


class Selection(object):
    """What is transferred by drag and drop"""

    def __init__(self):
        self.data = b''

    def get_target(self):
        return 'target'

    def set(self, target, bits, data):
        self.data = data

    def get_data(self):
        return self.data


class Widget(object):
    def __init__(self, run, vid, view, sort, perm, colored):
        from gi.repository import Gtk
        self.Gtk = Gtk
        self.run = run
        self.vid = vid
        self.view = view
        self.status = {}
        self.pending = {}
        self.ghost = set()
        self.before = set()
        self.taint = set()
        self.signals = []
        self.expected = []
        self.calls = []
        # which rows are separators (None: no function, 4: switched off)
        self.separator = None
        self.multiple = True
        self.shift = 0
        # selected rows, rows deleted and collapsed since the last check
        self.selected = set()
        self.gone = set()
        self.closed = set()
        view.real.register_cllbck('node-deleted-inview',
                                  lambda nid, path: self.gone.add(path))
        columns = {
            'title': {'value': [str, lambda node: 'd%d' % node.data],
                      'renderer': ['markup', Gtk.CellRendererText()],
                      'sorting_func': self.rank_title, 'order': 0},
            'data': {'value': [int, lambda node: node.data],
                     'renderer': ['text', Gtk.CellRendererText()],
                     'order': 1},
            'bg': {'value': [str, lambda node: COLORS[0]],
                   'visible': False, 'order': 2}}
        # columns sorted by a function
        self.functions = {'title': self.rank_title}
        if perm % 2:
            self.functions['data'] = self.rank_data
            columns['data']['sorting_func'] = self.rank_data
        else:
            columns['data']['sorting'] = 'data'
        # what is sorted when the header of a column is clicked
        self.header = {'title': 'title', 'data': 'data'}
        if perm in (6, 8):
            self.header['data'] = 'title'
            columns['data']['sorting'] = 'title'
        columns['title']['title'] = 'Title'
        columns['data']['expandable'] = bool(perm & 1)
        columns['title']['resizable'] = perm != 3
        # drawn in the column of the title
        self.packed = perm == 2
        if self.packed:
            columns['data']['new_column'] = False
        names = ['title', 'data', 'bg']
        given = list(names)
        if perm:
            # the order is given, the description is not in this order
            names = names[perm % 3:] + names[:perm % 3]
            if perm > 2:
                names.reverse()
            for name in names:
                columns[name]['order'] = names.index(name)
        else:
            for name in names:
                del columns[name]['order']
        if perm == 7:
            # there is nothing to be drawn together with
            columns['title']['new_column'] = False
        self.columns = columns
        self.colored = False
        tv = run.guard(run.lib.widget, view.real,
                       {name: columns[name] for name in given})
        self.tv = tv
        self.store = tv.get_model()
        tv.connect('row-expanded', self.on_row, 'expanded')
        tv.connect('row-collapsed', self.on_row, 'collapsed')
        tv.connect('node-expanded', self.on_node, 'expanded')
        tv.connect('node-collapsed', self.on_node, 'collapsed')
        run.guard(tv.set_multiple_selection, True)
        run.guard(tv.set_dnd_name, 'internal')
        run.guard(tv.set_dnd_external, 'other',
                  lambda s, t: self.calls.append((1, s, t)))
        run.guard(tv.set_dnd_external, 'third',
                  lambda s, t: self.calls.append((2, s, t)))
        self.order = names
        self.hidden = {'bg'}
        self.fixed = {'title'} if perm == 3 else set()
        self.expander = self.search = None
        self.check_columns()
        self.check_targets()
        if colored:
            self.color()
        if sort:
            self.sort(sort)
        else:
            self.sorted = None

    def where(self):
        return 'widget of view %d %r' % (self.vid, self.view.filters)

    # signals ---------------------------------------------------------------
    def llpath(self, path):
        out = ()
        indices = path.get_indices()
        for i in range(len(indices)):
            it = self.store.get_iter(self.Gtk.TreePath(indices[:i + 1]))
            out += (self.store.get_value(it, 0), )
        return out

    def on_row(self, tv, it, path, kind):
        self.expected.append((kind, self.llpath(path)))
        if kind == 'collapsed':
            self.closed.add(self.llpath(path))

    def on_node(self, tv, path, kind):
        self.signals.append((kind, ast.literal_eval(path)))

    # sorting ---------------------------------------------------------------
    def rank_title(self, node_a, node_b, order):
        """Some nodes are at the top in either order"""
        if (node_a.data ^ node_b.data) & 8:
            first = -1 if node_a.data & 8 else 1
            return first if order == self.Gtk.SortType.ASCENDING else -first
        return cmp(node_a.data & 3, node_b.data & 3)

    def rank_data(self, node_a, node_b, order):
        return cmp(node_a.data ^ 6, node_b.data ^ 6)

    def sort_key(self, name, data, reverse):
        if name == 'title':
            return not data & 8, -(data & 3) if reverse else data & 3
        if name in self.functions:
            data ^= 6
        return -data if reverse else data

    def sort(self, sort):
        Gtk = self.Gtk
        name = 'data' if sort % 2 else 'title'
        order = Gtk.SortType.DESCENDING if sort > 2 else Gtk.SortType.ASCENDING
        self.run.guard(self.tv.set_sort_column, name, order)
        if self.tv.get_sort_column() != (name, order):
            self.run.fail('sorted', '%s: the sort column is %r' % (
                self.where(), self.tv.get_sort_column()))
        self.sorted = (name, sort > 2)

    def click(self, name):
        """The user clicks the header of a column"""
        name = self.header[name] if not self.packed else 'title'
        column = self.column_of(name if self.packed else [
            n for n in self.header if self.header[n] == name][-1])
        if not column.get_visible():
            return
        Gtk = self.Gtk
        self.run.guard(column.clicked)
        reverse = self.sorted == (name, False)
        order = Gtk.SortType.DESCENDING if reverse else Gtk.SortType.ASCENDING
        if self.tv.get_sort_column() != (name, order):
            self.run.fail('sorted', '%s: clicking the header of %s sorts %r' %
                          (self.where(), name, self.tv.get_sort_column()))
        self.sorted = (name, reverse)

    def color(self):
        """Change the function for the background"""
        self.shift += 1
        self.colored = True
        shift = self.shift
        self.run.guard(self.tv.set_bg_color,
                       lambda node, default: COLORS[(node.data + shift) & 7],
                       'bg')
        try:
            self.tv.set_bg_color(lambda node, default: COLORS[0], 'nosuch')
        except ValueError:
            pass
        else:
            self.run.fail('cells', 'a colour for an unknown column is taken')

    def color_of(self, data):
        if not self.colored:
            return COLORS[0]
        return COLORS[(data + self.shift) & 7]

    # rows --------------------------------------------------------------
    def rows(self):
        """[(path of ids, path of Gtk, has children, expanded)], top down"""
        out = []
        store, tv = self.store, self.tv

        def walk(it, path):
            while it is not None:
                here = path + (store.get_value(it, 0), )
                gtk_path = store.get_path(it)
                has = store.iter_has_child(it)
                out.append((here, gtk_path, has, tv.row_expanded(gtk_path)))
                walk(store.iter_children(it), here)
                it = store.iter_next(it)

        walk(store.get_iter_first(), ())
        return out

    def visible(self):
        """The rows which are not below a collapsed one"""
        out, inside = [], {()}
        for path, gtk_path, has, expanded in self.rows():
            if path[:-1] in inside:
                out.append((path, gtk_path, has, expanded))
                if expanded:
                    inside.add(path)
        return out

    def get(self, name):
        return self.status.get(name, FREE)

    def track(self):
        """After every step: which rows have to be expanded and which not"""
        run = self.run
        if self.signals != self.expected:
            run.fail('expand', '%s: the signals %r were sent, expected %r' % (
                self.where(), self.signals[-4:], self.expected[-4:]))
        self.signals, self.expected = [], []
        if not run.world.sources:
            for name in list(self.pending) + sorted(self.ghost):
                if self.view.real.is_displayed(name):
                    if name in self.ghost:
                        self.ghost.discard(name)
                        self.status[name] = UNKNOWN
                    else:
                        self.status[name] = self.pending.pop(name)[-1]
                        if self.status[name] == FREE:
                            # it may have been collapsed in between
                            self.taint |= {r[0] for r in self.rows()
                                           if name in r[0]}
        for name, status in list(self.status.items()):
            if status == COLLAPSED and not run.tree.has_node(name):
                self.status[name] = UNKNOWN
        opened = {()}
        now, taint = set(), set()
        for path, gtk_path, has, expanded in self.rows():
            now.add(path)
            status = self.get(path[-1])
            if path in self.taint or path[:-1] not in opened:
                taint.add(path)
            elif status == FREE:
                opened.add(path)
                if has and not expanded:
                    run.fail('expand', '%s: the row %r is not expanded' % (
                        self.where(), path))
            if status == COLLAPSED and expanded:
                run.fail('expand', '%s: the row %r is expanded, its node was '
                         'collapsed' % (self.where(), path))
        run.stats['expansions'] += len(now)
        self.before, self.taint = now, taint

    def fold(self, name, kind):
        """The application collapses or expands a node"""
        tv, run = self.tv, self.run
        tree = self.view.real
        del self.signals[:], self.expected[:]
        rows = [r for r in self.rows() if r[0][-1] == name]
        shown = tree.is_displayed(name)
        if kind == COLLAPSED:
            run.guard(tv.collapse_node, (name, ))
            want = [r[0] for r in rows if r[3]]
        else:
            run.guard(tv.expand_node, (name, ))
            want = None
        if not shown:
            self.pending.setdefault(name, []).append(kind)
            self.status[name] = UNKNOWN
            return
        if want is not None and sorted(self.signals) != sorted(
                ('collapsed', p) for p in want):
            run.fail('expand', '%s: collapsing %s sends %r, expected %r' % (
                self.where(), name, self.signals, want))
        if name in self.pending or name in self.ghost:
            self.pending.pop(name, None)
            self.ghost.add(name)
            self.status[name] = UNKNOWN
            return
        self.status[name] = kind
        if kind == FREE:
            # not if something above is collapsed
            visible = {r[0] for r in self.visible()}
            self.taint -= {p for p in visible if p[-1] == name}
            self.taint |= {r[0] for r in rows if r[0] not in visible}
            # what is below is still collapsed
            self.taint |= {p for p in self.before if name in p[:-1]}

    def user(self, pick, kind):
        """The user collapses or expands a row"""
        rows = [r for r in self.visible() if r[2]]
        if not rows:
            return
        path, gtk_path, has, expanded = rows[pick % len(rows)]
        del self.signals[:], self.expected[:]
        if kind:
            self.tv.expand_row(gtk_path, False)
        else:
            self.tv.collapse_row(gtk_path)
        want = []
        if expanded != bool(kind):
            want = [('expanded' if kind else 'collapsed', path)]
        if self.signals != want:
            self.run.fail('expand', '%s: the signals %r, expected %r' % (
                self.where(), self.signals, want))
        if want:
            name = path[-1]
            self.status[name] = UNKNOWN
            if name in self.pending:
                # was it collapsed by the application before or after this?
                self.pending.pop(name)
                self.ghost.add(name)

    # selection, drag and drop --------------------------------------------
    def select(self, picks):
        rows = self.visible()
        selection = self.tv.get_selection()
        selection.unselect_all()
        chosen = sorted({pick % len(rows) for pick in picks}) if rows else []
        for i in chosen:
            selection.select_path(rows[i][1])
        # separators cannot be selected
        names = [rows[i][0][-1] for i in chosen
                 if not self.separates(rows[i][0][-1])]
        if not self.multiple:
            # which one of them is up to Gtk
            names = [row[0][-1] for row in rows
                     if selection.path_is_selected(row[1])][:1]
        got = self.run.guard(self.tv.get_selected_nodes)
        if got != names:
            self.run.fail('select', '%s: the selected nodes are %r, expected '
                          '%r' % (self.where(), got, names))
        self.selected = self.selection()
        self.gone.clear()
        self.closed.clear()
        return names

    def separates(self, name):
        if self.separator in (None, 4):
            return False
        return self.run.index[name] % 4 == self.separator

    def separate(self, rest):
        tv, guard = self.tv, self.run.guard
        # Gtk does not unselect rows which become separators
        tv.get_selection().unselect_all()
        self.selected = set()
        self.separator = rest
        if rest == 4:
            guard(tv.set_row_separator_func, None)
        else:
            guard(tv.set_row_separator_func,
                  lambda node: self.run.index[node.get_id()] % 4 == rest)

    def mode(self, multiple):
        self.run.guard(self.tv.set_multiple_selection, bool(multiple))
        self.multiple = bool(multiple)
        now = self.selection()
        if not now <= self.selected or (
                len(now) != len(self.selected) if multiple else
                len(now) > 1):
            self.run.fail('select', '%s: the rows %r are selected, it were %r' %
                          (self.where(), sorted(now), sorted(self.selected)))
        self.selected = now

    def check_targets(self):
        """What can be dropped, and who gets it"""
        if 'select' not in self.run.oracles:
            return
        from gi.repository import Gdk, GObject
        Gtk, tv = self.Gtk, self.tv
        targets = tv.drag_dest_get_target_list()
        for name, info in (('internal', 0), ('other', 1), ('third', 2),
                           ('nosuch', None)):
            found = targets is not None and \
                targets.find(Gdk.Atom.intern(name, False))
            if tuple(found or (False, )) != (
                    (True, info) if info is not None else (False, 0)):
                self.run.fail('select', 'a drop of %s is taken as %r' % (
                    name, found))
        for name in ('drag-data-get', 'drag-data-received'):
            if not GObject.signal_has_handler_pending(
                    tv, GObject.signal_lookup(name, Gtk.Widget), 0, True) and \
                    'do_' + name.replace('-', '_') not in vars(type(tv)):
                self.run.fail('select', 'nobody listens to %s' % name)

    def selection(self):
        model, paths = self.tv.get_selection().get_selected_rows()
        return {self.llpath(path) for path in paths}

    def track_selection(self):
        """A row which stays where it is stays selected, others are not"""
        if 'select' not in self.run.oracles:
            return
        keep = {path for path in self.selected
                if not any(path[:i] in self.gone
                           for i in range(1, len(path) + 1)) and
                not any(path[:i] in self.closed
                        for i in range(1, len(path)))}
        now = self.selection()
        if not keep <= now <= self.selected:
            self.run.fail('select', '%s: the rows %r are selected, it were %r' %
                          (self.where(), sorted(now), sorted(keep)))
        self.selected = now
        self.gone.clear()
        self.closed.clear()

    def drag(self, picks):
        """What is carried when these rows are dragged"""
        names = self.select(picks)
        data = Selection()
        self.run.guard(self.tv.on_drag_data_get, self.tv, None, data, 0, 0)
        return names, data

    def target(self, dest, position):
        """(what Gtk tells, id of the node which gets the dragged ones)"""
        rows = self.visible()
        Pos = self.Gtk.TreeViewDropPosition
        if dest is None or not rows:
            return None, None
        path, gtk_path, has, expanded = rows[dest % len(rows)]
        position = [Pos.BEFORE, Pos.AFTER, Pos.INTO_OR_BEFORE,
                    Pos.INTO_OR_AFTER][position]
        if position in (Pos.BEFORE, Pos.AFTER):
            return (gtk_path, position), path[-2] if len(path) > 1 else None
        return (gtk_path, position), path[-1]

    # what is drawn -----------------------------------------------------------
    def check_rows(self, want):
        """want: path of ids -> data"""
        run = self.run
        store = self.store
        got = []

        def walk(it, path):
            level = []
            while it is not None:
                here = path + (store.get_value(it, 0), )
                got.append((here, it))
                level.append(store.get_value(it, 0))
                walk(store.iter_children(it), here)
                it = store.iter_next(it)
            if self.sorted is not None:
                self.check_sorted(path, level)

        walk(store.get_iter_first(), ())
        if sorted(path for path, it in got) != sorted(want):
            run.fail('gtk', '%s has the rows %r, expected %r' % (
                self.where(), sorted(p for p, it in got), sorted(want)))
            return
        for path, it in got:
            values = (store.get_value(it, 0), ) + tuple(
                store.get_value(it, self.order.index(name) + 1)
                for name in ('title', 'data', 'bg'))
            data = want[path]
            right = (path[-1], 'd%d' % data, data, self.color_of(data))
            if values != right:
                run.fail('gtk', '%s has in the row %r %r, expected %r' % (
                    self.where(), path, values, right))
        if 'cells' in run.oracles:
            self.check_columns()
            for path, it in got[:3]:
                self.check_cells(path, it, want[path])
        run.stats['rows'] += len(got)

    def check_sorted(self, path, level):
        if 'sorted' not in self.run.oracles:
            return
        name, reverse = self.sorted
        tree = self.run.tree
        if name in self.functions:
            # compares the nodes as they are: they must not change without
            # the view, nor together with other nodes
            if self.run.spec['threads'] > 1 or \
                    any(f not in M.OWN_DATA for f in self.view.filters):
                return
        keys = [self.sort_key(name, tree.get_node(n).data, reverse)
                for n in level]
        if keys != sorted(keys):
            self.run.fail('sorted', '%s: the rows %r below %r are not sorted '
                          'by %s%s' % (self.where(), list(zip(level, keys)),
                                       path, name,
                                       ' (descending)' if reverse else ''))
        if len(set(keys)) > 1:
            self.run.stats['sorted_levels'] += 1

    def part_of(self, name):
        return 'title' if self.packed and name == 'data' else name

    def column_of(self, name):
        renderer = self.columns[name].get('renderer')
        for column in self.Gtk.TreeView.get_columns(self.tv):
            if renderer is None:
                if not any(c['renderer'][1] in column.get_cells()
                           for c in self.columns.values() if 'renderer' in c):
                    return column
            elif renderer[1] in column.get_cells():
                return column
        self.run.fail('cells', 'no column for %s' % name)

    def check_columns(self):
        if 'cells' not in self.run.oracles:
            return
        tv = self.tv
        if sorted(tv.get_columns()) != sorted(self.order):
            self.run.fail('cells', 'the columns are %r' % tv.get_columns())
        columns = [self.column_of(name) for name in self.order]
        shown = [c for i, c in enumerate(columns) if c not in columns[:i]]
        if len(shown) != 3 - self.packed or \
                shown != self.Gtk.TreeView.get_columns(tv):
            self.run.fail('cells', 'the columns are not in the order %r' %
                          self.order)
        for name, column in zip(self.order, columns):
            if column.get_visible() == (self.part_of(name) in self.hidden):
                self.run.fail('cells', 'the column %s is %svisible' % (
                    name, 'not ' if self.part_of(name) not in self.hidden else ''))
            if column.get_title() != ('Title' if self.part_of(name) == 'title'
                                      else ''):
                self.run.fail('cells', 'the title of the column %s is %r' % (
                    name, column.get_title()))
            if not self.packed and column.get_expand() != bool(
                    self.columns[name].get('expandable')):
                self.run.fail('cells', 'the column %s is %sexpandable' % (
                    name, '' if column.get_expand() else 'not '))
            if column.get_resizable() == (self.part_of(name) in self.fixed):
                self.run.fail('cells', 'the column %s is %sresizable' % (
                    name, 'not ' if self.part_of(name) not in self.fixed else ''))
        if self.expander is not None and \
                tv.get_expander_column() != self.column_of(self.expander):
            self.run.fail('cells', 'the expander is not in the column %s' %
                          self.expander)
        if self.search is not None:
            it = self.store.get_iter_first()
            if it is not None:
                data = self.run.tree.get_node(self.store.get_value(it, 0)).data
                text = self.store.get_value(it, tv.get_search_column())
                fits = {'title': isinstance(text, str) and text[0] == 'd',
                        'data': isinstance(text, int),
                        'bg': isinstance(text, str) and text[0] == '#'}
                if not fits[self.search]:
                    self.run.fail('cells', 'searching in the column %s finds '
                                  '%r (%r)' % (self.search, text, data))

    def column(self, name, what, value):
        tv, guard = self.tv, self.run.guard
        if what == 'visible':
            guard(tv.set_col_visible, name, bool(value))
            (self.hidden.discard if value else self.hidden.add)(
                self.part_of(name))
        elif what == 'resizable':
            guard(tv.set_col_resizable, name, bool(value))
            (self.fixed.discard if value else self.fixed.add)(
                self.part_of(name))
        elif what == 'expander':
            guard(tv.set_expander_column, name)
            self.expander = name
        else:
            guard(tv.set_main_search_column, name)
            self.search = name

    def check_cells(self, path, it, data):
        from gi.repository import Gdk
        for name, text in (('title', 'd%d' % data), ('data', str(data))):
            renderer = self.columns[name]['renderer'][1]
            column = self.column_of(name)
            column.cell_set_cell_data(self.store, it, False, False)
            if renderer.get_property('text') != text:
                self.run.fail('cells', '%s draws %r in the row %r, expected '
                              '%r' % (self.where(),
                                      renderer.get_property('text'), path,
                                      text))
            if not self.colored:
                continue
            color = Gdk.RGBA()
            color.parse(self.color_of(data))
            back = renderer.get_property('cell-background-rgba')
            dark = (.2126 * color.red + .7152 * color.green +
                    .0722 * color.blue) < .5
            if back.to_string() != color.to_string() or \
                    renderer.get_property('foreground-set') != dark:
                self.run.fail('cells', '%s draws the background %s (%swhite '
                              'text) in the row %r, expected %s' % (
                                  self.where(), back.to_string(),
                                  '' if renderer.get_property(
                                      'foreground-set') else 'no ', path,
                                  color.to_string()))
            if dark and renderer.get_property('foreground-rgba').to_string() \
                    != 'rgb(255,255,255)':
                self.run.fail('cells', '%s draws the text on %s in %s' % (
                    self.where(), color.to_string(), renderer.get_property(
                        'foreground-rgba').to_string()))

    def close(self):
        self.tv.destroy()


class WidgetOps(object):
    """Operations of the coarse simulation"""

    def widget_of(self, vid):
        view = self.views.get(vid)
        if view is None or not view.widgets:
            return None
        return view.widgets[0]

    def op_widget(self, thread, vid, sort, perm, colored):
        view = self.view_of(vid)
        if view is None or len(view.widgets) > 1:
            return
        for listener in view.listeners:
            listener.broadcast = True
        widget = Widget(self, vid, view, sort, perm, colored)
        for listener in view.listeners:
            listener.broadcast = False
        view.widgets.append(widget)
        if colored:
            self.op_refreshall(seams.OWNER)

    def op_wfold(self, thread, vid, nid, kind):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.fold(self.names[nid], COLLAPSED if kind else FREE)

    def op_wuser(self, thread, vid, pick, kind):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.user(pick, kind)

    def op_wshow(self, thread, vid):
        widget = self.widget_of(vid)
        if widget is not None:
            self.guard(widget.tv.show)

    def op_wsort(self, thread, vid, sort):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.sort(sort)

    def op_wclick(self, thread, vid, name):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.click(name)

    def op_wseparate(self, thread, vid, rest):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.separate(rest)

    def op_wmode(self, thread, vid, multiple):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.mode(multiple)

    def op_wcolor(self, thread, vid):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.color()
            self.op_refreshall(seams.OWNER)

    def op_wcolumn(self, thread, vid, name, what, value):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.column(name, what, value)

    def op_wselect(self, thread, vid, picks):
        widget = self.widget_of(vid)
        if widget is not None:
            widget.select(picks)

    def op_wdrop(self, thread, vid, picks, dest, position):
        widget = self.widget_of(vid)
        if widget is None:
            return
        names, data = widget.drag(picks)
        where, target = widget.target(dest, position)
        widget.tv.get_dest_row_at_pos = lambda x, y: where
        nids = [self.index[n] for n in names]
        par = None if target is None else self.index[target]

        def model(m, owner):
            for nid in nids:
                try:
                    if nid in m.nodes:
                        m.obj_set_parent(owner, m.nodes[nid], par)
                except M.Refused:
                    pass

        self.stats['drops'] += len(nids)
        self.call(seams.OWNER, lambda: widget.tv.on_drag_data_received(
            widget.tv, None, 0, 0, data, 0, 0), model)

    def op_wother(self, thread, vid, picks, dest, position):
        """Rows of another widget are dropped"""
        widget = self.widget_of(vid)
        sources = [w for v in sorted(self.views)
                   for w in self.views[v].widgets if w is not widget]
        if widget is None or not sources:
            return
        info = 1 + len(picks) % 2
        source = sources[picks[0] % len(sources)] if picks else sources[0]
        names, data = source.drag(picks)
        where, target = widget.target(dest, position)
        widget.tv.get_dest_row_at_pos = lambda x, y: where
        Gtk = widget.Gtk
        known = Gtk.drag_get_source_widget
        Gtk.drag_get_source_widget = lambda context: source.tv
        del widget.calls[:]
        try:
            self.guard(widget.tv.on_drag_data_received,
                       widget.tv, None, 0, 0, data, info, 0)
        finally:
            Gtk.drag_get_source_widget = known
        want = [] if target is None else [(info, n, target) for n in names]
        if widget.calls != want:
            self.fail('select', '%s: dropping %r calls %r, expected %r' % (
                widget.where(), names, widget.calls, want))
