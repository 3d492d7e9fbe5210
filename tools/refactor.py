import sys
root = sys.argv[1]
def edit(path, *pairs):
    p = root + '/' + path
    s = open(p).read()
    for a, b in pairs:
        if s.count(a) != 1:
            sys.exit('stale: %s: %s' % (path, a))
        s = s.replace(a, b)
    open(p, 'w').write(s)

edit('liblarch/processqueue.py',
("""import sys
import threading

from gi.repository import GObject
""", """import sys
from collections import deque
from threading import Lock, current_thread

from gi.repository import GLib
"""),
("""        self._low_queue = []
        self._queue = []
        self._vip_queue = []
        self._handler = None
        self._lock = threading.Lock()
        self._origin_thread = threading.current_thread()
""", """        self._lanes = {'high': deque(), 'normal': deque(), 'low': deque()}
        self._handler = None
        self._lock = Lock()
        self._origin_thread = current_thread()
"""),
("""        if self._origin_thread == threading.current_thread():
            func = element[0]
            func(*element[1:])
            return

        priority = kwargs.get('priority')
        if priority == 'low':
            queue = self._low_queue
        elif priority == 'high':
            queue = self._vip_queue
        else:
            queue = self._queue

        self._lock.acquire()
        if not kwargs.get('merge') or element not in queue:
            queue.append(element)
            if self._handler is None:
                self._handler = GObject.idle_add(self.process_queue)

        self._lock.release()
""", """        if self._is_owner():
            func, *args = element
            func(*args)
            return

        lane = self._lanes.get(kwargs.get('priority'), self._lanes['normal'])
        with self._lock:
            if kwargs.get('merge') and element in lane:
                return
            lane.append(element)
            self._start()

    def _is_owner(self):
        return current_thread() is self._origin_thread

    def _start(self):
        if self._handler is None:
            self._handler = GLib.idle_add(self.process_queue)

    def _stop(self):
        if self._handler is not None:
            GLib.source_remove(self._handler)
            self._handler = None
"""),
("""        self._lock.acquire()
        if len(self._vip_queue) > 0:
            toreturn = [self._vip_queue.pop(0)]
        elif len(self._queue) > 0:
            toreturn = [self._queue.pop(0)]
        elif len(self._low_queue) > 0:
            toreturn = [self._low_queue.pop(0)]
        else:
            toreturn = []

        if (len(self._queue) == 0 and
                len(self._vip_queue) == 0 and
                len(self._low_queue) == 0 and
                self._handler is not None):
            GObject.source_remove(self._handler)
            self._handler = None
        self._lock.release()
        return toreturn
""", """        with self._lock:
            toreturn = []
            for name in ('high', 'normal', 'low'):
                if self._lanes[name]:
                    toreturn.append(self._lanes[name].popleft())
                    break
            if not any(self._lanes.values()):
                self._stop()
        return toreturn
"""))
edit('liblarch/tree.py',
("""        key = 0
        while key in callbacks:
            key += 1

        callbacks[key] = func
        return key
""", """        key = next(i for i in range(len(callbacks) + 1) if i not in callbacks)
        callbacks[key] = func
        return key
"""),
("""        dic = dict(self.__cllbcks.get(event, {}))
        for func in dic.values():
            try:
                func(node_id)
            except Exception:
                # The request has to be finished and the others informed
                sys.excepthook(*sys.exc_info())
""", """        for func in list(self.__cllbcks.get(event, {}).values()):
            self._call(func, node_id)

    @staticmethod
    def _call(func, node_id):
        try:
            func(node_id)
        except Exception:
            # The request has to be finished and the others informed
            sys.excepthook(*sys.exc_info())
"""),
("""        visited = []
        ancestors = [parent_id]
        while ancestors != []:
            node_id = ancestors.pop(0)
            if node_id == child_id:
                return True

            if node_id not in self.nodes:
                continue

            for ancestor_id in self.nodes[node_id].parents:
                if ancestor_id not in visited:
                    ancestors.append(ancestor_id)

        return False
""", """        visited = set()
        ancestors = [parent_id]
        while ancestors:
            node_id = ancestors.pop()
            if node_id == child_id:
                return True

            if node_id in visited or node_id not in self.nodes:
                continue
            visited.add(node_id)
            ancestors.extend(self.nodes[node_id].parents)

        return False
"""),
("""            # Adding as a child
            if rel_child_id == node_id and rel_parent_id in self.nodes:
                if not self._is_allowed_relation(rel_parent_id, node_id):
                    pass
                elif not self._is_circular_relation(rel_parent_id, node_id):
                    self._create_relationship(rel_parent_id, node_id)
                    add_to_root = False
                    parents_to_refresh.append(rel_parent_id)
                else:
                    print("Error: Detected pending circular relationship",
                          rel_parent_id, rel_child_id)
                self.pending_relationships.remove(
                    (rel_parent_id, rel_child_id))

            # Adding as a parent
            if rel_parent_id == node_id and rel_child_id in self.nodes:
                if not self._is_allowed_relation(node_id, rel_child_id):
                    pass
                elif not self._is_circular_relation(node_id, rel_child_id):
                    self._create_relationship(node_id, rel_child_id)
                    children_to_refresh.append(rel_child_id)
                else:
                    print("Error: Detected pending circular relationship",
                          rel_parent_id, rel_child_id)
                self.pending_relationships.remove((rel_parent_id, rel_child_id))
""", """            if node_id not in (rel_parent_id, rel_child_id) or \\
                    rel_parent_id not in self.nodes or \\
                    rel_child_id not in self.nodes:
                continue
            if self._build_pending(rel_parent_id, rel_child_id):
                if rel_child_id == node_id:
                    add_to_root = False
"""),
("""        parents_to_refresh = []
        children_to_refresh = []

""", ""),
("""                    add_to_root = False
                    parents_to_refresh.append(parent_id)
            else:
""", """                    add_to_root = False
            else:
"""),
("""    def _remove_node(self, node_id, recursive=False):
        \"\"\" Remove node from tree \"\"\"
""", """    def _build_pending(self, parent_id, child_id):
        self.pending_relationships.remove((parent_id, child_id))
        if not self._is_allowed_relation(parent_id, child_id):
            return False
        if self._is_circular_relation(parent_id, child_id):
            print("Error: Detected pending circular relationship",
                  parent_id, child_id)
            return False
        self._create_relationship(parent_id, child_id)
        return True

    def _remove_node(self, node_id, recursive=False):
        \"\"\" Remove node from tree \"\"\"
"""),
("""        for relation in list(self.pending_relationships):
            if node_id in relation:
                self.pending_relationships.remove(relation)
""", """        self.pending_relationships = [
            relation for relation in self.pending_relationships
            if node_id not in relation]
"""),
("""        if child.parents == [] and child_id not in self.root.children:
            self.root.children.append(child_id)

        self._callback('node-modified', parent_id)
        self._callback('node-modified', child_id)

    # INTERFACE FOR READING""", """        if not child.parents and child_id not in self.root.children:
            self.root.children.append(child_id)

        for changed in (parent_id, child_id):
            self._callback('node-modified', changed)

    # INTERFACE FOR READING"""),
("""        paths = []
        for parent_id in node.get_parents():
            try:
                parent_paths = self.get_paths_for_node(parent_id)
            except ValueError:
                continue
            for path in parent_paths:
                paths.append(path + (node_id, ))
        return paths
""", """        return self._paths_below(node)

    def _paths_below(self, node):
        paths = []
        for parent_id in node.get_parents():
            try:
                parent_paths = self.get_paths_for_node(parent_id)
            except ValueError:
                continue
            paths += [path + (node.get_id(), ) for path in parent_paths]
        return paths
"""),
)
edit('liblarch/filteredtree.py',
("from gi.repository import GObject\n", "from gi.repository import GLib\n"),
("GObject.idle_add(self.__run_once", "GLib.idle_add(self.__run_once"),
("""        self.tree.register_callback("node-added", self.__external_modify)
        self.tree.register_callback("node-modified", self.__external_modify)
        self.tree.register_callback("node-deleted", self.__external_modify)
""", """        for event in ("node-added", "node-modified", "node-deleted"):
            self.tree.register_callback(event, self.__external_modify)
"""),
("""        for fcname in self.filter_cache:
            if node_id in self.filter_cache[fcname]['nodes']:
                self.filter_cache[fcname]['nodes'].remove(node_id)
                self.filter_cache[fcname]['count'] = len(
                    self.filter_cache[fcname]['nodes'])

""", ""),
("""        elif action == 'deleted':
            paths = self.get_paths_for_node(node_id)
            children = list(reversed(self.nodes[node_id]['children']))
            for child_id in children:
                self.send_remove_tree(child_id, node_id)
                self.nodes[child_id]['parents'].remove(node_id)

            node = self.nodes.pop(node_id)
            for path in paths:
                self.callback(action, node_id, path)

            # Remove node from cache
            for parent_id in node['parents']:
                self.nodes[parent_id]['children'].remove(node_id)

            # Update its relatives only when the node is completely gone
            for child_id in children:
                self.__update_node(child_id, direction="down")
            for parent_id in node['parents']:
                self.__update_node(parent_id, direction="up")

            # We update also parents which did not show the node
            # If the node is only hidden and still exists in the tree
            if self.tree.has_node(node_id):
                for parent in self.tree.get_node(node_id).get_parents():
                    if parent not in node['parents']:
                        self.__update_node(parent, direction="up")

        return completely_updated

""", """        elif action == 'deleted':
            self.__hide_node(node_id)

        return completely_updated

    def __hide_node(self, node_id):
        paths = self.get_paths_for_node(node_id)
        children = self.nodes[node_id]['children'][::-1]
        for child_id in children:
            self.send_remove_tree(child_id, node_id)
            self.nodes[child_id]['parents'].remove(node_id)

        parents = self.nodes.pop(node_id)['parents']
        for path in paths:
            self.callback('deleted', node_id, path)

        # Remove node from cache
        for parent_id in parents:
            self.nodes[parent_id]['children'].remove(node_id)

        # Update its relatives only when the node is completely gone
        for child_id in children:
            self.__update_node(child_id, direction="down")
        for parent_id in parents:
            self.__update_node(parent_id, direction="up")

        # We update also parents which did not show the node
        # If the node is only hidden and still exists in the tree
        if not self.tree.has_node(node_id):
            return
        for parent in self.tree.get_node(node_id).get_parents():
            if parent not in parents:
                self.__update_node(parent, direction="up")

"""),
("""            remove_from = [parent_id for parent_id in current_parents
                           if parent_id not in new_parents]
            add_to = [parent_id for parent_id in new_parents
                      if parent_id not in current_parents]
""", """            known, wanted = set(current_parents), set(new_parents)
            remove_from = [p for p in current_parents if p not in wanted]
            add_to = list(filter(lambda p: p not in known, new_parents))
"""),
("""                for parent_id in dict.fromkeys(
                        old_parents + remove_from + new_parents):
                    self""", """                concerned = []
                for one in old_parents + remove_from + new_parents:
                    if one not in concerned:
                        concerned.append(one)
                for parent_id in concerned:
                    self"""),
("""        if node_id and self.tree.has_node(node_id):
            for filter_name in self.applied_filters:
                filt = self.fbank.get_filter(filter_name)
                if filt:
                    can_be_displayed = filt.is_displayed(node_id)
                    if not can_be_displayed:
                        return False
                else:
                    return False
            return True
        else:
            return False
""", """        if not node_id or not self.tree.has_node(node_id):
            return False
        filters = [self.fbank.get_filter(n) for n in self.applied_filters]
        return all(filt and filt.is_displayed(node_id) for filt in filters)
"""),
("""        valid = True
        i = 0
        if len(p) == 1:
            valid = False
        else:
            while valid and i < len(p) - 1:
                child = p[i + 1]
                par = p[i]
                if par in self.nodes:
                    valid = (child in self.nodes[par]['children'])
                else:
                    valid = False
                i += 1
        return valid
""", """        if len(p) == 1:
            return False
        return all(par in self.nodes and child in self.nodes[par]['children']
                   for par, child in zip(p, p[1:]))
"""),
("""            nodes = []
            for node_id in self.nodes:
                if node_id == self.root_id:
                    continue

                displayed = True
                for filt in filters:
                    displayed = filt.is_displayed(node_id)
                    if not displayed:
                        break

                if displayed:
                    nodes.append(node_id)

            return nodes
""", """            return [node_id for node_id in self.nodes
                    if node_id != self.root_id and
                    all(filt.is_displayed(node_id) for filt in filters)]
"""),
("""        while queue != []:
            node_id, relative_path = queue.pop(0)

            for start_path in paths:
                path = start_path + relative_path
                self.callback('added', node_id, path)

            for child_id in self.nodes[node_id]['children']:
                queue.append((child_id, relative_path + (child_id, )))
""", """        while queue:
            node_id, relative_path = queue.pop(0)

            for start_path in paths:
                self.callback('added', node_id, start_path + relative_path)

            queue.extend((child_id, relative_path + (child_id, ))
                         for child_id in self.nodes[node_id]['children'])
"""),
("""            cids = list(self.nodes[node_id]['children'])
            for cid in cids:
                total += self.node_n_children(cid, recursive=True)
                total += 1  # we count the node itself ofcourse
            return total
""", """            for cid in list(self.nodes[node_id]['children']):
                # we count the node itself ofcourse
                total += 1 + self.node_n_children(cid, recursive=True)
            return total
"""),
)
edit('liblarch/viewcount.py',
("""        self.nodes = []
""", """        self.nodes = set()
"""),
("""        if nid in self.nodes:
            self.nodes.remove(nid)
            self.__callback()
""", """        if nid not in self.nodes:
            return
        self.nodes.discard(nid)
        self.__callback()
"""),
("""            self.nodes.append(nid)
""", """            self.nodes.add(nid)
"""),
("""        for c in list(self.cllbcks):
            try:
                c()
            except Exception:
                # The others have to be informed
                sys.excepthook(*sys.exc_info())
""", """        callbacks = self.cllbcks[:]
        while callbacks:
            callback = callbacks.pop(0)
            try:
                callback()
            except Exception:
                # The others have to be informed
                sys.excepthook(*sys.exc_info())
"""),
("""        displayed = self.tree.has_node(nid)
        for filtname in self.applied_filters:
            filt = self.fbank.get_filter(filtname)
            displayed = displayed and filt and filt.is_displayed(nid)
        if displayed:
            self.__add(nid)
        else:
            self.__delete(nid)
""", """        change = self.__add if self.__fits(nid) else self.__delete
        change(nid)

    def __fits(self, nid):
        if not self.tree.has_node(nid):
            return False
        filters = map(self.fbank.get_filter, self.applied_filters)
        return all(filt and filt.is_displayed(nid) for filt in filters)
"""))
edit('liblarch/treenode.py',
("""        parents = []
        if self.parents_enabled and self.tree:
            for parent_id in list(self.parents):
                if self.tree.has_node(parent_id):
                    parents.append(parent_id)

        return parents
""", """        if not self.parents_enabled or not self.tree:
            return []
        return [p for p in list(self.parents) if self.tree.has_node(p)]
"""),
("""        children = []
        if self.children_enabled and self.tree:
            for child_id in list(self.children):
                if self.tree.has_node(child_id):
                    children.append(child_id)

        return children
""", """        if not self.children_enabled or not self.tree:
            return []
        return [c for c in list(self.children) if self.tree.has_node(c)]
"""))
edit('liblarch/filters_bank.py',
("""        if self.tree.has_node(node_id):
            task = self.tree.get_node(node_id)
        else:
            return False

        try:
            if self.dic:
                value = self.func(task, parameters=self.dic)
            else:
                value = self.func(task)
        except Exception:
            # The update of the view has to be finished
            sys.excepthook(*sys.exc_info())
            return False

        if 'negate' in self.dic and self.dic['negate']:
            value = not value

        return value
""", """        if not self.tree.has_node(node_id):
            return False

        task = self.tree.get_node(node_id)
        kwargs = {'parameters': self.dic} if self.dic else {}
        try:
            value = self.func(task, **kwargs)
        except Exception:
            # The update of the view has to be finished
            sys.excepthook(*sys.exc_info())
            return False
        else:
            return not value if self.dic.get('negate') else value
"""),
("""        if filter_name not in self.available_filters:
            if filter_name in self.custom_filters:
                self.custom_filters.pop(filter_name)
                return True
            else:
                return False
        else:
            return False
""", """        if filter_name in self.available_filters:
            return False
        return self.custom_filters.pop(filter_name, None) is not None
"""))
edit('liblarch_gtk/treemodel.py',
("""        row = []
        for python_type, access_method in self.types:
            value = self._get_column_value(access_method, node)
            row.append(value)
""", """        row = [self._get_column_value(access, node)
               for __, access in self.types]
"""),
("""            root = self.my_get_iter(path[:-1])
            # This is a small ad-hoc optimisation.
            # Instead of going through all the children nodes
            # We go directly at the last known position.
            pos = self.cache_position.get(path, None)
            if pos:
                iter = self.iter_nth_child(root, pos)
                if iter and self.get_value(iter, 0) == nid:
                    toreturn = iter
            if not toreturn:
                if root:
                    iter = self.iter_children(root)
                else:
                    iter = self.get_iter_first()
                while iter and self.get_value(iter, 0) != nid:
                    iter = self.iter_next(iter)
            self.cache_paths[path] = iter
            toreturn = iter
""", """            root = self.my_get_iter(path[:-1])
            iter = self.iter_children(root)
            while iter and self.get_value(iter, 0) != nid:
                iter = self.iter_next(iter)
            self.cache_paths[path] = iter
            toreturn = iter
"""),
("""        if self.tree.is_displayed(node_id):
            node = self.tree.get_node(node_id)
            # That call to my_get_iter is really slow!
            iterator = self.my_get_iter(path)

            if iterator:
                for column_num, (__, access_method) in enumerate(self.types):
                    value = self._get_column_value(access_method, node)
                    if value is not None:
                        self.set_value(iterator, column_num, value)
""", """        if not self.tree.is_displayed(node_id):
            return
        node = self.tree.get_node(node_id)
        # That call to my_get_iter is really slow!
        iterator = self.my_get_iter(path)
        if not iterator:
            return
        values = [self._get_column_value(access, node)
                  for __, access in self.types]
        columns = [i for i, v in enumerate(values) if v is not None]
        self.set(iterator, columns, [values[i] for i in columns])
"""),
)
edit('liblarch_gtk/__init__.py',
("""        ll_path = ()
        i = 1
        path = path.get_indices()
        while i <= len(path):
            temp_path = Gtk.TreePath(":".join(str(n) for n in path[:i]))
            temp_iter = self.treemodel.get_iter(temp_path)
            ll_path += (self.treemodel.get_value(temp_iter, 0), )
            i += 1
        if data == 'expanded':
            self.emit('node-expanded', ll_path)
        elif data == 'collapsed':
            self.emit('node-collapsed', ll_path)
""", """        ll_path = ()
        while iter is not None:
            ll_path = (self.treemodel.get_value(iter, 0), ) + ll_path
            iter = self.treemodel.iter_parent(iter)
        self.emit('node-' + data, ll_path)
"""),
("""        while iter and not collapsed:
            for c in self.collapsed_paths:
                if c[-1] == nid:
                    collapsed = True
            iter = treemodel.iter_parent(iter)
""", """        collapsed = nid in {c[-1] for c in self.collapsed_paths}
"""),
("""        if selection.count_selected_rows() <= 0:
            ids = []
        else:
            model, paths = selection.get_selected_rows()
            iters = [model.get_iter(path) for path in paths]
            ts = self.get_model()
            # 0 is the column of the tid
            ids = [ts.get_value(iter, 0) for iter in iters]

        return ids
""", """        model, paths = selection.get_selected_rows()
        # 0 is the column of the tid
        return [model[path][0] for path in paths]
"""),
("""        if myiter and model.iter_is_valid(myiter):
            color = model.get_value(myiter, self.bg_color_column)
        else:
            color = None

        if isinstance(cell, Gtk.CellRendererText):
            if color is not None and brightness(color) < 0.5:
                cell.set_property("foreground", '#FFFFFF')
            else:
                # Otherwise unset foreground color
                cell.set_property("foreground-set", False)

        cell.set_property("cell-background", color)
""", """        color = None
        if myiter and model.iter_is_valid(myiter):
            color = model.get_value(myiter, self.bg_color_column)

        cell.set_property("cell-background", color)
        if not isinstance(cell, Gtk.CellRendererText):
            return
        dark = color is not None and brightness(color) < 0.5
        if dark:
            cell.set_property("foreground", '#FFFFFF')
        # Otherwise unset foreground color
        cell.set_property("foreground-set", dark)
"""),
("""        dragged_tids = []
        for iter in iters:
            if info == 0:
                try:
                    dragged_iter = model.get_iter_from_string(iter)
                    dragged_tids.append(model.get_value(dragged_iter, 0))
                except ValueError:
                    # I hate to silently fail but we have no choice.
                    # It means that the iter is not good.
                    # Thanks shitty gtk API for not allowing us to test
                    # the string
                    pass

            # Handle drag from one widget to another (ex: treeview to treeview)
            elif info in self.dnd_external_targets and destination_tid:
                f = self.dnd_external_targets[info][1]
                src_model = Gtk.drag_get_source_widget(context).get_model()
                dragged_iter = src_model.get_iter_from_string(iter)
                dragged_tids.append(src_model.get_value(dragged_iter, 0))

        for dragged_tid in dragged_tids:
            if info == 0:
                try:
                    tree.move_node(
                        dragged_tid, new_parent_id=destination_tid)
                except Exception as e:
                    print('Problem with dragging: %s' % e)

            # Handle inter-widget Drag'n'Drop again (like in the previous loop)
            elif info in self.dnd_external_targets and destination_tid:
                f(dragged_tid, destination_tid)
""", """        if info == 0:
            self._drop_own(tree, model, iters, destination_tid)
        elif info in self.dnd_external_targets and destination_tid:
            source = Gtk.drag_get_source_widget(context).get_model()
            func = self.dnd_external_targets[info][1]
            for tid in [source[path][0] for path in iters]:
                func(tid, destination_tid)

    def _drop_own(self, tree, model, iters, destination_tid):
        dragged_tids = []
        for iter in iters:
            try:
                dragged_iter = model.get_iter_from_string(iter)
                dragged_tids.append(model.get_value(dragged_iter, 0))
            except ValueError:
                pass
        for dragged_tid in dragged_tids:
            try:
                tree.move_node(dragged_tid, new_parent_id=destination_tid)
            except Exception as e:
                print('Problem with dragging: %s' % e)
"""),
)
