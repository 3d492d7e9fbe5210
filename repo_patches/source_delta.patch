From 308fcda34a2c35513b8442b74b93f1ea4daeb14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 01/43] fix: removing a node detaches it from all of its
 parents

The loop over node.parents shrank the list it was walking over, so every
other parent kept the removed node among its children and was not told
about the change; removing such a parent later raised a KeyError.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From ce0febd08d461642712384cf215b095e6828dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 02/43] fix: refuse a circular parent in add_node without
 losing the node

The exception was raised when the node was already stored, but before it
was attached to the root and announced, so the node (and the relationships
it brought) stayed in the tree without being reachable or shown anywhere.
Only the circular relationship is refused now.
---
 liblarch/tree.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..ed87a5a 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -196,11 +196,9 @@ class MainTree(object):
                 self.pending_relationships.remove((rel_parent_id, rel_child_id))
 
         # Build relationship with given parent
-        if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
+        is_circular = (parent_id is not None and
+                       self._is_circular_relation(parent_id, node_id))
+        if parent_id is not None and not is_circular:
             if parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
@@ -216,6 +214,11 @@ class MainTree(object):
         # updating the parent and the children is handled by the FT
         self._callback("node-added", node_id)
 
+        if is_circular:
+            raise Exception(
+                'Creating circular relationship between {} and {}'.format(
+                    parent_id, node_id))
+
     def _remove_node(self, node_id, recursive=False):
         """ Remove node from tree """
 
-- 
2.43.0


From 61f4fb3b9d0964b7662a09974477fb11901c3ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 03/43] fix: set_parent dismisses all other parents, and none
 if it is refused

The loop over self.parents shrank the list it was walking over, so every
other parent stayed. The parents were also removed before the new one was
known to be acceptable: moving a node below one of its own descendants was
refused, but put the node to the root.
---
 liblarch/treenode.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..ace7274 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,12 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
-                    for node_id in self.parents:
+                    # First we add the new parent: if it is refused because
+                    # of a circular relationship, nothing is changed
+                    self.add_parent(parent_id)
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
-                        self.add_parent(parent_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From 53e87173720d0cecf7b4e6daa9ae5974f87a2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 04/43] fix: a view finishes with a node before it updates its
 relatives

The update of a parent or a child can come back to the node (a child with
two displayed parents, and a filter looking at descendants). It then found
the node half removed or half attached and raised KeyError, ValueError or
'... is not children of ...', leaving the view broken.
---
 liblarch/filteredtree.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..7a1cb49 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -197,24 +197,22 @@ class FilteredTree(object):
             if direction == "down" and self.root_id in add_to:
                 direction = "both"
 
+            # Finish this node before updating its parents, because an update
+            # of a parent could come back to this node
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
-            # We update all the other parents
+            # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in stay:
+                for parent_id in remove_from | add_to | stay:
                     self.__update_node(parent_id, direction="up")
             # We update the node itself
             # Why should we call the callback only for modify?
@@ -236,7 +234,6 @@ class FilteredTree(object):
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
 
             node = self.nodes.pop(node_id)
             for path in paths:
@@ -245,6 +242,11 @@ class FilteredTree(object):
             # Remove node from cache
             for parent_id in node['parents']:
                 self.nodes[parent_id]['children'].remove(node_id)
+
+            # Update its relatives only when the node is completely gone
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
+            for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From 50fae4f10414fa8c4d4843479f4fd048253742c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 05/43] fix: a flat view re-evaluates the parents of a node
 which disappears

In a flat view the parents of a node are not its parents in the view, so a
displayed parent whose filter looks at its children was not updated when
the child stopped being displayed.
---
 liblarch/filteredtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 7a1cb49..df2451f 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -254,7 +254,7 @@ class FilteredTree(object):
             if self.tree.has_node(node_id):
                 node = self.tree.get_node(node_id)
                 for parent in node.get_parents():
-                    if parent not in self.nodes:
+                    if self.__flat or parent not in self.nodes:
                         self.__update_node(parent, direction="up")
 
         return completely_updated
-- 
2.43.0


From f70cf8083f7c35f72547b4fca7eb506e29ffda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 06/43] fix: a node which appears because of one child adopts
 all its children

A parent which became displayed as a consequence of an update of one of
its children did not take its other displayed children, which stayed at
the root of the view.
---
 liblarch/filteredtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index df2451f..a48bba9 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -223,7 +223,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if action == 'added' or direction == "both" or direction == "down":
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From d45eee86297314e5389c7ebce256b62b2ead760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 07/43] fix: relationship requests are decided on the thread
 owning the tree

---
 liblarch/tree.py     | 36 +++++++++++++++++++++++--
 liblarch/treenode.py | 62 ++++++++++++++------------------------------
 2 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index ed87a5a..006f411 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -91,6 +91,9 @@ class MainTree(object):
     def new_relationship(self, parent_id, child_id):
         self._queue.push(self._new_relationship, parent_id, child_id)
 
+    def set_relationship(self, parent_id, child_id):
+        self._queue.push(self._set_relationship, parent_id, child_id)
+
     def break_relationship(self, parent_id, child_id):
         self._queue.push(self._break_relationship, parent_id, child_id)
 
@@ -278,6 +281,13 @@ class MainTree(object):
             self.pending_relationships.append((parent_id, child_id))
             return True
 
+        parent, child = self.nodes[parent_id], self.nodes[child_id]
+        if not parent.has_children_enabled() or not child.has_parents_enabled():
+            return False
+
+        if child_id in parent.children and parent_id in child.parents:
+            return True
+
         if self._is_circular_relation(parent_id, child_id):
             self._destroy_relationship(parent_id, child_id)
             raise Exception(
@@ -293,6 +303,24 @@ class MainTree(object):
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
 
+    def _set_relationship(self, parent_id, child_id):
+        """ Make the parent the only parent of the child
+
+        If the new relationship is refused, the other parents stay.
+
+        This method is used mainly from TreeNode """
+        if parent_id in self.nodes:
+            if self._new_relationship(parent_id, child_id) is False:
+                return False
+
+        if child_id in self.nodes:
+            for other_id in list(self.nodes[child_id].parents):
+                if other_id != parent_id:
+                    self._break_relationship(other_id, child_id)
+
+        if parent_id not in self.nodes:
+            self._new_relationship(parent_id, child_id)
+
     def _break_relationship(self, parent_id, child_id):
         """ Remove a relationship
 
@@ -307,11 +335,15 @@ class MainTree(object):
         if parent_id not in self.nodes or child_id not in self.nodes:
             return False
 
+        child = self.nodes[child_id]
+        if parent_id not in child.parents:
+            return False
+
         self._destroy_relationship(parent_id, child_id)
 
         # Move to root if beak the last parent
-        if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+        if child.parents == [] and child_id not in self.root.children:
+            self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index ace7274..aff3df6 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -74,43 +74,33 @@ class _Node(object):
 
     def add_parent(self, parent_id):
         """ Add a new parent """
-        if (parent_id != self.get_id() and
-                self.parents_enabled and
-                parent_id not in self.parents):
-            if not self.tree:
-                self.pending_relationships.append((parent_id, self.get_id()))
-            elif not self.tree.has_node(parent_id):
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
-            else:
-                par = self.tree.get_node(parent_id)
-                if par.has_children_enabled():
-                    self.tree.new_relationship(parent_id, self.node_id)
+        if parent_id != self.get_id() and self.parents_enabled:
+            self._request_relationship(parent_id, self.get_id())
+
+    def _request_relationship(self, parent_id, child_id):
+        """ Ask the tree for a new relationship with this node.
+
+        The tree decides about the request when it handles it. This method
+        could be called from any thread, so the relationships must not be
+        read nor changed here. """
+        if not self.tree:
+            self.pending_relationships.append((parent_id, child_id))
+
+        # The node could have been added into the tree in the meantime
+        if self.tree:
+            self.tree.new_relationship(parent_id, child_id)
 
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
             if not self.tree:
-                self.pending_relationships.append((parent_id, self.get_id()))
-            elif not self.tree.has_node(parent_id):
-                for p in self.get_parents():
-                    self.tree.break_relationship(p, self.get_id())
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self._request_relationship(parent_id, self.get_id())
             else:
-                par = self.tree.get_node(parent_id)
-                if par.has_children_enabled():
-                    # First we add the new parent: if it is refused because
-                    # of a circular relationship, nothing is changed
-                    self.add_parent(parent_id)
-                    for node_id in list(self.parents):
-                        if node_id != parent_id:
-                            self.remove_parent(node_id)
+                self.tree.set_relationship(parent_id, self.get_id())
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-        if self.parents_enabled and parent_id in self.parents:
-            self.parents.remove(parent_id)
+        if self.parents_enabled and self.tree:
             self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
@@ -152,21 +142,7 @@ class _Node(object):
     def add_child(self, child_id):
         """ Add a children to node """
         if self.children_enabled and child_id != self.get_id():
-            if child_id not in self.children:
-                if not self.tree:
-                    self.pending_relationships.append(
-                        (self.get_id(), child_id))
-                elif not self.tree.has_node(child_id):
-                    self.tree.pending_relationships.append(
-                        (self.get_id(), child_id))
-                else:
-                    child = self.tree.get_node(child_id)
-                    if child.has_parents_enabled():
-                        self.children.append(child_id)
-                        self.tree.new_relationship(self.node_id, child_id)
-            else:
-                print("{} was already in children of {}".format(
-                    child_id, self.node_id))
+            self._request_relationship(self.get_id(), child_id)
 
     def has_child(self, child_id=None):
         """ Has child/children?
-- 
2.43.0


From bb4dca7aa8a550508dfedb769736a67a1e8f1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 08/43] fix: a request which fails does not stop the processing
 of the others

---
 liblarch/processqueue.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..39ce96c 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -17,6 +17,7 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
+import sys
 import threading
 
 from gi.repository import GObject
@@ -42,7 +43,13 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # An exception must not leave this method: the main loop
+                # would drop the handler and no request would be processed
+                # ever again
+                sys.excepthook(*sys.exc_info())
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 79e0dffd2b30c86c89acb3d53fee21d74c002787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 09/43] fix: an action queued for a node runs once, whatever
 the node is called and the action returns

---
 liblarch/filteredtree.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index a48bba9..8ea84c6 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Actions waiting for a node to be displayed
+        self.runonce = {}
 
         # Cache
         self.nodes = {}
@@ -88,11 +90,9 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                self.runonce.setdefault(node_id, []).append((func, param))
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,15 +109,8 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
-                if nid and self.is_displayed(nid):
-                    func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
-                else:
-                    raise Exception(
-                        '{} is not displayed but {} was added'.format(
-                            nid, node_id))
+            for func, param in self.runonce.pop(node_id, []):
+                func(param)
         func, nid, param = self.cllbcks.get(event, (None, None, None))
         if func:
             if neworder:
@@ -125,6 +118,12 @@ class FilteredTree(object):
             else:
                 func(node_id, path)
 
+    def __run_once(self, func, param):
+        """ Run an action from the main loop and do not repeat it, whatever
+        the action returns """
+        func(param)
+        return False
+
     # EXTERNAL MODIFICATION ###################################################
     def __external_modify(self, node_id):
         return self.__update_node(node_id, direction="both")
-- 
2.43.0


From ca38f3ab3c639a115d130833a3a527b6e2e869f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 10/43] fix: a count leaves out missing nodes and filters and
 forgets its callbacks

---
 liblarch/viewcount.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..74cde96 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
@@ -80,10 +80,10 @@ class ViewCount(object):
         self.__modify(nid)
 
     def __modify(self, nid):
-        displayed = True
+        displayed = self.tree.has_node(nid)
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            displayed = displayed and filt and filt.is_displayed(nid)
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 6902d14f6e798ff525b20f0df69a60d23392fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 11/43] fix: the model forgets the iterator of a removed row

---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..4fdb1e6 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # A new row could get the same iterator
+        self.cache_paths.pop(path, None)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From b2444f91b3c4dc6d3e3d102b4a8633b2ee74d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 12/43] fix: a filtered view finds the children of its root by
 position

---
 liblarch/filteredtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 8ea84c6..2614e57 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -552,6 +552,8 @@ class FilteredTree(object):
         return list(self.nodes[node_id]['children'])
 
     def node_has_child(self, node_id):
+        if node_id is None:
+            node_id = self.root_id
         return len(self.nodes[node_id]['children']) > 0
 
     def node_n_children(self, node_id, recursive=False):
@@ -572,6 +574,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 0930b85b1ab8a2b48425ed30a5ac23fac7d1a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 13/43] fix: a node removed by another thread during a lookup
 is just missing

---
 liblarch/__init__.py | 26 +++++++++++++++++---------
 liblarch/tree.py     |  8 ++++++--
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/liblarch/__init__.py b/liblarch/__init__.py
index 8dbf568..12a97c2 100644
--- a/liblarch/__init__.py
+++ b/liblarch/__init__.py
@@ -93,25 +93,33 @@ class Tree(object):
     def move_node(self, node_id, new_parent_id=None):
         """ Move the node to a new parent (dismissing all other parents)
         use pid None to move it to the root """
-        if self.has_node(node_id):
+        if not self.has_node(node_id):
+            return False
+
+        try:
             node = self.get_node(node_id)
-            node.set_parent(new_parent_id)
-            toreturn = True
-        else:
-            toreturn = False
+        except ValueError:
+            # Removed meanwhile by the thread owning the tree
+            return False
 
-        return toreturn
+        node.set_parent(new_parent_id)
+        return True
 
     def add_parent(self, node_id, new_parent_id=None):
         """ Add the node to a new parent. Return whether operation was
         successful or not. If the node does not exists, return False """
 
-        if self.has_node(node_id):
+        if not self.has_node(node_id):
+            return False
+
+        try:
             node = self.get_node(node_id)
-            return node.add_parent(new_parent_id)
-        else:
+        except ValueError:
+            # Removed meanwhile by the thread owning the tree
             return False
 
+        return node.add_parent(new_parent_id)
+
     # VIEWS ###################################################################
     def get_main_view(self):
         """ Return the special view "main" which is without any filters on it.
diff --git a/liblarch/tree.py b/liblarch/tree.py
index 006f411..0b452af 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -355,9 +355,13 @@ class MainTree(object):
 
     def get_node(self, node_id=None):
         """ Return node of tree or root node of this tree """
-        if node_id in self.nodes:
+        try:
+            # The node could be removed meanwhile by another thread
             return self.nodes[node_id]
-        elif node_id == self.root_id or node_id is None:
+        except KeyError:
+            pass
+
+        if node_id == self.root_id or node_id is None:
             return self.root
         else:
             raise ValueError("Node %s is not in the tree" % node_id)
-- 
2.43.0


From ef59fd2ec3bf1a7ff31d76448486f233e130a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 14/43] fix: add_node respects nodes which refuse parents or
 children

---
 liblarch/tree.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 0b452af..6ed199b 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -128,6 +128,11 @@ class MainTree(object):
         if parent_id in child.parents:
             child.parents.remove(parent_id)
 
+    def _is_allowed_relation(self, parent_id, child_id):
+        """ Does the parent accept children and the child parents? """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _is_circular_relation(self, parent_id, child_id):
         """ Would the new relation be circular?
 
@@ -178,7 +183,9 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._is_allowed_relation(rel_parent_id, node_id):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -190,7 +197,9 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._is_allowed_relation(node_id, rel_child_id):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -203,9 +212,10 @@ class MainTree(object):
                        self._is_circular_relation(parent_id, node_id))
         if parent_id is not None and not is_circular:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._is_allowed_relation(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
@@ -281,11 +291,10 @@ class MainTree(object):
             self.pending_relationships.append((parent_id, child_id))
             return True
 
-        parent, child = self.nodes[parent_id], self.nodes[child_id]
-        if not parent.has_children_enabled() or not child.has_parents_enabled():
+        if not self._is_allowed_relation(parent_id, child_id):
             return False
 
-        if child_id in parent.children and parent_id in child.parents:
+        if parent_id in self.nodes[child_id].parents:
             return True
 
         if self._is_circular_relation(parent_id, child_id):
-- 
2.43.0


From af8482b479cb3f606f199956b3f61bf72b5faa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 15/43] fix: a node not yet in the tree can withdraw the
 parents it asked for

---
 liblarch/treenode.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index aff3df6..c9c928d 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -94,14 +94,29 @@ class _Node(object):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
             if not self.tree:
-                self._request_relationship(parent_id, self.get_id())
-            else:
+                self._dismiss_pending_parents()
+                self.pending_relationships.append((parent_id, self.get_id()))
+
+            # The node could have been added into the tree in the meantime
+            if self.tree:
                 self.tree.set_relationship(parent_id, self.get_id())
 
+    def _dismiss_pending_parents(self, parent_id=None):
+        """ Forget the parents (or just the given one) requested before this
+        node is added into a tree """
+        self.pending_relationships = [
+            (parent, child) for parent, child in self.pending_relationships
+            if child != self.get_id() or parent_id not in (None, parent)]
+
     def remove_parent(self, parent_id):
         """ Remove parent """
-        if self.parents_enabled and self.tree:
-            self.tree.break_relationship(parent_id, self.node_id)
+        if self.parents_enabled:
+            if not self.tree:
+                self._dismiss_pending_parents(parent_id)
+
+            # The node could have been added into the tree in the meantime
+            if self.tree:
+                self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
         """ Has parent/parents?
-- 
2.43.0


From 42eaaef5f34ba19085ec515043170f660e92fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 16/43] fix: moving a node dismisses also its parents which
 have not come yet

---
 liblarch/tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 6ed199b..2836981 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -327,6 +327,11 @@ class MainTree(object):
                 if other_id != parent_id:
                     self._break_relationship(other_id, child_id)
 
+        # Parents which have not come yet are dismissed as well
+        for relation in list(self.pending_relationships):
+            if relation[0] != parent_id and relation[1] == child_id:
+                self.pending_relationships.remove(relation)
+
         if parent_id not in self.nodes:
             self._new_relationship(parent_id, child_id)
 
-- 
2.43.0


From f968ab1b7234128f1c00b0e8c036d015a2893dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 17/43] fix: a change of a displayed node re-evaluates its
 hidden parents

---
 liblarch/filteredtree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 2614e57..b3964b2 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -173,7 +173,8 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            old_parents = set(current_parents)
+            if action == 'added' or direction == "both" or direction == "up":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
@@ -211,7 +212,7 @@ class FilteredTree(object):
                     raise Exception("We have a parent not in the ViewTree")
             # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in remove_from | add_to | stay:
+                for parent_id in old_parents | remove_from | add_to | stay:
                     self.__update_node(parent_id, direction="up")
             # We update the node itself
             # Why should we call the callback only for modify?
-- 
2.43.0


From 81030e2a24317f04c7a4526d1a2efd6da436b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 18/43] fix: only requests for a refresh are merged while they
 wait

---
 liblarch/processqueue.py | 7 ++++---
 liblarch/tree.py         | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 39ce96c..7f18e23 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -65,8 +65,9 @@ class SyncQueue(object):
         services are put in the queue.
 
         Application can choose which kind of priority should have an update.
-        If the request is not in the queue of selected priority, add it and
-        setup callback.
+        Add the request to the queue of selected priority and setup callback.
+        A request which can be merged with the same waiting request (merge
+        is set) is not added again.
         """
 
         if self._origin_thread == threading.current_thread():
@@ -83,7 +84,7 @@ class SyncQueue(object):
             queue = self._queue
 
         self._lock.acquire()
-        if element not in queue:
+        if not kwargs.get('merge') or element not in queue:
             queue.append(element)
             if self._handler is None:
                 self._handler = GObject.idle_add(self.process_queue)
diff --git a/liblarch/tree.py b/liblarch/tree.py
index 2836981..83a97af 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -86,7 +86,8 @@ class MainTree(object):
         self._queue.push(self._remove_node, node_id, recursive)
 
     def modify_node(self, node_id, priority="low"):
-        self._queue.push(self._modify_node, node_id, priority=priority)
+        self._queue.push(self._modify_node, node_id, priority=priority,
+                         merge=True)
 
     def new_relationship(self, parent_id, child_id):
         self._queue.push(self._new_relationship, parent_id, child_id)
-- 
2.43.0


From 19292a94f2d959c381f62a87b2850f058b3b62bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 19/43] fix: a view survives nodes changed by another thread
 during its update

---
 liblarch/filteredtree.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index b3964b2..7b41788 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -180,6 +180,11 @@ class FilteredTree(object):
                     if (parent_id not in new_parents and parent_id not in current_parents):
                         self.__update_node(parent_id, direction="up")
 
+            # Another thread could have changed the node in the meantime, so
+            # that it has been hidden by the update of a parent
+            if not self.is_displayed(node_id):
+                return completely_updated
+
             # Refresh list of parents after doing checkup once again
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
@@ -214,6 +219,10 @@ class FilteredTree(object):
             if direction == "both" or direction == "up":
                 for parent_id in old_parents | remove_from | add_to | stay:
                     self.__update_node(parent_id, direction="up")
+
+                # Hidden in the meantime, see above
+                if not self.is_displayed(node_id):
+                    return completely_updated
             # We update the node itself
             # Why should we call the callback only for modify?
             if action == 'modified':
@@ -249,12 +258,11 @@ class FilteredTree(object):
             for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
-            # We update parents who are not displayed
+            # We update also parents which did not show the node
             # If the node is only hidden and still exists in the tree
             if self.tree.has_node(node_id):
-                node = self.tree.get_node(node_id)
-                for parent in node.get_parents():
-                    if self.__flat or parent not in self.nodes:
+                for parent in self.tree.get_node(node_id).get_parents():
+                    if parent not in node['parents']:
                         self.__update_node(parent, direction="up")
 
         return completely_updated
@@ -388,7 +396,7 @@ class FilteredTree(object):
         if not self.__flat and self.tree.has_node(node_id):
             node = self.tree.get_node(node_id)
             for parent_id in node.get_parents():
-                if parent_id in self.nodes and self.__is_displayed(parent_id):
+                if parent_id in self.nodes:
                     parents_nodes.append(parent_id)
 
         # Add to root if it is an orphan
-- 
2.43.0


From 8ac5038fdf9526e9e86bc6741202362ec60b5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 20/43] fix: a view can be asked for paths while it places a
 node below several parents

---
 liblarch/filteredtree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 7b41788..623d8af 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -189,10 +189,6 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
             stay = set(new_parents) - set(add_to)
@@ -207,14 +203,21 @@ class FilteredTree(object):
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
+                self.nodes[node_id]['parents'].remove(parent_id)
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
+                    # Link both ends one parent after another, a callback
+                    # could ask for the paths
                     self.nodes[parent_id]['children'].append(node_id)
+                    self.nodes[node_id]['parents'].append(parent_id)
                     self.send_add_tree(node_id, parent_id)
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
+            self.nodes[node_id]['parents'] = [
+                parent_id for parent_id in new_parents
+                if parent_id in self.nodes]
             # We update all the parents
             if direction == "both" or direction == "up":
                 for parent_id in old_parents | remove_from | add_to | stay:
-- 
2.43.0


From a90f09607468c4d3cc3b6e1fbd203fbacdae0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 21/43] fix: a model does not add a row again which was
 announced again

---
 liblarch_gtk/treemodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 4fdb1e6..7fca25a 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -130,6 +130,11 @@ class TreeModel(Gtk.TreeStore):
         @param node_id: identification of task
         @param path: identification of position
         """
+        if path in self.cache_position:
+            # The current state was requested by somebody else
+            self.update_task(node_id, path)
+            return
+
         node = self.tree.get_node(node_id)
 
         # Build a new row
-- 
2.43.0


From 5ffc86f47d4ead55c4518c30655b2b574ee64811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 22/43] fix: showing a widget again does not connect its model
 twice

---
 liblarch_gtk/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..1fa4a25 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -103,6 +103,8 @@ class TreeView(Gtk.TreeView):
         self.bg_color_column = None
         self.separator_func = None
 
+        self.model_connected = False
+
         self.dnd_internal_target = ''
         self.dnd_external_targets = {}
 
@@ -281,7 +283,9 @@ class TreeView(Gtk.TreeView):
     def show(self):
         """ Shows the TreeView and connect basetreemodel to LibLarch """
         Gtk.TreeView.show(self)
-        self.basetreemodel.connect_model()
+        if not self.model_connected:
+            self.model_connected = True
+            self.basetreemodel.connect_model()
 
     def get_columns(self):
         """ Return the list of columns name """
-- 
2.43.0


From 79ba3b5e555288b15392d831ef5fb24f7b77f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 23/43] fix: a widget expands also the rows it starts with

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 1fa4a25..d5e16e0 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -194,8 +194,8 @@ class TreeView(Gtk.TreeView):
 
         self.set_model(self.treemodel)
 
-        self.expand_all()
         self.show()
+        self.expand_all()
 
         self.collapsed_paths = []
         self.connect('row-expanded', self.__emit, 'expanded')
-- 
2.43.0


From 0c9f1dc2c404fc5158ab2ed2a933bd111d120252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 24/43] fix: an expanded node is not considered collapsed any
 more

---
 liblarch_gtk/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index d5e16e0..1aac493 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -265,7 +265,12 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method == self.expand_one_row:
+                    # The node is not collapsed any more
+                    self.collapsed_paths = [
+                        p for p in self.collapsed_paths if p[-1] != node_id]
+                else:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From bde7577e9a99c825eb7778298f84310b6d49d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 25/43] fix: dropping nothing is skipped

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 1aac493..7676f5e 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -519,7 +519,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From 3ee98e19952c83a30b2816b5fe32f4f1cbc64cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 26/43] fix: drag and drop moves all the dragged nodes,
 whatever happens to their rows

---
 liblarch_gtk/__init__.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 7676f5e..d606d29 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -524,38 +524,39 @@ class TreeView(Gtk.TreeView):
         else:
             iters = data.decode().split(',')
 
-        dragged_iters = []
+        # Moving a node can replace the rows of the others, therefore find out
+        # first which nodes are dragged
+        dragged_tids = []
         for iter in iters:
             if info == 0:
                 try:
-                    dragged_iters.append(model.get_iter_from_string(iter))
+                    dragged_iter = model.get_iter_from_string(iter)
+                    dragged_tids.append(model.get_value(dragged_iter, 0))
                 except ValueError:
                     # I hate to silently fail but we have no choice.
                     # It means that the iter is not good.
                     # Thanks shitty gtk API for not allowing us to test
                     # the string
-                    dragged_iter = None
+                    pass
 
             # Handle drag from one widget to another (ex: treeview to treeview)
             elif info in self.dnd_external_targets and destination_tid:
                 f = self.dnd_external_targets[info][1]
                 src_model = Gtk.drag_get_source_widget(context).get_model()
-                dragged_iters.append(src_model.get_iter_from_string(iter))
+                dragged_iter = src_model.get_iter_from_string(iter)
+                dragged_tids.append(src_model.get_value(dragged_iter, 0))
 
-        for dragged_iter in dragged_iters:
+        for dragged_tid in dragged_tids:
             if info == 0:
-                if dragged_iter and model.iter_is_valid(dragged_iter):
-                    dragged_tid = model.get_value(dragged_iter, 0)
-                    try:
-                        tree.move_node(
-                            dragged_tid, new_parent_id=destination_tid)
-                    except Exception as e:
-                        print('Problem with dragging: %s' % e)
+                try:
+                    tree.move_node(
+                        dragged_tid, new_parent_id=destination_tid)
+                except Exception as e:
+                    print('Problem with dragging: %s' % e)
 
             # Handle inter-widget Drag'n'Drop again (like in the previous loop)
             elif info in self.dnd_external_targets and destination_tid:
-                source = src_model.get_value(dragged_iter, 0)
-                f(source, destination_tid)
+                f(dragged_tid, destination_tid)
 
     # Separators support ##############################################
     def _separator_func(self, model, itera, user_data=None):
-- 
2.43.0


From 8e516b4f962dfaf0c63c811525ee1b687981298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:45 +0000
Subject: [PATCH 27/43] fix: a node doesn't miss its parents or children while
 another thread changes them

The lists were iterated while the owner of the tree removed other relatives
from them, so that a relative was skipped.
---
 liblarch/treenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index c9c928d..c3d34e0 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -138,7 +138,7 @@ class _Node(object):
         """ Return parents of node """
         parents = []
         if self.parents_enabled and self.tree:
-            for parent_id in self.parents:
+            for parent_id in list(self.parents):
                 if self.tree.has_node(parent_id):
                     parents.append(parent_id)
 
@@ -177,7 +177,7 @@ class _Node(object):
         """ Return children of nodes """
         children = []
         if self.children_enabled and self.tree:
-            for child_id in self.children:
+            for child_id in list(self.children):
                 if self.tree.has_node(child_id):
                     children.append(child_id)
 
-- 
2.43.0


From 0c84714de8acc40b83563cec82c85a2d46513411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:45 +0000
Subject: [PATCH 28/43] fix: asking the tree doesn't fail while another thread
 changes it

Looking up paths, siblings, children or the position of a child raised
KeyError or ValueError when a node disappeared between two steps, although
the node which was asked about was there all the time.
---
 liblarch/tree.py     | 42 ++++++++++++++++++++++++------------------
 liblarch/treenode.py |  5 +++--
 liblarch/viewtree.py |  4 ++--
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 83a97af..db6724a 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -399,22 +399,26 @@ class MainTree(object):
         """ Get all paths for node_id """
         if not node_id or node_id == self.root_id:
             return [()]
-        elif node_id in self.nodes:
-            node = self.nodes[node_id]
-            if node.has_parent():
-                paths = []
-                for parent_id in node.get_parents():
-                    if parent_id not in self.nodes:
-                        continue
-                    for path in self.get_paths_for_node(parent_id):
-                        paths.append(path + (node_id, ))
-                return paths
-            else:
-                return [(node_id, )]
-        else:
+
+        # The nodes could be removed meanwhile by another thread
+        node = self.nodes.get(node_id)
+        if node is None:
             raise ValueError("Cannot get path for non existing node {}".format(
                 node_id))
 
+        if not node.has_parent():
+            return [(node_id, )]
+
+        paths = []
+        for parent_id in node.get_parents():
+            try:
+                parent_paths = self.get_paths_for_node(parent_id)
+            except ValueError:
+                continue
+            for path in parent_paths:
+                paths.append(path + (node_id, ))
+        return paths
+
     def get_all_nodes(self):
         """ Return list of all nodes in this tree """
         return list(self.nodes.keys())
@@ -442,14 +446,16 @@ class MainTree(object):
         if not parent:
             raise ValueError('Parent does not exist')
 
-        index = parent.get_child_index(node_id)
-        if index is None:
-            error = 'children are : {}\n'.format(parent.get_children())
+        # Another thread could change the children meanwhile
+        siblings = list(parent.children)
+        if node_id not in siblings:
+            error = 'children are : {}\n'.format(siblings)
             error += 'node {} is not a child of {}'.format(node_id, parid)
             raise IndexError(error)
 
-        if parent.get_n_children() > index + 1:
-            return parent.get_nth_child(index + 1)
+        index = siblings.index(node_id)
+        if len(siblings) > index + 1:
+            return siblings[index + 1]
         else:
             return None
 
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index c3d34e0..2d7529d 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -198,7 +198,8 @@ class _Node(object):
             raise ValueError("Requested non-existing child")
 
     def get_child_index(self, node_id):
-        if self.children_enabled and node_id in self.children:
+        try:
+            # Another thread could change the children meanwhile
             return self.children.index(node_id)
-        else:
+        except ValueError:
             return None
diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index dad50e7..6b8402b 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -206,9 +206,9 @@ class ViewTree(object):
     def node_all_children(self, node_id=None):
         """ Return children of a node """
         if self.static:
-            if not node_id or self.__maintree.has_node(node_id):
+            try:
                 return self.__maintree.get_node(node_id).get_children()
-            else:
+            except ValueError:
                 return []
         else:
             return self._tree.node_all_children(node_id)
-- 
2.43.0


From 765d1173f4c386fe2532b182036fbff53d2b46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:27 +0000
Subject: [PATCH 29/43] fix: a count calls all its callbacks, also if one of
 them unregisters itself

---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 74cde96..bcb772b 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -100,5 +100,6 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
+        # A callback could unregister itself
+        for c in list(self.cllbcks):
             c()
-- 
2.43.0


From 3503f955ee8088671104a096f1b3595e0ac7d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:39 +0000
Subject: [PATCH 30/43] fix: a path with a missing node leads to nothing
 instead of an exception

---
 liblarch/tree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index db6724a..9011e5a 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -389,11 +389,15 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
-        if path in self.get_paths_for_node(node_id):
+        try:
+            paths = self.get_paths_for_node(node_id)
+        except ValueError:
+            # There is no such node
+            return None
+        if path in paths:
             return node_id
         else:
             return None
-        return node_id
 
     def get_paths_for_node(self, node_id):
         """ Get all paths for node_id """
-- 
2.43.0


From a66a40f8b702e6dd8bf990d7292be2a3e05aca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 31/43] fix: the nth child is found while another thread
 changes the children

---
 liblarch/viewtree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index 6b8402b..378e851 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -230,9 +230,10 @@ class ViewTree(object):
             else:
                 node = self.__maintree.get_node(node_id)
 
-            if node and node.get_n_children() > n:
+            try:
+                # Another thread could change the children meanwhile
                 return node.get_nth_child(n)
-            else:
+            except ValueError:
                 raise ValueError(
                     "node {} has less than {} nodes".format(node_id, n))
         else:
-- 
2.43.0


From f822993a1c7bab07d842f65ff0676bce9c2471a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:10 +0000
Subject: [PATCH 32/43] fix: a failing callback doesn't leave the request half
 done nor the others uninformed

---
 liblarch/filteredtree.py |  8 +++++++-
 liblarch/tree.py         |  8 +++++++-
 liblarch/viewcount.py    |  8 +++++++-
 liblarch/viewtree.py     | 13 +++++++++----
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 623d8af..a32d58d 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -17,6 +17,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
+import sys
+
 from gi.repository import GObject
 
 
@@ -110,7 +112,11 @@ class FilteredTree(object):
         """
         if event == 'added':
             for func, param in self.runonce.pop(node_id, []):
-                func(param)
+                try:
+                    func(param)
+                except Exception:
+                    # The update of the tree has to be finished
+                    sys.excepthook(*sys.exc_info())
         func, nid, param = self.cllbcks.get(event, (None, None, None))
         if func:
             if neworder:
diff --git a/liblarch/tree.py b/liblarch/tree.py
index 9011e5a..402da40 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -17,6 +17,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
+import sys
+
 from . import processqueue
 from .treenode import _Node
 
@@ -76,7 +78,11 @@ class MainTree(object):
         # We copy the dict to not loop on it while it could be modified
         dic = dict(self.__cllbcks.get(event, {}))
         for func in dic.values():
-            func(node_id)
+            try:
+                func(node_id)
+            except Exception:
+                # The request has to be finished and the others informed
+                sys.excepthook(*sys.exc_info())
 
     # INTERFACE FOR HANDLING REQUESTS #########################################
     def add_node(self, node, parent_id=None, priority="low"):
diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index bcb772b..0019c66 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -17,6 +17,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # ---------------------------------------------------------------------------
 
+import sys
+
 
 class ViewCount(object):
     def __init__(self, tree, fbank, name=None, refresh=True):
@@ -102,4 +104,8 @@ class ViewCount(object):
     def __callback(self):
         # A callback could unregister itself
         for c in list(self.cllbcks):
-            c()
+            try:
+                c()
+            except Exception:
+                # The others have to be informed
+                sys.excepthook(*sys.exc_info())
diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index 378e851..0d27996 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import functools
+import sys
 
 from .filteredtree import FilteredTree
 
@@ -113,10 +114,14 @@ class ViewTree(object):
         by passing it to other objects, e.g. TreeWidget """
         callbacks = dict(self.__cllbcks.get(event, {}))
         for func in callbacks.values():
-            if neworder:
-                func(node_id, path, neworder)
-            else:
-                func(node_id, path)
+            try:
+                if neworder:
+                    func(node_id, path, neworder)
+                else:
+                    func(node_id, path)
+            except Exception:
+                # The update has to be finished and the others informed
+                sys.excepthook(*sys.exc_info())
 
     def get_node(self, node_id):
         """ Get a node from MainTree """
-- 
2.43.0


From 00c252415229dc3b9925f8cadca6018947f7d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:39 +0000
Subject: [PATCH 33/43] fix: a filter which fails for a node hides it instead
 of breaking the view

---
 liblarch/filters_bank.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..34c5525 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -21,6 +21,8 @@
 filters_bank stores all of GTG's filters in centralized place
 """
 
+import sys
+
 
 class Filter(object):
     def __init__(self, func, req):
@@ -38,10 +40,15 @@ class Filter(object):
         else:
             return False
 
-        if self.dic:
-            value = self.func(task, parameters=self.dic)
-        else:
-            value = self.func(task)
+        try:
+            if self.dic:
+                value = self.func(task, parameters=self.dic)
+            else:
+                value = self.func(task)
+        except Exception:
+            # The update of the view has to be finished
+            sys.excepthook(*sys.exc_info())
+            return False
 
         if 'negate' in self.dic and self.dic['negate']:
             value = not value
-- 
2.43.0


From c41ac015b633ca45f84a63701246ce5d4c70ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 34/43] fix: a column function which fails doesn't misplace the
 rows

---
 liblarch_gtk/treemodel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 7fca25a..fb280c3 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -17,6 +17,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
+import sys
+
 from gi.repository import Gtk
 
 
@@ -50,6 +52,15 @@ class TreeModel(Gtk.TreeStore):
         else:
             return False
 
+    def _get_column_value(self, access_method, node):
+        """ Return the value of a column, None if its function fails """
+        try:
+            return access_method(node)
+        except Exception:
+            # The row is needed nevertheless, its children are placed below it
+            sys.excepthook(*sys.exc_info())
+            return None
+
     def connect_model(self):
         """ Register "signals", callbacks from liblarch.
 
@@ -140,7 +151,7 @@ class TreeModel(Gtk.TreeStore):
         # Build a new row
         row = []
         for python_type, access_method in self.types:
-            value = access_method(node)
+            value = self._get_column_value(access_method, node)
             row.append(value)
 
         # Find position to add task
@@ -184,7 +195,7 @@ class TreeModel(Gtk.TreeStore):
 
             if iterator:
                 for column_num, (__, access_method) in enumerate(self.types):
-                    value = access_method(node)
+                    value = self._get_column_value(access_method, node)
                     if value is not None:
                         self.set_value(iterator, column_num, value)
 
-- 
2.43.0


From 2132242503660a4898a7dda93e39670172954883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 35/43] fix: a filter may have a name starting with an
 exclamation mark

add_filter() stripped the mark and then raised UnboundLocalError, as it
had not created the filter object (a remnant of negated filters).
---
 liblarch/filters_bank.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 34c5525..a031f4b 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -109,11 +109,8 @@ class FiltersBank(object):
         Return False if the filter_name was already in the bank
         """
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0


From 92942684fd67ecefd169bf409f2fddd9338882fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 36/43] fix: a view does not keep the paths of removed nodes

---
 liblarch/filteredtree.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index a32d58d..6de10b7 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -63,7 +63,6 @@ class FilteredTree(object):
             self.root_id = "root_%s" % name
 
         self.nodes[self.root_id] = {'parents': [], 'children': []}
-        self.cache_paths = {}
         self.filter_cache = {}
 
         # Connect to signals from MainTree
@@ -454,7 +453,6 @@ class FilteredTree(object):
                 for parent_path in self.get_paths_for_node(parent_id):
                     mypath = parent_path + (node_id, )
                     toreturn.append(mypath)
-            self.cache_paths[node_id] = toreturn
             return toreturn
 
     def print_tree(self, string=False):
-- 
2.43.0


From 6ffa609822929d0942b6e1c6d060c8156df413a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 37/43] fix: applying an unknown filter with parameters does
 not reset the filters

---
 liblarch/filteredtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 6de10b7..2bc044c 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -627,9 +627,6 @@ class FilteredTree(object):
                 (performance optimization)
         """
         should_refilter = False
-        if reset:
-            self.applied_filters = []
-
         if parameters:
             filt = self.fbank.get_filter(filter_name)
             if filt:
@@ -639,6 +636,9 @@ class FilteredTree(object):
                 raise ValueError(
                     "No filter of name {} in the bank".format(filter_name))
 
+        if reset:
+            self.applied_filters = []
+
         if filter_name not in self.applied_filters:
             self.applied_filters.append(filter_name)
             should_refilter = True
-- 
2.43.0


From 72e1f37972eab2cba43b8adebd5f349b643de44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:42 +0000
Subject: [PATCH 38/43] fix: asking a node about a parent before it is added
 does not raise

---
 liblarch/treenode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 2d7529d..9d78732 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -126,9 +126,10 @@ class _Node(object):
         """
         if self.parents_enabled:
             if parent_id:
-                parent_in_tree = self.tree.has_node(parent_id)
+                # A node which was not added yet has no parents
+                parent_in_tree = self.tree and self.tree.has_node(parent_id)
                 own_parent = parent_id in self.parents
-                return parent_in_tree and own_parent
+                return bool(parent_in_tree and own_parent)
             else:
                 return len(self.parents) > 0
         else:
-- 
2.43.0


From 276a416b42d3f80568a298ba82148f45f62faae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 39/43] fix: a first column described with new_column=False is
 displayed

---
 liblarch_gtk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index d606d29..9c878df 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -144,7 +144,8 @@ class TreeView(Gtk.TreeView):
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-                newcol = False
+                # The first column has to be added too
+                newcol = not self.columns
             col.set_visible(visible)
 
             if 'title' in desc:
-- 
2.43.0


From 25e26159d473e78276d5c3c7225b00f64355667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 40/43] fix: a column can be sorted by a column which is
 described after it

---
 liblarch_gtk/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 9c878df..427d3f5 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -118,6 +118,7 @@ class TreeView(Gtk.TreeView):
             self.order_of_column.append((order, col_name))
 
         types = []
+        sorting = []
         sorting_func = []
         # Build the first column if user starts with new_colum=False
         col = Gtk.TreeViewColumn()
@@ -166,14 +167,18 @@ class TreeView(Gtk.TreeView):
             if ENABLE_SORTING:
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
-                    self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    sorting.append((col, desc['sorting']))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        # The column to sort by could be described after the sorted one
+        for col, col_name in sorting:
+            self.sort_col = col_name
+            sort_num, sort_col = self.columns[col_name]
+            col.set_sort_column_id(sort_num)
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From 4314221c9b125d293336701f780cec5876ef42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 41/43] fix: get_sort_column knows the column whose header was
 clicked

---
 liblarch_gtk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 427d3f5..fa9fb79 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -325,6 +325,11 @@ class TreeView(Gtk.TreeView):
     def get_sort_column(self):
         """ Get sort column """
         if ENABLE_SORTING:
+            # The user could have clicked the header of another column
+            sort_num, order = self.treemodel.get_sort_column_id()
+            for col_name, (col_num, col) in self.columns.items():
+                if col_num == sort_num:
+                    return col_name, order
             return self.sort_col, self.sort_order
 
     def set_col_visible(self, col_name, visible):
-- 
2.43.0


From 0875e0b925358c0857716c0f074c7b09020c3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 42/43] fix: the last request to collapse or expand a node
 which is not displayed wins

---
 liblarch_gtk/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index fa9fb79..4e5b241 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -204,6 +204,8 @@ class TreeView(Gtk.TreeView):
         self.expand_all()
 
         self.collapsed_paths = []
+        # The last request for a node which could not be done yet
+        self.waiting_requests = {}
         self.connect('row-expanded', self.__emit, 'expanded')
         self.connect('row-collapsed', self.__emit, 'collapsed')
         self.treemodel.connect('row-has-child-toggled', self.on_child_toggled)
@@ -262,6 +264,7 @@ class TreeView(Gtk.TreeView):
         if not node_id:
             raise Exception('Missing node_id in path %s' % str(llpath))
 
+        self.waiting_requests.pop(node_id, None)
         schedule_next = True
         for path in self.basetree.get_paths_for_node(node_id):
             iter = self.basetreemodel.my_get_iter(path)
@@ -280,15 +283,20 @@ class TreeView(Gtk.TreeView):
                 schedule_next = False
 
         if schedule_next:
+            request = (llpath, collapsing_method)
+            self.waiting_requests[node_id] = request
             self.basetree.queue_action(
-                node_id, self._collapse_node_retry,
-                param=(llpath, collapsing_method))
+                node_id, self._collapse_node_retry, param=request)
 
     def _collapse_node_retry(self, param):
         """
         Node to be collapsed/expand found, so re-try now with correct
         and preserved parameters.
         """
+        # A later request for the same node replaces this one
+        node_id = param[0][-1].strip("'")
+        if self.waiting_requests.get(node_id) is not param:
+            return
         self.collapse_node(param[0], collapsing_method=param[1])
 
     def show(self):
-- 
2.43.0


From 1925a665975a33caf610da1c9b571fd6f2e26715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 43/43] fix: the order of events and siblings does not depend
 on the hashes of the ids

The parents which a node gets, keeps or loses in a view were gone through in
the order of a set, so that the same program showed rows in another order
whenever it was started again.
---
 liblarch/filteredtree.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 2bc044c..930dc42 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -178,7 +178,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            old_parents = set(current_parents)
+            old_parents = list(current_parents)
             if action == 'added' or direction == "both" or direction == "up":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
@@ -194,9 +194,12 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            remove_from = set(current_parents) - set(new_parents)
-            add_to = set(new_parents) - set(current_parents)
-            stay = set(new_parents) - set(add_to)
+            # Keep the order, so that the same requests always lead to the
+            # same result
+            remove_from = [parent_id for parent_id in current_parents
+                           if parent_id not in new_parents]
+            add_to = [parent_id for parent_id in new_parents
+                      if parent_id not in current_parents]
 
             # If we are updating a node at the root, we should take care
             # of the root too
@@ -225,7 +228,8 @@ class FilteredTree(object):
                 if parent_id in self.nodes]
             # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in old_parents | remove_from | add_to | stay:
+                for parent_id in dict.fromkeys(
+                        old_parents + remove_from + new_parents):
                     self.__update_node(parent_id, direction="up")
 
                 # Hidden in the meantime, see above
-- 
2.43.0

