import json,os
OUT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T='liblarch/tree.py';N='liblarch/treenode.py';F='liblarch/filteredtree.py';Q='liblarch/processqueue.py';V='liblarch/viewtree.py';C='liblarch/viewcount.py';B='liblarch/filters_bank.py';I='liblarch/__init__.py';G='liblarch_gtk/treemodel.py'
p('C01','The tree is always a sound acyclic graph',
"After every request, whoever made it and whatever was refused before, the nodes form a directed acyclic graph in which parent and child links agree with each other, no link leads to a missing node or is there twice, and every node which is not below another one is exactly once at the root level. All the answers of a node about its parents and children (lists, counts, positions, yes/no questions) agree.",
['histories','inputs','schedules'],'every sequence of add, remove, move, link, unlink and flag requests from any threads, at every moment between the dispatches of the main loop',
'The tests check a handful of fixed sequences on the owning thread; nearly nothing links nodes with several parents while others are removed, moved or not yet there.',
[T,N,I],[('requests create and destroy both directions of a link together and maintain the root level','%s: _create_relationship, _destroy_relationship, _remove_node, _break_relationship'%T)],['Tree.get_node(...).get_parents/get_children/has_*/get_nth_child','get_main_view().node_all_children/get_all_nodes'])
p('C02','Relationships may be declared before their nodes exist',
"A parent or child declared for a node which is not in the tree yet, or for a node which has not been added itself, takes effect exactly when both nodes are there, in whatever order they arrive and from whichever thread. A declaration which was withdrawn or replaced before, or whose node was removed meanwhile, does not take effect. A node which was not added yet answers that it has no relatives.",
['histories','inputs','schedules'],'every order of declaring, withdrawing, adding, removing and adding again, with up to 10 nodes',
'Tests declare one or two late parents in one order; withdrawals, replacements and removals while a declaration waits are not reached.',
[T,N],[('list of pending relationships on the node and on the tree, resolved when a node is added','%s: _add_node; %s: add_parent, add_child, set_parent, remove_parent'%(T,N))],['get_parents/get_children after each request'])
p('C03','A circular relationship is always refused, without damage',
"A request which would make a node its own ancestor is never carried out: the owner of the tree gets an exception, a request from another thread is dropped and reported to sys.excepthook, and a declaration made in advance is ignored when it turns out to be circular. Everything else stays as it was, including the other parents of the nodes involved, and the node whose addition named the circular parent is nevertheless added.",
['histories','inputs','schedules'],'every sequence of linking requests, direct or deferred, which closes a cycle of any length',
'Tests try a few cycles of length two and three made by direct calls.',
[T,N],[('search through all ancestors before a link is made','%s: _is_circular_relation, _new_relationship, _set_relationship, _add_node'%T)],['exceptions of the calls','get_parents/get_children'])
p('C04','Removing a node removes it completely, and only it',
"A removed node is in no list of parents, children or root nodes any more; its children stay, below their other parents or at the root level, unless the removal is recursive, which removes exactly the nodes below it as well. Every removed node is announced once, removing a missing node changes nothing, and the id can be used again for a new node without inheriting anything.",
['histories','inputs','schedules'],'every history before the removal, nodes with any number of parents and children',
'Tests remove nodes from small static trees; several parents, shared descendants and adding again are hardly covered.',
[T],[('removal detaches parents, then children or recursion, then the node','%s: _remove_node'%T)],['tree state','deleted events of the main view'])
p('C05','Moving a node gives it exactly the new parent',
"After a node was moved, or its parent was set, the new parent is its only one and all the others are dismissed, including those which have not arrived yet; moving to nothing puts it at the root level, and moving a missing node answers False. If the move is refused, nothing changes; removing one parent leaves the other ones.",
['histories','inputs','schedules'],'every history before the move, any number of present and awaited parents, from any thread',
'Tests move nodes with one parent to one existing parent.',
[T,N,I],[('set relationship: link first, then break the other links','%s: _set_relationship; %s: set_parent; %s: move_node'%(T,N,I))],['get_parents/get_children'])
p('C06','A view shows exactly what its filters let through',
"At every moment, once changes of data have been announced by a refresh, a view displays exactly the nodes which pass all of its filters, each one below exactly those of its direct parents which are displayed, and at the root level if there is none or if a filter is flat. This holds for filters which look at the node, at its children or at anything below it.",
['histories','inputs','schedules','configurations'],'every history of changes of tree and data, every combination of filters',
'Tests apply a few filters to one fixed tree; the incremental updates depend on the whole history of the view.',
[F,V,B],[('incremental update of a node, its parents and its children','%s: __update_node'%F)],['is_displayed, get_all_nodes, node_parents, node_all_children of the view'])
p('C07','The events of a view always add up to what it shows',
"A listener which applies the added and deleted events of a view one after another has at any time exactly the rows the view displays, one for each path. No row is added twice or below a missing one, none is deleted which is not there or which still has rows below it, and no event names a node which is not displayed, except when it was just deleted. While a listener is called it may ask about any displayed node.",
['histories','schedules','configurations'],'every history of changes of tree, data and filters',
'Tests compare the events of few operations with the expected ones; order and completeness depend on the history.',
[F,V,T],[('callbacks sent along with the changes of the cached view','%s: send_add_tree, send_remove_tree, callback'%F)],['node-added-inview, node-deleted-inview, node-modified-inview, node-added, node-deleted'])
p('C08','Listeners can come and go at any time',
"A listener registered late gets the complete current state when it asks for it, and from then on every event exactly once; other listeners are not disturbed and none of them misses an event. After deregistering it gets nothing, and a later registration never interferes with another listener. This goes for filtered views and for the main view.",
['histories','schedules'],'every interleaving of registering, deregistering, asking for the state, and changes',
'Tests register their callbacks once, on an empty or a complete tree.',
[V,F,T],[('keys for callbacks, replay of the state','%s: register_cllbck, deregister_cllbck, get_current_state; %s: get_current_state'%(V,F))],['events received by each listener'])
p('C09','What a view shows depends only on its current filters',
"After any sequence of applying, removing, resetting and re-parametrising filters a view shows the same as a fresh view with the filters it has now, and it names exactly these as applied; a request which is refused changes nothing. Views are independent: what is done to one does not change another one, and asking for a view by its name gives always the same view.",
['histories','configurations'],'every sequence of filter operations, mixed with changes of the tree, on up to three views',
'Tests apply and remove one or two filters of one view.',
[F,V,I],[('rebuilding of the view','%s: refilter, apply_filter, unapply_filter, reset_filters; %s: get_viewtree'%(F,I))],['view contents, list_applied_filters, events'])
p('C10','Requests of other threads are executed once and in order',
"A request made by a thread which does not own the tree is executed exactly once, by the main loop on the owning thread; only requests to refresh the same node which are waiting anyway may be merged, never so that a refresh asked for has no execution after the request. Requests of equal priority are executed in the order in which they were made, and of those waiting the high ones come before the normal ones and these before the low ones.",
['schedules','histories','fault_sequences'],'every interleaving of any number of threads sending requests with the main loop processing them',
'The tests for threads depend on what the real scheduler does; they sample few interleavings and do not check the order.',
[Q,T],[('three locked queues drained by an idle handler','%s: push, process, process_queue'%Q)],['order of the events of the main view against the calls'])
p('C11','Every request is processed in bounded time, nothing gets stuck',
"As long as the main loop runs, every waiting request is executed within as many dispatches as there are requests waiting, and the main loop becomes idle afterwards. Neither threads sending requests at any moment nor requests, filters or listeners which raise exceptions stop the processing of the others, and no call ever deadlocks.",
['schedules','fault_sequences','histories'],'every interleaving and every set of failing requests; progress counted in dispatches',
'Tests wait a fixed real time; a lost wakeup or a dropped handler needs a particular interleaving or failure.',
[Q],[('idle handler registered under the lock, removed when all queues are empty, exceptions reported and skipped','%s: push, process, process_queue'%Q)],['main loop sources, executions'])
p('C12','Calls of the owning thread take effect at once',
"When a call of the thread owning the tree returns, its effect on the tree and on all views is complete and all the events about it have been delivered, even while requests of other threads are waiting. Those requests stay where they are.",
['schedules','histories'],'every mix of calls of the owner and waiting requests of other threads',
'Tests use either the owner only or wait until everything is processed.',
[Q,T,F],[('requests of the owner bypass the queue','%s: push'%Q)],['state and events right after each call'])
p('C13','An action queued for a node runs exactly once when it is shown',
"An action queued for a node of a view runs once, with the given parameter, as soon as the node is displayed in this view; if it is displayed already, it runs as soon as the main loop gets to it. It never runs twice, whatever it returns, whatever the node is called and however often the node disappears and comes back, and several actions for the same node all run.",
['histories','schedules'],'every order of queueing actions and of showing, hiding, removing and adding nodes',
'There is no test for several actions or for nodes which come and go.',
[F,V],[('list of waiting actions per node, idle handler for nodes already shown','%s: set_callback, callback; %s: queue_action'%(F,V))],['calls of the action'])
p('C14','A count is always the number of nodes passing its filters',
"A count gives at every moment the number of nodes in the tree which pass all of its filters (which look at the node itself), after any changes of tree, data and filters. Whenever the number changes, the registered callbacks are called and read the new number; unregistered ones are not called any more.",
['histories','schedules','configurations'],'every history of changes of tree, data, filters and callbacks',
'Tests count two or three nodes.',
[C,I],[('list of counted nodes kept by callbacks of the tree','%s: __modify, __delete, apply_filter, unapply_filter'%C)],['get_n_nodes, callbacks'])
p('C15','All the answers of a view about its structure agree',
"For every view, the unfiltered main view included: the paths of a node are exactly the ways from the root level along displayed parents, a path leads back to its node and a path which does not exist, or names a missing node, leads to nothing. The printed tree is this structure. Children, number of children (also counted recursively, per instance), nth child, next node, parents and the yes/no questions about them describe the same structure, for the root level as well; a node which is not displayed has no relatives, and changing a list which was answered changes nothing.",
['histories','configurations'],'every reachable view',
'Tests ask few questions about few nodes, mostly of trees without multiple parents.',
[F,V,T],[('navigation methods of both kinds of views','%s and %s: get_paths_for_node, get_node_for_path, next_node, node_n_children, node_nth_child; %s'%(F,T,V))],['the answers themselves'])
p('C16','The Gtk model mirrors the view',
"A Gtk tree model connected to a view at any time has one row for every path of the view, at the same place below its parent, with the current values of the node in its columns. This holds whatever the model is sorted by, however the tree, the data and the filters change, and however many models and listeners the view has.",
['histories','schedules','configurations'],'every history of changes, sorted by any column or not, connected early or late',
'Tests of the model use very few rows, and never sorted ones which are removed and added again.',
[G,F],[('rows inserted, removed and updated by callbacks; cached iterators','%s: add_task, remove_task, update_task, my_get_iter'%G)],['rows of the Gtk.TreeStore'])
p('C17','Threads can build the tree at the same time',
"When several threads add, link, move, change and remove nodes of their own at the same time, while the owner works, changes filters and processes requests, then, when all requests are processed, the tree is the one which every thread's own calls give, no matter how they were interleaved. All views, counts and listeners agree with it, and no call fails.",
['schedules'],'every interleaving of up to four threads at the granularity of source lines, including inside of filters',
'The tests with threads sample what the real scheduler happens to do, usually without any overlap.',
[Q,T,N,F,I],[('decisions are made on the owning thread, the queue is locked','%s; %s: new_relationship, set_relationship'%(Q,T))],['final state of tree, views, counts, events'])
p('C18','Asking with additional filters gives what applying them would show',
"The nodes and the number of nodes a view gives for additional filters are exactly the displayed nodes which pass all of these filters too, and with no additional filters all the displayed nodes. Asking changes nothing and the answer is current every time.",
['histories','configurations'],'every view, also the main view, every set of additional filters, after every history',
'Tests ask with one filter on a fixed tree.',
[F,V],[('evaluation on the displayed nodes','%s: get_nodes, get_n_nodes'%F)],['get_nodes, get_n_nodes with filters'])
p('C19','A refresh is never lost',
"When a node is changed and a refresh is requested for it, with any priority and from any thread, then every listener of a view which displays the node gets, after the change, an event for each of its paths, so that it knows the current data of every row once no request is waiting. Refreshing a node re-evaluates whether it and the nodes above it are displayed.",
['schedules','histories'],'every interleaving of changing, refreshing and processing, merged requests included',
'Tests refresh once and look at the result; a lost refresh needs a change between merging and execution.',
[Q,T,F,N],[('merging of waiting refresh requests, update of the node in each view','%s: push; %s: modify_node; %s: __update_node; %s: modified'%(Q,T,F,N))],['data known to listeners by the events'])
p('C20','The filter bank keeps names and filters apart',
"A filter is registered under a name only if the name is free, otherwise the registration is refused and the existing filter stays; removing works for registered names only and frees the name; the list of filters is exactly the registered ones. A filter applied by name uses the function and the parameters registered under this name, negated if so parametrised, and a name which is not registered lets nothing through.",
['histories','configurations'],'every sequence of registering, removing, registering again and applying',
'Tests register filters once and never remove them.',
[B,I],[('dictionary of filters','%s: add_filter, remove_filter, get_filter'%B)],['results of the calls, list_filters, contents of views'])
p('C21','The application is called back on the owning thread only',
"Listeners, filters, queued actions and count callbacks are called on the thread which owns the tree and never on another one which sends requests; a call from another thread returns without executing anything of the request itself. It does not matter whether the owner is the main thread of the process.",
['schedules','configurations'],'every interleaving, any owner thread',
'Tests do not look at the thread of a callback, and the owner is always the main thread.',
[Q,T,F,C],[('the queue knows the thread which created it','%s: push'%Q)],['thread of every callback'])
p('C22','A node which refuses parents or children never has any',
"A node for which parents (or children) are disabled has none, whatever is requested for it, by itself, by the other node, in advance, or when it is added; disabling dismisses those it has, and the children dismissed by this are at the root level if they have no other parent. Enabling allows new ones again.",
['histories','inputs','schedules'],'every sequence of linking requests and changes of the flags before and after the nodes are added',
'There is no test with disabled parents or children beyond setting the flag.',
[N,T],[('flags checked where a link is asked for and made','%s: set_parents_enabled, set_children_enabled; %s: _is_allowed_relation'%(N,T))],['get_parents/get_children'])
W='liblarch_gtk/__init__.py'
p('C23','The widget keeps open what was not collapsed',
"A row of the widget which has rows below it is expanded, unless its node or one above it was collapsed: this goes for the rows which are there when a widget is made or shown as well as for those which come, move or come back later. When the application collapses a node, this closes all the rows of this node, now or, if it is not displayed, when it appears, and lasts until the node is expanded. Each row which is opened or closed is announced exactly once, under its path.",
['histories','schedules','configurations'],'every history of collapsing and expanding by application and user, mixed with changes of tree, data and filters',
'There is no test of the widget at all.',
[W,G,F],[('expansion restored when rows appear, queued actions for nodes which are not displayed','%s: collapse_node, expand_node, __emit, on_child_row_expanded and the model signals'%W)],['row_expanded of every row of Gtk.TreeView, signals node-expanded and node-collapsed'])
p('C24','The widget draws and sorts the current data',
"Every row of the widget is drawn with the current values, text and colours of its node, also after the function for the colours was replaced. The rows below each row are in the order of the sort column, which is the one set last by the application or by a click on a header, ascending or descending, whatever happened to tree, data and filters before. The columns are those described, in the given order, titled, expanding, hidden, resizable and searched as described or set.",
['histories','configurations'],'every history of changes of data and tree, with any sort column, any colours, the widget connected early or late',
'There is no test of the widget at all.',
[W,G],[('columns, cell functions, sort functions','%s: set_columns_description, set_sort_column, _celldatafunction, set_bg_color, _sort_func; %s: update_task'%(W,G))],['rows and rendered cells of Gtk.TreeView'])
p('C25','Drag and drop moves exactly what was selected',
"The selected nodes are those of the selected rows; a selected row stays selected as long as it stays, while nodes change and other rows come, go and move, and no other row becomes selected by this; a row which the application declared a separator cannot be selected, and at most one row if multiple selection is off. Dropping them into a row makes its node the only parent of each of them, dropping before or after a row the node above this row (or the root level), for all of the dragged nodes at once and whatever happens to their rows meanwhile; a node which would get below itself stays where it was. Nodes dragged from another widget are passed one by one, with the target, to the function registered for it, and nothing else changes.",
['histories','inputs'],'every selection of rows, every target and position, in widgets after any history, nodes with several rows included',
'There is no test of the widget at all.',
[W,T],[('the dragged rows are carried as serialised references','%s: on_drag_data_get, on_drag_data_received, get_selected_nodes; %s: move_node'%(W,T))],['get_parents/get_children after the drop, calls of the function for other widgets'])
p('C26','Any thread can look at the tree while it changes',
"Any thread may ask the tree, its main view or a node about nodes, parents, children, siblings, positions and paths while the owner is changing them. The call never fails because of this (a node which is gone at some moment of the call may be reported as missing) and gives an answer which was right at a moment during the call. A list contains everything which belonged to it all the time, nothing which never did, and nothing twice; a number counts such a list.",
['schedules'],'every interleaving of reading calls with requests being executed, at the granularity of source lines',
'The tests read only after everything has been processed.',
[T,N,I,V],[('reads are made without a lock, on copies of the lists','%s: get_node, get_paths_for_node, next_node; %s: get_parents, get_children, get_child_index; %s: node_all_children'%(T,N,V))],['answers of calls made by other threads'])
p('C27','A failure of the application does not spread',
"When a listener of a view or of the main view, the callback of a count, a queued action or a filter of the application raises an exception, at any moment and as often as it likes, the request which is executed is nevertheless finished, the tree and all the views and counts are as if nothing had been raised, and all the other callbacks are told about everything. A filter which raises for a node does not let it through; a column function of a Gtk model which raises for a node leaves its row, without this value, where it belongs. Each exception is reported, to the caller or to sys.excepthook, and none is lost.",
['fault_sequences','histories','schedules'],'every set of callbacks failing at any of their calls, in every history of changes of tree, data, filters and listeners',
'No test has a failing callback; what is left half done depends on where in an update it fails.',
[T,V,F,C,B],[('each callback is called separately, its exception is handed to sys.excepthook','%s: _callback; %s: __emit; %s: callback; %s: __callback; %s: is_displayed; liblarch_gtk/treemodel.py: _get_column_value'%(T,V,F,C,B))],['tree state, views, counts and the events of the other listeners after the failure','sys.excepthook'])
p('C28','Siblings keep their order',
"The children of a node and the nodes at the root level, in the tree and in every view, keep their order: a change takes away those it concerns or puts them at the end, the others keep their places, and a new node has its declared children in the order of the declarations. A listener or an unsorted Gtk model which puts each added row last below its parent is always in the order of the view. A view which was just built has the order of the tree, if no node has several parents.",
['histories','inputs','configurations'],'every history of changes of tree, data and filters; the order is compared between every two events',
'Tests compare sets or small fixed lists; an order which is disturbed by a later change of something else is not looked at.',
[T,F,V,G],[('links and rows are appended, subtrees are announced in order','%s: _create_relationship, _add_node, _remove_node, _break_relationship; %s: __update_node, send_add_tree, refilter; %s: add_task'%(T,F,G))],['get_children, node_all_children, order of the added events, rows of the Gtk model'])
p('C29','What was removed is let go',
"When nodes were removed, listeners and callbacks of counts deregistered and queued actions run, the library refers to none of these any more, neither to the node objects nor to their ids, in the tree, its views, its counts or its Gtk models. Only what somebody may still come for stays: relationships declared with nodes which have not arrived and actions waiting for nodes which were not displayed. An application which adds and removes nodes forever needs no more and more memory.",
['histories','schedules'],'every history of changes, followed by the removal of everything; weak references to all the nodes, ids and callbacks there ever were',
'Tests never look at what is left behind.',
[T,F,V,C,Q,G],[('removal drops the node from all the tables','%s: _remove_node; %s: __update_node; %s: remove_task; %s: unregister_cllbck; %s: process'%(T,F,G,C,Q))],['weak references to nodes, ids (instances of a subclass of str) and callbacks'])
p('C30','Trees do not share anything',
"Any number of trees in one process are independent, even if their nodes, views, counts and filters have the same names: whatever is done with one of them, by whichever thread, changes nothing of another one and is announced to none of its listeners, and requests wait for each tree separately. Listeners of one tree may change another tree, whose changes are then complete as soon as the call returns.",
['histories','schedules','configurations'],'every interleaving of two histories, with the same names and different contents, and of listeners of the first tree changing the second one',
'Every test uses one tree at a time.',
[T,I,F,V,B,Q,C,N],[('all the state belongs to an instance','%s: __init__; %s: __init__; %s: __init__; %s: __init__; %s: __init__'%(T,I,F,B,Q))],['both trees, their views, counts and events after every step of either'])
p('C31','Ids are only names',
"Which ids the nodes have makes no difference: the same requests, with every id replaced by another one everywhere, are announced by the same events in the same order and lead to the same tree, views, counts and Gtk models, with parents, children, paths and rows in the same order. So a program gives the same result whenever it is run.",
['inputs','histories','configurations'],'every history of requests and every choice of ids (words, words of the library, blanks, quotes, accents, digits, ids which are part of others, long ones); pairs of runs of the same history',
'Every test uses one fixed set of ids, and a result which depends on the hashes of strings differs from one run of the tests to the next one, where only sets are compared.',
[T,F,V,C,N,Q,G],[('parents are taken away, added and updated in the order in which the node has them','%s: __update_node'%F),('nodes are found by their id in dictionaries','%s: has_node, get_node; %s: my_get_iter'%(T,G))],['all events with their paths and all the answers about tree, views, counts and rows in order, compared between the two runs'])
p('C32','Spectators change nothing',
"More views with filters of their own, more counts, listeners and Gtk models, and questions asked at any moment, from inside callbacks too, whatever is done afterwards with the lists which were the answers, change nothing for anybody else: the tree, the other views, counts and Gtk models show the same in the same order and their listeners are told the same events in the same order as without the spectators.",
['histories','configurations'],'every history of requests, with spectators coming, changing their filters and asking at any point of it; pairs of runs with and without them',
'Tests look at one view at a time and only at what it contains.',
[T,F,V,C,N,B,I],[('each view has nodes, filters, caches and callbacks of its own','%s: __init__; %s: __init__'%(F,V)),('answers are copies','%s: get_parents, get_children; %s: get_all_nodes, node_all_children'%(N,V))],['all events with their paths and all the answers about tree, views, counts and rows in order, compared between the two runs'])
p('C33','Unrelated nodes do not influence each other',
"Nodes which are not related to each other, neither directly nor by way of others nor by declarations, do not influence each other: whatever is done with the ones (adding, declaring, linking, moving, changing, removing), the others stay what they are in the tree, the views and the Gtk models, in the same order among themselves, and no event is announced about them.",
['histories','configurations'],'every history of requests about some nodes, mixed with every history about others; pairs of runs with and without the others',
'Tests have few nodes, look at what a change does, and never at what it has to leave alone.',
[T,F,V,N,G],[('only relatives are updated with a node','%s: _add_node, _remove_node, _new_relationship, _break_relationship; %s: __update_node'%(T,F))],['all events with their paths and all the answers about tree, views and rows in order, without the other nodes, compared between the two runs'])
p('C34','Asking for what is there already changes nothing',
"A request for what is the case already, or one which is refused, changes nothing at all: adding a node whose id is taken, asking again for a relationship, breaking one which does not exist, moving a node to where it is, a circular or disallowed relationship, deleting or refreshing an unknown node, setting a flag to its value, applying an applied filter, unapplying another one, registering a filter or callback twice, taking away what is unknown. There is no event, no new order, and everything after it goes on as without it.",
['histories','configurations'],'every history of requests, with superfluous requests at any points of it; pairs of runs with and without them',
'Tests ask for something once and look at what it does; what superfluous requests leave behind is found only later, if at all.',
[T,F,V,N,C,B],[('each request looks first at what there is','%s: _add_node, _new_relationship, _set_relationship, _break_relationship; %s: apply_filter, unapply_filter; %s: apply_filter, register_cllbck'%(T,F,C))],['all events with their paths and all the answers about tree, views, counts and rows in order, compared between the two runs'])
for x in P:
    assert len(x['title'])<=80,x['title']
open(OUT+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
man={'version':1,'setup_cmd':'sh setup.sh','hooks':{'guard':'none','enable':'no hooks in /repo: threading and GLib are replaced from outside when the code is imported','source_commits':[]},
'checks':[],'not_applicable':[]}
for x in P:
    man['checks'].append({'property':x['id'],'quick_cmd':'./run.sh %s quick'%x['id'],'thorough_cmd':'./run.sh %s thorough'%x['id'],
     'technique':'deterministic simulation: seeded schedules and faults, checked against a reference model','level':'exploration',
     'level_note':'Seeded search, not exhaustive. Real liblarch code runs behind a simulated main loop, locks and scheduler; trusted are these stand-ins and the reference model in sim/model.py.'})
json.dump(man,open(OUT+'/MANIFEST.json','w'),indent=1); open(OUT+'/MANIFEST.json','a').write('\n')
