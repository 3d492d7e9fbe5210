"""Which simulations decide which property."""

from . import gen
from . import model as M

TREE, LOOP, VIEW = gen.TREE, gen.LOOP, gen.VIEW


def mix(*dicts, **extra):
    out = {}
    for entry in dicts:
        out.update(entry)
    for key, value in extra.items():
        out[{'del_': 'del'}.get(key, key)] = value
    return out


# every check notices when the code blows up, hangs or deadlocks
COMMON = {'exc', 'hang', 'deadlock', 'crash'}

TREE_OPS = mix(TREE, LOOP)
VIEW_OPS = mix(TREE, LOOP, VIEW)

# name -> (mode, profile)
CAMPAIGNS = {
    # atomic calls: any requests, any thread, any moment of dispatching
    'tree': ('coarse', dict(ops=TREE_OPS)),
    'deep': ('coarse', dict(ops=TREE_OPS, nodes=(5, 10), length=(30, 90),
                            threads=(1, 2))),
    'big': ('coarse', dict(
        ops=mix(VIEW_OPS, nparent=5, tparent=4, nchild=3, data=16),
        views=(1, 2), nodes=(12, 24), length=(60, 200), threads=(1, 3),
        shape=['down', 'tree', 'tree', 'narrow'], late=[0, 0.1])),
    'late': ('coarse', dict(
        ops=mix(TREE_OPS, add=40, del_=12, readd=8, nparent=12, nchild=12,
                nunset=10, nset=6, move=8, tparent=8),
        late=[0.3, 0.6, 0.9], shape=['any', 'down', 'down', 'narrow'])),
    'circular': ('coarse', dict(
        ops=mix(TREE_OPS, nparent=14, nchild=14, tparent=12, move=10, nset=8,
                readd=6, del_=5), shape=['any'], late=[0, 0.3, 0.7],
        nodes=(2, 6))),
    'delete': ('coarse', dict(
        ops=mix(TREE_OPS, del_=25, readd=8, nparent=14, nchild=10,
                tparent=10))),
    'move': ('coarse', dict(
        ops=mix(TREE_OPS, move=25, nset=18, nunset=14, nparent=14, tparent=10,
                del_=4), shape=['any', 'down'])),
    'flags': ('coarse', dict(
        ops=mix(TREE_OPS, flags=20, nparent=12, nchild=12, move=12, nset=10),
        flagged=[0.1, 0.3, 0.5], late=[0, 0.3, 0.6])),
    'owner': ('coarse', dict(
        ops=mix(VIEW_OPS, apply=3, dispatch=3, drain=0.5), views=(0, 2),
        threads=(2, 3), remote=0.3)),
    'queue': ('coarse', dict(
        plain=True, ops=dict(add=20, readd=3, data=6, refresh=14,
                             refreshall=.5, dispatch=18, drain=2,
                             **{'del': 8}),
        threads=(2, 4), nodes=(3, 9))),
    'view': ('coarse', dict(ops=VIEW_OPS, views=(1, 3))),
    'viewdata': ('coarse', dict(
        ops=mix(VIEW_OPS, data=30, refresh=6, nparent=10, move=10),
        views=(1, 2), nodes=(4, 8))),
    'viewdeep': ('coarse', dict(
        ops=mix(VIEW_OPS, nparent=16, tparent=10, move=10, data=14),
        views=(1, 1), nodes=(5, 9), length=(20, 60), threads=(1, 2),
        shape=['down', 'down', 'narrow', 'any'])),
    'listen': ('coarse', dict(
        ops=mix(VIEW_OPS, listen=12, unlisten=10, mainstate=3,
                mlisten=5, munlisten=4),
        views=(1, 3))),
    'filters': ('coarse', dict(
        ops=mix(VIEW_OPS, apply=25, unapply=18, reset=6, data=10, view=2,
                badapply=2),
        views=(1, 3))),
    'bank': ('coarse', dict(
        ops=mix(VIEW_OPS, bankadd=8, bankdel=6, apply=14, unapply=10),
        views=(1, 3))),
    'with': ('coarse', dict(ops=mix(VIEW_OPS, vask=14, data=12), views=(0, 2),
                            length=(3, 30))),
    'action': ('coarse', dict(
        ops=mix(VIEW_OPS, action=20, data=10, apply=8, unapply=8),
        views=(1, 2))),
    'count': ('coarse', dict(
        ops=mix(TREE_OPS, count=3, capply=6, cunapply=5, clisten=4, cguest=4,
                cmodify=4, data=16))),
    'gtk': ('coarse', dict(ops=VIEW_OPS, views=(1, 2), gtk=1)),
    'gtkdata': ('coarse', dict(
        ops=mix(VIEW_OPS, data=30, nparent=12, del_=12), views=(1, 1), gtk=1,
        nodes=(4, 8))),
    'orders': ('coarse', dict(
        ops=mix(VIEW_OPS, data=14, nparent=10, move=10, apply=10, unapply=6,
                gtk=2), views=(1, 2), gtk=1, nodes=(4, 9), late=[0, 0, 0.3],
        shape=['down', 'narrow', 'any', 'any'])),
    # callbacks of the application which fail
    'boom': ('coarse', dict(
        ops=mix(VIEW_OPS, boom=10, unboom=3, action=6, count=1, capply=2,
                clisten=3, cguest=2, data=12, mlisten=2, munlisten=1),
        views=(1, 2))),
    'fragile': ('coarse', dict(
        ops=mix(VIEW_OPS, data=20, count=1, capply=3, cunapply=2, clisten=2,
                apply=10, unapply=6, boom=2),
        views=(1, 2), fragile=True,
        filters=list(M.FRAGILE) + list(M.FILTERS))),
    'column': ('coarse', dict(
        ops=mix(VIEW_OPS, data=30, nparent=12, del_=10), views=(1, 1), gtk=1,
        nodes=(4, 8), fragile=True, filters=['red', 'all', 'busy', 'flatred'])),
    'fboom': ('fine', dict(
        views=(0, 2), counts=(0, 1), boom=True)),
    'ffragile': ('fine', dict(
        views=(1, 2), counts=(0, 1), boom=True, fragile=True, length=(3, 8),
        kinds=('add', 'data', 'data', 'data', 'data', 'link', 'move', 'set',
               'del'), filters=list(M.FRAGILE) + ['busy', 'red', 'notred'])),
    # the widget
    'fold': ('coarse', dict(
        ops=mix(VIEW_OPS, wfold=20, wuser=6, wshow=2, wsort=2, wdrop=3,
                nparent=10, listen=1, apply=5), views=(1, 2), widget=1)),
    'sort': ('coarse', dict(
        ops=mix(VIEW_OPS, data=25, wsort=5, wdrop=3, wcolor=2, wcolumn=2,
                wclick=3, wshow=1),
        views=(1, 2), widget=1, threads=(1, 2))),
    'sortown': ('coarse', dict(
        ops=mix(VIEW_OPS, data=25, wsort=5, wdrop=3, wcolor=2, wcolumn=2,
                wclick=3, wshow=1),
        views=(1, 1), widget=1, threads=(1, 1), filters=list(M.OWN_DATA))),
    'drop': ('coarse', dict(
        ops=mix(VIEW_OPS, wdrop=30, wselect=10, wother=8, nparent=10,
                wuser=4, wseparate=2, wmode=1), views=(1, 2), widget=1)),
    'select': ('coarse', dict(
        ops=mix(VIEW_OPS, wselect=14, wuser=4, data=20, wsort=4, wcolor=2,
                wfold=3, wdrop=3, wclick=1, wseparate=2, wmode=1, wshow=1),
        views=(1, 2), widget=1)),
    # what is removed, what is deregistered
    'letgo': ('coarse', dict(
        ops=mix(VIEW_OPS, action=5, count=1, capply=2, clisten=2, cguest=5,
                data=10, listen=5, unlisten=4, mlisten=4, munlisten=3,
                del_=14), views=(1, 2), late=[0, 0.2, 0.5])),
    'letgogtk': ('coarse', dict(
        ops=mix(VIEW_OPS, data=20, del_=14, nparent=8, move=8), views=(1, 2),
        gtk=1, late=[0, 0.2])),
    # two trees
    'pair': ('pair', dict(
        ops=mix(VIEW_OPS, bankadd=2, bankdel=1, action=3, count=2, capply=2,
                clisten=2, data=12, vask=2, mlisten=1), views=(0, 2),
        length=(3, 25))),
    # the same again, with other ids or with more spectators
    'rename': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, count=1, capply=1, clisten=1, nparent=10,
                nchild=8, move=10), views=(1, 2), kind='same')),
    'renamegtk': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, nparent=10, move=10), views=(1, 2), gtk=1,
        kind='same', shape=['down', 'any'], threads=(1, 2))),
    'renameany': ('twin', dict(
        ops=mix(VIEW_OPS, bankadd=2, bankdel=1, data=12, nparent=8,
                mlisten=1), views=(0, 2), late=[0.3, 0.6], kind='same')),
    'renamewidget': ('twin', dict(
        ops=mix(VIEW_OPS, wfold=10, wuser=3, wshow=1, wsort=2, wdrop=6,
                wselect=6, wother=2, data=12, nparent=8), views=(1, 2),
        widget=1, kind='same', threads=(1, 2))),
    'spectatewidget': ('twin', dict(
        ops=mix(VIEW_OPS, wfold=8, wuser=3, wshow=1, wsort=2, wdrop=3,
                wselect=4, data=12), views=(1, 2), widget=1, kind='apart',
        threads=(1, 2))),
    'spectate': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, count=1, capply=1, clisten=1),
        views=(0, 2), kind='apart')),
    'spectategtk': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, nparent=8), views=(1, 2), gtk=1,
        kind='apart', threads=(1, 2))),
    'again': ('twin', dict(ops=mix(VIEW_OPS, data=12, capply=4, clisten=3,
                                   count=4), views=(0, 2), kind='noop')),
    'againlate': ('twin', dict(ops=mix(VIEW_OPS, nparent=12, nchild=10,
                                       flags=6), late=[0.3, 0.6],
                               views=(0, 2), kind='noop')),
    'againgtk': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, nparent=8, bankadd=2, bankdel=1),
        views=(1, 2), gtk=1, kind='noop', threads=(1, 2))),
    'againwidget': ('twin', dict(
        ops=mix(VIEW_OPS, wfold=8, wuser=3, wshow=1, wsort=2, wdrop=3,
                wselect=4, data=12), views=(1, 2), widget=1, kind='noop',
        threads=(1, 2))),
    'strange': ('twin', dict(ops=mix(VIEW_OPS, data=12), views=(0, 2),
                             kind='local')),
    'strangelate': ('twin', dict(ops=mix(VIEW_OPS, nparent=12, nchild=10),
                                 late=[0.3, 0.6], views=(0, 1),
                                 kind='local')),
    'strangegtk': ('twin', dict(
        ops=mix(VIEW_OPS, data=12, nparent=8, bankadd=2, bankdel=1),
        views=(1, 2), gtk=1, kind='local', threads=(1, 2))),
    # real threads, preempted between any two lines
    'ftree': ('fine', dict()),
    'fview': ('fine', dict(views=(1, 2))),
    'fdata': ('fine', dict(
        views=(1, 2), length=(4, 9),
        kinds=('add', 'data', 'data', 'data', 'data', 'data', 'link', 'move',
               'del'))),
    'fagain': ('fine', dict(
        views=(1, 1), length=(4, 9), max_threads=3, per=(1, 1), hotter=True,
        filters=list(M.OWN_DATA),
        kinds=('data', 'data', 'data', 'data', 'data', 'refresh'))),
    'fchain': ('fine', dict(
        views=(1, 1), length=(4, 9), max_threads=3, per=(2, 3), hotter=True,
        chain=True, filters=['red', 'notred', 'blue', 'noflatred'],
        kinds=('data', 'data', 'data', 'data', 'refresh'))),
    'flook': ('fine', dict(
        doomed=0.6, length=(3, 8),
        kinds=('look', 'look', 'look', 'refreshall', 'add', 'add', 'link', 'data', 'del',
               'del'))),
    'fread': ('fine', dict(
        length=(4, 10),
        kinds=('ask', 'ask', 'ask', 'ask', 'ask', 'add', 'add', 'link',
               'kid', 'set', 'unset', 'move', 'del', 'del'))),
    'fchanging': ('fine', dict(
        length=(4, 10), max_threads=2, kinds=('ask', ), per=(2, 3),
        hotter=True,
        owner=('add', 'add', 'link', 'kid', 'set', 'unset', 'move', 'del',
               'del'))),
    'fcount': ('fine', dict(counts=(1, 2))),
    'fgtk': ('fine', dict(views=(1, 1), gtk=1)),
    'fqueue': ('queue', dict()),
}
for _name, (_mode, _profile) in CAMPAIGNS.items():
    _profile['name'] = _name

# property -> (kinds of violations, {campaign: runs of the quick check})
CHECKS = {
    'C01': ({'integrity', 'roots'},
            {'tree': 5000, 'deep': 2000, 'late': 2500, 'flags': 1500,
             'ftree': 4000, 'big': 250}),
    'C02': ({'state', 'integrity'}, {'late': 13000, 'ftree': 4000}),
    'C03': ({'refuse', 'state', 'integrity'},
            {'circular': 15000, 'deep': 1500}),
    'C04': ({'state', 'integrity', 'stream'},
            {'delete': 13000, 'ftree': 3000}),
    'C05': ({'state', 'integrity'}, {'move': 13000, 'ftree': 3000}),
    'C06': ({'view'}, {'view': 4500, 'viewdata': 3000, 'viewdeep': 3000,
                       'fview': 1500, 'fdata': 1500, 'big': 250}),
    'C07': ({'stream'}, {'view': 4000, 'viewdata': 2000, 'viewdeep': 3000,
                         'filters': 2000, 'fview': 1500, 'fdata': 1000, 'big': 250}),
    'C08': ({'listener', 'stream', 'fresh'},
            {'listen': 11000, 'fview': 1500}),
    'C09': ({'view', 'stream'}, {'filters': 12000, 'bank': 2000}),
    'C10': ({'log', 'order', 'thread', 'state'},
            {'queue': 9000, 'fqueue': 9000}),
    'C11': ({'stall', 'hang', 'deadlock', 'order'},
            {'tree': 3000, 'queue': 3000, 'ftree': 3000, 'fqueue': 9000}),
    'C12': ({'state', 'view', 'stream', 'fresh'}, {'owner': 13000}),
    'C13': ({'action'}, {'action': 14000}),
    'C14': ({'count'}, {'count': 13000, 'fcount': 4000}),
    'C15': ({'nav'}, {'viewdeep': 5000, 'filters': 3000, 'deep': 2500,
                      'view': 2500}),
    'C16': ({'gtk'}, {'gtk': 5000, 'gtkdata': 4000, 'fgtk': 2000,
                       'sort': 1000}),
    'C17': ({'state', 'integrity', 'roots', 'view', 'stream', 'fresh',
             'count', 'stall'},
            {'ftree': 4500, 'fview': 2500, 'fdata': 1500, 'fcount': 2000,
             'fchain': 6000, 'flook': 3500}),
    'C18': ({'withfilters'}, {'with': 14000}),
    'C19': ({'fresh', 'view'}, {'viewdata': 6000, 'view': 3000, 'fdata': 2000,
                                'fagain': 3000}),
    'C20': ({'bank', 'view'}, {'bank': 13000}),
    'C21': ({'thread'}, {'view': 3000, 'action': 3000, 'count': 2500,
                         'fview': 2500, 'fcount': 2500, 'fqueue': 3000}),
    'C23': ({'expand'}, {'fold': 6000}),
    'C24': ({'sorted', 'cells'}, {'sort': 3000, 'sortown': 3000}),
    'C25': ({'state', 'select'}, {'drop': 6000, 'select': 4000}),
    'C26': ({'read'}, {'fread': 6000, 'fchanging': 6000}),
    'C27': ({'boom', 'integrity', 'roots', 'state', 'view', 'stream',
             'listener', 'count', 'action', 'fresh', 'stall', 'gtk'},
            {'boom': 5000, 'fragile': 3500, 'column': 2500, 'fboom': 3000, 'ffragile': 3000}),
    'C28': ({'sibling'}, {'orders': 6000, 'view': 3000, 'tree': 2000,
                          'filters': 2000}),
    'C29': ({'leak'}, {'letgo': 8000, 'letgogtk': 4000}),
    'C30': ({'state', 'integrity', 'roots', 'refuse', 'view', 'stream',
             'listener', 'fresh', 'count', 'action', 'bank', 'withfilters',
             'nav', 'stall'}, {'pair': 6000}),
    'C31': ({'same'}, {'rename': 5000, 'renamegtk': 1500, 'renameany': 1500,
                       'renamewidget': 1000}),
    'C32': ({'apart'}, {'spectate': 4000, 'spectategtk': 1500,
                        'spectatewidget': 800}),
    'C33': ({'local'}, {'strange': 4000, 'strangelate': 1500,
                       'strangegtk': 1500}),
    'C34': ({'noop'}, {'again': 4000, 'againlate': 2000, 'againgtk': 1000,
                      'againwidget': 800}),
    'C22': ({'state', 'integrity'}, {'flags': 15000}),
}
THOROUGH = 25          # times as many runs

REAL = {
    'coarse': 'liblarch (tree, nodes, request queue, views, filters, counts)',
    'pair': 'liblarch (two trees, loaded anew for every run)',
    'twin': 'liblarch (the same requests in two runs)',
    'fine': 'liblarch, on real threads run one at a time',
    'queue': 'liblarch, on real threads run one at a time',
}
