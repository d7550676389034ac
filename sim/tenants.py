"""Several graphs in one process, driven by independent clients, fed the same objects, made out of one another."""
import networkx as nx

from .seams import Violation, HarnessError
from .gen import Gen, history
from .model import Model
from .graphs import CLASSES
from .snap_replica import SnapReplica, Snap, snap_history

SNAPS = ('SnapshotGraph', 'SnapshotDiGraph')


def directed(cls):
    return 'Di' in cls


class Tenants:
    def __init__(self, plan, dnx, replica):
        self.dnx = dnx
        self.replica = replica
        self.nodes = plan['nodes']
        self.r = []
        self.names = []
        self.attrs = []
        # the networkx graphs which graphs were made of, and what they are called
        self.sources = []
        for cls in plan['graphs']:
            self.r.append(self.fresh(cls))
            self.names.append('')
            self.attrs.append({})
        # one set of node objects for all of them
        for r in self.r[1:]:
            r.n, r.index = self.r[0].n, self.r[0].index
        self.answers = 0
        self.others = 0
        self.states = set()

    def fresh(self, cls):
        return (SnapReplica if cls in SNAPS else self.replica)(cls, self.nodes, self.dnx)

    def empty(self, r, what):
        G = r.G
        seen = r.call(what, lambda: (len(G), G.name, str(G), dict(G.graph)))
        if seen != (0, '', '', {}):
            raise Violation('not-empty', '%s is %r' % (what, seen))
        if r.cls in SNAPS:
            if r.call(what, lambda: list(G)) or r.call(what, G.get):
                raise Violation('not-empty', '%s has snapshots' % what)
            return
        if r.call(what, lambda: (list(G.edges()), list(G.nodes()))) != ([], []):
            raise Violation('not-empty', '%s has edges %r, nodes %r' % (what, G.edges(), G.nodes()))

    def check(self, k):
        r = self.r[k]
        r.do(['audit'])
        self.answers += 1
        G = r.G
        for g, named in self.sources:
            if g.graph != named:
                raise Violation('graph-attributes', 'a networkx graph which graphs were made of has %r, expected %r' % (g.graph, named))
        seen = r.call('name', lambda: (G.name, str(G), dict(G.graph)))
        want = dict(self.attrs[k])
        if self.names[k]:
            want['name'] = self.names[k]
        if seen != (self.names[k], self.names[k], want):
            raise Violation('graph-attributes', 'graph %d (%s) is called %r, expected %r' % (k, r.cls, seen, (self.names[k], want)))

    def do(self, k, op):
        k %= len(self.r)
        r = self.r[k]
        what = op[0]
        if what == 'name':
            self.names[k] = op[1]
            if op[1]:
                r.G.name = op[1]
            else:
                r.G.graph.pop('name', None)
        elif what == 'graph-attr':
            r.G.graph[op[1]] = op[2]
            self.attrs[k][op[1]] = op[2]
        elif what == 'new':
            # a client starts over with a new graph of the same class
            new = self.fresh(r.cls)
            self.empty(new, 'a new ' + r.cls)
            new.n, new.index = r.n, r.index
            if op[1]:
                new.G = r.call('constructor', getattr(self.dnx, r.cls), **op[1])
            self.r[k] = new
            self.names[k] = op[1].get('name', '')
            self.attrs[k] = {x: v for x, v in op[1].items() if x != 'name'}
        elif what == 'share-node':
            # the same dictionary goes to several graphs
            u, attr, later = op[1:]
            d = dict(attr)
            for q in self.r:
                q.call('add_nodes_from', q.G.add_nodes_from, [(q.n[u], d)])
                if q.cls in SNAPS:
                    for s in q.M.values():
                        s.add_node(u, dict(attr))
                else:
                    q.M.add_node(q.n[u], dict(attr))
            if r.cls in SNAPS:
                r.do(['add_nodes', [[u, later]], {}, {}])
            else:
                r.do(['add_node', u, later])
        elif what == 'share-batch':
            edges, attr = op[1:]
            lists = {}
            for q in self.r:
                if q.cls in SNAPS:
                    batch = lists.setdefault('s', [(q.n[u], q.n[v]) for u, v, _, _ in edges])
                else:
                    batch = lists.setdefault(q.kind, [q.edge_args(*x) for x in edges])
                q.call('add_edges_from', q.G.add_edges_from, batch, **attr)
                if q.cls in SNAPS:
                    for s in q.M.values():
                        for u, v, _, _ in edges:
                            s.add_edge(u, v, dict(attr))
                else:
                    for u, v, b, e in edges:
                        q.M.add_edge(q.n[u], q.n[v], b, e if q.kind == 'interval' else b, dict(attr))
        elif what == 'share-import':
            # all temporal graphs of this kind are made of one networkx graph
            if r.cls in SNAPS:
                return
            named = op[2] if len(op) > 2 else {}
            g = (nx.MultiDiGraph if r.directed else nx.MultiGraph)(**named)
            self.sources.append((g, dict(named)))
            for u, v, b, e, attr in op[1]:
                stamp = {'begin': b, 'end': e} if r.kind == 'interval' else {'timestamp': b}
                g.add_edge(r.n[u], r.n[v], **dict(attr, **stamp))
            for i, q in enumerate(self.r):
                if q.cls != r.cls:
                    continue
                h = q.call('from_networkx_graph', getattr(self.dnx, q.cls).from_networkx_graph, g)
                self.adopt(i, h, edges=[(q.n[u], q.n[v], b, e if q.kind == 'interval' else b, attr) for u, v, b, e, attr in op[1]])
        elif what == 'derive':
            self.derive(k, op[1] % len(self.r))
        else:
            r.do(op)

    def adopt(self, i, graph, edges):
        q = self.r[i]
        new = self.fresh(q.cls)
        new.n, new.index, new.G = q.n, q.index, graph
        new.M = Model(new.kind, new.directed)
        for u, v, b, e, attr in edges:
            new.M.add_edge(u, v, b, e, dict(attr))
        self.r[i] = new
        # what a graph which was made of another is called is its own affair
        self.names[i] = graph.name
        self.attrs[i] = {x: v for x, v in graph.graph.items() if x != 'name'}

    def derive(self, i, j):
        """Graph j starts over as one made of graph i."""
        a, b = self.r[i], self.r[j]
        if i == j or directed(a.cls) != directed(b.cls):
            return
        if a.cls in SNAPS:
            if b.cls in SNAPS or b.kind != 'interval' or not a.M:
                return
            h = b.call('from_snapshot_graph', getattr(self.dnx, b.cls).from_snapshot_graph, a.G)
            # what it contains is decided by C19
            self.adopt(j, h, [(t[0], t[1], t[2], t[3], dict(x)) for t, x in h.edges(data=True)])
            for n, x in h.nodes(data=True):
                self.r[j].M.add_node(n, dict(x))
            return
        if b.cls in SNAPS:
            h = a.call('to_snapshot_graph', a.G.to_snapshot_graph, edge_data=True, node_data=True)
            if type(h) is not type(b.G):
                h = None
            if h is None:
                return
            new = self.fresh(b.cls)
            new.n, new.index, new.G = b.n, b.index, h
            for key, g in list(h.snapshots.items()):
                s = Snap(new.directed)
                for n, x in g.nodes(data=True):
                    s.nodes[new.index[n]] = dict(x)
                for u, v, x in g.edges(data=True):
                    s.add_edge(new.index[u], new.index[v], dict(x))
                new.M[tuple(key)] = s
            self.r[j] = new
            self.names[j] = h.name
            self.attrs[j] = {x: v for x, v in h.graph.items() if x != 'name'}
            return
        if a.cls != b.cls or not a.M.edges:
            return
        g = a.full_export()
        h = b.call('from_networkx_graph', getattr(self.dnx, b.cls).from_networkx_graph, g)
        self.adopt(j, h, [(k[0], k[1], k[2], k[3], dict(x)) for k, x in a.M.edges.items()])
        self.names[j] = h.name


def cast(rng, n):
    """The classes of the graphs: often the same one, or related ones."""
    pool = list(CLASSES) + list(SNAPS)
    first = rng.choice(pool)
    classes = [first]
    while len(classes) < n:
        k = rng.random()
        if k < 0.5:
            classes.append(rng.choice(classes))
        elif k < 0.8:
            classes.append(rng.choice([c for c in pool if directed(c) == directed(first)]))
        else:
            classes.append(rng.choice(pool))
    return classes


def threads(rng, train_op, export_op, turns):
    """Threads which each own a graph."""
    classes = cast(rng, rng.choice([2, 2, 2, 3, 4]))
    pool = ['IntervalGraph', 'IntervalDiGraph'] * 3 + list(CLASSES) + list(SNAPS)
    base = Gen(rng, 'IntervalGraph')
    # now and then all of them do the same
    theme = rng.choice([None, None, None, None, 'motif', 'own_file', 'train', 'export', 'update', 'update'])
    if theme == 'motif':
        classes = ['ImpulseDiGraph'] * len(classes)
    elif theme == 'update':
        classes = [rng.choice(pool) for _ in classes] if rng.random() < 0.5 else [rng.choice(pool)] * len(classes)
    counting = 'ImpulseDiGraph' in classes and (theme == 'motif' or rng.random() < 0.5)
    base.configure(n=rng.choice([2, 3, 4, 6, 9]), **{'ordered': True} if counting else {})
    faults = base.faults
    families = ('edges', 'edges', 'has_edge', 'nodes', 'has_node', 'n_nodes', 'interval', 'unique', 'degree')
    streams = []
    most = rng.choice([3, 8, 15, 30])
    for i, cls in enumerate(classes):
        if cls in classes[:i] and rng.random() < 0.3:
            streams.append(streams[classes.index(cls)])
            faults['twin-graph'] = faults.get('twin-graph', 0) + 1
            continue
        quiet = theme == 'update'
        if cls in SNAPS:
            p = snap_history(rng, updates=0.6, queries=0 if quiet else 0.5, bad=0.03, nodes=base.nodes, convert=rng.random() < 0.5)
        else:
            p = history(rng, cls, families, bad=rng.choice([0, 0, 0.1]), audits=0 if quiet else 0.05,
                        queries=0 if quiet else 0.4, deep=False, size=rng.choice([3, 5, 8, 15] if quiet else [1, 3, 5, 8]),
                        nodes=base.nodes)
        for x, v in p['faults'].items():
            faults[x] = faults.get(x, 0) + v
        ops = p['ops'][:most]
        streams.append(ops)
        h = None
        if cls not in SNAPS:
            h = Gen(rng, cls, faults)
            h.configure(n=2)
            h.nodes = base.nodes
        for _ in range(rng.choice([0, 1, 2, 3] if theme is None else [0, 0, 1] if theme == 'update' else [2, 3, 5])):
            k = {'own_file': 0, 'train': 0.4, 'motif': 0.6, 'export': 0.9, 'update': 0}.get(theme, rng.random())
            if k < 0.35 or h is None:
                extra = ['own_file', None]
            elif k < 0.55:
                extra = train_op(rng, h, rng.choice([1, 2]))
            elif k < 0.7 and cls == 'ImpulseDiGraph' and counting and len(ops) <= 15:
                extra = ['motif', rng.choice([[[1, 2], [2, 1]], [[1, 2], [2, 3]], [[1, 2], [2, 3], [3, 1]]]), rng.choice([1, 3, 10]), None, 0]
            else:
                extra = export_op(h, rng)
            ops.insert(rng.randint(len(ops) // 2 if theme else 0, len(ops)), extra)
    streams = [[['own_file', '/sim/own-%d-%d.txt' % (i, k)] if op[0] == 'own_file' else op for k, op in enumerate(s)]
               for i, s in enumerate(streams)]
    switches, sweep, unit = turns(rng, streams)
    if theme == 'update' and rng.random() < 0.7:
        # back and forth all the time
        p = rng.choice([0.1, 0.3, 0.5, 0.8])
        sweep, unit, switches = [], 'line', []
        for _ in range(rng.choice([300, 1000, 2000])):
            gap = 1
            while rng.random() > p and gap < 100:
                gap += 1
            switches.append([gap, rng.randrange(len(streams))])
    return {'cls': '+'.join(classes), 'graphs': classes, 'nodes': base.nodes, 'threads': streams, 'schedule': switches,
            'sweep': sweep[:10], 'unit': unit, 'one_set_of_nodes': rng.random() < 0.5, 'ops': [], 'faults': faults, 'sim_time': 0.0}


def generate(rng, train_op, export_op):
    n = rng.choice([2, 2, 3, 4])
    classes = cast(rng, n)
    base = Gen(rng, 'IntervalGraph')
    base.configure(n=rng.choice([2, 3, 4, 6, 9, 12, 20]))
    faults = base.faults
    streams = []
    families = ('edges', 'edges', 'has_edge', 'nodes', 'n_nodes', 'interval', 'unique', 'degree')
    for i, cls in enumerate(classes):
        if cls in classes[:i] and rng.random() < 0.6:
            # much the same as another graph, and not quite
            twin = streams[classes.index(cls)]
            p = rng.choice([0.02, 0.1, 0.3])
            faults['twin-graph'] = faults.get('twin-graph', 0) + 1
            ops = []
            for op in twin:
                if rng.random() < p:
                    if op[0] == 'add':
                        op = list(op)
                        op[1 + rng.randrange(2)] = base.any_node()
                    else:
                        continue
                ops.append(op)
            streams.append(ops)
            continue
        if cls in SNAPS:
            p = snap_history(rng, updates=0.6, queries=0.4, bad=0.03, nodes=base.nodes)
        else:
            p = history(rng, cls, families, bad=rng.choice([0, 0, 0.1]), audits=0, queries=0.4, deep=False,
                        size=rng.choice([2, 5, 8, 15, 30]), nodes=base.nodes)
        for x, v in p['faults'].items():
            faults[x] = faults.get(x, 0) + v
        streams.append(p['ops'])
    picks = [i for i, s in enumerate(streams) for _ in s]
    if rng.random() < 0.6:
        rng.shuffle(picks)
    else:
        # in step with each other
        picks = [i for k in range(max(map(len, streams))) for i, s in enumerate(streams) if k < len(s)]
        faults['graphs-in-step'] = faults.get('graphs-in-step', 0) + 1
    at = [0] * n
    g = Gen(rng, 'IntervalGraph', faults)
    g.configure(n=2)
    g.nodes = base.nodes
    g.numeric_weight = True
    g.zero_length = 0
    ops = []
    for i in picks:
        ops.append([i, streams[i][at[i]]])
        at[i] += 1
        k = rng.random()
        j = rng.randrange(n)
        if k < 0.05:
            ops.append([j, ['name', rng.choice(['', 'a', 'b', 'c'])]])
        elif k < 0.07:
            ops.append([j, ['graph-attr', rng.choice(['owner', 'rank']), rng.randrange(5)]])
        elif k < 0.10:
            ops.append([j, ['new', rng.choice([{}, {}, {'name': 'fresh'}, {'owner': 'x'}])]])
            g.note('started-over')
        elif k < 0.14:
            ops.append([j, ['share-node', g.any_node(), g.attr(p=1), g.attr(p=1)]])
            g.note('dictionary-shared-by-graphs')
        elif k < 0.18:
            ops.append([j, ['share-batch', g.batch_edges(rng.choice([1, 2, 4])), g.attr(p=0.7)]])
            g.note('batch-shared-by-graphs')
        elif k < 0.21:
            ops.append([j, ['share-import', [[*e, g.attr()] for e in g.batch_edges(rng.choice([1, 2, 4]))],
                            rng.choice([{}, {'name': 'source'}, {'owner': 'y', 'rank': 7}])]])
            g.note('import-shared-by-graphs')
        elif k < 0.27:
            ops.append([j, ['derive', rng.randrange(n)]])
            g.note('graph-made-of-another')
        elif k < 0.29 and classes[j] not in SNAPS:
            ops.append([j, train_op(rng, g, rng.choice([1, 2, 3]))])
        elif k < 0.33 and classes[j] not in SNAPS:
            h = Gen(rng, classes[j], faults)
            h.nodes, h.profile, h.fine, h.event_times = base.nodes, g.profile, g.fine, g.event_times
            ops.append([j, export_op(h, rng)])
        if rng.random() < 0.35:
            ops.append([rng.randrange(n), ['check']])
    return {'cls': '+'.join(classes), 'graphs': classes, 'nodes': base.nodes, 'ops': ops, 'faults': faults, 'sim_time': 0.0}
