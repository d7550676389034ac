"""A snapshot graph driven through its public API next to a reference model: a sorted list of plain graphs."""
import networkx as nx

from . import seams
from .seams import Violation, HarnessError, SourceFailed, make_node, Nodes
from .graphs import freeze, STEP_LIMIT
from .gen import Gen, Poll
from .threads import SimInterrupt
from .disk_replica import set_disk, fatal_fired

PATH = '/sim/snapshots.txt'


class Snap:
    """One snapshot of the model: edges by (u, v), and in a multigraph by (u, v, number)."""

    def __init__(self, directed, multi=False, nodes=None, edges=None):
        self.directed = directed
        self.multi = multi
        self.nodes = {} if nodes is None else nodes
        self.edges = {} if edges is None else edges

    def copy(self):
        return Snap(self.directed, self.multi, {n: dict(a) for n, a in self.nodes.items()},
                    {k: dict(a) for k, a in self.edges.items()})

    def key(self, u, v):
        return (u, v) if self.directed or u <= v else (v, u)

    def add_node(self, n, a):
        self.nodes.setdefault(n, {}).update(a)

    def add_edge(self, u, v, a):
        self.nodes.setdefault(u, {})
        self.nodes.setdefault(v, {})
        k = self.key(u, v)
        if self.multi:
            k += (sum(e[:2] == k for e in self.edges),)
        self.edges.setdefault(k, {}).update(a)

    def frozen(self):
        return ({n: freeze(a) for n, a in self.nodes.items()}, {k: freeze(a) for k, a in self.edges.items()})

    def degree(self, n, weight):
        d = 0
        for k, a in self.edges.items():
            w = a.get(weight, 1) if weight else 1
            d += w * ((k[0] == n) + (k[1] == n))
        return d

    def size(self, weight):
        return sum(a.get(weight, 1) if weight else 1 for a in self.edges.values())

    def sub(self, keep):
        return Snap(self.directed, self.multi, {n: a for n, a in self.nodes.items() if n in keep},
                    {k: a for k, a in self.edges.items() if k[0] in keep and k[1] in keep})

    def directed_form(self):
        s = self.copy()
        if not self.directed:
            s.directed = True
            s.edges.update({(k[1], k[0]) + k[2:]: dict(a) for k, a in self.edges.items()})
        return s


def hits(key, start, end):
    """Is any part of the snapshot in the interval?"""
    if end is not None and key[0] >= end:
        return False
    if start is not None and key[0] < start and key[1] <= start:
        return False
    return True


class SnapReplica:
    def __init__(self, cls, nodes, dnx):
        self.dnx = dnx
        self.cls = cls
        self.directed = cls == 'SnapshotDiGraph'
        self.n = Nodes(make_node(s) for s in nodes)
        self.index = {}
        for i, x in enumerate(self.n):
            self.index.setdefault(x, i)
        self.G = getattr(dnx, cls)()
        self.M = {}             # (start, end) -> Snap, node indices instead of nodes
        self.states = set()
        self.answers = 0
        self.max_len = 0
        self.splits = 0
        self.shared = 0
        self.round_trips = 0
        self.converted = 0
        self.fired = {}
        self.limit = STEP_LIMIT
        self.saved = None
        self.format = {}

    # ----------------------------------------------------------------------------------------------- helpers

    def call(self, what, f, *args, **kwargs):
        try:
            with seams.budget(self.limit):
                return f(*args, **kwargs)
        except (Violation, HarnessError, seams.SimCrash):
            raise
        except Exception as e:
            if isinstance(e.__context__, SimInterrupt):
                raise e.__context__     # the cut came out as an error of the read
            raise Violation('raised', '%s raised %s: %s' % (what, type(e).__name__, e))

    def attempt(self, f, *args, **kwargs):
        try:
            with seams.budget(self.limit):
                return f(*args, **kwargs), None
        except (Violation, HarnessError, seams.SimCrash):
            raise
        except Exception as e:
            return None, e

    def do(self, op):
        f = getattr(self, 'op_' + op[0], None)
        if f is None:
            raise HarnessError('unknown operation %r' % (op,))
        r = f(*op[1:])
        self.max_len = max(self.max_len, len(self.M))
        if op[0] in ('snap', 'add_edges', 'add_nodes'):
            self.states.add(hash(tuple((k, frozenset(s.nodes), frozenset(s.edges)) for k, s in sorted(self.M.items()))))
        return r

    def nid(self, x, what):
        try:
            return self.index[x]
        except (KeyError, TypeError):
            raise Violation('foreign-node', '%s contains %r, which is not a node of this graph' % (what, x))

    def frozen_real(self, g, what, directed=None, multi=False):
        directed = self.directed if directed is None else directed
        if g.is_directed() != directed:
            raise Violation('snapshot-type', '%s is a %s' % (what, type(g).__name__))
        if g.is_multigraph() != multi:
            raise Violation('snapshot-type', '%s is a %s' % (what, type(g).__name__))
        nodes = {self.nid(n, what): freeze(dict(a)) for n, a in g.nodes(data=True)}
        edges = {}
        for e in g.edges(keys=True, data=True) if multi else g.edges(data=True):
            u, v, a = self.nid(e[0], what), self.nid(e[1], what), e[-1]
            if not directed and v < u:
                u, v = v, u
            edges[(u, v) + tuple(e[2:-1])] = freeze(dict(a))
        return nodes, edges

    def same(self, g, s, what):
        got = self.frozen_real(g, what, s.directed, s.multi)
        want = s.frozen()
        for name, a, b in zip(('nodes', 'edges'), got, want):
            if a != b:
                gone = {k: v for k, v in b.items() if a.get(k) != v}
                new = {k: v for k, v in a.items() if b.get(k) != v}
                raise Violation('snapshot-' + name, '%s: missing %.300r, unexpected %.300r' % (what, gone, new))

    def real(self, what='snapshots'):
        keys = [tuple(k) for k in self.call(what, lambda: list(self.G.snapshots.keys()))]
        graphs = self.call(what, self.G.get)
        if len(keys) != len(graphs) or len(self.G) != len(keys):
            raise Violation('snapshot-count', '%d intervals, %d snapshots' % (len(keys), len(graphs)))
        return list(zip(keys, graphs))

    def target(self, t):
        kw = {}
        if 'i' in t:
            items = [i for i in t['i'] if i < len(self.M)]
            kw['sbunch'] = items if t.get('style') != 'tuple' else tuple(items)
        else:
            if t.get('s') is not None:
                kw['start'] = t['s']
            if t.get('e') is not None:
                kw['end'] = t['e']
        return kw

    def selected(self, t):
        keys = sorted(self.M)
        if 'i' in t:
            return [keys[i] for i in t['i'] if i < len(keys)]
        return [k for k in keys if hits(k, t.get('s'), t.get('e'))]

    def split(self, t):
        if 'i' in t:
            return
        for p in (t.get('s'), t.get('e')):
            if p is None:
                continue
            for k in list(self.M):
                if k[0] < p < k[1]:
                    s = self.M.pop(k)
                    self.M[(k[0], p)] = s
                    self.M[(p, k[1])] = s.copy()
                    self.splits += 1

    # ----------------------------------------------------------------------------------------------- updates

    def fits(self, a, b):
        if (a, b) in self.M:
            return False
        for s, e in self.M:
            if a < e and s < b:
                return False
        return True

    def op_snap(self, how, a, b, edges, nodes):
        if how.endswith('time'):
            b = a
        if not self.fits(a, b):
            return
        directed, multi = self.directed, 'multi' in how
        if 'other' in how:
            directed = not directed
        s = Snap(directed, multi)
        if how.startswith('ebunch'):
            nodes = []
        for n in nodes:
            s.add_node(n, {})
        for u, v, attr in edges:
            s.add_edge(u, v, attr)
        ebunch = [(self.n[u], self.n[v], dict(at)) if at else (self.n[u], self.n[v]) for u, v, at in edges]
        kw = {'time': a} if how.endswith('time') else {'start': a, 'end': b}
        what = 'snapshot %s over [%s, %s)' % (how, a, b)
        if how.startswith('ebunch'):
            self.call(what, self.G.add_snapshot, iter(ebunch) if len(ebunch) % 2 else ebunch, **kw)
        else:
            g = (nx.MultiDiGraph if directed else nx.MultiGraph)() if multi else nx.DiGraph() if directed else nx.Graph()
            g.add_nodes_from(self.n[i] for i in nodes)
            g.add_edges_from(ebunch)
            if how.startswith('insert'):
                self.call(what, self.G.insert, g, **kw)
            else:
                self.call(what, self.G.add_snapshot, graph=g, **kw)
        self.M[(a, b)] = s

    def op_share(self, i, a, b):
        """The graph which is the i-th snapshot is the snapshot of another period as well."""
        if not self.M or not self.fits(a, b):
            return
        keys = sorted(self.M)
        k = keys[i % len(keys)]
        g = self.call('get', lambda: list(self.G.get()))[i % len(keys)]
        self.call('insert of a snapshot which is there for another period', self.G.insert, g, start=a, end=b)
        self.M[(a, b)] = self.M[k].copy()
        self.shared += 1

    def op_add_edges(self, edges, t, attrs, style='list'):
        ebunch = [(self.n[u], self.n[v], dict(at)) if at else (self.n[u], self.n[v]) for u, v, at in edges]
        what = 'add_edges_from(%d edges, %r)' % (len(edges), t)
        kw = self.target(t)
        self.call(what, self.G.add_edges_from, iter(ebunch) if style == 'iter' else ebunch, **kw, **attrs)
        self.split(t)
        for k in self.selected(t):
            for u, v, at in edges:
                self.M[k].add_edge(u, v, dict(attrs, **at))

    def op_add_nodes(self, nodes, t, attrs, style='list'):
        nbunch = [(self.n[u], dict(at)) if at else self.n[u] for u, at in nodes]
        what = 'add_nodes_from(%d nodes, %r)' % (len(nodes), t)
        kw = self.target(t)
        self.call(what, self.G.add_nodes_from, iter(nbunch) if style == 'iter' else nbunch, **kw, **attrs)
        self.split(t)
        for k in self.selected(t):
            for u, at in nodes:
                self.M[k].add_node(u, dict(attrs, **at))

    def op_bad(self, how, edges, t, attrs, at):
        """An update which fails half way: nothing may be lost, and nothing outside its interval may change."""
        good = [(self.n[u], self.n[v], dict(x)) if x else (self.n[u], self.n[v]) for u, v, x in edges]
        kw = self.target(t)

        def source():
            for i, x in enumerate(good):
                if i == at:
                    raise SourceFailed('the source of the update broke off')
                yield x

        if how == 'source':
            arg = source()
        elif how == 'malformed':
            arg = good[:at] + [(self.n[0],)] + good[at:]
        elif how == 'unhashable':
            arg = good[:at] + [([1], self.n[0])] + good[at:]
        elif how == 'index':
            arg, kw = good, {'sbunch': [i for i in range(len(self.M))][:at] + [len(self.M) + 5]}
        elif how == 'both':
            arg, kw = good, {'sbunch': [0], 'start': 0, 'end': 1}
        elif how == 'snap-broken':
            _, err = self.attempt(self.G.add_snapshot, source(), start=10 ** 6, end=10 ** 6 + 1)
            if err is None:
                raise Violation('accepted', 'add_snapshot from a source which broke off succeeded')
            self.op_audit()
            return
        elif how == 'snap-reversed':
            _, err = self.attempt(self.G.add_snapshot, good, start=10 ** 6 + 1, end=10 ** 6)
            if err is None:
                raise Violation('accepted', 'add_snapshot over a reversed interval succeeded')
            self.op_audit()
            return
        elif how == 'snap-half':
            _, err = self.attempt(self.G.add_snapshot, good, start=10 ** 6)
            if err is None:
                raise Violation('accepted', 'add_snapshot without an end succeeded')
            self.op_audit()
            return
        else:
            raise HarnessError('unknown fault %r' % how)
        touched = set(self.selected({'i': kw['sbunch'][:-1]})) if how == 'index' else set() if how == 'both' \
            else set(self.selected(t))
        _, err = self.attempt(self.G.add_edges_from, arg, **kw, **attrs)
        if err is None and (touched or how not in ('malformed', 'unhashable', 'source')):
            raise Violation('accepted', 'add_edges_from with a fault of kind %s succeeded' % how)

        def grow(limit):
            for u, v, x in edges:
                limit.add_edge(u, v, dict(attrs, **x))

        self.after_failure(how, kw, t, touched, grow)

    def op_bad_nodes(self, how, nodes, t, attrs, at):
        """An update of nodes which fails half way."""
        good = [(self.n[u], dict(x)) if x else self.n[u] for u, x in nodes]
        kw = self.target(t)

        def source():
            for i, x in enumerate(good):
                if i == at:
                    raise SourceFailed('the source of the update broke off')
                yield x

        arg = {'source': source(), 'unhashable': good[:at] + [[1]] + good[at:],
               'pair': good[:at] + [([1], {})] + good[at:]}.get(how, good)
        touched = set(self.selected(t))
        if how == 'index':
            kw = {'sbunch': [i for i in range(len(self.M))][:at] + [len(self.M) + 5]}
            touched = set(self.selected({'i': kw['sbunch'][:-1]}))
        elif how == 'both':
            kw, touched = {'sbunch': [0], 'start': 0, 'end': 1}, set()
        _, err = self.attempt(self.G.add_nodes_from, arg, **kw, **attrs)
        if err is None and (touched or how in ('index', 'both')):
            raise Violation('accepted', 'add_nodes_from with a fault of kind %s succeeded' % how)

        def grow(limit):
            for u, x in nodes:
                limit.add_node(u, dict(attrs, **x))

        self.after_failure('nodes-' + how, kw, t, touched, grow)

    def after_failure(self, how, kw, t, touched, grow):
        # what each snapshot may hold now
        now = {}
        for key, g in self.real():
            now[key] = g
        new = {}
        for k, s in self.M.items():
            parts = sorted(x for x in now if (x[0] >= k[0] and x[1] <= k[1]) and (x[0] < x[1] or x == k))
            if not parts or parts[0][0] != k[0] or parts[-1][1] != k[1] or any(a[1] != b[0] for a, b in zip(parts, parts[1:])):
                raise Violation('snapshot-lost', 'a failed update (%s) left the intervals %r for %r' % (how, sorted(now), k))
            for p in parts:
                nodes, ed = self.frozen_real(now[p], 'snapshot %r after a failed update' % (p,), s.directed, s.multi)
                inside = k in touched and (how.endswith('index') or hits(p, t.get('s'), t.get('e')) or 'i' in t)
                limit = s.copy()
                if inside:
                    grow(limit)
                wn, we = s.frozen()
                ln, le = limit.frozen()
                for name, got, low, high in (('nodes', nodes, wn, ln), ('edges', ed, we, le)):
                    bad = [x for x in low if x not in got] + [x for x in got if x not in high]
                    if not inside:
                        bad += [x for x in low if got.get(x) != low[x]]
                    if bad:
                        raise Violation('snapshot-' + name, 'after a failed update (%s, %r) snapshot %r differs in %r' % (
                            how, kw, p, bad[:4]))
                # go on from what there is
                z = Snap(s.directed, s.multi)
                for n, a in now[p].nodes(data=True):
                    z.nodes[self.nid(n, 'snapshot')] = dict(a)
                for u, v, a in now[p].edges(data=True):
                    z.add_edge(self.nid(u, 'snapshot'), self.nid(v, 'snapshot'), dict(a))
                new[p] = z
        if set(new) != set(now):
            raise Violation('snapshot-count', 'a failed update (%s) made the intervals %r' % (how, sorted(set(now) - set(new))))
        self.M = new
        self.answers += 1
        self.fired['update-failed:' + how] = self.fired.get('update-failed:' + how, 0) + 1

    # ----------------------------------------------------------------------------------------------- queries

    def op_audit(self):
        self.answers += 1
        got = self.real()
        keys = sorted(self.M)
        if [k for k, _ in got] != keys:
            raise Violation('snapshot-count', 'the intervals are %r, expected %r' % ([k for k, _ in got], keys))
        for k, g in got:
            self.same(g, self.M[k], 'snapshot %r' % (k,))
            if not self.call('in', lambda: g in self.G):
                raise Violation('snapshot-count', 'snapshot %r is not in the graph' % (k,))
        if self.call('in', lambda: nx.Graph() in self.G):
            raise Violation('snapshot-count', 'a graph which was never inserted is in the graph')
        walked = self.call('iter', lambda: list(iter(self.G)))
        if len(walked) != len(keys):
            raise Violation('snapshot-count', 'iteration yields %d snapshots, expected %d' % (len(walked), len(keys)))
        for k, g in zip(keys, walked):
            self.same(g, self.M[k], 'iterated snapshot %r' % (k,))

    def op_ask(self, what, t, arg):
        self.answers += 1
        kw = self.target(t)
        keys = self.selected(t)
        snaps = [self.M[k] for k in keys]
        name = '%s(%r)' % (what, kw)
        G = self.G

        def check(got, want):
            if list(got) != want:
                raise Violation('snapshot-answer', '%s is %.300r, expected %.300r' % (name, list(got), want))

        def each(got, form=None):
            if len(got) != len(snaps):
                raise Violation('snapshot-answer', '%s has %d snapshots, expected %d' % (name, len(got), len(snaps)))
            for k, g, s in zip(keys, got, snaps):
                self.same(g, form(s) if form else s, '%s at %r' % (name, k))

        if what == 'get':
            each(self.call(name, G.get, **kw))
        elif what == 'number_of_nodes' or what == 'order':
            check(self.call(name, getattr(G, what), **kw), [len(s.nodes) for s in snaps])
        elif what == 'has_node':
            check(self.call(name, G.has_node, self.n[arg], **kw), [arg in s.nodes for s in snaps])
        elif what == 'size':
            got = self.call(name, G.size, weight=arg, **kw) if arg else self.call(name, G.size, **kw)
            want = [s.size(arg) for s in snaps]
            if len(got) != len(want) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(got, want)):
                raise Violation('snapshot-answer', '%s is %r, expected %r' % (name, got, want))
        elif what == 'is_directed':
            check(self.call(name, G.is_directed, **kw), [s.directed for s in snaps])
        elif what == 'is_multigraph':
            check(self.call(name, G.is_multigraph, **kw), [s.multi for s in snaps])
        elif what == 'degree':
            nodes, weight = arg
            if weight:
                kw['weight'] = weight
            if isinstance(nodes, int):
                if any(nodes not in s.nodes for s in snaps):
                    return
                got = self.call(name, G.degree, nbunch=self.n[nodes], **kw)
                want = [s.degree(nodes, weight) for s in snaps]
                if len(got) != len(want) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(got, want)):
                    raise Violation('snapshot-answer', '%s of %r is %r, expected %r' % (name, self.n[nodes], got, want))
                return
            if nodes is not None:
                kw['nbunch'] = [self.n[i] for i in nodes]
            got = [{self.nid(n, name): d for n, d in dict(x).items()} for x in self.call(name, G.degree, **kw)]
            want = [{n: s.degree(n, weight) for n in s.nodes if nodes is None or n in nodes} for s in snaps]
            ok = len(got) == len(want) and all(a.keys() == b.keys() and all(abs(a[n] - b[n]) <= 1e-9 * max(1, abs(b[n])) for n in a)
                                               for a, b in zip(got, want))
            if not ok:
                raise Violation('snapshot-answer', '%s is %.300r, expected %.300r' % (name, got, want))
        elif what == 'to_directed':
            got = self.call(name, G.to_directed, **kw)
            each(got, Snap.directed_form)
            self.scribble(got, arg, lambda: each(self.call(name + ' again', G.to_directed, **kw), Snap.directed_form))
        elif what == 'to_undirected':
            got = self.call(name, G.to_undirected, **kw)
            if len(got) != len(snaps):
                raise Violation('snapshot-answer', '%s has %d snapshots, expected %d' % (name, len(got), len(snaps)))
            for k, g, s in zip(keys, got, snaps):
                if not s.directed:
                    self.same(g, s, '%s at %r' % (name, k))
                    continue
                # of two edges against each other one remains, with the attributes of either
                n, e = self.frozen_real(g, name, False, s.multi)
                want = {(min(p[:2]), max(p[:2])) + p[2:] for p in s.edges}
                if set(e) != want or n != s.frozen()[0]:
                    raise Violation('snapshot-answer', '%s at %r has the edges %r, expected %r' % (name, k, sorted(e), sorted(want)))
            self.scribble(got, arg, lambda: None)
        elif what == 'subgraph':
            got = self.call(name, G.subgraph, [self.n[i] for i in arg], **kw)
            # the same snapshot, asked for twice, is one snapshot
            expect = sorted(set(keys))
            real = [tuple(k) for k in got.snapshots.keys()]
            if real != expect:
                raise Violation('snapshot-answer', '%s has the intervals %r, expected %r' % (name, real, expect))
            for k, g in zip(expect, self.call(name, got.get)):
                self.same(g, self.M[k].sub(set(arg)), '%s at %r' % (name, k))
        elif what == 'statistic':
            f, want = {
                'edges': (lambda g: g.number_of_edges(), lambda s: len(s.edges)),
                'loops': (nx.number_of_selfloops, lambda s: sum(k[0] == k[1] for k in s.edges)),
                'scaled': (lambda g, factor=1: factor * g.number_of_nodes(), lambda s: 3 * len(s.nodes)),
            }[arg]
            if arg == 'scaled':
                kw['factor'] = 3
            check(self.call(name, G.compute_network_statistic, f, **kw), [want(s) for s in snaps])
        else:
            raise HarnessError('unknown question %r' % what)

    def scribble(self, copies, at, again):
        """The client changes one of the copies: neither the graph nor another copy changes."""
        if at is None or not copies:
            return
        at %= len(copies)
        before = [self.frozen_real(g, 'copy', g.is_directed(), g.is_multigraph()) for g in copies]
        g = copies[at]
        for n in list(g.nodes())[:2]:
            g.nodes[n]['note'] = 'client'
        for e in list(g.edges(data=True))[:2]:
            e[2]['weight'] = 'client'
        for e in list(g.edges())[2:3]:
            g.remove_edge(*e)
        g.add_edge(self.n[0], self.n[-1], note='client')
        g.remove_node(list(g.nodes())[0])
        for i, h in enumerate(copies):
            if i != at and self.frozen_real(h, 'copy', h.is_directed(), h.is_multigraph()) != before[i]:
                raise Violation('snapshot-copy', 'changing copy %d changes copy %d' % (at, i))
        self.fired['copy-changed-by-client'] = self.fired.get('copy-changed-by-client', 0) + 1
        self.op_audit()
        again()

    def op_to_interval(self, begin, period):
        """The interval graph which is made of the snapshots has, at each of them, its edges."""
        if not self.M:
            return
        self.answers += 1
        name = 'IntervalDiGraph' if self.directed else 'IntervalGraph'
        what = '%s.from_snapshot_graph(begin=%r, period=%r)' % (name, begin, period)
        cls = getattr(self.dnx, name)
        kw = {}
        if begin != 0:
            kw['begin'] = begin
        if period != 1:
            kw['period'] = period
        ig = self.call(what, cls.from_snapshot_graph, self.G, **kw)
        if type(ig) is not cls:
            raise Violation('type', '%s is a %s' % (what, type(ig).__name__))
        snaps = [self.M[k] for k in sorted(self.M)]
        grid = [begin + period * i for i in range(len(snaps) + 1)]

        def pair(t):
            u, v = self.nid(t[0], what), self.nid(t[1], what)
            return (u, v) if self.directed or u <= v else (v, u)

        for i, s in enumerate(snaps):
            got = [pair(t) for t in self.call(what, lambda: list(ig.edges(begin=grid[i], end=grid[i + 1])))]
            # parallel edges of a multigraph become one
            want = sorted({k[:2] for k in s.edges})
            if sorted(got) != want:
                raise Violation('converted-edges', '%s has the edges %r in [%s, %s), snapshot %d has %r' % (
                    what, sorted(got)[:6], grid[i], grid[i + 1], i, want[:6]))
        self.converted += len(snaps)
        ends = set()
        for t, a in self.call(what, lambda: list(ig.edges(data=True))):
            p = pair(t)
            ends.update(p)
            if t[2] not in grid or t[3] not in grid or not t[2] < t[3]:
                raise Violation('converted-times', '%s has %r, the snapshots begin at %r' % (what, t, grid))
            covered = [freeze(a) for s in snaps[grid.index(t[2]):grid.index(t[3])] for k, a in s.edges.items() if k[:2] == p]
            if freeze(dict(a)) not in covered:
                raise Violation('converted-attributes', '%s has %r with %r, the snapshots have %r' % (what, t, a, covered[:3]))
        nodes = [self.nid(n, what) for n in self.call(what, lambda: list(ig.nodes()))]
        if set(nodes) != ends or len(nodes) != len(ends):
            raise Violation('converted-nodes', '%s has the nodes %r, expected %r' % (what, sorted(nodes), sorted(ends)))

    # --------------------------------------------------------------------------------------------------- disk

    def harvest(self):
        for k, v in seams.DISK.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        set_disk({})

    def flat(self):
        """What the file has to contain: per interval the size and the weighted adjacency by position."""
        out = {}
        for k, g in self.real():
            pos = {n: i for i, n in enumerate(g.nodes())}
            edges = {}
            s = self.M[k]
            for (u, v), a in s.edges.items():
                p, q = pos[self.n[u]], pos[self.n[v]]
                if not self.directed and q < p:
                    p, q = q, p
                edges[(p, q)] = float(a.get('weight', 1))
            out[(float(k[0]), float(k[1]))] = (len(s.nodes), edges)
        return out

    def op_save(self, fmt, cfg):
        if not self.M or any(not s.nodes for s in self.M.values()):
            return
        self.op_audit()
        want = self.flat()
        before = bytes(seams.DISK.files[PATH]) if PATH in seams.DISK.files else None
        set_disk(cfg)
        kw = {k: v for k, v in fmt.items() if v is not None}
        crashed = False
        err = None
        try:
            _, err = self.attempt(self.G.save_to_txt, PATH, **kw)
        except seams.SimCrash:
            crashed = True
        fatal = fatal_fired()
        self.harvest()
        self.format = fmt
        if crashed:
            self.saved = None
            self.fired['restart'] = self.fired.get('restart', 0) + 1
            if PATH in seams.DISK.files and seams.DISK.files[PATH] != before:
                loaded, err = self.attempt(self.load)
                if err is None:
                    got = self.parsed(loaded)
                    odd = [k for k in got if want.get(k) != got[k]]
                    if len(odd) > 1:
                        raise Violation('torn', 'after a crash while saving %d snapshots load which were not there: %r' % (
                            len(odd), odd[:4]))
            return
        if err is not None:
            if not fatal:
                raise Violation('raised', 'save_to_txt(%r) raised %s: %s' % (kw, type(err).__name__, err))
            self.saved = None
            self.op_audit()
            return
        self.saved = want
        if fatal:
            self.op_load({})

    def text(self, path):
        self.call('save_to_txt', self.G.save_to_txt, path)
        return bytes(seams.DISK.files[path])

    def alone(self, path):
        """What the file of the graph is when nobody else is at work, None if it cannot be saved."""
        self.file = None
        if self.M and all(s.nodes for s in self.M.values()):
            self.file = self.text(path), self.parsed(getattr(self.dnx, self.cls).load_from_txt(path))

    def op_file(self, path):
        """Save the graph while others read it, and load it again."""
        if self.file is None:
            return
        self.answers += 1
        text = self.text(path)
        if text != self.file[0]:
            raise Violation('file', 'the file saved among readers is %.300r, alone it is %.300r' % (text, self.file[0]))
        got = self.parsed(self.call('load_from_txt', getattr(self.dnx, self.cls).load_from_txt, path))
        if got != self.file[1]:
            raise Violation('file', 'the file loaded among readers is %.300r, alone it is %.300r' % (got, self.file[1]))

    def load(self):
        kw = {k: v for k, v in self.format.items() if v is not None}
        return getattr(self.dnx, self.cls).load_from_txt(PATH, **kw)

    def parsed(self, g):
        if type(g) is not getattr(self.dnx, self.cls):
            raise Violation('type', 'load_from_txt returned a %s' % type(g).__name__)
        out = {}
        for k, s in zip(list(g.snapshots.keys()), g.get()):
            if s.is_directed() != self.directed or s.is_multigraph():
                raise Violation('snapshot-type', 'a loaded snapshot is a %s' % type(s).__name__)
            pos = {n: i for i, n in enumerate(s.nodes())}
            edges = {}
            for u, v, a in s.edges(data=True):
                p, q = pos[u], pos[v]
                if not self.directed and q < p:
                    p, q = q, p
                edges[(p, q)] = float(a.get('weight', 1))
            out[(float(k[0]), float(k[1]))] = (len(pos), edges)
        return out

    def op_load(self, cfg):
        if self.saved is None:
            return
        set_disk(cfg)
        loaded, err = self.attempt(self.load)
        fatal = fatal_fired()
        self.harvest()
        if err is not None:
            if fatal:
                return
            raise Violation('raised', 'load_from_txt(%r) raised %s: %s' % (self.format, type(err).__name__, err))
        got = self.parsed(loaded)
        self.answers += 1
        self.round_trips += 1
        if got != self.saved:
            gone = [k for k in self.saved if k not in got]
            new = [k for k in got if k not in self.saved]
            differ = [(k, self.saved[k], got[k]) for k in got if k in self.saved and got[k] != self.saved[k]]
            raise Violation('round-trip', 'load_from_txt(%r): missing %r, unexpected %r, different %.300r' % (
                self.format, gone[:3], new[:3], differ[:2]))

    def op_foreign(self, fmt, items, layout, cfg):
        """A file which another program wrote: remarks, blank lines, the interval in either order, numbers in any form."""
        start, end = fmt.get('start') or 'start', fmt.get('end') or 'end'
        delimiter, comments = fmt.get('delimiter') or ';', fmt.get('comments') or '#'
        lines, want, bad = [], {}, None
        for item in items:
            if item[0] == 'comment':
                lines.append(comments + item[1])
                continue
            if item[0] == 'blank':
                lines.append(item[1])
                continue
            _, a, b, n, edges, form, last, remark, how = item
            if how is None and (float(a), float(b)) in want:
                continue
            m = [['0' if form % 2 else '0.0'] * n for _ in range(n)]
            kept = {}
            for p, q, w in edges:
                p, q = p % n, q % n
                if not self.directed and q < p:
                    p, q = q, p
                kept[(p, q)] = float(w)
                m[p][q] = repr(w)
                if not self.directed:
                    m[q][p] = repr(float(w))
            if how == 'ragged':
                m[n - 1] = m[n - 1][:-1] if n > 1 else ['0', '1']
            elif how == 'word':
                m[0][0] = 'one'
            if how == 'reversed':
                a, b = b + 1, a
            parts = ['%s=%s' % (start, a), '%s=%s' % (end, b)]
            if how == 'half':
                del parts[form % 2]
            elif how == 'no-interval':
                parts = []
            elif how == 'time':
                parts[form % 2] = (start, end)[form % 2] + '=noon'
            if last:
                parts.reverse()
            line = ' '.join([delimiter.join(' '.join(r) for r in m)] + parts)
            if form % 3 == 0:
                line = '  ' + line + ' '
            if remark is not None:
                line += ' ' + comments + remark
            lines.append(line)
            if how is not None:
                bad = how
            else:
                want[(float(a), float(b))] = (n, kept)
        text = layout[0].join(lines) + (layout[0] if lines and layout[1] else '')
        seams.DISK.files['/sim/foreign.txt'] = bytearray(text.encode())
        set_disk(cfg)
        kw = {k: v for k, v in fmt.items() if v is not None}
        what = '%s.load_from_txt of a file of another program (%r)' % (self.cls, kw)
        loaded, err = self.attempt(getattr(self.dnx, self.cls).load_from_txt, '/sim/foreign.txt', **kw)
        fatal = fatal_fired()
        self.harvest()
        self.answers += 1
        if bad:
            self.fired['malformed-line:' + bad] = self.fired.get('malformed-line:' + bad, 0) + 1
            if err is None:
                raise Violation('accepted', '%s with a malformed line (%s) returned' % (what, bad))
            return
        if err is not None:
            if fatal:
                return
            raise Violation('raised', '%s raised %s: %s' % (what, type(err).__name__, err))
        got = self.parsed(loaded)
        self.round_trips += 1
        if got != want:
            raise Violation('foreign', '%s: missing %.300r, unexpected %.300r' % (
                what, {k: v for k, v in want.items() if got.get(k) != v}, {k: v for k, v in got.items() if want.get(k) != v}))


# -------------------------------------------------------------------------------------------------------- generator

def foreign(rng, g, ops, disk):
    fmt = {'delimiter': rng.choice([None, ',', '|', '/', ':', '\t']), 'start': None, 'end': None,
           'comments': rng.choice([None, None, '%', '//', '!'])}
    if fmt['delimiter'] == '/':
        fmt['comments'] = None
    if rng.random() < 0.4:
        fmt['start'], fmt['end'] = rng.choice([('begin', 'stop'), ('from', 'to'), ('s', 't'), ('t0', 't1'), ('time', 'until')])
    items = []
    t = rng.choice([0, 1, -5, 0.5, -2.25, 1e6])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        k = rng.random()
        if k < 0.15:
            items.append(['comment', rng.choice(['', ' a remark', ' 0 1;1 0 start=3 end=4'])])
            g.note('comment-line')
        elif k < 0.25:
            items.append(['blank', rng.choice(['', ' ', '\t'])])
            g.note('blank-line')
        b = t + rng.choice([1, 2, 0.5, 0])
        n = rng.choice([1, 2, 2, 3, 4, 7])
        edges = [[rng.randrange(n), rng.randrange(n), rng.choice([1, 1, 2, 0.5, -3, 1e-7, 12.75, 1e16])]
                 for _ in range(rng.choice([0, 1, 2, 4, 9]))]
        items.append(['line', t, b, n, edges, rng.randrange(6), rng.random() < 0.4,
                      rng.choice([None, None, None, ' a remark', ' start=9']), None])
        t = b + rng.choice([0, 0, 1, 2.5])
    if items and rng.random() < 0.7:
        rng.shuffle(items)
        g.note('lines-reordered')
    if rng.random() < 0.12:
        lines = [i for i in items if i[0] == 'line']
        if lines:
            rng.choice(lines)[8] = rng.choice(['ragged', 'word', 'reversed', 'half', 'no-interval', 'time'])
    ops.append(['foreign', fmt, items, [rng.choice(['\n', '\n', '\r\n']), rng.random() < 0.7],
                disk(rng, g, rng.choice([None, None, 'load']))])


def snap_history(rng, updates=1.0, queries=0.5, bad=0.1, disk=None, convert=False, nodes=None, kinds=False, readers=0, endless=False):
    cls = rng.choice(['SnapshotGraph', 'SnapshotDiGraph'])
    spread = convert
    g = Gen(rng, 'IntervalDiGraph' if cls == 'SnapshotDiGraph' else 'IntervalGraph')
    # now and then many snapshots, or large ones
    large = rng.choice(['many', 'wide']) if nodes is None and rng.random() < 0.01 else None
    g.configure(n=rng.choice([2, 3, 4, 6, 10]) if large != 'wide' else rng.choice([15, 30, 60]))
    if large:
        g.note('large-' + large)
    if nodes is not None:
        g.nodes = nodes
    step = rng.choice([1, 1, 2, 0.5, 10])
    base = rng.choice([0, 0, 1, -5, 100])
    # cut time into pieces; some become snapshots, some stay empty
    points = [base]
    for _ in range(rng.choice([2, 3, 4, 6, 9, 16]) if large != 'many' else rng.choice([30, 50, 120])):
        points.append(points[-1] + step * rng.choice([1, 1, 2, 3, 5]))

    def attr():
        out = {}
        if rng.random() < 0.5:
            out['weight'] = rng.choice([1, 2, 7, 0.25, 0.5, 12.75, 1.1, 1 / 3, 1e-7, -3, 123456789.125, 1e16,
                                        rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20), 2 ** 53 + 1, -1e-300])
        if rng.random() < 0.2:
            out['colour'] = rng.choice(['red', 'blue', 0, ''])
        return out

    def edges(n=None):
        n = rng.choice([0, 1, 1, 2, 3, 6] if large != 'wide' else [1, 5, 20, 60]) if n is None else n
        return [[*g.pair(), attr()] for _ in range(n)]

    def anytime():
        k = rng.random()
        if k < 0.55:
            return rng.choice(points)
        if k < 0.65:
            return 0
        a, b = points[0] - 2 * step, points[-1] + 2 * step
        return a + step * rng.randint(0, int((b - a) / step)) / rng.choice([1, 1, 2, 4])

    def target(update=False):
        k = rng.random()
        if k < 0.3:
            m = len(points) + 3
            style = rng.choice(['list', 'tuple'])
            return {'i': [rng.randrange(m) for _ in range(rng.choice([0, 1, 1, 2, 4]))], 'style': style}
        if k < 0.4:
            return {}
        if k < 0.55:
            return {'s': anytime()}
        if k < 0.7:
            return {'e': anytime()}
        a, b = anytime(), anytime()
        if b < a:
            a, b = b, a
        if a == b:
            b = a + step
        return {'s': a, 'e': b}

    messages = []
    order = list(zip(points, points[1:]))
    for a, b in order:
        if rng.random() < 0.15:
            continue
        how = rng.choice(['ebunch', 'ebunch', 'graph', 'insert'])
        if kinds and how != 'ebunch' and rng.random() < 0.4:
            how += '-multi' if kinds == 'multi' else rng.choice(['-multi', '-other', '-other-multi'])
            g.note('snapshot-of-another-kind')
        if rng.random() < 0.12:
            how += '-time'
        nodes = [g.any_node() for _ in range(rng.choice([0, 0, 1, 3]))]
        es = edges()
        if disk is not None and not es and not nodes:
            es = edges(1)
        if disk is not None and not es and how.startswith('ebunch'):
            es = edges(1)
        messages.append(['snap', how, a, b, es, nodes])
    swarm = g.swarm()
    arrived = g.deliver(messages, swarm)
    ops = []

    def update():
        style = rng.choice(['list', 'list', 'iter'])
        if rng.random() < 0.65:
            return ['add_edges', edges(), target(True), attr() if rng.random() < 0.3 else {}, style]
        return ['add_nodes', [[g.any_node(), attr()] for _ in range(rng.choice([1, 2, 3]))], target(True),
                attr() if rng.random() < 0.3 else {}, style]

    def question():
        what = rng.choice(['get', 'get', 'number_of_nodes', 'order', 'has_node', 'size', 'size', 'degree', 'degree', 'degree',
                           'is_directed', 'is_multigraph', 'to_directed', 'to_undirected', 'subgraph', 'subgraph', 'statistic'])
        arg = None
        if what == 'has_node':
            arg = g.any_node()
        elif what == 'size':
            arg = rng.choice([None, 'weight'])
        elif what == 'degree':
            arg = [rng.choice([None, g.any_node(), [g.any_node() for _ in range(3)]]), rng.choice([None, 'weight'])]
        elif what == 'subgraph':
            arg = [g.any_node() for _ in range(rng.choice([0, 1, 2, 4]))]
        elif what in ('to_directed', 'to_undirected') and rng.random() < 0.6:
            arg = rng.randrange(8)
        elif what == 'statistic':
            arg = rng.choice(['edges', 'loops', 'scaled'])
        return ['ask', what, target(), arg]

    def broken():
        if rng.random() < 0.3:
            how = rng.choice(['source', 'unhashable', 'pair', 'index', 'both'])
            ns = [[g.any_node(), attr()] for _ in range(rng.choice([1, 2, 4]))]
            g.note('update-breaks-off:nodes-' + how)
            return ['bad_nodes', how, ns, target(True), attr() if rng.random() < 0.3 else {}, rng.randrange(len(ns))]
        how = rng.choice(['source', 'malformed', 'malformed', 'unhashable', 'index', 'both', 'snap-broken', 'snap-reversed', 'snap-half'])
        es = edges(rng.choice([1, 2, 4]))
        g.note('update-breaks-off:' + how)
        return ['bad', how, es, target(True), attr() if rng.random() < 0.3 else {}, rng.randrange(len(es))]

    def conversion():
        return ['to_interval', rng.choice([0, 0, 1, -3, 10, 0.5]), rng.choice([1, 1, 2, 5, 0.25])]

    poll = Poll(rng, g)
    extra = rng.choice([0, 2, 5, 10, 20])
    for op in arrived + [None] * extra:
        if op is not None:
            ops.append(op)
        while rng.random() < updates * 0.45:
            ops.append(update())
            if ops[-1][0] == 'add_edges' and spread and rng.random() < 0.5:
                ops[-1][2] = {}     # an edge which lasts
            if rng.random() < 0.1:
                g.note('message-duplicated')
                ops.append(ops[-1])
            if rng.random() < 0.3:
                ops.append(['audit'])
        if rng.random() < bad:
            ops.append(broken())
            if rng.random() < 0.4:
                g.note('failed-update-retried')
                o = ops[-1]
                if o[1] in ('malformed', 'unhashable', 'source', 'pair'):
                    ops.append(['add_edges' if o[0] == 'bad' else 'add_nodes', o[2], o[3], o[4], 'list'])
        while queries and rng.random() < queries * 0.5:
            ops.append(poll(question))
        if disk is not None and rng.random() < 0.25:
            save(rng, g, ops, disk)
        if convert and rng.random() < 0.3:
            ops.append(conversion())
    if rng.random() < 0.25:
        # a graph which serves for several periods, after the last update
        far = points[-1]
        for _ in range(rng.choice([1, 1, 2, 4])):
            a, b = rng.choice([(far, far + step), (far + step, far + 2 * step), (points[0] - step, points[0]),
                               rng.choice(order), rng.choice(order)])
            ops.append(['share', rng.randrange(20), a, b])
            far = max(far, b)
            g.note('snapshot-used-twice')
        for _ in range(rng.choice([0, 3, 6]) if queries else 0):
            ops.append(poll(question))
    ops.append(['audit'])
    if convert:
        ops.append(conversion())
    if disk is not None:
        save(rng, g, ops, disk)
        if rng.random() < 0.6:
            foreign(rng, g, ops, disk)
    plan = {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': g.sim_time}
    if endless:
        # many different questions about a graph which stays as it is
        plan['quiet'] = len(ops)
        for _ in range(rng.choice([300, 600])):
            q = question()
            if 'i' not in q[2] and q[2]:
                q[2] = {k: v + rng.random() * step for k, v in q[2].items()}
                if 's' in q[2] and 'e' in q[2]:
                    q[2]['s'], q[2]['e'] = sorted((q[2]['s'], q[2]['e']))
            ops.append(q)
    if readers:
        plan['threads'] = []
        for t in range(readers):
            qs = []
            for q in range(rng.choice([1, 2, 4, 8])):
                k = rng.random()
                qs.append(['audit'] if k < 0.1 else ['file', '/sim/copy-%d-%d.txt' % (t, q)] if k < 0.2 else
                          conversion() if k < 0.35 and not kinds else question())
            plan['threads'].append(qs)
    return plan


def save(rng, g, ops, disk):
    fmt = {'delimiter': rng.choice([None, None, ',', '|', '/', ':', '\t']), 'start': None, 'end': None}
    if rng.random() < 0.3:
        fmt['start'], fmt['end'] = rng.choice([('begin', 'stop'), ('from', 'to'), ('s', 't'), ('t0', 't1')])
    k = rng.random()
    if k < 0.25:
        d = disk(rng, g, 'save')
        ops.append(['save', fmt, d])
        if rng.random() < 0.7:
            ops.append(['save', fmt, disk(rng, g)])
    elif k < 0.4:
        d = disk(rng, g)
        d['faults'].append({'op': 'write', 'at': rng.choice([0, 1, rng.randint(0, 60), rng.randint(0, 600)]), 'kind': 'crash'})
        ops.append(['save', fmt, d])
        ops.append(['save', fmt, disk(rng, g)])
    else:
        ops.append(['save', fmt, disk(rng, g)])
    if rng.random() < 0.3:
        ops.append(['load', disk(rng, g, 'load')])
    ops.append(['load', disk(rng, g)])
