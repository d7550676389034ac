"""Replicas whose contents are exported (to networkx graphs, snapshots, snapshot graphs), imported and held by clients."""
import math
from collections import Counter
from fractions import Fraction

from .seams import Violation, HarnessError
from .graphs import Replica, freeze, TF, TT
from .model import Model


def freeze_item(x):
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


class ExportReplica(Replica):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.exports = 0
        self.exported_edges = 0
        self.held_checks = 0
        self.held = []

    # --------------------------------------------------------------------------------------------- comparing

    def options(self, o):
        kw = {}
        if o.get('multigraph'):
            kw['multigraph'] = True
        if o.get('edge_data'):
            kw['edge_data'] = True
        if o.get('ts'):
            kw['edge_interval_data' if self.kind == 'interval' else 'edge_timestamp_data'] = True
        if o.get('node_data'):
            kw['node_data'] = True
        return kw

    def stamped(self, k, o):
        """What one edge has to carry in an export."""
        a = dict(self.M.edges[k]) if o.get('edge_data') else {}
        if o.get('ts'):
            if self.kind == 'interval':
                a['begin'], a['end'] = k[2], k[3]
            else:
                a['timestamp'] = k[2]
        return a

    def pair(self, u, v, what):
        u, v = self.nid(u, what), self.nid(v, what)
        return (u, v) if self.directed or u <= v else (v, u)

    def check_type(self, g, o, what):
        if g.is_directed() != self.directed or g.is_multigraph() != bool(o.get('multigraph')):
            raise Violation('export-type', '%s is a %s' % (what, type(g).__name__))

    def compare_export(self, g, must, o, what, may=None):
        """A networkx graph against the edges which must (and may) be in it."""
        self.exports += 1
        self.answers += 1
        self.check_type(g, o, what)
        may = must if may is None else may
        self.exported_edges += len(must)
        if o.get('multigraph'):
            got = Counter((self.pair(u, v, what), freeze(a)) for u, v, a in g.edges(data=True))
            want = Counter((self.pair(k[0], k[1], what), freeze(self.stamped(k, o))) for k in must)
            most = Counter((self.pair(k[0], k[1], what), freeze(self.stamped(k, o))) for k in may)
            if want - got or got - most:
                raise Violation('export-edges', '%s: missing %.300r, unexpected %.300r' % (
                    what, list((want - got).elements())[:4], list((got - most).elements())[:4]))
        else:
            got = {}
            for u, v, a in g.edges(data=True):
                p = self.pair(u, v, what)
                if p in got:
                    raise Violation('export-edges', '%s has %r twice' % (what, p))
                got[p] = a
            want = {self.pair(k[0], k[1], what) for k in must}
            parallel = {}
            for k in may:
                parallel.setdefault(self.pair(k[0], k[1], what), []).append(self.stamped(k, o))
            if want - set(got) or set(got) - set(parallel):
                raise Violation('export-edges', '%s: missing %r, unexpected %r' % (
                    what, sorted(want - set(got))[:4], sorted(set(got) - set(parallel))[:4]))
            for p, a in got.items():
                self.check_merged(a, parallel[p], o, '%s: edge %r' % (what, p), must is may)
        ends = {x for u, v in g.edges() if True for x in (u, v)} if may is not must else \
            {x for k in must for x in k[:2]}
        nodes = list(g.nodes())
        if set(nodes) != ends or len(nodes) != len(ends):
            raise Violation('export-nodes', '%s has the nodes %r, expected %r' % (
                what, sorted(map(repr, nodes)), sorted(map(repr, ends))))
        for n in nodes:
            a = self.M.nodes[n] if o.get('node_data') else {}
            if freeze(dict(g.nodes[n])) != freeze(a):
                raise Violation('export-attributes', '%s: node %r has %r, expected %r' % (what, n, dict(g.nodes[n]), a))

    def check_merged(self, a, options, o, what, exact):
        """The attributes of an edge in a simple graph, which stands for all edges in parallel."""
        if exact and len(options) == 1:
            if freeze(a) != freeze(options[0]):
                raise Violation('export-attributes', '%s has %r, expected %r' % (what, a, options[0]))
            return
        if exact:
            keys = {k for x in options for k in x}
            if set(a) != keys:
                raise Violation('export-attributes', '%s has the attributes %r, expected %r' % (what, sorted(a), sorted(keys)))
        for k, v in a.items():
            if freeze(v) not in [freeze(x[k]) for x in options if k in x]:
                raise Violation('export-attributes', '%s: %s is %r, which no edge in parallel has' % (what, k, v))
        if o.get('ts'):
            stamp = ('begin', 'end') if self.kind == 'interval' else ('timestamp',)
            if tuple(a.get(s) for s in stamp) not in [tuple(x[s] for s in stamp) for x in options]:
                raise Violation('export-attributes', '%s has %r, which is not the time of one edge' % (what, a))

    # --------------------------------------------------------------------------------------------- exports

    def bounds(self, qb, qe):
        span = self.M.span() or (0, 1)
        return (span[0] if qb is None else qb), (span[1] if qe is None else qe)

    def make_subgraph(self, qb, qe, o):
        qb, qe = self.bounds(qb, qe)
        if qe < qb:
            qb, qe = qe, qb
        kw = self.options(o)
        inc = TF
        if self.kind == 'impulse' and 'inclusive' in o:
            inc = kw['inclusive'] = tuple(o['inclusive'])
        name = 'to_networkx_graph' if o.get('alias') else 'to_subgraph'
        what = '%s(%r, %r, %r)' % (name, qb, qe, kw)
        g = self.call(what, getattr(self.G, name), qb, qe, **kw)
        return g, qb, qe, inc, what

    def op_subgraph(self, qb, qe, o):
        g, qb, qe, inc, what = self.make_subgraph(qb, qe, o)
        self.compare_export(g, self.M.select(None, None, qb, qe, inc), o, what)
        return g

    def op_snapshots(self, how, value, o):
        span = self.M.span()
        if span is None:
            return None
        lo, hi = span
        if max(abs(lo), abs(hi)) == float('inf'):
            return None     # an edge which never ends cannot be cut in pieces
        kw = self.options(o)
        if o.get('return_length'):
            kw['return_length'] = True
        F = Fraction
        if how == 'refused':
            kw.update(value)
            _, err = self.attempt(self.G.to_snapshots, **kw)
            if err is None:
                raise Violation('accepted', 'to_snapshots(%r) returned' % kw)
            return None
        if how == 'number':
            n, length = value, F(hi) - F(lo)
            length = length / n
            kw['number_of_snapshots'] = value
        else:
            length = F(value)
            n = -((F(lo) - F(hi)) // length)
            kw['length_of_snapshots'] = value
        if n > 60:
            return None
        what = 'to_snapshots(%r)' % kw
        exact = all(float(F(lo) + length * i) == F(lo) + length * i for i in range(n + 1)) and float(length) == length
        if n < 2:
            if exact:
                _, err = self.attempt(self.G.to_snapshots, **kw)
                if err is None:
                    raise Violation('accepted', '%s of a graph over [%s, %s]' % (what, lo, hi))
            return None
        if n == 2 and not exact:
            return None
        out = self.call(what, self.G.to_snapshots, **kw)
        if o.get('return_length'):
            if not isinstance(out, tuple) or len(out) != 2 or abs(out[1] - float(length)) > 1e-9 * abs(float(length)):
                raise Violation('export-length', '%s returned the length %r, expected %s' % (what, out[1:], float(length)))
            snaps = out[0]
        else:
            snaps = out
        if len(snaps) != n and (exact or how == 'number' or abs(len(snaps) - n) > 1):
            raise Violation('export-count', '%s of [%s, %s] has %d snapshots, expected %d' % (what, lo, hi, len(snaps), n))
        # where times are rounded to floating point numbers, an edge may be in the snapshot on the other side of a border
        eps = 0 if exact else F(4 * math.ulp(max(abs(lo), abs(hi))))
        for i, g in enumerate(snaps):
            a, b = F(lo) + length * i, F(lo) + length * (i + 1)
            last = i == len(snaps) - 1
            must = [k for k in self.M.edges if self.inside(k, a, b, last, eps)]
            may = must if exact else [k for k in self.M.edges if self.inside(k, a, b, last, -eps)]
            self.compare_export(g, must, o, '%s snapshot %d, [%s, %s)' % (what, i, float(a), float(b)), may)
        seen = Counter()
        for g in snaps:
            for u, v in {self.pair(u, v, what) for u, v in g.edges()}:
                seen[(u, v)] += 1
        for k in self.M.edges:
            if not seen[self.pair(k[0], k[1], what)]:
                raise Violation('export-edges', '%s: %s is in no snapshot' % (what, self.show([self.model_edge(k)])))
        return snaps

    def inside(self, k, a, b, last, eps):
        if self.kind == 'impulse':
            t = k[2]
            if a == b and eps == 0:
                return t == a
            if eps < 0:
                return t >= a + eps and (last or t < b - eps)
            return t >= a + eps and (last or t < b - eps)
        if eps == 0 and k[2] == a:
            return True
        if eps < 0 and abs(k[2] - a) <= -eps:
            return True
        return k[3] > a + eps and (last or k[2] < b - eps)

    def op_snapgraph(self, o):
        kw = self.options(o)
        what = 'to_snapshot_graph(%r)' % kw
        sg = self.call(what, self.G.to_snapshot_graph, **kw)
        times = set()
        keys = []
        for k in self.M.edges:
            if k[2] == k[3]:
                keys.append((k[2], k[2]))
            else:
                times.update(k[2:])
        times = sorted(times)
        keys = sorted(set(keys + list(zip(times, times[1:]))))
        if not isinstance(sg, self.dnx.SnapshotGraph):
            raise Violation('export-type', '%s is a %s' % (what, type(sg).__name__))
        got = list(sg.snapshots.keys())
        if [tuple(k) for k in got] != keys or len(sg) != len(keys):
            raise Violation('export-count', '%s has the intervals %.300r, expected %.300r' % (what, got, keys))
        graphs = self.call('get', sg.get)
        for (a, b), g in zip(keys, graphs):
            self.compare_export(g, self.M.select(None, None, a, b, TT if a == b else TF), o, '%s at [%s, %s)' % (what, a, b))
        return sg

    # --------------------------------------------------------------------------------------------- imports

    def full_export(self):
        lo, hi = self.M.span() or (0, 1)
        o = {'multigraph': True, 'edge_data': True, 'ts': True}
        if self.kind == 'impulse':
            o['inclusive'] = [True, True]
        return self.make_subgraph(lo, hi + max(1, abs(hi)), o)[0]

    def imported(self, o):
        nxg = self.full_export()
        kw = {}
        if o.get('rename'):
            names = {'begin': 'from', 'end': 'until'} if self.kind == 'interval' else {'timestamp': 'when'}
            for _, _, a in nxg.edges(data=True):
                for x, y in names.items():
                    a[y] = a.pop(x)
            kw = names
        cls = getattr(self.dnx, self.cls)
        h = self.call('from_networkx_graph(%r)' % kw, cls.from_networkx_graph, nxg, **kw)
        return nxg, h

    def op_reimport(self, o):
        _, h = self.imported(o)
        what = 'from_networkx_graph'
        if type(h) is not getattr(self.dnx, self.cls):
            raise Violation('export-type', 'from_networkx_graph returned a %s' % type(h).__name__)
        got = Counter((self.real_edge(t, what), freeze(a)) for t, a in self.call('edges', lambda: list(h.edges(data=True))))
        want = Counter((self.model_edge(k), freeze(a)) for k, a in self.M.edges.items())
        if got != want:
            raise Violation('import-edges', 'from_networkx_graph of an export: missing %.300r, unexpected %.300r' % (
                list((want - got).elements())[:4], list((got - want).elements())[:4]))
        ends = {x for k in self.M.edges for x in k[:2]}
        nodes = list(self.call('nodes', lambda: list(h.nodes())))
        if set(nodes) != ends or len(nodes) != len(ends):
            raise Violation('import-nodes', 'from_networkx_graph of an export has the nodes %r, expected %r' % (nodes, ends))
        self.answers += 1
        if o.get('adopt'):
            m = Model(self.kind, self.directed)
            for t, a in h.edges(data=True):
                m.add_edge(t[0], t[1], t[2], t[3] if self.kind == 'interval' else t[2], a)
            self.G, self.M = h, m

    # ------------------------------------------------------------------------------------------ held by clients

    def describe(self, x):
        if hasattr(x, 'snapshots'):
            return tuple((tuple(k), self.describe(g)) for k, g in x.snapshots.items())
        if type(x).__module__.startswith('dynetworkx'):
            edges = Counter((self.real_edge(t, 'held'), freeze(a)) for t, a in x.edges(data=True))
            return frozenset(edges.items()), frozenset((n, freeze(dict(a))) for n, a in x.nodes(data=True))
        if hasattr(x, 'edges') and hasattr(x, 'nodes'):
            edges = Counter((tuple(sorted((repr(u), repr(v)))) if not x.is_directed() else (repr(u), repr(v)), freeze(dict(a)))
                            for u, v, a in x.edges(data=True))
            return frozenset(edges.items()), frozenset((n, freeze(dict(a))) for n, a in x.nodes(data=True))
        if isinstance(x, list) and x and hasattr(x[0], 'edges'):
            return tuple(self.describe(g) for g in x)
        return tuple(x)

    def keep(self, what, x):
        if x is None:
            return
        if isinstance(x, tuple) and x and isinstance(x[0], list):
            x = x[0]
        self.held.append([what, x, self.describe(x)])
        if len(self.held) > 12:
            self.held.pop(0)

    def op_hold(self, op):
        x = self.do(op)
        self.keep('the result of %s' % op[0], x)

    def op_hold_import(self, o):
        nxg, h = self.imported(o)
        self.keep('a networkx graph which was imported', nxg)
        self.keep('a graph which was imported', h)

    def ask_list(self, kind, node, other, window):
        """The answer of a query which returns a list or tuple, None if the query does not apply."""
        G, n, m = self.G, self.n[node], self.n[other]
        lo, hi = window or self.M.span() or (0, 1)
        inc = {'inclusive': (True, True)} if self.kind == 'impulse' else {}
        if kind in ('unique', 'unique_begin', 'unique_end') and self.kind != 'interval':
            return None
        if kind in ('delta', 'delta_at', 'interval') and not self.M.edges:
            return None
        x = self.call(kind, {
            'edges': G.edges,
            'edges_at': lambda: G.edges(begin=lo, end=hi, **inc),
            'edges_from': lambda: G.edges(begin=lo),
            'edges_of': lambda: G.edges(u=n),
            'edges_of_at': lambda: G.edges(u=n, begin=lo, end=hi),
            'edges_between': lambda: G.edges(u=n, v=m),
            'edges_of_both': lambda: G.edges(u=[n, m]),
            'edges_with_data': lambda: G.edges(data='weight', default=3),
            'unique': lambda: G.unique_timestamps(),
            'unique_at': lambda: G.unique_timestamps(begin=lo, end=hi) if self.kind == 'interval' else (),
            'unique_begin': lambda: G.unique_begin_timestamps(),
            'unique_end': lambda: G.unique_end_timestamps(),
            'delta': lambda: G.degree(n, delta=True),
            'delta_at': lambda: G.degree(n, begin=lo, end=hi, delta=True),
            'nodes_at': lambda: G.nodes(begin=lo, end=hi),
            'interval': G.interval}[kind])
        return x if isinstance(x, (list, tuple)) else list(x)

    def op_hold_list(self, kind, node, other=0, window=None):
        x = self.ask_list(kind, node, other, window)
        if x is not None:
            self.keep('the list of %s' % kind, x)

    def op_ask_again(self, kind, node, other, window, how):
        """A client asks, changes the list it was given, and asks again."""
        x = self.ask_list(kind, node, other, window)
        if x is None:
            return
        was = Counter(map(freeze_item, x))
        if isinstance(x, list):
            self.scribble(x, how)
        y = self.ask_list(kind, node, other, window)
        self.answers += 1
        if Counter(map(freeze_item, y)) != was:
            raise Violation('not-isolated', 'the list of %s, asked again after the client changed the first one: it was %r, it '
                            'is %.300r' % (kind, dict(was), y))
        self.keep('the list of %s' % kind, y)

    def op_export_again(self, op, how):
        """A client exports, changes the export, and exports again."""
        x = self.do(op)
        if x is None:
            return
        if isinstance(x, tuple) and x and isinstance(x[0], list):
            x = x[0]
        self.scribble(x, how)
        self.keep('the result of a second %s' % op[0], self.do(op))
        self.op_audit()

    def op_check_held(self):
        for what, x, d in self.held:
            self.held_checks += 1
            try:
                now = self.describe(x)
            except Violation:
                raise
            except Exception as e:
                raise Violation('not-isolated', '%s cannot be read any more: %r' % (what, e))
            if now != d:
                raise Violation('not-isolated', '%s changed: it was %.300r, it is %.300r' % (what, d, now))

    def op_feed(self, u, attr):
        """The caller goes on using the dictionary it passed in."""
        d = dict(attr)
        self.call('add_nodes_from', self.G.add_nodes_from, [(self.n[u], d)])
        self.M.add_node(self.n[u], attr)
        d['scribbled'] = 1
        d.pop('weight', None)
        self.op_audit()

    def op_scribble(self, i, how):
        """A client changes what it holds. Nothing else may notice."""
        if not self.held:
            return
        entry = self.held[i % len(self.held)]
        x = entry[1]
        parts = list(x.snapshots.values()) if hasattr(x, 'snapshots') else x if isinstance(x, list) else []
        if len(parts) > 1 and hasattr(parts[0], 'edges'):
            # one snapshot of several, the others may not notice either
            k = i % len(parts)
            before = [self.describe(g) for g in parts]
            self.scribble(parts[k], how)
            for j, g in enumerate(parts):
                if j != k and self.describe(g) != before[j]:
                    raise Violation('not-isolated', '%s: a change of snapshot %d changed snapshot %d: it was %.300r, it is '
                                    '%.300r' % (entry[0], k, j, before[j], self.describe(g)))
        else:
            self.scribble(x, how)
        entry[2] = self.describe(x)
        self.op_check_held()
        self.op_audit()

    def scribble(self, x, how):
        if isinstance(x, tuple):
            return
        if type(x).__module__.startswith('dynetworkx') and not hasattr(x, 'snapshots'):
            if how == 0 and x.edges():
                t = list(x.edges())[0]
                x.add_edge(*t, scribbled=1)
            elif how == 1:
                for n in list(x.nodes()):
                    x.remove_node(n)
            elif how == 2:
                x.add_edge(self.n[0], self.n[-1], *([5, 6] if self.kind == 'interval' else [5]))
            else:
                for n in list(x.nodes()):
                    x.add_node(n, scribbled=2)
            return
        if hasattr(x, 'snapshots'):
            for g in x.snapshots.values():
                self.scribble(g, how)
            return
        if hasattr(x, 'edges'):
            if how == 0:
                for _, _, a in x.edges(data=True):
                    a['scribbled'] = 1
                    a.pop('begin', None)
                for n in x.nodes():
                    x.nodes[n]['scribbled'] = 1
            elif how == 1:
                for _, _, a in x.edges(data=True):
                    a.clear()
                for n in x.nodes():
                    x.nodes[n].clear()
                x.clear()
            elif how == 2:
                x.add_edge(self.n[0], self.n[-1], weight=77)
                x.add_node(self.n[0], colour='scribbled')
            else:
                x.remove_nodes_from(list(x.nodes())[:1])
            return
        if x and hasattr(x[0], 'edges'):
            for g in x:
                self.scribble(g, how)
            return
        if how == 0:
            x.append(('scribbled',))
        elif how == 1:
            x.clear()
        elif how == 2:
            x.reverse()
        elif x:
            x.pop()
