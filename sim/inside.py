"""A client which is at work on the graph while the graph works for it: sources and callbacks which read and update it."""
from collections import Counter

from . import seams
from .seams import Violation, SourceFailed
from .gen import Gen, history
from .graphs import CLASSES
from .snap_replica import snap_history, Snap
from .tenants import SNAPS

PATH = '/sim/inside.txt'


class Inside:
    """What a client does from within a call; mixed into the replicas."""
    nested = 0
    nested_ops = ()

    def within(self, at, models):
        """The nested calls which are due before item `at`. The models are the states they may find, most likely first."""
        for i, op in self.nested_ops:
            if i != at:
                continue
            self.nested += 1
            limit, steps = seams.MONITOR.limit, seams.MONITOR.count
            self.inner(op, models)
            seams.MONITOR.limit, seams.MONITOR.count = limit, steps

    def inner(self, op, models):
        if op[0] in ('add', 'add_node', 'rm_edge'):
            self.nested_update(op, models)
            return
        kept, self.nested_ops = self.nested_ops, ()
        outer, first = self.M, None
        try:
            for m in models:
                self.M = m
                try:
                    self.do(op)
                    break
                except Violation as e:
                    first = first or e
            else:
                raise first
        finally:
            self.M, self.nested_ops = outer, kept

    def items(self, items):
        """The items of an argument, one by one, with nested calls in between."""
        for i, x in enumerate(items):
            self.within(i, [self.M])
            yield x
        self.within(len(items), [self.M])

    def op_inside(self, op, nested):
        self.nested_ops = nested
        try:
            return getattr(self, 'inside_' + op[0])(*op[1:])
        finally:
            self.nested_ops = ()

    def fed(self, what, f, source, breaks, **kw):
        if breaks is None:
            self.call(what, f, source, **kw)
            return
        _, err = self.attempt(f, source, **kw)
        if err is None:
            raise Violation('accepted', '%s succeeded, although its source broke off' % what)


def shown(g):
    return sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True)))


class InsideReplica(Inside):
    def nested_update(self, op, models):
        """An update which is as good before the batch as after it."""
        kept, self.nested_ops = self.nested_ops, ()
        outer = self.M
        try:
            if op[0] == 'rm_edge':
                u, v, b, e = op[1:]
                if not all(m.key(self.n[u], self.n[v], b, e) for m in models) or \
                        self.ekey(self.n[u], self.n[v], b, e, 'plan') in self.batch:
                    return
                op = ['rm_edge', u, v, b, e, {'exact': True} if self.kind == 'interval' else {}]
                if self.kind == 'impulse':
                    op[4] = b
            for i, m in enumerate(models):
                self.M = m
                if i == 0:
                    self.do(op)
                else:
                    self.only_model(op)
        finally:
            self.M, self.nested_ops = outer, kept

    def only_model(self, op):
        if op[0] == 'add':
            _, u, v, b, e, attr = op
            self.M.add_edge(self.n[u], self.n[v], b, e if self.kind == 'interval' else b, attr)
        elif op[0] == 'add_node':
            self.M.add_node(self.n[op[1]], op[2])
        else:
            _, u, v, b, e, opts = op
            self.M.remove_edges(self.n[u], self.n[v], b, e, (True, True) if self.kind == 'impulse' else None, True)

    batch = ()

    def inside_add_batch(self, edges, attr, breaks=None):
        """A batch whose source is a client's code, which may break off (`breaks`: after how many edges)."""
        before, now = self.M.copy(), self.M
        self.batch = {self.ekey(self.n[u], self.n[v], b, e if self.kind == 'interval' else b, 'plan') for u, v, b, e in edges}

        def source():
            for i, x in enumerate(edges):
                self.within(i, [now, before])
                if i == breaks:
                    raise SourceFailed('the source of the batch broke off')
                yield self.edge_args(*x)
                now.add_edge(self.n[x[0]], self.n[x[1]], x[2], x[3] if self.kind == 'interval' else x[2], attr)
            self.within(len(edges), [now, before])
        self.fed('add_edges_from a source of %d edges' % len(edges), self.G.add_edges_from, source(), breaks, **attr)

    def inside_add_nodes(self, items, attr, breaks=None):
        before, now = self.M.copy(), self.M

        def source():
            for i, (u, a) in enumerate(items):
                self.within(i, [now, before])
                if i == breaks:
                    raise SourceFailed('the source of the batch broke off')
                yield self.n[u] if a is None else (self.n[u], dict(a))
                now.add_node(self.n[u], attr)
                if a is not None:
                    now.add_node(self.n[u], a)
            self.within(len(items), [now, before])
        self.fed('add_nodes_from a source of %d nodes' % len(items), self.G.add_nodes_from, source(), breaks, **attr)

    def inside_edges(self, us, vs, qb, qe, opts):
        """A query whose arguments come from a client's code, which queries as well."""
        spec, here = self.spec, self.items

        def given(s):
            if s is None or isinstance(s, int):
                return spec(s)
            found = [self.n[i] for i in s[1]]
            return here(found), set(found)
        self.spec = given
        try:
            self.op_edges(us, vs, qb, qe, opts)
        finally:
            del self.spec

    def inside_feed(self, qb, qe, shift, attr, turn):
        """The edges of a window are added again, somewhat later, as they are read."""
        before, now = self.M.copy(), self.M
        want = self.M.select(None, None, qb, qe, (True, False))
        self.batch = {self.ekey(k[0], k[1], k[2] + shift, k[3] + shift, 'plan') for k in want}
        answer = self.call('edges', lambda: self.G.edges(**self.window(qb, qe, {})))
        seen = []

        def source():
            for i, t in enumerate(answer):
                seen.append(self.real_edge(t, 'edges'))
                self.within(i, [now, before])
                u, v = t[:2] if not turn else t[1::-1]
                x = (u, v) + tuple(y + shift for y in t[2:])
                yield x
                now.add_edge(u, v, x[2], x[-1], attr)
        self.call('add_edges_from the edges of the graph', self.G.add_edges_from, source(), **attr)
        self.walked(seen, want)

    def walked(self, seen, want):
        if Counter(seen) != Counter(self.model_edge(k) for k in want):
            raise Violation('edges', 'the %d edges of a window were asked for, %d were found on the way' % (len(want), len(seen)))

    def inside_clear(self, qb, qe, least, by):
        """The edges of a window are taken out one by one, as they are read."""
        want = self.M.select(None, None, qb, qe, (True, False))
        answer = self.call('edges', lambda: self.G.edges(**self.window(qb, qe, {})))
        seen = []
        for i, t in enumerate(answer):
            seen.append(self.real_edge(t, 'edges'))
            self.within(i, [self.M])
            u, v, b, e = seen[-1]
            if len(self.M.edges) <= least or self.M.key(self.n[u], self.n[v], b, e) is None:
                continue
            if by == 'node':
                self.op_rm_node(u, None, None, {})
            elif self.kind == 'interval':
                self.op_rm_edge(u, v, b, e, {'exact': True})
            else:
                self.op_rm_edge(u, v, b, b, {'inclusive': [True, True]})
        self.walked(seen, want)

    def op_reload(self):
        """The file which is being loaded, loaded by its own callback."""
        if self.calm is not None:
            again = self.call('load_from_txt', getattr(self.dnx, self.cls).load_from_txt, PATH, nodetype=str)
            if shown(again) != self.calm:
                raise Violation('loaded', 'a file was loaded differently while it was being loaded')

    calm = None

    def inside_load(self, each):
        """A file is loaded by a client whose nodetype looks into the graph which was saved."""
        if not self.M.edges:
            return
        _, err = self.attempt(self.G.save_to_txt, PATH)
        if err is not None:
            return      # nodes which can not be written
        cls = getattr(self.dnx, self.cls)
        calm, err = self.attempt(cls.load_from_txt, PATH, nodetype=str)
        if err is not None:
            return
        self.calm = calm = shown(calm)
        count = [0]

        def nodetype(s):
            count[0] += 1
            if count[0] % each == 0:
                self.within(count[0] // each - 1, [self.M])
            return str(s)
        busy = self.call('load_from_txt', cls.load_from_txt, PATH, nodetype=nodetype)

        self.calm = None
        if calm != shown(busy):
            raise Violation('loaded', 'a file was loaded differently, because the nodetype looked into another graph')


class InsideSnaps(Inside):
    def nested_update(self, op, models):
        pass

    def states_of(self, t):
        """What a nested question may find: nothing is done yet, or the snapshots are cut already."""
        before = {k: s.copy() for k, s in self.M.items()}
        outer, self.M = self.M, {k: s.copy() for k, s in self.M.items()}
        kept = self.splits
        try:
            self.split(t)
            return [before, self.M]
        finally:
            self.M, self.splits = outer, kept

    def source(self, models, items, real, apply, breaks):
        for i, x in enumerate(items):
            self.within(i, models)
            if i == breaks:
                raise SourceFailed('the source of the batch broke off')
            yield real(x)
            apply(models[-1], x)
        self.within(len(items), models)

    def done(self, t, items, apply, breaks, grow):
        if breaks is not None:
            # as for every failed update: of what it names anything up to the whole of it
            self.after_failure('source', self.target(t), t, set(self.selected(t)), grow)
            return
        self.split(t)
        for x in items:
            apply(self.M, x)

    def inside_add_edges(self, edges, t, attrs, breaks=None):
        models = self.states_of(t)
        kw = self.target(t)
        models.append({k: s.copy() for k, s in models[1].items()})

        def real(x):
            return (self.n[x[0]], self.n[x[1]], dict(x[2])) if x[2] else (self.n[x[0]], self.n[x[1]])

        def apply(m, x):
            outer, self.M = self.M, m
            for k in self.selected(t):
                m[k].add_edge(x[0], x[1], dict(attrs, **x[2]))
            self.M = outer
        self.fed('add_edges_from(%r)' % (t,), self.G.add_edges_from, self.source(models, edges, real, apply, breaks), breaks,
                 **kw, **attrs)
        self.done(t, edges, apply, breaks, lambda s: [s.add_edge(u, v, dict(attrs, **x)) for u, v, x in edges])

    def inside_add_nodes(self, nodes, t, attrs, breaks=None):
        models = self.states_of(t)
        kw = self.target(t)
        models.append({k: s.copy() for k, s in models[1].items()})

        def real(x):
            return (self.n[x[0]], dict(x[1])) if x[1] else self.n[x[0]]

        def apply(m, x):
            outer, self.M = self.M, m
            for k in self.selected(t):
                m[k].add_node(x[0], dict(attrs, **x[1]))
            self.M = outer
        self.fed('add_nodes_from(%r)' % (t,), self.G.add_nodes_from, self.source(models, nodes, real, apply, breaks), breaks,
                 **kw, **attrs)
        self.done(t, nodes, apply, breaks, lambda s: [s.add_node(u, dict(attrs, **x)) for u, x in nodes])

    def inside_snap(self, a, b, edges, breaks=None):
        if not self.fits(a, b):
            return
        s = Snap(self.directed)
        new = {k: x.copy() for k, x in self.M.items()}
        new[(a, b)] = s
        models = [{k: x.copy() for k, x in self.M.items()}, new]

        def real(x):
            return (self.n[x[0]], self.n[x[1]], dict(x[2])) if x[2] else (self.n[x[0]], self.n[x[1]])

        def apply(m, x):
            m[(a, b)].add_edge(*x)
        source = self.source(models, edges, real, apply, breaks)
        self.fed('add_snapshot over [%s, %s)' % (a, b), lambda e: self.G.add_snapshot(e, start=a, end=b), source, breaks)
        if breaks is None:
            self.M[(a, b)] = s

    def inside_statistic(self, t):
        """A statistic which looks into the graph it is computed on."""
        keys = self.selected(t)
        count = [0]

        def f(g):
            self.within(count[0], [self.M])
            count[0] += 1
            return g.number_of_nodes()
        got = self.call('compute_network_statistic(%r)' % (t,), self.G.compute_network_statistic, f, **self.target(t))
        self.within(count[0], [self.M])
        if list(got) != [len(self.M[k].nodes) for k in keys]:
            raise Violation('snapshot-answer', 'a statistic which looks into the graph is %r over %r' % (got, keys))


# -------------------------------------------------------------------------------------------------------- generator

def generate(rng):
    cls = rng.choice(list(CLASSES) * 2 + list(SNAPS))
    out = []
    often = rng.choice([0.3, 0.6, 0.9])
    breaking = rng.choice([0, 0, 0.15])

    if cls in SNAPS:
        p = snap_history(rng, updates=0.6, queries=0.8, bad=0.02)
        faults = p['faults']
        asks = [op for op in p['ops'] if op[0] == 'ask']

        def nested(n):
            out = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                if asks:
                    out.append([rng.randrange(n + 1), rng.choice(asks)])
                else:
                    out.append([rng.randrange(n + 1), ['audit']])
                if rng.random() < 0.3:
                    out.append([rng.randrange(n + 1), ['audit']])
            return out

        for op in p['ops']:
            n = len(op[1]) if op[0] in ('add_edges', 'add_nodes') else len(op[4]) if op[0] == 'snap' else 0
            breaks = rng.randrange(n) if n and rng.random() < breaking else None
            if op[0] in ('add_edges', 'add_nodes') and rng.random() < often:
                if breaks is not None:
                    count(faults, 'source-broke-off')
                out.append(['inside', [op[0], op[1], op[2], op[3], breaks], nested(n)])
                count(faults, 'source-reads-the-graph')
            elif op[0] == 'snap' and op[1] == 'ebunch' and rng.random() < often:
                if breaks is not None:
                    count(faults, 'source-broke-off')
                out.append(['inside', ['snap', op[2], op[3], op[4], breaks], nested(n)])
                count(faults, 'source-reads-the-graph')
                if breaks is not None:
                    out += [['audit'], op]
            elif op[0] == 'ask' and rng.random() < often / 2:
                out.append(['inside', ['statistic', op[2]], nested(3)])
                count(faults, 'callback-reads-the-graph')
            else:
                out.append(op)
            if rng.random() < 0.2:
                out.append(['audit'])
        out.append(['audit'])
        return {'cls': cls, 'nodes': p['nodes'], 'ops': out, 'faults': faults, 'sim_time': p['sim_time']}

    families = ('edges', 'edges', 'edges', 'has_edge', 'nodes', 'n_nodes', 'interval', 'degree', 'has_node')
    p = history(rng, cls, families, audits=0, queries=0.8, deep=False, large=0.0)
    faults = p['faults']
    g = Gen(rng, cls, faults)
    g.configure(n=2)
    g.nodes = p['nodes']
    queries = [op for op in p['ops'] if op[0] in ('edges', 'has_edge', 'nodes', 'n_nodes', 'interval', 'degree', 'has_node')]
    adds = [op for op in p['ops'] if op[0] == 'add']
    if not adds:
        adds = [['add', 0, 0, 0, 1, {}]]

    def edge():
        return list(rng.choice(adds)[1:5])

    def nested(n, update=False, queries=queries):
        got = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            at = rng.randrange(n + 1)
            k = rng.random()
            if update and k < 0.15:
                got.append([at, ['add', *edge(), {'inner': rng.randrange(3)}]])
                count(faults, 'source-updates-the-graph')
            elif update and k < 0.25:
                got.append([at, ['add_node', g.any_node(), {'inner': rng.randrange(3)}]])
                count(faults, 'source-updates-the-graph')
            elif update and k < 0.35:
                got.append([at, ['rm_edge', *edge()]])
                count(faults, 'source-updates-the-graph')
            elif k < 0.5 or not queries:
                got.append([at, ['audit']])
            else:
                got.append([at, rng.choice(queries)])
        return got

    def window():
        a, z = edge()[2:]
        k = rng.random()
        if k < 0.3:
            return None, None
        if k < 0.5:
            return a, None
        if k < 0.6:
            return None, a
        b = edge()[2]
        return (min(a, b), max(a, b)) if a != b else (a, a + 1)

    small = all(abs(x[3]) < 1e9 and abs(x[4]) < 1e9 for x in adds)
    for op in p['ops']:
        batch = None
        if op[0] == 'add' and rng.random() < often / 3:
            batch = [op[1:5]] + [edge() for _ in range(rng.choice([0, 1, 2, 4]))]
            attr = op[5]
        elif op[0] == 'add_batch' and rng.random() < often:
            batch, attr = op[1], op[2]
        if batch is not None:
            breaks = rng.randrange(len(batch)) if batch and rng.random() < breaking else None
            if breaks is not None:
                count(faults, 'source-broke-off')
            out.append(['inside', ['add_batch', batch, attr, breaks], nested(len(batch), True)])
            count(faults, 'source-reads-the-graph')
        elif op[0] == 'add_nodes' and rng.random() < often:
            breaks = rng.randrange(len(op[1])) if op[1] and rng.random() < breaking else None
            calls = nested(len(op[1]))
            if rng.random() < 0.3:
                calls.append([rng.randrange(len(op[1]) + 1), ['add_node', rng.choice(op[1])[0] if op[1] else 0, {'inner': 1}]])
                count(faults, 'source-updates-the-graph')
            out.append(['inside', ['add_nodes', op[1], op[2], breaks], calls])
            count(faults, 'source-reads-the-graph')
        elif op[0] == 'edges' and rng.random() < often / 3:
            us = ['iter', [g.any_node() for _ in range(rng.choice([1, 2, 3]))]]
            vs = rng.choice([None, ['iter', [g.any_node() for _ in range(rng.choice([1, 2, 3]))]]])
            if rng.random() < 0.3:
                us, vs = vs, us
            out.append(['inside', ['edges', us, vs] + op[3:], nested(3)])
            count(faults, 'argument-reads-the-graph')
        else:
            out.append(op)
        k = rng.random()
        if k < 0.04 and small:
            out.append(['inside', ['feed', *window(), rng.choice([0, 1, 0.5, 7, -3]), g.attr(p=0.4), rng.random() < 0.4], nested(6, True)])
            count(faults, 'own-answer-fed-back')
        elif k < 0.08:
            out.append(['inside', ['clear', *window(), rng.choice([0, 3, 8]), rng.choice(['edge', 'edge', 'node'])], nested(6)])
            count(faults, 'own-answer-taken-out')
        elif k < 0.1:
            calls = nested(4)
            if rng.random() < 0.4:
                calls.append([rng.randrange(4), ['reload']])
                count(faults, 'file-loaded-while-being-loaded')
            out.append(['inside', ['load', rng.choice([1, 2, 5])], calls])
            count(faults, 'callback-reads-the-graph')
    out.append(['deep_audit'])
    return {'cls': cls, 'nodes': p['nodes'], 'ops': out, 'faults': faults, 'sim_time': p['sim_time']}


def count(faults, kind):
    faults[kind] = faults.get(kind, 0) + 1
