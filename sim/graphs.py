"""A replica: a real dynetworkx graph driven through its public API, next to its reference model.

Every operation is a JSON list, so that a plan can be stored, replayed and minimised. Queries are operations too: they
compare the real answer with the model's.
"""
import datetime
import fractions
import random
from collections import Counter

from . import seams
from .seams import Violation, HarnessError, SourceFailed, Unhashable, HashRaises, Unorderable, make_node, Nodes
from .model import Model

CLASSES = {
    'IntervalGraph': ('interval', False),
    'IntervalDiGraph': ('interval', True),
    'ImpulseGraph': ('impulse', False),
    'ImpulseDiGraph': ('impulse', True),
}

STEP_LIMIT = 3_000_000
TF = (True, False)
TT = (True, True)


def freeze(x):
    """A comparable, hashable form of attribute values."""
    if isinstance(x, dict):
        return ('d',) + tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple(freeze(v) for v in x)
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, (int, float)):
        return ('n', float(x)) if abs(x) < 2 ** 53 else ('n', x)
    return (type(x).__name__, str(x))


def bulk_edges(nodes, n, seed, shape='spread'):
    """The edges which a seed stands for: a graph large in one way."""
    rng = random.Random(seed)
    orientation = rng.choice(['out', 'in', 'both'])
    first, last = rng.randrange(4 * n), rng.randint(1, 9)
    for i in range(n):
        b = rng.randrange(4 * n)
        u, v, e = rng.randrange(nodes), rng.randrange(nodes), b + rng.randint(1, 9)
        if shape == 'pair':
            u, v = 0, 1
        elif shape == 'hub':
            u, v = 0, 1 + i % (nodes - 1)
        elif shape == 'instant':
            u, v, b, e = (i // nodes) % nodes, i % nodes, first, first + last
        elif shape == 'path':
            u, v, b, e = i % nodes, (i + 1) % nodes, i, i + last
        elif shape == 'long':
            b, e = i, 8 * n - i
        if orientation == 'in' or orientation == 'both' and rng.random() < 0.5:
            u, v = v, u
        yield u, v, b, e, {'w2': rng.randrange(10 ** rng.randint(1, 9))} if rng.random() < 0.5 else {}


class Replica:
    def __init__(self, cls, nodes, dnx, graph=None, model=None):
        self.dnx = dnx
        self.cls = cls
        self.kind, self.directed = CLASSES[cls]
        self.node_specs = nodes
        self.n = Nodes(make_node(s) for s in nodes)
        self.index = {}
        for i, x in enumerate(self.n):
            self.index.setdefault(x, i)
        self.G = getattr(dnx, cls)() if graph is None else graph
        self.M = Model(self.kind, self.directed) if model is None else model
        self.states = set()
        self.answers = 0
        self.limit = STEP_LIMIT
        self.trace = None

    # ------------------------------------------------------------------------------------------------- helpers

    def call(self, what, f, *args, **kwargs):
        """A call which has to succeed."""
        try:
            with seams.budget(self.limit):
                return f(*args, **kwargs)
        except (Violation, HarnessError, seams.SimCrash):
            raise
        except Exception as e:
            raise Violation('raised', '%s raised %s: %s' % (what, type(e).__name__, e))

    def attempt(self, f, *args, **kwargs):
        """A call which may fail: (value, None) or (None, exception)."""
        try:
            with seams.budget(self.limit):
                return f(*args, **kwargs), None
        except (Violation, HarnessError, seams.SimCrash):
            raise
        except Exception as e:
            return None, e

    def nid(self, x, what):
        try:
            return self.index[x]
        except (KeyError, TypeError):
            raise Violation('foreign-node', '%s returned %r, which is not a node of this graph' % (what, x))

    def ekey(self, u, v, b, e, what):
        u, v = self.nid(u, what), self.nid(v, what)
        if not self.directed and v < u:
            u, v = v, u
        return (u, v, b, e)

    def real_edge(self, t, what):
        n = 4 if self.kind == 'interval' else 3
        if not isinstance(t, tuple) or len(t) != n:
            raise Violation('malformed-edge', '%s returned %r' % (what, t))
        return self.ekey(t[0], t[1], t[2], t[3] if n == 4 else t[2], what)

    def model_edge(self, k):
        return self.ekey(k[0], k[1], k[2], k[3], 'model')

    def show(self, keys):
        out = []
        for u, v, b, e in sorted(keys, key=repr)[:6]:
            out.append('%r-%r@%s' % (self.n[u], self.n[v], b if self.kind == 'impulse' else '[%s,%s)' % (b, e)))
        return '[' + ', '.join(out) + (', ...' if len(keys) > 6 else '') + ']'

    def compare_edges(self, what, real, expect, problem='edges'):
        got = Counter(self.real_edge(t, what) for t in real)
        want = Counter(self.model_edge(k) for k in expect)
        if got != want:
            raise Violation(problem, '%s: missing %s, unexpected %s' % (
                what, self.show(list((want - got).elements())), self.show(list((got - want).elements()))))

    def window(self, qb, qe, opts):
        """Keyword arguments for a windowed call."""
        kw = {}
        if qb is not None:
            kw['begin'] = qb
        if qe is not None:
            kw['end'] = qe
        if 'inclusive' in opts and self.kind == 'impulse':
            kw['inclusive'] = tuple(opts['inclusive'])
        return kw

    def inclusive(self, method, opts):
        if self.kind == 'interval':
            return TF
        if 'inclusive' in opts:
            return tuple(opts['inclusive'])
        if self.cls == 'ImpulseDiGraph' and method in ('has_edge', 'remove_edge'):
            return TT
        return TF

    def spec(self, s):
        """Node argument of edges(): null, an index, or a list of indices with the container to pass them in."""
        if s is None:
            return None, None
        if isinstance(s, int):
            return self.n[s], {self.n[s]}
        style, items = s
        items = [self.n[i] for i in items]
        if style == 'tuple':
            arg = tuple(items)
            if arg in self.index:
                arg = items
        elif style == 'set':
            arg = set(items)
        elif style == 'iter':
            arg = iter(items)
        else:
            arg = items
        return arg, set(items)

    # ------------------------------------------------------------------------------------------------- dispatch

    def do(self, op):
        f = getattr(self, 'op_' + op[0], None)
        if f is None:
            raise HarnessError('unknown operation %r' % (op,))
        return f(*op[1:])

    def remember(self):
        """State measure: which edges (without attributes) and nodes are present."""
        self.states.add(hash((frozenset(self.model_edge(k) for k in self.M.edges),
                              frozenset(self.index[n] for n in self.M.nodes))))

    # -------------------------------------------------------------------------------------------------- updates

    def edge_args(self, u, v, b, e):
        return (self.n[u], self.n[v], b, e) if self.kind == 'interval' else (self.n[u], self.n[v], b)

    def op_add(self, u, v, b, e, attr):
        a = self.edge_args(u, v, b, e)
        if self.kind == 'impulse':
            e = b
        self.call('add_edge%r' % (a,), self.G.add_edge, *a, **attr)
        self.M.add_edge(self.n[u], self.n[v], b, e, attr)

    def op_add_batch(self, edges, attr, style='list'):
        batch = [self.edge_args(*x) for x in edges]
        if style == 'iter':
            arg = iter(batch)
        elif style == 'lists':
            arg = [list(x) for x in batch]
        elif style == 'tuple':
            arg = tuple(batch)
        else:
            arg = batch
        self.call('add_edges_from(%d edges)' % len(batch), self.G.add_edges_from, arg, **attr)
        for u, v, b, e in edges:
            self.M.add_edge(self.n[u], self.n[v], b, e if self.kind == 'interval' else b, attr)

    def op_bulk(self, n, seed, shape='spread'):
        """n edges at once, which a seed stands for (a graph larger than any buffer)."""
        self.limit += STEP_LIMIT * n // 50
        for u, v, b, e, attr in bulk_edges(len(self.n), n, seed, shape):
            a = self.edge_args(u, v, b, e)
            self.call('add_edge%r' % (a,), self.G.add_edge, *a, **attr)
            self.M.add_edge(self.n[u], self.n[v], b, e if self.kind == 'interval' else b, attr)

    def op_drain(self, part, seed):
        """Remove a part of the edges, in an order which a seed stands for, one by one."""
        rng = random.Random(seed)
        self.limit += STEP_LIMIT * len(self.M.edges) // 50
        keys = [(*self.model_edge(k)[:2], *k[2:]) for k in self.M.edges]
        rng.shuffle(keys)
        for u, v, b, e in keys[:int(len(keys) * part)]:
            if not self.directed and rng.random() < 0.5:
                u, v = v, u
            if rng.random() < 0.02:
                self.op_rm_node(u, None, None, {})
            elif self.kind == 'interval':
                self.op_rm_edge(u, v, b, e, {'exact': True})
            else:
                self.op_rm_edge(u, v, b, b, {})

    def op_add_node(self, u, attr):
        self.call('add_node(%r)' % (self.n[u],), self.G.add_node, self.n[u], **attr)
        self.M.add_node(self.n[u], attr)

    def op_add_nodes(self, items, attr, style='list'):
        arg = [self.n[u] if a is None else (self.n[u], dict(a)) for u, a in items]
        if style == 'iter':
            arg = iter(arg)
        self.call('add_nodes_from', self.G.add_nodes_from, arg, **attr)
        for u, a in items:
            self.M.add_node(self.n[u], attr)
            if a is not None:
                self.M.add_node(self.n[u], a)

    def op_rm_edge(self, u, v, qb, qe, opts):
        kw = self.window(qb, qe, opts)
        exact = bool(opts.get('exact')) and self.kind == 'interval'
        if exact:
            kw['overlapping'] = False
        self.call('remove_edge(%r, %r, %r)' % (self.n[u], self.n[v], kw),
                  self.G.remove_edge, self.n[u], self.n[v], **kw)
        self.M.remove_edges(self.n[u], self.n[v], qb, qe, self.inclusive('remove_edge', opts), exact)

    def op_rm_node(self, u, qb, qe, opts):
        n = self.n[u]
        kw = self.window(qb, qe, opts)
        self.call('remove_node(%r, %r)' % (n, kw), self.G.remove_node, n, **kw)
        if self.M.remove_node(n, qb, qe, self.inclusive('remove_node', opts)):
            # every edge of n went with the window: whether n itself stays is the graph's choice, but one choice
            stays = self.call('in', lambda: n in self.G)
            if not stays:
                self.M.nodes.pop(n, None)

    # --------------------------------------------------------------------------- updates which are meant to fail

    def op_bad(self, what, args):
        """An update the graph has to reject without changing. The audit which follows compares everything."""
        G, n = self.G, self.n
        if what == 'edge-node':
            where, how, b, e = args[:4]
            poison = {'list': [1], 'dict': {}, 'none-hash': Unhashable(), 'raises': HashRaises(), 'set': {1}}[how]
            other = n[args[4]]
            a = (poison, other) if where == 'u' else (other, poison) if where == 'v' else (poison, poison)
            a += (b, e) if self.kind == 'interval' else (b,)
            _, err = self.attempt(G.add_edge, *a, **args[5])
        elif what == 'edge-time':
            u, v, how, t = args[:4]
            poison = {'str': 'noon', 'none': None, 'obj': Unorderable(), 'list': [1], 'dict': {}}[how]
            if self.kind == 'interval':
                side = args[4]
                a = (n[u], n[v]) + ((poison, t) if side == 'b' else (t, poison) if side == 'e' else (poison, poison))
            else:
                a = (n[u], n[v], poison)
            if self.kind == 'impulse' or a[2] is a[3]:
                if how in ('str', 'obj', 'none') and not self.M.edges:
                    return None     # the very first timestamp has nothing to be ordered against
            _, err = self.attempt(G.add_edge, *a, **args[5])
        elif what == 'edge-reversed':
            u, v, b, e = args[:4]
            if self.kind != 'interval' or not e < b:
                return None
            _, err = self.attempt(G.add_edge, n[u], n[v], b, e, **args[4])
        elif what == 'edge-arity':
            u, v, b = args[:3]
            _, err = self.attempt(G.add_edge, n[u], n[v], *([b] if self.kind == 'interval' else []))
        elif what == 'node':
            poison = {'list': [1], 'dict': {}, 'none-hash': Unhashable(), 'raises': HashRaises(), 'set': {1}}[args[0]]
            _, err = self.attempt(G.add_node, poison, **args[1])
        elif what == 'rm-edge-window':
            u, v, b, e = args
            if not b < e:
                return None
            _, err = self.attempt(G.remove_edge, n[u], n[v], begin=e, end=b)
            err = err or True
        elif what == 'rm-node-window':
            u, b, e = args
            if not b < e:
                return None
            _, err = self.attempt(G.remove_node, n[u], begin=e, end=b)
            if err is None:
                if self.call('in', lambda: n[u] in G) is False and n[u] in self.M.nodes:
                    if any(n[u] in k[:2] for k in self.M.edges):
                        raise Violation('edges', 'remove_node(%r) over a reversed window dropped the node' % (n[u],))
                    self.M.nodes.pop(n[u], None)
                err = True
        elif what == 'rm-exact-open':
            u, v, b = args
            if self.kind != 'interval':
                return None
            _, err = self.attempt(G.remove_edge, n[u], n[v], begin=b, overlapping=False)
            err = err or True
        elif what == 'rm-unhashable':
            _, err = self.attempt(G.remove_edge, [1], n[args[0]])
            _, err2 = self.attempt(G.remove_node, [1])
            err = err or err2 or True
        else:
            raise HarnessError('unknown fault %r' % what)
        if err is None:
            raise Violation('accepted', '%s %r: the update was accepted' % (what, args))
        return err

    def poison_edge(self, how, good):
        a = list(self.edge_args(*good))
        if how == 'short':
            return tuple(a[:-1])
        if how == 'long':
            return tuple(a) + (99,)
        if how == 'int':
            return 7
        if how == 'none':
            return None
        if how == 'node-u':
            a[0] = Unhashable()
        elif how == 'node-v':
            a[1] = HashRaises()
        elif how == 'time':
            a[2] = Unorderable()
        elif how == 'end' and self.kind == 'interval':
            a[3] = Unorderable()
        elif how == 'reversed' and self.kind == 'interval':
            a[2], a[3] = a[3] + max(1, abs(a[3])), a[2]
        else:
            a[1] = Unhashable()
        return tuple(a)

    def op_bad_batch(self, edges, attr, at, how):
        """A batch which breaks after `at` edges, because the source fails or an edge is malformed.

        What was taken before the fault is in the graph, nothing of it or after it is.
        """
        if how == 'time' or how == 'end':
            # an unorderable timestamp can only be refused when there is something to order it against
            if self.kind == 'impulse' and not self.M.edges and at == 0:
                return
        good = [self.edge_args(*x) for x in edges]

        def source():
            for i, x in enumerate(good):
                if i == at:
                    if how == 'source':
                        raise SourceFailed('the source of the batch broke off')
                    yield self.poison_edge(how, edges[i])
                yield x

        _, err = self.attempt(self.G.add_edges_from, source(), **attr)
        if err is None:
            raise Violation('accepted', 'add_edges_from with a fault of kind %s after %d edges succeeded' % (how, at))
        for u, v, b, e in edges[:at]:
            self.M.add_edge(self.n[u], self.n[v], b, e if self.kind == 'interval' else b, attr)

    def op_bad_nodes(self, items, attr, at, how):
        def source():
            for i, (u, a) in enumerate(items):
                if i == at:
                    if how == 'source':
                        raise SourceFailed('the source of the batch broke off')
                    yield Unhashable()
                yield self.n[u] if a is None else (self.n[u], dict(a))

        _, err = self.attempt(self.G.add_nodes_from, source(), **attr)
        if err is None:
            raise Violation('accepted', 'add_nodes_from with a fault after %d nodes succeeded' % at)
        for u, a in items[:at]:
            self.M.add_node(self.n[u], attr)
            if a is not None:
                self.M.add_node(self.n[u], a)

    # -------------------------------------------------------------------------------------------------- queries

    def ambiguous(self, s):
        """A tuple which is not a node (yet) stands for the nodes in it."""
        return isinstance(s, int) and isinstance(self.n[s], (tuple, frozenset)) and self.n[s] not in self.M.nodes

    def op_edges(self, us, vs, qb, qe, opts):
        if self.ambiguous(us) or self.ambiguous(vs):
            return
        self.answers += 1
        ua, uset = self.spec(us)
        va, vset = self.spec(vs)
        kw = self.window(qb, qe, opts)
        if us is not None:
            kw['u'] = ua
        if vs is not None:
            kw['v'] = va
        data = opts.get('data', False)
        if data is not False:
            kw['data'] = data
        if 'default' in opts:
            kw['default'] = opts['default']
        what = 'edges(%s)' % ', '.join('%s=%r' % i for i in kw.items() if i[0] not in ('u', 'v')) + \
            ' u=%r v=%r' % (us if not isinstance(us, int) else self.n[us], vs if not isinstance(vs, int) else self.n[vs])
        real = self.call(what, self.G.edges, **kw)
        want = self.M.select(uset, vset, qb, qe, self.inclusive('edges', opts))
        real = list(real)
        if data is False:
            self.compare_edges(what, real, want)
            return
        for x in real:
            if not isinstance(x, tuple) or len(x) != 2:
                raise Violation('malformed-edge', '%s returned %r' % (what, x))
        self.compare_edges(what, [x[0] for x in real], want)
        attrs = {self.model_edge(k): self.M.edges[k] for k in want}
        for t, value in real:
            a = attrs[self.real_edge(t, what)]
            expect = a if data is True else a.get(data, opts.get('default'))
            if freeze(value) != freeze(expect):
                raise Violation('attributes', '%s: %r has %r, expected %r' % (what, t, value, expect))

    def op_has_edge(self, u, v, qb, qe, opts):
        self.answers += 1
        kw = self.window(qb, qe, opts)
        U, V = self.n[u], self.n[v]
        if opts.get('exact') and self.kind == 'interval':
            kw['overlapping'] = False
            want = self.M.key(U, V, qb, qe) is not None
        else:
            want = any(self.M.joins(k, U, V) and self.M.present(k[2], k[3], qb, qe, self.inclusive('has_edge', opts))
                       for k in self.M.edges)
        what = 'has_edge(%r, %r, %r)' % (U, V, kw)
        got = self.call(what, self.G.has_edge, U, V, **kw)
        if bool(got) != want:
            raise Violation('has_edge', '%s is %r, expected %r' % (what, got, want))

    def op_nodes(self, qb, qe, opts):
        self.answers += 1
        kw = self.window(qb, qe, opts)
        data = opts.get('data', False)
        if data is not False:
            kw['data'] = data
        if 'default' in opts:
            kw['default'] = opts['default']
        what = 'nodes(%r)' % kw
        real = list(self.call(what, lambda: list(self.G.nodes(**kw))))
        want = self.M.nodes_in(qb, qe, self.inclusive('nodes', opts))
        names = real if data is False else [x[0] for x in real]
        got = Counter(self.nid(x, what) for x in names)
        expect = Counter(self.index[x] for x in want)
        if got != expect:
            raise Violation('nodes', '%s: missing %r, unexpected %r' % (
                what, [self.n[i] for i in (expect - got).elements()], [self.n[i] for i in (got - expect).elements()]))
        if data is not False:
            for x, value in real:
                a = self.M.nodes[x]
                w = a if data is True else a.get(data, opts.get('default'))
                if freeze(value) != freeze(w):
                    raise Violation('attributes', '%s: node %r has %r, expected %r' % (what, x, value, w))

    def op_has_node(self, u, qb, qe, opts):
        self.answers += 1
        n = self.n[u]
        kw = self.window(qb, qe, opts)
        what = 'has_node(%r, %r)' % (n, kw)
        want = n in self.M.nodes_in(qb, qe, self.inclusive('has_node', opts))
        got = self.call(what, self.G.has_node, n, **kw)
        if bool(got) != want:
            raise Violation('has_node', '%s is %r, expected %r' % (what, got, want))
        if qb is None and qe is None:
            got = self.call('in', lambda: n in self.G)
            if bool(got) != want:
                raise Violation('has_node', '%r in G is %r, expected %r' % (n, got, want))

    def op_reversed(self, u, v, b, e):
        """A window which ends before it begins is refused, or contains nothing."""
        self.answers += 1
        G, u, v, w = self.G, self.n[u], self.n[v], {'begin': b, 'end': e}
        questions = {
            'edges': lambda: list(G.edges(**w)), 'edges of a node': lambda: list(G.edges(u=u, **w)),
            'edges of two nodes': lambda: list(G.edges(u=u, v=v, **w)), 'has_edge': lambda: G.has_edge(u, v, **w),
            'nodes': lambda: list(G.nodes(**w)), 'has_node': lambda: G.has_node(u, **w),
            'number_of_nodes': lambda: G.number_of_nodes(**w), 'degree': lambda: G.degree(u, **w),
            'mean degree': lambda: G.degree(**w), 'changes of degree': lambda: G.degree(u, delta=True, **w),
            'subgraph': lambda: list(G.to_subgraph(b, e).edges()),
        }
        if self.kind == 'interval':
            questions['has_edge, exact'] = lambda: G.has_edge(u, v, overlapping=False, **w)
        for what, ask in questions.items():
            got, err = self.attempt(ask)
            if err is None and got:
                raise Violation('reversed-window', '%s of %r, %r with %r is %.200r' % (what, u, v, w, got))
        if self.kind == 'interval':
            for half in ({'begin': b}, {'end': e}, {}) if any(self.M.joins(k, u, v) for k in self.M.edges) else ():
                for f in (G.has_edge, G.remove_edge):
                    got, err = self.attempt(f, u, v, overlapping=False, **half)
                    if err is None:
                        raise Violation('accepted', 'exactly one interval with only %r returned %r' % (half, got))
            if [u] in G or {} in G:
                raise Violation('has_node', 'a list is a node')

    def op_n_nodes(self, qb, qe, opts):
        self.answers += 1
        kw = self.window(qb, qe, opts)
        what = 'number_of_nodes(%r)' % kw
        want = len(self.M.nodes_in(qb, qe, self.inclusive('number_of_nodes', opts)))
        got = self.call(what, self.G.number_of_nodes, **kw)
        if got != want:
            raise Violation('number_of_nodes', '%s is %r, expected %r' % (what, got, want))
        if qb is None and qe is None:
            got = self.call('len', lambda: len(self.G))
            if got != want:
                raise Violation('number_of_nodes', 'len(G) is %r, expected %r' % (got, want))

    def op_interval(self):
        want = self.M.span()
        if want is None:
            # a graph all of whose edges are gone has the span of a new one
            def span(g):
                got, err = self.attempt(g.interval)
                return got, type(err)
            new = span(getattr(self.dnx, self.cls)())
            now = span(self.G)
            if now != new:
                raise Violation('interval', 'interval() of a graph without edges is %r, that of a new one %r' % (now, new))
            return
        self.answers += 1
        got = self.call('interval()', self.G.interval)
        if tuple(got) != want:
            raise Violation('interval', 'interval() is %r, expected %r' % (got, want))

    def op_unique(self, which, qb, qe, inclusive):
        if self.kind != 'interval':
            return
        self.answers += 1
        name = {'b': 'unique_begin_timestamps', 'e': 'unique_end_timestamps', 'be': 'unique_timestamps'}[which]
        times = set()
        for k in self.M.edges:
            if 'b' in which:
                times.add(k[2])
            if 'e' in which:
                times.add(k[3])
        kw = {}
        if qb is not None:
            kw['begin'] = qb
        if qe is not None:
            kw['end'] = qe
        if inclusive is not None:
            kw['inclusive'] = tuple(inclusive)
        inc = tuple(inclusive) if inclusive is not None else TT
        # an open end is the end of the graph, which is subject to inclusive as a given one is
        span = self.M.span()
        if span is not None:
            lo = span[0] if qb is None else qb
            hi = span[1] if qe is None else qe
            want = sorted(t for t in times if (lo <= t if inc[0] else lo < t) and (t <= hi if inc[1] else t < hi))
        else:
            want = []
        what = '%s(%r)' % (name, kw)
        got = list(self.call(what, getattr(self.G, name), **kw))
        if sorted(got) != want or len(set(got)) != len(got):
            raise Violation('timestamps', '%s is %r, expected %r' % (what, got, want))

    def op_degree(self, which, u, qb, qe, opts):
        if self.ambiguous(u):
            return
        self.answers += 1
        kw = self.window(qb, qe, opts)
        if not self.directed:
            which = 'degree'
        inc = self.inclusive(which, opts)
        f = getattr(self.G, which)
        if u is None:
            nodes = self.M.nodes_in(qb, qe, inc)
            if not nodes:
                return      # the mean degree of no nodes is not defined
            total = sum(self.M.degree(which, n, qb, qe, inc) for n in nodes)
            want = total / len(nodes)
            what = 'mean %s(%r)' % (which, kw)
            got = self.call(what, f, **kw)
            if not isinstance(got, (int, float)) or abs(got - want) > 1e-9 * max(1, abs(want)):
                raise Violation('degree', '%s is %r, expected %r' % (what, got, want))
            return
        n = self.n[u]
        what = '%s(%r, %r%s)' % (which, n, kw, ', delta' if opts.get('delta') else '')
        if not opts.get('delta'):
            want = self.M.degree(which, n, qb, qe, inc)
            got = self.call(what, f, n, **kw)
            if got != want:
                raise Violation('degree', '%s is %r, expected %r' % (what, got, want))
            return
        kw['delta'] = True
        if self.kind == 'impulse':
            got = self.call(what, f, n, **kw)
            want = Counter()
            for k in self.M.edges:
                if self.M.present(k[2], k[3], qb, qe, inc):
                    d = (int(k[0] == n and which != 'in_degree') + int(k[1] == n and which != 'out_degree')) \
                        if self.directed else int(n in k[:2])
                    want[k[2]] += d
            want = {t: d for t, d in want.items() if d}
            pairs = [tuple(x) for x in got]
            if len(pairs) != len(want) or dict(pairs) != want:
                raise Violation('degree', '%s is %r, expected %r' % (what, got, sorted(want.items())))
            return
        # interval graphs: each time at which the degree of n changes, with the degree after the change
        span = self.M.span()
        if span is None:
            return
        if any(k[2] == k[3] and n in k[:2] for k in self.M.edges):
            return      # an edge without duration begins and ends in one moment: no degree "after the change"
        lo = span[0] if qb is None else qb
        hi = span[1] if qe is None else qe
        if lo > hi:
            return
        got = [tuple(x) for x in self.call(what, f, n, **kw)]
        times = set()

        def weight(k):
            if not self.directed:
                return int(n in k[:2])
            return int(k[0] == n and which != 'in_degree') + int(k[1] == n and which != 'out_degree')

        for k in self.M.edges:
            if weight(k) and self.M.present(k[2], k[3], lo, hi, TF):
                if k[2] >= lo:
                    times.add(k[2])
                if k[3] < hi:
                    times.add(k[3])
        want = [(t, sum(weight(k) for k in self.M.edges if k[2] <= t < k[3])) for t in sorted(times)]
        last = {}
        for t, d in got:
            last[t] = d
        if sorted(last.items()) != want or [t for t, _ in got] != sorted(t for t, _ in got):
            raise Violation('degree', '%s is %r, expected (last per time) %r' % (what, got, want))

    # ---------------------------------------------------------------------------------------------------- audits

    def op_audit(self):
        """Everything the graph shows, against the model."""
        self.op_edges(None, None, None, None, {'data': True})
        self.op_nodes(None, None, {'data': True})
        self.op_n_nodes(None, None, {})
        self.op_interval()
        self.op_edges(None, None, -INFTY, INFTY, {})
        for u in range(len(self.n)):
            self.op_has_node(u, None, None, {})
        if self.kind == 'interval':
            self.op_unique('be', None, None, None)

    def op_deep_audit(self):
        """The audit, and the same edges again through every index: by time, by node, by pair."""
        self.op_audit()
        times = sorted({t for k in self.M.edges for t in k[2:]})
        step = max(1, len(times) // 40)
        for i in range(0, len(times), step):
            t = times[i]
            self.op_edges(None, None, t, t, {})
            if i + step < len(times):
                self.op_edges(None, None, t, times[i + step], {})
            self.op_edges(None, None, t, None, {})
            self.op_edges(None, None, None, t, {})
        for u in range(len(self.n)):
            self.op_edges(u, None, None, None, {})
            self.op_edges(None, u, None, None, {})
            if times:
                self.op_edges(u, None, times[0], times[-1], {})
                self.op_edges(None, u, times[len(times) // 2], None, {})
                self.op_has_node(u, times[0], times[len(times) // 2], {})
        pairs = sorted({(self.index[k[0]], self.index[k[1]]) for k in self.M.edges})
        for u, v in pairs[:40]:
            self.op_edges(u, v, None, None, {'data': True})
            self.op_has_edge(u, v, None, None, {})
            self.op_has_edge(v, u, None, None, {})
        for k in list(self.M.edges)[:40]:
            u, v = self.index[k[0]], self.index[k[1]]
            self.op_has_edge(u, v, k[2], k[3], {'exact': True, 'inclusive': [True, True]})

    def op_calendar(self, kind, seed):
        """A graph whose times are not numbers answers as its twin in which they are numbers of the same order."""
        rng = random.Random(seed)
        of = CALENDARS[kind]
        edges = list(self.M.edges)[:40]
        if not edges:
            return
        rank = {t: 10 + 2 * i for i, t in enumerate(sorted({t for e in edges for t in e[2:]}))}
        back = {of(r): r for r in range(0, 10 + 2 * len(rank) + 20)}
        twins = [getattr(self.dnx, self.cls)(), getattr(self.dnx, self.cls)()]
        times = [lambda r: r, of]
        interval = self.kind == 'interval'
        for u, v, b, e in edges:
            for g, t in zip(twins, times):
                self.call('add_edge with a %s' % kind, g.add_edge, u, v, t(rank[b]), *([t(rank[e])] if interval else []))

        ranks = [lambda x: x, lambda x: back.get(x, x)]

        def plain(x, rank):
            """An answer with nodes by number and times by rank, in any order."""
            if isinstance(x, (list, set)) or hasattr(x, '__next__'):
                return sorted((plain(y, rank) for y in x), key=repr)
            if isinstance(x, tuple) and len(x) == (4 if interval else 3):
                return self.real_edge((x[0], x[1], *map(rank, x[2:])), 'a query')
            return x

        for _ in range(rng.choice([5, 15, 30])):
            b, e = sorted(rng.choice(list(rank.values())) + rng.choice([0, 0, 1, -1, -5, 5]) for _ in range(2))
            window = {}
            if rng.random() < 0.7:
                window['begin'] = b
            if rng.random() < 0.7:
                window['end'] = e
            if not interval and rng.random() < 0.5:
                window['inclusive'] = (rng.random() < 0.5, rng.random() < 0.5)
            u, v = (rng.choice(edges)[i] for i in (0, 1))
            what = rng.choice(['edges', 'edges_u', 'edges_v', 'edges_uv', 'has_edge', 'nodes', 'degree', 'interval', 'export',
                               'snapshots', 'changes', 'remove_edge', 'remove_node'])
            answers = []
            for g, t, rank_of in zip(twins, times, ranks):
                w = {k: t(x) if k != 'inclusive' else x for k, x in window.items()}
                both = {'begin': w.get('begin'), 'end': w.get('end')}
                f = {
                    'edges': lambda: g.edges(**w), 'edges_u': lambda: g.edges(u=u, **w), 'edges_v': lambda: g.edges(v=v, **w),
                    'edges_uv': lambda: g.edges(u=u, v=v, **w), 'has_edge': lambda: g.has_edge(u, v, **w),
                    'nodes': lambda: [self.nid(n, 'nodes') for n in g.nodes(**w)],
                    'degree': lambda: g.degree(u, **w), 'interval': lambda: list(map(rank_of, g.interval())) if g.edges() else None,
                    'export': lambda: [(self.nid(x, 'export'), self.nid(y, 'export')) if self.directed else
                                       tuple(sorted((self.nid(x, 'export'), self.nid(y, 'export'))))
                                       for x, y in g.to_subgraph(**dict(w, **both), multigraph=True).edges()],
                    'snapshots': lambda: [s.number_of_edges() for s in g.to_snapshot_graph().get()] if g.edges() else None,
                    'changes': lambda: [[rank_of(a), d] for a, d in g.degree(u, delta=True)] if g.edges() else None,
                    'remove_edge': lambda: g.remove_edge(u, v, **w), 'remove_node': lambda: g.remove_node(u, **w)
                    if g.has_node(u) else None,
                }[what]
                answers.append(plain(self.call('%s(%r) with times of type %s' % (what, window, kind), f), rank_of))
            self.answers += 1
            if answers[0] != answers[1]:
                raise Violation('calendar', '%s(%r) with times of type %s is %.300r, with numbers it is %.300r' % (
                    what, window, kind, answers[1], answers[0]))
        if plain(twins[0].edges(), ranks[0]) != plain(twins[1].edges(), ranks[1]):
            raise Violation('calendar', 'with times of type %s the graph contains %.300r, with numbers %.300r' % (
                kind, twins[1].edges(), twins[0].edges()))

    def observe(self):
        """Everything the graph shows, as one comparable value (no model involved)."""
        n = self.call('edges', lambda: list(self.G.edges(data=True)))
        edges = Counter((self.real_edge(t, 'edges'), freeze(a)) for t, a in n)
        nodes = {self.nid(x, 'nodes'): freeze(a) for x, a in self.call('nodes', lambda: list(self.G.nodes(data=True)))}
        spread = Counter(self.real_edge(t, 'edges') for t in
                         self.call('edges', lambda: list(self.G.edges(begin=-INFTY, end=INFTY))))
        by_node = tuple(tuple(sorted(Counter(self.real_edge(t, 'edges') for t in
                                             self.call('edges', lambda: list(self.G.edges(u=x)))).items()))
                        if x in nodes else None for x in self.n)
        return edges, nodes, spread, by_node, self.call('len', lambda: len(self.G))


INFTY = 1e18

# times which are not numbers, by their rank
CALENDARS = {
    'datetime': lambda r: datetime.datetime(2000, 1, 1) + datetime.timedelta(minutes=r),
    'date': lambda r: datetime.date(2000, 1, 1) + datetime.timedelta(days=r),
    'word': lambda r: '%06d' % r,
    'fraction': lambda r: fractions.Fraction(r, 7),
    'pair': lambda r: (1, r),
}
