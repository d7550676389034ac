"""Workload and fault generation. One PRNG per plan; everything it decides is written out in the plan."""
import heapq

from .graphs import bulk_edges

CLASSES = ['IntervalGraph', 'IntervalDiGraph', 'ImpulseGraph', 'ImpulseDiGraph']


class Gen:
    def __init__(self, rng, cls, faults=None):
        self.rng = rng
        self.cls = cls
        self.kind = 'interval' if cls.startswith('Interval') else 'impulse'
        self.directed = 'Di' in cls
        self.faults = {} if faults is None else faults
        self.nodes = []
        self.sim_time = 0.0
        self.largest_batch = 150

    def note(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    # ------------------------------------------------------------------------------------------------ the world

    def make_nodes(self, n=None, textual=False, ordered=False):
        rng = self.rng
        if n is None:
            n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
        styles = ['int', 'str', 'word', 'neg', 'textmix', 'odd', 'big'] if textual else ['int', 'int', 'str', 'word', 'tuple', 'sim', 'collide', 'mixed', 'frozen', 'object', 'big']
        if ordered:
            styles = ['int', 'str', 'sim', 'collide', 'neg']
        style = rng.choice(styles)
        out = []
        for i in range(n):
            s = style
            if s == 'mixed':
                s = rng.choice(['int', 'str', 'tuple', 'sim', 'object'])
            elif s == 'textmix':
                s = rng.choice(['int', 'str', 'word'])
            if s == 'int':
                out.append(['i', i])                  # 0 is a node too
            elif s == 'big':
                out.append(['i', 1000 * (i + 1)])
            elif s == 'neg':
                out.append(['i', i - n // 2])
            elif s == 'str':
                out.append(['s', chr(97 + i % 26) + (str(i // 26) if i >= 26 else '')])
            elif s == 'odd':
                w = self.WORDS[i % len(self.WORDS)] + ('w%d' % i if i >= len(self.WORDS) else '')
                out.append(['s', w if rng.random() < 0.7 or i >= len(self.NUMERALS) else self.NUMERALS[i]])
            elif s == 'word':
                out.append(['s', 'node' + chr(97 + i % 26) + chr(97 + i // 26)])
            elif s == 'tuple':
                out.append(['t', [['i', i], ['i', i // 2]]] if i % 3 else ['t', [['s', 'ab'], ['i', i], ['i', 1]]])
            elif s == 'frozen':
                out.append(['fs', [['i', i], ['i', i + 1]]])
            elif s == 'object':
                out.append(['o', i, rng.choice([3, rng.randrange(2 ** 30)])])
            elif s == 'collide':
                out.append(['n', i, rng.choice([7, 7, 7, 8])])
            else:
                out.append(['n', i, rng.randrange(-2 ** 40, 2 ** 40)])
        self.nodes = out
        self.odd = style == 'odd'
        return out

    def set_time_profile(self, textual=False):
        rng = self.rng
        p = rng.choice(['tiny', 'tiny', 'small', 'small', 'wide', 'dyadic', 'epoch', 'float', 'mixed', 'late'] * 2 +
                       ['fine', 'nano', 'huge'])
        self.profile = p
        self.fine = rng.choice([0, 0.12345678901234, -3.3, 1e6]), rng.choice([1, 1, 1e-3, 1e-9, 1e-300])
        # edges which have begun and not ended yet
        self.ongoing = rng.choice([0, 0, 0, 0, 0, 0.1]) if self.infinite and p != 'nano' else 0
        self.event_times = []

    def time(self):
        rng, p = self.rng, self.profile
        if p == 'tiny':
            return rng.randint(-2, 4)
        if p == 'small':
            return rng.randint(-5, 20)
        if p == 'wide':
            return rng.randint(-1000, 1000)
        if p == 'dyadic':
            return rng.randint(-20, 60) / 4
        if p == 'epoch':
            return 1500000000 + rng.randint(0, 60)
        if p == 'float':
            return round(rng.uniform(-10, 30), 3)
        if p == 'late':
            return rng.randint(3, 40)
        if p == 'fine':
            return self.fine[0] + rng.random() * self.fine[1]
        if p == 'nano':
            return 1600000000123456789 + rng.randint(0, 60) * rng.choice([1, 1, 1000])
        if p == 'huge':
            t = rng.choice([-1, 1]) * rng.choice([1e300, 2 ** 70, 1e17, 3]) * rng.randint(0, 3)
            return float(t) if self.plain else t
        return rng.choice([rng.randint(-5, 15), float(rng.randint(-5, 15)), rng.randint(-10, 30) / 2])

    def span(self):
        """(b, e) of a new edge."""
        rng = self.rng
        if self.event_times and rng.random() < 0.25:
            b = rng.choice(self.event_times)
            if b == float('inf'):
                b = self.time()
        else:
            b = self.time()
        k = rng.random()
        if self.kind == 'impulse':
            e = b
        elif k < self.zero_length:
            e = b
        elif rng.random() < self.ongoing:
            e = float('inf')
        elif k < 0.5:
            e = b + rng.choice([1, 1, 2, 3, 0.5] if self.profile in ('dyadic', 'mixed', 'float') else [1, 1, 2, 3])
        elif k < 0.9:
            e = self.time()
            if e < b:
                b, e = e, b
        else:
            e = b + rng.choice([10, 100, 1000])
        if self.kind == 'interval' and e == b and self.zero_length == 0:
            e = b + max(1, abs(b))
        self.event_times.append(b)
        self.event_times.append(e)
        return b, e

    def point(self):
        """A point in time to ask about, mostly where something happens."""
        rng = self.rng
        k = rng.random()
        if k < 0.6 and self.event_times:
            t = rng.choice(self.event_times)
            j = rng.random()
            if j < 0.7:
                return t
            return t + rng.choice([-1, 1, -0.5, 0.5])
        if k < 0.7:
            return 0
        return self.time()

    def window(self):
        rng = self.rng
        k = rng.random()
        if k < 0.12:
            return None, None
        if k < 0.27:
            return self.point(), None
        if k < 0.42:
            return None, self.point()
        if k < 0.52:
            t = self.point()
            return t, t
        a, b = self.point(), self.point()
        if b < a:
            a, b = b, a
        return a, b

    def opts(self):
        o = {}
        if self.kind == 'impulse' and self.rng.random() < 0.5:
            o['inclusive'] = [self.rng.random() < 0.5, self.rng.random() < 0.5]
        return o

    # words which a program that looks for meaning in them might trip over
    WORDS = ['%a', 'b-c', "o'k", '"q"', 'x.y', '_', '(z)', '\u00e9t\u00e9', '@home', 'a/b', '\\n', '&', '~', 'None', 'inf2', '0x1f',
             '\u65e5\u672c', '-', '+', '[1]', '{}', 'r\u00e9sum\u00e9', 'begin', 'u', 'weight', '!x', '^', '1st', '?', '<b>']
    # words which look like a number, and are not an integer
    NUMERALS = ['1e5', 'inf', 'nan', '1.5', '-2.0', '1j', '0b1', '1e', '-inf', 'Infinity', '2019-01-02', '00x', '3_', '1e400', '.5', '5.']
    numeric_weight = False
    odd = False
    plain = False
    big = None
    infinite = True
    ATTR_KEYS = ['weight', 'colour', 'w2', 'label']

    def attr(self, plain=False, p=0.5):
        rng = self.rng
        if rng.random() >= p:
            return {}
        out = {}
        many = rng.random() < 0.003
        for i in range(rng.choice([1, 1, 2, 3]) if not many else rng.choice([8, 20, 50])):
            if plain:
                v = rng.choice([rng.randint(-5, 100), rng.randint(0, 40) / 8, 'red', 'blue', 'x1y', 0, 1e-7, 123456789.25,
                                rng.random(), -1e300, 0.0])
                if self.odd and rng.random() < 0.5:
                    v = rng.choice(self.WORDS)
            else:
                v = rng.choice([rng.randint(-5, 100), rng.randint(0, 40) / 8, 'red', 'blue', None, True, 0, '', [1, 2]])
            key = rng.choice(self.ATTR_KEYS)
            if key == 'weight' and self.numeric_weight and not isinstance(v, (int, float)):
                v = 3
            if many and i > 2:
                key = 'k%d' % i
            out[key] = v
        return out

    def any_node(self):
        if self.big and self.rng.random() < 0.5:
            return self.rng.randrange(2)
        return self.rng.randrange(len(self.nodes))

    def pair(self):
        rng = self.rng
        u = self.any_node()
        if rng.random() < self.self_loops:
            return u, u
        return u, self.any_node()

    # ------------------------------------------------------------------------------------------ update messages

    def configure(self, textual=False, zero_length=None, loops=None, n=None, ordered=False, large=0.0):
        """large: how often the graph is large in one way (see bulk_edges)."""
        rng = self.rng
        self.plain = textual
        if large and rng.random() < large:
            shape = rng.choice(['pair', 'pair', 'hub', 'hub', 'hub', 'instant', 'path', 'long', 'spread'])
            size = rng.choice([40, 70, 130, 260, 520])
            if shape != 'spread':
                n = {'hub': size + 1, 'pair': rng.choice([2, 3, 5]), 'instant': 5 + int(size ** 0.5)}.get(shape, rng.choice([3, 9, 30, 150]))
            self.big = ['bulk', size, rng.randrange(2 ** 32), shape]
            self.note('large-' + shape)
        self.make_nodes(n=n, textual=textual, ordered=ordered)
        self.set_time_profile(textual)
        self.zero_length = rng.choice([0, 0, 0.1, 0.3]) if zero_length is None else zero_length
        self.self_loops = rng.choice([0, 0.02, 0.2]) if loops is None else loops
        self.live = []      # edges some client believes to be present
        if self.big:
            edges = [e[:4] for e in bulk_edges(len(self.nodes), *self.big[1:])]
            if self.kind == 'impulse':
                edges = [(u, v, b, b) for u, v, b, _ in edges]
            self.live = rng.sample(edges, min(len(edges), rng.choice([5, 30, 100])))
            self.event_times = [t for e in self.live[:20] for t in e[2:]]
            self.self_loops = min(self.self_loops, 0.02)

    def fill(self, ops):
        """Put the large part of the graph, if there is one, into a list of operations."""
        if self.big:
            at = 0 if self.rng.random() < 0.7 else self.rng.randint(0, len(ops))
            ops.insert(at, self.big)
            if self.rng.random() < 0.4:
                self.note('large-drained')
                ops.insert(self.rng.randint(at + 1, len(ops)), ['drain', self.rng.choice([0.2, 0.6, 0.95]), self.rng.randrange(2 ** 32)])
        return ops

    def add_op(self):
        rng = self.rng
        k = rng.random()
        if self.live and k < 0.08:
            u, v, b, e = rng.choice(self.live)      # the same edge again
            if not self.directed and rng.random() < 0.5:
                u, v = v, u
        elif self.live and k < 0.2:
            _, _, b, e = rng.choice(self.live)      # another edge over the same interval
            u, v = self.pair()
        elif self.live and k < 0.32:
            u, v, _, _ = rng.choice(self.live)      # the same pair at another time
            b, e = self.span()
        else:
            u, v = self.pair()
            b, e = self.span()
        self.live.append((u, v, b, e))
        return ['add', u, v, b, e, self.attr(self.plain)]

    def batch_edges(self, n=None):
        if n is None:
            n = min(self.rng.choice([0, 1, 2, 3, 5, 8] * 20 + [30, 70, 150]), self.largest_batch)
        return [list(self.add_op()[1:5]) for _ in range(n)]

    def remove_op(self, weights=None):
        rng = self.rng
        k = rng.random()
        if self.live and k < 0.75:
            u, v, b, e = rng.choice(self.live)
            if rng.random() < 0.5:
                self.live.remove((u, v, b, e))
        else:
            u, v = self.pair()
            b, e = self.span()
        if not self.directed and rng.random() < 0.5:
            u, v = v, u
        j = rng.random()
        if j < 0.45:
            if self.kind == 'interval':
                return ['rm_edge', u, v, b, e, {'exact': True}]
            return ['rm_edge', u, v, b, b, self.opts()]
        if j < 0.6:
            return ['rm_edge', u, v, None, None, {}]
        if j < 0.82:
            qb, qe = self.window()
            return ['rm_edge', u, v, qb, qe, self.opts()]
        if j < 0.93:
            return ['rm_node', u, None, None, {}]
        qb, qe = self.window()
        return ['rm_node', u, qb, qe, self.opts()]

    def update_op(self, p_remove):
        rng = self.rng
        if rng.random() < p_remove:
            return self.remove_op()
        k = rng.random()
        if k < 0.78:
            return self.add_op()
        if k < 0.88:
            return ['add_batch', self.batch_edges(), self.attr(self.plain, 0.3), rng.choice(['list', 'iter', 'tuple', 'lists'])]
        if k < 0.95:
            return ['add_node', self.any_node(), self.attr(self.plain)]
        return ['add_nodes', [[self.any_node(), self.attr(self.plain, 1) if rng.random() < 0.5 else None]
                              for _ in range(rng.choice([1, 2, 3, 4] * 20 + [12, 40, 100]))], self.attr(self.plain, 0.3),
                rng.choice(['list', 'iter'])]

    # ------------------------------------------------------------------------------------------------- queries

    def node_arg(self):
        rng = self.rng
        k = rng.random()
        if k < 0.35:
            return None
        if k < 0.7:
            return self.any_node()
        items = [self.any_node() for _ in range(rng.choice([0, 1, 2, 2, 3, 5] * 4 + [12, 30, 80 if self.big else 20]))]
        style = rng.choice(['list', 'list', 'tuple', 'set', 'iter'])
        return [style, items]

    def edges_query(self):
        rng = self.rng
        qb, qe = self.window()
        o = self.opts()
        k = rng.random()
        if k < 0.25:
            o['data'] = True
        elif k < 0.4:
            o['data'] = rng.choice(self.ATTR_KEYS)
            if rng.random() < 0.5:
                o['default'] = rng.choice([0, 'none', -1])
        return ['edges', self.node_arg(), self.node_arg(), qb, qe, o]

    def query(self, families=('edges', 'has_edge', 'nodes', 'has_node', 'n_nodes', 'interval', 'unique')):
        rng = self.rng
        f = rng.choice(families)
        qb, qe = self.window()
        if qb is not None and qe is not None and qb < qe and rng.random() < 0.03:
            return ['reversed', self.any_node(), self.any_node(), qe, qb]
        o = self.opts()
        if f == 'edges':
            return self.edges_query()
        if f == 'has_edge':
            if self.live and rng.random() < 0.7:
                u, v, b, e = rng.choice(self.live)
                if rng.random() < 0.3:
                    u, v = v, u
                if rng.random() < 0.4:
                    if self.kind == 'interval':
                        return ['has_edge', u, v, b, e, {'exact': True}]
                    return ['has_edge', u, v, b, b, o]
            else:
                u, v = self.pair()
            return ['has_edge', u, v, qb, qe, o]
        if f == 'nodes':
            k = rng.random()
            if k < 0.3:
                o['data'] = True
            elif k < 0.5:
                o['data'] = rng.choice(self.ATTR_KEYS)
                o['default'] = 'none'
            return ['nodes', qb, qe, o]
        if f == 'has_node':
            return ['has_node', self.any_node(), qb, qe, o]
        if f == 'n_nodes':
            return ['n_nodes', qb, qe, o]
        if f == 'interval':
            return ['interval']
        if f == 'unique':
            inc = [rng.random() < 0.5, rng.random() < 0.5] if rng.random() < 0.5 else None
            return ['unique', rng.choice(['b', 'e', 'be']), qb, qe, inc]
        if f == 'degree':
            which = rng.choice(['degree', 'in_degree', 'out_degree']) if self.directed else 'degree'
            u = None if rng.random() < 0.25 else self.any_node()
            if u is not None and rng.random() < 0.35:
                o['delta'] = True
            return ['degree', which, u, qb, qe, o]
        raise ValueError(f)

    # ------------------------------------------------------------------------------------------ rejected updates

    POISON = ['list', 'dict', 'none-hash', 'raises', 'set']

    def bad_op(self):
        rng = self.rng
        k = rng.random()
        u, v = self.pair()
        b, e = self.span()
        if self.live and rng.random() < 0.4:
            u, v, b, e = rng.choice(self.live)
        if k < 0.2:
            return ['bad', 'edge-node', [rng.choice(['u', 'v', 'uv']), rng.choice(self.POISON), b, e, u, self.attr()]]
        if k < 0.45:
            return ['bad', 'edge-time', [u, v, rng.choice(['str', 'none', 'obj', 'list', 'dict']), b,
                                         rng.choice(['b', 'e', 'be']), self.attr()]]
        if k < 0.58 and self.kind == 'interval':
            return ['bad', 'edge-reversed', [u, v, b, b - rng.choice([1, 0.5, 10]), self.attr()]]
        if k < 0.62:
            return ['bad', 'edge-arity', [u, v, b]]
        if k < 0.68:
            return ['bad', 'node', [rng.choice(self.POISON), self.attr()]]
        if k < 0.74:
            return ['bad', 'rm-edge-window', [u, v, b, b + rng.choice([1, 5, 50])]]
        if k < 0.78:
            return ['bad', 'rm-node-window', [u, b, b + rng.choice([1, 5, 50])]]
        if k < 0.8:
            return ['bad', 'rm-exact-open', [u, v, b]]
        if k < 0.82:
            return ['bad', 'rm-unhashable', [u]]
        if k < 0.95:
            edges = self.batch_edges(rng.choice([1, 2, 3, 5, 8] * 20 + [30, 70, 150]))
            at = rng.randrange(len(edges))
            how = rng.choice(['source', 'source', 'short', 'long', 'int', 'none', 'node-u', 'node-v', 'time', 'end', 'reversed'])
            return ['bad_batch', edges, self.attr(), at, how]
        items = [[self.any_node(), self.attr(p=1) if rng.random() < 0.4 else None] for _ in range(rng.randint(1, 4))]
        return ['bad_nodes', items, self.attr(p=0.3), rng.randrange(len(items)), rng.choice(['source', 'node'])]

    # -------------------------------------------------------------------------------------------------- network

    def deliver(self, messages, swarm):
        """Send the updates of several clients over a lossy network; return them in the order they arrive.

        Simulated time in seconds. Loss is followed by a retransmission, so that every update arrives in the end; an
        acknowledgement which is lost makes the client send an update again which was applied already.
        """
        rng = self.rng
        clients = swarm['clients']
        q = []
        now = [0.0] * clients
        seq = 0
        last_arrival = [0.0] * clients
        for op in messages:
            c = rng.randrange(clients)
            now[c] += rng.expovariate(1.0)
            arrive = now[c]
            if rng.random() < swarm['loss']:
                self.note('message-lost-and-retransmitted')
                arrive += rng.uniform(1, 5)
            if rng.random() < swarm['delay']:
                self.note('message-delayed')
                arrive += rng.expovariate(0.2)
            if swarm['partition'] and swarm['partition'][0] <= now[c] < swarm['partition'][1] and c in swarm['cut']:
                self.note('message-held-by-partition')
                arrive = swarm['partition'][1] + rng.random() * 0.01
            else:
                arrive += rng.random() * 0.1
            if arrive < last_arrival[c]:
                self.note('message-reordered')
            last_arrival[c] = max(last_arrival[c], arrive)
            heapq.heappush(q, (arrive, seq, op))
            seq += 1
            if rng.random() < swarm['dup']:
                self.note('message-duplicated')
                heapq.heappush(q, (arrive + rng.expovariate(0.5), seq, op))
                seq += 1
            if rng.random() < swarm['ack']:
                self.note('ack-lost-and-resent')
                heapq.heappush(q, (arrive + 3 + rng.random(), seq, op))
                seq += 1
        out = []
        while q:
            t, _, op = heapq.heappop(q)
            out.append(op)
            self.sim_time = max(self.sim_time, t)
        return out

    def swarm(self):
        rng = self.rng
        clients = rng.choice([1, 2, 3, 5])
        s = {'clients': clients, 'loss': rng.choice([0, 0, 0.05, 0.3]), 'delay': rng.choice([0, 0, 0.1, 0.5]),
             'dup': rng.choice([0, 0, 0.05, 0.3]), 'ack': rng.choice([0, 0, 0.05, 0.2]), 'partition': None, 'cut': []}
        if clients > 1 and rng.random() < 0.3:
            a = rng.uniform(0, 20)
            s['partition'] = [a, a + rng.uniform(2, 30)]
            s['cut'] = [c for c in range(clients) if rng.random() < 0.5]
        return s

    def phases(self, size):
        """Update messages with the shape of a real feed: growth, churn, drain, bursts in time order."""
        rng = self.rng
        out = []
        shape = rng.choice(['churn', 'grow-drain', 'grow-churn', 'sorted', 'reverse', 'same-interval', 'churn', 'zigzag'])
        if shape == 'churn':
            p = rng.choice([0.15, 0.3, 0.45])
            out = [self.update_op(p) for _ in range(size)]
        elif shape == 'grow-drain':
            out = [self.update_op(0.02) for _ in range(size // 2)]
            out += [self.remove_op() for _ in range(size // 2)]
        elif shape == 'grow-churn':
            out = [self.update_op(0) for _ in range(size // 2)] + [self.update_op(0.4) for _ in range(size // 2)]
        else:
            adds = [self.add_op() for _ in range(size * 2 // 3)]
            if shape == 'sorted':
                adds.sort(key=lambda o: (o[3], o[4]))
            elif shape == 'reverse':
                adds.sort(key=lambda o: (o[3], o[4]), reverse=True)
            elif shape == 'zigzag':
                adds.sort(key=lambda o: (o[3], o[4]))
                adds = [a for p in zip(adds, reversed(adds)) for a in p][:len(adds)]
            else:
                spans = [self.span() for _ in range(3)]
                for a in adds:
                    a[3], a[4] = rng.choice(spans)
                self.live += [tuple(a[1:5]) for a in adds]
            out = adds + [self.update_op(0.6) for _ in range(size // 3)]
        return out

    def size(self, big=False):
        rng = self.rng
        return rng.choice([3, 5, 8, 12, 20, 30] + ([60, 120, 200] if big or rng.random() < 0.2 else [12, 20]))


class Poll:
    """Clients which ask the same questions again and again, while the graph changes under them."""

    def __init__(self, rng, g):
        self.rng = rng
        self.g = g
        self.asked = []
        self.repeat = rng.choice([0, 0, 0.3, 0.9])
        self.keep = rng.choice([1, 2, 5, 20])

    def __call__(self, new):
        if self.asked and self.rng.random() < self.repeat:
            self.g.note('client-polls-again')
            return self.rng.choice(self.asked)
        q = new()
        if len(self.asked) < self.keep:
            self.asked.append(q)
        elif self.rng.random() < 0.2:
            self.asked[self.rng.randrange(self.keep)] = q
        return q


def history(rng, cls, families, bad=0.0, audits=0.05, deep=True, removal_bias=None, size=None, textual=False,
            queries=1.0, configure=None, nodes=None, large=0.008):
    """A plan: updates of several clients as a lossy network delivers them, with queries in between."""
    g = Gen(rng, cls)
    g.configure(textual=textual, **{'large': 0 if nodes is not None else large, **(configure or {})})
    if nodes is not None:
        g.nodes = nodes
        g.numeric_weight = True
    n = g.size() if size is None else size
    messages = g.phases(n)
    swarm = g.swarm()
    ops = []
    poll = Poll(rng, g)
    for op in g.fill(g.deliver(messages, swarm)):
        if bad and rng.random() < bad:
            b = g.bad_op()
            g.note('rejected:' + (b[1] if b[0] == 'bad' else b[0]))
            ops.append(b)
            ops.append(['audit'])
            if rng.random() < 0.3:
                g.note('rejected-update-retried')
                ops.append(b)
                ops.append(['audit'])
        ops.append(op)
        while families and rng.random() < queries * 0.55:
            ops.append(poll(lambda: g.query(families)))
        if rng.random() < audits:
            ops.append(['deep_audit' if deep and rng.random() < 0.3 else 'audit'])
    ops.append(['deep_audit' if deep else 'audit'])
    return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': g.sim_time,
            'clients': swarm['clients']}
