"""Reference model of a temporal graph: a dictionary of the edges which are present. No tree, no index, no cache."""

INF = float('inf')


def overlaps(b, e, qb, qe):
    """An edge over [b, e) against a queried window, either end of which may be open (None)."""
    if qb is None and qe is None:
        return True
    if qb is None:
        return b < qe
    if qe is None:
        return e > qb or b == qb
    return (b < qe and e > qb) or b == qb


def within(t, qb, qe, inclusive):
    """A point in time against a queried window."""
    if qb is not None and qb == qe:
        return t == qb
    if qb is not None and not (t >= qb if inclusive[0] else t > qb):
        return False
    if qe is not None and not (t <= qe if inclusive[1] else t < qe):
        return False
    return True


class Model:
    def __init__(self, kind, directed):
        self.kind = kind            # 'interval' or 'impulse'
        self.directed = directed
        self.nodes = {}
        self.edges = {}             # (u, v, b, e) as first added -> attributes

    # ---- updates

    def key(self, u, v, b, e):
        k = (u, v, b, e)
        if k in self.edges:
            return k
        if not self.directed and (v, u, b, e) in self.edges:
            return (v, u, b, e)
        return None

    def add_node(self, n, attr):
        self.nodes.setdefault(n, {}).update(attr)

    def add_edge(self, u, v, b, e, attr):
        k = self.key(u, v, b, e)
        if k is None:
            self.edges[(u, v, b, e)] = dict(attr)
        else:
            self.edges[k].update(attr)
        self.nodes.setdefault(u, {})
        self.nodes.setdefault(v, {})

    def present(self, b, e, qb, qe, inclusive):
        if self.kind == 'interval':
            return overlaps(b, e, qb, qe)
        return within(b, qb, qe, inclusive)

    def joins(self, k, u, v):
        return (k[0] == u and k[1] == v) or (not self.directed and k[0] == v and k[1] == u)

    def remove_edges(self, u, v, qb, qe, inclusive, exact=False):
        if exact:
            gone = [self.key(u, v, qb, qe)]
            gone = [k for k in gone if k is not None]
        else:
            gone = [k for k in self.edges if self.joins(k, u, v) and self.present(k[2], k[3], qb, qe, inclusive)]
        for k in gone:
            del self.edges[k]
        return gone

    def remove_node(self, n, qb, qe, inclusive):
        """Returns the nodes whose presence the removal leaves open: n, if a window was given and no edge is left."""
        if n not in self.nodes:
            return False
        gone = [k for k in self.edges if n in k[:2] and self.present(k[2], k[3], qb, qe, inclusive)]
        for k in gone:
            del self.edges[k]
        if qb is None and qe is None:
            del self.nodes[n]
            return False
        return not any(n in k[:2] for k in self.edges)

    # ---- queries

    def select(self, us, vs, qb, qe, inclusive):
        """Edges between any of us and any of vs (None: every node) present in the window."""
        out = []
        for k in self.edges:
            if not self.present(k[2], k[3], qb, qe, inclusive):
                continue
            a, b = k[0], k[1]
            if (us is None or a in us) and (vs is None or b in vs):
                out.append(k)
            elif not self.directed and (us is None or b in us) and (vs is None or a in vs):
                out.append(k)
        return out

    def nodes_in(self, qb, qe, inclusive):
        if qb is None and qe is None:
            return set(self.nodes)
        out = set()
        for k in self.edges:
            if self.present(k[2], k[3], qb, qe, inclusive):
                out.update(k[:2])
        return out

    def degree(self, which, n, qb, qe, inclusive):
        d = 0
        for k in self.edges:
            if not self.present(k[2], k[3], qb, qe, inclusive):
                continue
            if self.directed:
                if which in ('degree', 'out_degree') and k[0] == n:
                    d += 1
                if which in ('degree', 'in_degree') and k[1] == n:
                    d += 1
            elif n in k[:2]:
                d += 1
        return d

    def span(self):
        if not self.edges:
            return None
        return min(k[2] for k in self.edges), max(k[3] for k in self.edges)

    def copy(self):
        m = Model(self.kind, self.directed)
        m.nodes = {n: dict(a) for n, a in self.nodes.items()}
        m.edges = {k: dict(a) for k, a in self.edges.items()}
        return m
