"""A graph which is copied, checkpointed and restored: every copy is driven and audited next to its own model."""
import copy
import pickle

from . import seams
from .seams import Violation, HarnessError, Nodes
from .gen import Gen, history
from .graphs import CLASSES
from .snap_replica import SnapReplica, snap_history
from .tenants import SNAPS


def state(r):
    return r.G, list(list.__iter__(r.n)), r.M


class Copies:
    def __init__(self, plan, dnx, replica):
        self.r = [(SnapReplica if plan['cls'] in SNAPS else replica)(plan['cls'], plan['nodes'], dnx)]
        self.points = []
        self.copied = 0
        self.restored = 0

    def clone(self, r, parts):
        c = copy.copy(r)
        c.G, nodes, c.M = parts
        c.n = Nodes(nodes)
        c.index = {}
        for i, x in enumerate(nodes):
            c.index.setdefault(x, i)
        c.states = set()
        c.answers = 0
        return c

    def dump(self, r, proto):
        """The bytes of the graph; the nodes and the model of it go along, so that a node stays one node."""
        before = r.call('name', lambda: (r.G.name, dict(r.G.graph)))
        try:
            return pickle.dumps((state(r), before), protocol=proto)
        except Exception as e:
            raise Violation('copy-raised', 'pickling a %s raised %s: %s' % (r.cls, type(e).__name__, e))

    def load(self, r, blob, salt):
        seams.SALT[0] = salt
        try:
            parts, seen = pickle.loads(blob)
        except Exception as e:
            raise Violation('copy-raised', 'loading a pickled %s raised %s: %s' % (r.cls, type(e).__name__, e))
        finally:
            seams.SALT[0] = 0
        return self.arrived(r, parts, seen)

    def arrived(self, r, parts, seen):
        c = self.clone(r, parts)
        if type(c.G) is not type(r.G):
            raise Violation('type', 'a copy of a %s is a %s' % (r.cls, type(c.G).__name__))
        if c.call('name', lambda: (c.G.name, dict(c.G.graph))) != seen:
            raise Violation('graph-attributes', 'a copy is called %r, expected %r' % ((c.G.name, c.G.graph), seen))
        c.do(['audit'])
        return c

    def tag(self, r, which, i, value):
        """An attribute which is a list gets longer in one copy, where it is."""
        if r.cls in SNAPS:
            places = r.real()
            if not places:
                return
            at = i % len(places)
            m = r.M[places[at][0]]
            which = 'nodes' if m.multi else which
            k = sorted(getattr(m, which), key=repr)
            if not k:
                return
            k = k[i % len(k)]
            model = getattr(m, which)[k]
            others = [x for s in r.M.values() for x in list(s.nodes.values()) + list(s.edges.values()) if x is not model]
            if 'tags' not in model or any(x.get('tags') is model['tags'] for x in others):
                if which == 'nodes':
                    r.call('add_nodes_from', lambda: r.G.add_nodes_from([r.n[k]], sbunch=[at], tags=[value]))
                else:
                    edge = (r.n[k[0]], r.n[k[1]])
                    r.call('add_edges_from', lambda: r.G.add_edges_from([edge], sbunch=[at], tags=[value]))
                model['tags'] = [value]
                return
            g = r.real()[at][1]
            real = g.nodes[r.n[k]] if which == 'nodes' else g.edges[r.n[k[0]], r.n[k[1]]]
        else:
            keys = sorted(r.M.nodes if which == 'nodes' else r.M.edges, key=repr)
            if not keys:
                return
            k = keys[i % len(keys)]
            model = (r.M.nodes if which == 'nodes' else r.M.edges)[k]
            if 'tags' not in model:
                if which == 'nodes':
                    r.call('add_node', lambda: r.G.add_node(k, tags=[value]))
                else:
                    r.call('add_edge', lambda: r.G.add_edge(*(k if r.kind == 'interval' else k[:3]), tags=[value]))
                model['tags'] = [value]
                return
            items = r.call(which, lambda: list(getattr(r.G, which)(data=True)))
            found = [a for x, a in items if (x == k if which == 'nodes' else r.real_edge(x, which) == r.model_edge(k))]
            if len(found) != 1:
                raise Violation(which, '%r is there %d times' % (k, len(found)))
            real = found[0]
        if not isinstance(real.get('tags'), list):
            raise Violation('attributes', '%r has %r, expected %r' % (k, real, model))
        real['tags'].append(value)
        model['tags'].append(value)

    def do(self, k, op):
        k %= len(self.r)
        r = self.r[k]
        if op[0] == 'copy':
            how, salt = op[1:]
            if how == 'deepcopy':
                seen = r.call('name', lambda: (r.G.name, dict(r.G.graph)))
                seams.SALT[0] = salt
                try:
                    parts = copy.deepcopy(state(r))
                except Exception as e:
                    raise Violation('copy-raised', 'copy.deepcopy of a %s raised %s: %s' % (r.cls, type(e).__name__, e))
                finally:
                    seams.SALT[0] = 0
                c = self.arrived(r, parts, seen)
            else:
                c = self.load(r, self.dump(r, how), salt)
            if len(self.r) < 4:
                self.r.append(c)
            else:
                self.r[(k + 1) % 4] = c
            self.copied += 1
        elif op[0] == 'checkpoint':
            self.points.append(self.dump(r, op[1]))
        elif op[0] == 'restart':
            # the process died; another one goes on from some checkpoint
            if self.points:
                self.r[k] = self.load(r, self.points[op[1] % len(self.points)], op[2])
                self.restored += 1
        elif op[0] == 'name':
            r.G.name = op[1]
        elif op[0] == 'tag':
            self.tag(r, *op[1:])
        elif op[0] == 'check':
            r.do(['audit' if r.cls in SNAPS else 'deep_audit'] if op[1] else ['audit'])
        else:
            r.do(op)


def generate(rng, train_op, export_op):
    cls = rng.choice(list(CLASSES) + list(SNAPS))
    families = ('edges', 'edges', 'has_edge', 'nodes', 'n_nodes', 'interval', 'unique', 'degree')
    if cls in SNAPS:
        p = snap_history(rng, updates=0.8, queries=0.4, bad=0.03, kinds=True)
    else:
        p = history(rng, cls, families, bad=rng.choice([0, 0, 0.1]), audits=0, queries=0.3, deep=False, large=0.01)
    faults = p['faults']
    g = Gen(rng, cls if cls not in SNAPS else 'IntervalGraph', faults)
    g.configure(n=2)
    g.nodes = p['nodes']
    often = rng.choice([0.05, 0.15, 0.3])
    tags = rng.choice([0, 0.1, 0.2])
    ops = []

    def how():
        return rng.choice(['deepcopy', 'deepcopy', 0, 2, 4, 5])

    def salt():
        return rng.choice([0, rng.randrange(1, 2 ** 40)])

    alive = 1
    for op in p['ops']:
        if tags and op[0] == 'share':
            continue            # an update of one of the two would be an update of both
        k = rng.randrange(alive)
        ops.append([k, op])
        if alive > 1 and op[0] in ('add', 'add_batch', 'rm_edge', 'rm_node', 'snap', 'add_edges') and rng.random() < 0.2:
            ops.append([rng.randrange(alive), op])
            g.note('update-redelivered-to-a-copy')
        if rng.random() < often:
            x = rng.random()
            if x < 0.4:
                ops.append([k, ['copy', how(), salt()]])
                alive = min(alive + 1, 4)
                g.note('copied')
            elif x < 0.6:
                ops.append([k, ['checkpoint', rng.choice([0, 2, 4, 5])]])
                g.note('checkpoint')
            elif x < 0.8:
                ops.append([k, ['restart', rng.randrange(8), salt()]])
                g.note('crash-and-restart-from-checkpoint')
            elif x < 0.85:
                ops.append([k, ['name', rng.choice(['', 'a', 'b'])]])
            elif x < 0.92 and cls not in SNAPS:
                ops.append([k, train_op(rng, g, rng.choice([1, 2, 3]))])
            elif cls not in SNAPS:
                ops.append([k, export_op(g, rng)])
        if rng.random() < tags:
            ops.append([rng.randrange(alive), ['tag', rng.choice(['nodes', 'edges']), rng.randrange(1000), len(ops)]])
            g.note('attribute-changed-in-place')
        if rng.random() < 0.15:
            ops.append([rng.randrange(4), ['check', rng.random() < 0.4]])
    ops.append([0, ['copy', how(), salt()]])
    return {'cls': cls, 'nodes': p['nodes'], 'ops': ops, 'faults': faults, 'sim_time': p['sim_time']}
