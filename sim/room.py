"""What a graph needs room for: a long stream of updates and queries over a graph which stays small."""
import gc
import sys
import types

import networkx as nx

from .seams import Violation
from .graphs import CLASSES
from .gen import Gen
from .snap_replica import snap_history
from .tenants import SNAPS

SKIP = (types.ModuleType, types.FrameType, types.CodeType, types.BuiltinFunctionType, types.MethodDescriptorType,
        types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, str, bytes, int, float, bool)


def reach(roots, ours=False):
    """How many objects and entries hang on the roots. Classes and functions are entered only if they are dynetworkx's."""
    seen = set()
    stack = list(roots)
    n = 0
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        n += 1
        t = type(x)
        if isinstance(x, SKIP):
            continue
        if isinstance(x, (type, types.FunctionType)):
            if not ours or not (getattr(x, '__module__', '') or '').startswith('dynetworkx'):
                continue
            if isinstance(x, types.FunctionType):
                stack += [x.__dict__, x.__defaults__, x.__kwdefaults__, x.__closure__]
                continue
            stack += [v for k, v in list(vars(x).items()) if not k.endswith('__')]
            continue
        if isinstance(x, (dict, list, set, frozenset, tuple)):
            n += len(x)
        stack += gc.get_referents(x)
    return n


def library():
    """The objects which hang on the modules of dynetworkx."""
    roots = []
    for name, m in sorted(sys.modules.items()):
        if name == 'dynetworkx' or name.startswith('dynetworkx.'):
            roots += [v for k, v in vars(m).items() if not k.endswith('__')]
    return reach(roots, True)


def fresh(r, dnx):
    """A graph which never held anything but what r holds now."""
    g = getattr(dnx, r.cls)()
    if r.cls in SNAPS:
        for (a, b), s in r.M.items():
            h = nx.DiGraph() if r.directed else nx.Graph()
            h.add_nodes_from((r.n[i], dict(x)) for i, x in s.nodes.items())
            h.add_edges_from((r.n[u], r.n[v], dict(x)) for (u, v), x in s.edges.items())
            g.insert(h, start=a, end=b)
        return g
    for n, a in r.M.nodes.items():
        g.add_node(n, **a)
    for (u, v, b, e), a in r.M.edges.items():
        g.add_edge(*((u, v, b, e) if r.kind == 'interval' else (u, v, b)), **a)
    return g


SLACK = 300


def check(r, dnx, start, ops):
    gc.collect()
    used = reach([r.G.__dict__])
    need = reach([fresh(r, dnx).__dict__])
    if used > 1.25 * need + SLACK:
        raise Violation('room', 'after %d calls a %s hangs on to %d objects and entries, one which was made with the same '
                        'content to %d' % (ops, r.cls, used, need))
    now = library()
    if now > start + SLACK:
        raise Violation('room-library', 'after %d calls on a %s dynetworkx itself hangs on to %d objects and entries, '
                        'before the first it were %d' % (ops, r.cls, now, start))
    return used, need


# -------------------------------------------------------------------------------------------------------- generator

def generate(rng, train_op, export_op):
    cls = rng.choice(list(CLASSES) * 2 + list(SNAPS))
    faults = {}
    if cls in SNAPS:
        p = snap_history(rng, updates=0.5, queries=0, bad=0.02, endless=True)
        p['ops'] += [['room']]
        p.pop('quiet')
        return p
    n = rng.choice([600, 1200])
    width = rng.choice([1, 3, 10, 25])
    visitors = rng.random() < 0.4
    clock = rng.choice(['stream', 'stream', 'range', 'wide'])
    order = rng.choice(['oldest', 'oldest', 'newest', 'any'])
    how = rng.choice(['exact', 'exact', 'pair', 'node', 'mixed'])
    if visitors:
        how = rng.choice(['node', 'node', 'mixed', 'exact', 'pair'])
    g = Gen(rng, cls, faults)
    g.configure(n=rng.choice([2, 3, 6, 10, 20]), ordered=cls == 'ImpulseDiGraph')
    home = len(g.nodes)
    nodes = g.nodes
    if visitors:
        nodes = [['i', i] for i in range(home)]
        g.nodes = list(nodes)
        nodes = nodes + [['i', home + i] for i in range(n)]
    for kind in ('clock:' + clock, 'withdrawal:' + order, 'withdrawal:by-' + how) + (('visitors',) if visitors else ()):
        g.note(kind)
    interval = g.kind == 'interval'
    ops, live = [], []
    asked = rng.choice([0.05, 0.3])
    t = rng.choice([0, 1000, 1.5e9])
    wrong = rng.choice([0, 0, 0.05])

    def moment():
        return t if clock == 'stream' else rng.randrange(20) if clock == 'range' else rng.uniform(-1e9, 1e9)

    def withdraw():
        i = {'oldest': 0, 'newest': len(live) - 1}.get(order, rng.randrange(len(live)))
        u, v, b, e = live[i]
        way = how if how != 'mixed' else rng.choice(['exact', 'pair', 'node'])
        if way == 'node':
            u = u if u >= home or rng.random() < 0.5 else v
            ops.append(['rm_node', u, None, None, {}])
            live[:] = [x for x in live if u not in x[:2]]
        elif way == 'pair':
            ops.append(['rm_edge', u, v, None, None, {}])
            live[:] = [x for x in live if x[:2] != (u, v) and (g.directed or x[:2] != (v, u))]
        else:
            ops.append(['rm_edge', u, v, b, e, {'exact': True}] if interval else ['rm_edge', u, v, b, b, {}])
            live.pop(i)

    def query():
        a = moment()
        z = rng.choice([a, a + 1, a + rng.random() * 10, None])
        a = rng.choice([a, a, None])
        k = rng.randrange(9)
        u = rng.choice(live)[rng.randrange(2)] if live and rng.random() < 0.7 else rng.randrange(home)
        v = rng.choice(live)[rng.randrange(2)] if live and rng.random() < 0.7 else rng.randrange(home)
        ops.append([['edges', None, None, a, z, {}], ['edges', u, None, a, z, {}], ['edges', None, v, a, z, {'data': True}],
                    ['edges', u, v, a, z, {}], ['has_edge', u, v, a, z, {}], ['nodes', a, z, {}], ['has_node', u, a, z, {}],
                    ['n_nodes', a, z, {}], ['unique', 'be', a, z, None]][k])

    for i in range(n):
        t += rng.choice([1, 1, 2, 0.5])
        u, v = rng.randrange(home), rng.randrange(home)
        if visitors:
            u = home + i
            if rng.random() < 0.3 and i:
                v = home + i - 1
        b = moment()
        e = b + rng.choice([0, 1, 5, 30])
        ops.append(['add', u, v, b, e, {'weight': i} if i % 3 else {}])
        live.append((u, v, b, e))
        while len(live) > width:
            withdraw()
        while rng.random() < asked:
            query()
        if rng.random() < wrong:
            ops.append(g.bad_op())
        if cls == 'ImpulseDiGraph' and i % 20 == 10 and clock != 'wide':
            m = rng.choice([[[1, 2]], [[1, 2], [2, 1]], [[1, 2], [1, 2]], [[1, 2], [1, 3]], [[1, 2], [2, 3]]])
            ops.append(['motif', m, rng.choice([1, 2, 5]) + i / 64, 'seeded', i])
        if i % 50 == 20:
            k = rng.random()
            if k < 0.3:
                ops.append(['own_file', '/sim/room.txt'])
            elif k < 0.6:
                ops.append(export_op(g, rng))
            elif k < 0.7:
                ops.append(train_op(rng, g, 1))
        if i % 400 == 399:
            ops.append(['room'])
    while live and rng.random() < 0.995:
        withdraw()
    ops.append(['room'])
    return {'cls': cls, 'nodes': nodes, 'ops': ops, 'faults': faults, 'sim_time': float(n)}
