"""One scenario per property: what is generated, what is executed, and by which rule a run counts."""
from . import seams
from .seams import Violation, HarnessError
from .graphs import Replica, CLASSES, CALENDARS
from .gen import Gen, Poll, history, CLASSES as ALL
from .disk_replica import DiskReplica, TextFile
from .export_replica import ExportReplica
from .snap_replica import SnapReplica, snap_history
from .threads import run_threads
from . import copies, inside, room, tenants

SCENARIOS = {}


def scenario(cls):
    SCENARIOS[cls.pid] = cls
    return cls


class Scenario:
    pid = None
    count = {'quick': 1000, 'thorough': 20000}
    rule = ''
    real = 'dynetworkx (all modules of /repo), networkx, sortedcontainers'
    stub = 'the network and its clients (messages, losses, retries) are simulated'
    state_measure = 'distinct sets of present edges and nodes, over all runs'
    assumptions = [
        'seeded search: what no explored plan reaches is not decided',
        'string hashing is fixed (PYTHONHASHSEED=0); set order is varied by nodes whose hash the plan chooses',
        'nodes and times of generated updates are ints, floats, strings, tuples, frozensets and simulated nodes',
    ]

    def __init__(self, dnx, tier):
        self.dnx = dnx
        self.tier = tier
        self.stats = {}
        self.states = set()
        self.log = []

    def shrinkable(self, plan):
        return [('ops',)]

    def nontrivial(self, plan, res):
        return res.stats.get('answers', 0) >= 3 and len(res.states) >= 2

    def run_ops(self, r, ops, remember=True):
        stats = self.stats
        try:
            for i, op in enumerate(ops):
                stats['step'] = i
                r.do(op)
                self.log.append((i, op[0], r.answers))
                if remember and op[0][:2] in ('ad', 'rm', 'ba'):
                    r.remember()
        finally:
            stats['ops'] = stats.get('ops', 0) + len(ops)
            stats['answers'] = stats.get('answers', 0) + r.answers
            self.states |= r.states


class History(Scenario):
    """Updates of several clients in the order a lossy network delivers them, queries in between, against the model."""
    classes = ALL
    families = ()
    options = {}
    replica = Replica
    rule = ('a run is a seeded history of updates (several clients, lossy network) with queries in between; it is '
            'non-trivial if it went through at least 2 graph states and at least 3 answers were compared; distinct '
            'by the delivered operations')

    def generate(self, rng):
        return history(rng, rng.choice(self.classes), self.families, **self.options)

    def execute(self, plan):
        r = self.replica(plan['cls'], plan['nodes'], self.dnx)
        self.run_ops(r, plan['ops'])


def calendar(rng, plan):
    """Now and then times are dates, words and the like."""
    if rng.random() < 0.12:
        plan['ops'].insert(rng.randint(len(plan['ops']) // 2, len(plan['ops'])),
                           ['calendar', rng.choice(sorted(CALENDARS)), rng.randrange(2 ** 32)])
        plan['faults']['times-which-are-not-numbers'] = 1
    return plan


@scenario
class C01(History):
    pid = 'C01'
    count = {'quick': 14000, 'thorough': 400000}
    classes = ['IntervalGraph', 'IntervalDiGraph']
    families = ('edges', 'edges', 'edges', 'has_edge', 'has_edge', 'nodes', 'has_node', 'n_nodes', 'interval', 'unique')

    def generate(self, rng):
        return calendar(rng, super().generate(rng))


@scenario
class C02(History):
    pid = 'C02'
    count = {'quick': 18000, 'thorough': 500000}
    classes = ['ImpulseGraph', 'ImpulseDiGraph']
    families = ('edges', 'edges', 'edges', 'has_edge', 'has_edge', 'nodes', 'has_node', 'n_nodes', 'interval')

    def generate(self, rng):
        return calendar(rng, super().generate(rng))


@scenario
class C03(History):
    pid = 'C03'
    count = {'quick': 20000, 'thorough': 500000}
    families = ('degree',)
    options = {'deep': False, 'audits': 0, 'queries': 1.3}


@scenario
class C04(History):
    """Removals: after each, everything which was not named has to be there, seen through every index."""
    pid = 'C04'
    count = {'quick': 14000, 'thorough': 400000}

    def generate(self, rng):
        plan = history(rng, rng.choice(ALL), (), audits=0)
        ops = []
        p = rng.choice([0.3, 1])
        for op in plan['ops']:
            ops.append(op)
            if op[0].startswith('rm'):
                if rng.random() < 0.15:
                    plan['faults']['removal-redelivered'] = plan['faults'].get('removal-redelivered', 0) + 1
                    ops.append(op)
                if rng.random() < p:
                    ops.append(['deep_audit'] if rng.random() < 0.15 else ['audit'])
        plan['ops'] = ops
        return plan


@scenario
class C05(History):
    """Updates which have to be rejected, batches which break off, and their retries."""
    pid = 'C05'
    count = {'quick': 16000, 'thorough': 400000}
    options = {'bad': 0.3, 'audits': 0.02, 'size': None}
    families = ('edges', 'has_edge', 'nodes')

    def generate(self, rng):
        size = rng.choice([2, 4, 6, 10, 15, 30])
        o = dict(self.options, size=size, large=0.003, queries=0.3, bad=rng.choice([0.15, 0.4, 0.8]))
        return history(rng, rng.choice(ALL), self.families, **o)


@scenario
class C06(Scenario):
    """Several replicas receive the same updates in different orders, some of them more than once."""
    pid = 'C06'
    count = {'quick': 12000, 'thorough': 300000}
    rule = ('a run delivers the same per-edge update chains to 2 to 4 replicas in independently chosen orders with '
            'duplicates and log replays; non-trivial: at least 2 replicas ended with at least one edge; distinct by '
            'chains and delivery orders')

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure()
        chains, keys = [], set()
        for _ in range(rng.choice([1, 2, 3, 5, 8, 15, 30, 60] * 12 + [150])):
            if rng.random() < 0.12:
                u = g.any_node()
                k = ('n', u)
                ops = [['add_node', u, g.attr(p=0.8)] if rng.random() < 0.5 else
                       ['add_nodes', [[u, g.attr(p=0.8)]], g.attr(p=0.6), rng.choice(['list', 'iter'])]
                       for _ in range(rng.choice([1, 1, 2]))]
            else:
                op = g.add_op()
                u, v, b, e = op[1:5]
                k = (min(u, v), max(u, v), b, e)
                ops = []
                here = False
                for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
                    if here and rng.random() < 0.5:
                        a, c = (v, u) if not g.directed and rng.random() < 0.5 else (u, v)
                        if g.kind == 'interval':
                            ops.append(['rm_edge', a, c, b, e, {'exact': True}])
                        else:
                            ops.append(['rm_edge', a, c, b, b, {'inclusive': [True, True]}])
                        here = False
                    else:
                        a, c = (v, u) if not g.directed and rng.random() < 0.5 else (u, v)
                        ops.append(['add', a, c, b, e, g.attr()])
                        here = True
            if k in keys:
                continue
            keys.add(k)
            chains.append({'id': len(chains), 'ops': ops})
        schedules = []
        for i in range(rng.choice([2, 2, 3, 4])):
            picks = [c['id'] for c in chains for _ in c['ops']]
            mode = rng.choice(['shuffle', 'shuffle', 'reverse', 'in-order', 'time'])
            if mode == 'shuffle':
                rng.shuffle(picks)
                g.note('order-shuffled')
            elif mode == 'reverse':
                picks.reverse()
                g.note('order-reversed')
            elif mode == 'time':
                starts = {c['id']: c['ops'][0][3] if c['ops'][0][0] == 'add' else 0 for c in chains}
                picks.sort(key=lambda c: starts[c])
            out = []
            dup = rng.choice([0, 0, 0.1, 0.4])
            for p in picks:
                out.append([p, 'next'])
                if rng.random() < dup:
                    out.append([rng.choice(picks), 'again'])
                    g.note('message-duplicated')
                if rng.random() < dup / 4:
                    out.append([rng.choice(picks), 'replay'])
                    g.note('log-replayed')
            schedules.append({'picks': out, 'coalesce': rng.random() < 0.3})
        return {'cls': cls, 'nodes': g.nodes, 'ops': chains, 'schedule': schedules, 'faults': g.faults,
                'sim_time': float(len(chains))}

    def shrinkable(self, plan):
        return [('ops',)] + [('schedule', i, 'picks') for i in range(len(plan['schedule']))] + \
            [('ops', i, 'ops') for i in range(len(plan['ops']))]

    def nontrivial(self, plan, res):
        return res.stats.get('converged_edges', 0) > 0 and len(plan['schedule']) >= 2

    def execute(self, plan):
        chains = {c['id']: c['ops'] for c in plan['ops']}
        want = None
        replicas = []
        for s in plan['schedule']:
            r = Replica(plan['cls'], plan['nodes'], self.dnx)
            pos = {c: 0 for c in chains}
            ops = []
            for c, how in s['picks']:
                if c not in chains:
                    continue
                if how == 'next':
                    if pos[c] < len(chains[c]):
                        ops.append(chains[c][pos[c]])
                        pos[c] += 1
                elif how == 'again':
                    if 0 < pos[c] <= len(chains[c]):
                        ops.append(chains[c][pos[c] - 1])
                else:
                    ops.extend(chains[c][:pos[c]])
            for c in sorted(chains):
                ops.extend(chains[c][pos[c]:])
            if s['coalesce']:
                ops = self.coalesce(ops)
            self.run_ops(r, ops)
            r.do(['audit'])
            replicas.append(r)
            seen = r.observe()
            self.log.append((len(seen[0]), len(seen[1]), seen[4]))
            if want is None:
                want = seen
                self.stats['converged_edges'] = len(seen[0])
            elif seen != want:
                for name, a, b in zip(('edges', 'nodes', 'edges in time', 'edges by node', 'size'), want, seen):
                    if a != b:
                        raise Violation('diverged', '%s of two replicas differ: %.300r / %.300r' % (name, a, b))
        replicas[-1].do(['deep_audit'])

    @staticmethod
    def coalesce(ops):
        out = []
        for op in ops:
            if op[0] == 'add':
                if out and out[-1][0] == 'add_batch' and repr(out[-1][2]) == repr(op[5]):
                    out[-1][1].append(op[1:5])
                    continue
                out.append(['add_batch', [op[1:5]], op[5], 'list'])
            elif op[0] == 'add_node':
                if out and out[-1][0] == 'add_nodes' and not out[-1][2]:
                    out[-1][1].append(op[1:3])
                    continue
                out.append(['add_nodes', [op[1:3]], {}, 'list'])
            else:
                out.append([list(x) if isinstance(x, list) else x for x in op])
        return out


# ------------------------------------------------------------------------------------------------------------ disk

def disk_config(rng, g, fatal=None):
    """How the simulated disk behaves during one call."""
    d = {'buffer': rng.choice([8192, 8192, 64, 16, 5, 1]), 'short': rng.choice([0, 0, 0.3, 0.8]),
         'eintr': rng.choice([0, 0, 0.1]), 'seed': rng.randrange(2 ** 32), 'faults': []}
    if fatal is not None:
        at = rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, 300), rng.randint(0, 3000)])
        if fatal == 'save':
            kind = rng.choice(['enospc', 'enospc', 'eio-write', 'eio-close', 'open-emfile', 'open-denied'])
        else:
            kind = rng.choice(['eio-read', 'eio-read', 'open-emfile'])
        op = 'open' if kind.startswith('open') else {'enospc': 'write', 'eio-write': 'write', 'eio-close': 'close',
                                                     'eio-read': 'read'}[kind]
        if op in ('open', 'close'):
            at = 0
        d['faults'].append({'op': op, 'at': at, 'kind': kind})
    return d


DELIMITERS = [' ', ' ', ',', '\t', '|', ';', '::', '$', ' , ', '*']


@scenario
class C07(Scenario):
    pid = 'C07'
    count = {'quick': 22000, 'thorough': 500000}
    rule = ('a run is a seeded history of updates with saves, loads, disk faults, crashes and restarts; non-trivial: '
            'at least one file was saved and loaded; distinct by operations and disk behaviour')
    stub = 'the disk is simulated under Python\'s own io buffering; clients and process restarts are simulated'

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure(textual=True, large=0.01)
        ops = g.fill([])
        delimiter = rng.choice(DELIMITERS)
        if g.nodes[0][0] == 's' and delimiter == '::':
            delimiter = ':'
        for round_ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(rng.choice([1, 2, 4, 8, 20, 60])):
                op = g.update_op(rng.choice([0, 0.2]))
                ops.append(op)
            if rng.random() < 0.004:
                ops.append(['bulk', rng.choice([300, 1000, 3000]), rng.randrange(2 ** 32)])
                g.note('large-file')
            k = rng.random()
            if k < 0.3:
                ops.append(['save', delimiter, disk_config(rng, g, 'save')])
                if rng.random() < 0.7:
                    ops.append(['save', delimiter, disk_config(rng, g)])      # the retry
            elif k < 0.45:
                d = disk_config(rng, g)
                d['faults'].append({'op': 'write', 'at': rng.choice([0, 1, rng.randint(0, 60), rng.randint(0, 1500)]),
                                    'kind': 'crash'})
                d['restart'] = rng.choice(['load', 'load', 'redo'])
                ops.append(['save', delimiter, d])
            else:
                ops.append(['save', delimiter, disk_config(rng, g)])
            if rng.random() < 0.25:
                ops.append(['load', disk_config(rng, g, 'load'), {}])
            o = {}
            if rng.random() < 0.4:
                o['adopt'] = True
            if rng.random() < 0.15:
                o['predict'] = True
            if rng.random() < 0.3:
                o['nodetype'] = 'str' if all(n[0] == 's' for n in g.nodes) else 'int'
            if rng.random() < 0.05:
                ops.append(['equals'])
            ops.append(['load', disk_config(rng, g), o])
            ops.append(['audit'])
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': 0.0,
                'whole_times': g.profile == 'nano'}

    def nontrivial(self, plan, res):
        return res.stats.get('round_trips', 0) > 0

    def execute(self, plan):
        r = DiskReplica(plan['cls'], plan['nodes'], self.dnx)
        r.whole_times = plan.get('whole_times', False)
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['round_trips'] = r.round_trips
            self.stats['fired'] = dict(r.fired)
            self.stats['io_ops'] = r.io_ops


@scenario
class C18(Scenario):
    pid = 'C18'
    count = {'quick': 30000, 'thorough': 600000}
    rule = ('a run writes a text file of edges in a seeded layout to the simulated disk and loads it, whole or with '
            'malformed records, over short, interrupted and failing reads; non-trivial: at least one record; '
            'distinct by file contents and disk behaviour')
    stub = 'the disk is simulated under Python\'s own io buffering'

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.infinite = False      # types of times are the point here
        g.configure(textual=True)
        return TextFile.generate(rng, g, disk_config)

    def shrinkable(self, plan):
        return [('ops',), ('disk', 'faults')]

    def nontrivial(self, plan, res):
        return res.stats.get('records', 0) > 0

    def execute(self, plan):
        TextFile(self).execute(plan)


# ----------------------------------------------------------------------------------------------- predictive model

CLOCKS = ['equal', 'zero', 'node-slow', 'interval-slow', 'random', 'spiky', 'backwards', 'drift']


def clock_source(mode, seed):
    import random as _r
    rng = _r.Random(seed) if False else __import__('random').Random(seed)
    if mode == 'zero':
        return lambda k: 0.0
    if mode == 'equal':
        return lambda k: 1e-6
    if mode == 'node-slow':
        return lambda k: 5.0 if k % 4 == 2 else 1e-6
    if mode == 'interval-slow':
        return lambda k: 5.0 if k % 4 == 0 else 1e-6
    if mode == 'random':
        return lambda k: rng.random()
    if mode == 'spiky':
        return lambda k: 3600.0 if rng.random() < 0.05 else rng.random() * 1e-5
    if mode == 'backwards':
        return lambda k: rng.uniform(-1, 1)
    return lambda k: 1e-3 * k


def save_and_load(r, path):
    """What the owner of a graph finds in a file of its own, and what it makes of it."""
    _, err = r.attempt(r.G.save_to_txt, path)
    if err is not None:
        r.own.append(type(err).__name__)
        return
    r.own.append(sorted(bytes(seams.DISK.files[path]).decode().split('\n')))
    loaded, err = r.attempt(getattr(r.dnx, r.cls).load_from_txt, path)
    if err is not None:
        r.own.append(type(err).__name__)
    elif r.cls in tenants.SNAPS:
        r.own.append([(k, sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True)))) for k, g in loaded.snapshots.items()])
    else:
        r.own.append((sorted(map(repr, loaded.nodes(data=True))), sorted(map(repr, loaded.edges(data=True)))))


class OwnSnaps(SnapReplica):
    def op_own_file(self, path):
        save_and_load(self, path)


class TrainReplica(ExportReplica):
    trainings = 0

    def op_own_file(self, path):
        save_and_load(self, path)

    check_frame = False
    file = None

    def saved(self, path):
        self.call('save_to_txt', self.G.save_to_txt, path)
        text = bytes(seams.DISK.files[path]).decode()
        if not text.endswith('\n'):
            text += '\n'
        return sorted(text.split('\n'))

    def op_file(self, path):
        """Save the graph while others read it."""
        if not self.M.edges:
            return
        lines = self.saved(path)
        self.answers += 1
        if lines != self.file:
            raise Violation('file', 'the file saved among readers has %d lines, alone it has %d: %.300r' % (
                len(lines), len(self.file), set(lines) ^ set(self.file)))

    def op_motif(self, sequence, delta, rmode, rseed):
        count_motif(self, sequence, delta)

    def op_train(self, size, clock, cseed, rmode, rseed):
        seams.CLOCK.reset(clock_source(clock, cseed))
        seams.RandomSeam.set(rseed, rmode)
        before = self.observe() if self.check_frame else None
        nodes, edges = len(self.M.nodes), len(self.M.edges)
        bound = 20000 + 100 * size * 10 * (nodes + 4 * edges + 20)
        old, self.limit = self.limit, bound
        try:
            self.call('generate_predictive_model(%d)' % size, self.G.generate_predictive_model, training_size=size)
        finally:
            self.limit = old
            seams.RandomSeam.set(0)
        self.trainings += 1
        if before is not None and self.observe() != before:
            raise Violation('changed', 'training changed what the graph contains')


def train_op(rng, g, size=None):
    clock, rmode = rng.choice(CLOCKS), rng.choice(['seeded', 'seeded', 'low', 'high', 'extreme'])
    g.note('clock:' + clock)
    g.note('random:' + rmode)
    return ['train', size or rng.choice([1, 2, 3, 5, 10, 20]), clock, rng.randrange(2 ** 32), rmode, rng.randrange(2 ** 32)]


@scenario
class C08(Scenario):
    pid = 'C08'
    count = {'quick': 7000, 'thorough': 200000}
    rule = ('a run is a history of updates and trainings under a simulated clock and random source, with windowed '
            'queries by node in between; non-trivial: a model was trained and at least 3 answers compared; distinct '
            'by operations')
    real = Scenario.real + ', scikit-learn'
    stub = 'the clock and the random source are simulated'

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure(large=0.01)
        ops = []
        for _ in range(rng.choice([1, 3, 8, 20, 40])):
            ops.append(g.update_op(0.05))
        g.fill(ops)
        poll = Poll(rng, g)

        def compound():
            q = g.edges_query()
            if q[1] is None and q[2] is None and rng.random() < 0.8:
                q[1 + rng.randrange(2)] = g.any_node()
            if q[3] is None and q[4] is None:
                q[3] = g.point()
            return q

        if rng.random() < 0.3:
            ops += [poll(compound) for _ in range(rng.choice([1, 3, 8]))]
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(train_op(rng, g))
            for _ in range(rng.choice([5, 10, 25])):
                ops.append(poll(compound))
                if rng.random() < 0.15:
                    ops.append(g.query(('degree',)))
                if rng.random() < 0.1:
                    ops.append(g.query())
                if rng.random() < 0.25:
                    ops.append(g.update_op(0.3))
        ops.append(['audit'])
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': 0.0}

    def nontrivial(self, plan, res):
        return res.stats.get('trainings', 0) > 0 and res.stats.get('answers', 0) >= 3

    def execute(self, plan):
        r = TrainReplica(plan['cls'], plan['nodes'], self.dnx)
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['trainings'] = r.trainings


@scenario
class C09(C08):
    pid = 'C09'
    count = {'quick': 7000, 'thorough': 200000}
    rule = ('a run trains models on graphs of seeded shape (sparse, isolated nodes, one instant, huge gaps, after '
            'removals) under a simulated clock and random source; non-trivial: at least one training; distinct by '
            'operations')

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure(n=rng.choice([1, 2, 3, 6, 20, 60]))
        ops = []
        shape = rng.choice(['mixed', 'sparse', 'isolated', 'instant', 'gap', 'drained', 'empty', 'dense'])
        n = {'mixed': 20, 'sparse': 2, 'isolated': 1, 'instant': 4, 'gap': 3, 'drained': 6, 'empty': 0, 'dense': 60}[shape]
        if shape in ('isolated', 'sparse', 'empty'):
            ops.append(['add_nodes', [[i, None] for i in range(len(g.nodes))], {}, 'list'])
        t = g.time()
        for i in range(n):
            op = g.add_op()
            if shape == 'instant':
                op[3] = op[4] = t
            if shape == 'gap':
                op[3] += i * 10 ** 6
                op[4] += i * 10 ** 6
            ops.append(op)
        if shape == 'mixed':
            ops += [g.remove_op() for _ in range(8)]
        if shape == 'drained':
            ops += [['rm_edge', o[1], o[2], None, None, {}] for o in ops if rng.random() < 0.8]
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(train_op(rng, g, rng.choice([1, 2, 5, 10, 30])))
            ops.append(['audit'])
            ops.append(g.edges_query())
            if rng.random() < 0.5:
                ops.append(g.update_op(0.4))
        ops.append(['audit'])
        g.note('shape:' + shape)
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': 0.0}

    def nontrivial(self, plan, res):
        return res.stats.get('trainings', 0) > 0

    def execute(self, plan):
        r = TrainReplica(plan['cls'], plan['nodes'], self.dnx)
        r.check_frame = True
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['trainings'] = r.trainings


# ------------------------------------------------------------------------------------------------------ motifs

MOTIFS = [((1, 2),), ((1, 1),), ((1, 2), (2, 1)), ((1, 2), (1, 2)), ((1, 2), (2, 3)), ((1, 2), (1, 3)), ((2, 1), (3, 1)),
          ((1, 2), (2, 3), (3, 1)), ((1, 2), (1, 3), (1, 2)), ((1, 2), (2, 3), (2, 3)), ((1, 2), (3, 2), (4, 2)),
          ((1, 2), (2, 1), (1, 2)), ((0, 1), (1, 2), (2, 0)), (('a', 'b'), ('b', 'c')), ((1, 2), (2, 2)), ((0, 1), (1, 0)),
          ((1, 2), (2, 3), (3, 4)), ((2, 1), (1, 3), (1, 4)), ((1, 2), (2, 1), (1, 2), (2, 1)), ((0, 0), (0, 1)),
          ((1, 2), (2, 3), (1, 3), (3, 1)), ((1, 2), (3, 4), (2, 3)), ((1, 2), (1, 2), (1, 2))]


def motif_count(edges, sequence, delta):
    """By definition: every strictly time-ordered choice of edges within delta which spells the motif."""
    edges = sorted(edges, key=lambda k: k[2])
    found = {}

    def extend(i, last, first, mapping, used, key):
        if i == len(sequence):
            found[key] = found.get(key, 0) + 1
            return
        a, b = sequence[i]
        for u, v, t in edges:
            if last is not None and t <= last:
                continue
            if first is not None and t - first > delta:
                continue
            if (a == b) != (u == v):
                continue
            m = mapping
            if a in m:
                if m[a] != u:
                    continue
            elif u in m.values():
                continue
            else:
                m = dict(m)
                m[a] = u
            if b in m:
                if m[b] != v:
                    continue
            elif v in m.values():
                continue
            else:
                m = dict(m)
                m[b] = v
            extend(i + 1, t, t if first is None else first, m, used, key + (u, v))

    extend(0, None, None, {}, (), ())
    return found


def count_motif(r, sequence, delta):
    """Count, and compare all of the answer."""
    sequence = tuple(tuple(x) for x in sequence)
    want = motif_count([(k[0], k[1], k[2]) for k in r.M.edges], sequence, delta)
    what = 'count_temporal_motif(%r, %r)' % (sequence, delta)
    limit, r.limit = r.limit, 10 * r.limit
    try:
        got = r.call(what, r.dnx.count_temporal_motif, r.G, sequence, delta)
    finally:
        r.limit = limit
    r.answers += 1
    total = got[0] if isinstance(got, tuple) else got
    if total != sum(want.values()):
        raise Violation('motif-count', '%s is %r, expected %r' % (what, total, sum(want.values())))
    if isinstance(got, tuple) and len(got) >= 2:
        counts = {k: v for k, v in got[1].items() if v}
        if counts != want:
            raise Violation('motif-counts', '%s counts %r, expected %r' % (what, counts, want))
    if isinstance(got, tuple) and len(got) >= 3:
        table = got[2]
        expect = {}
        for key, c in want.items():
            flat = [p for e in sequence for p in e]
            seen = {}
            for position, node in zip(flat, key):
                seen[position] = node
            for position, node in seen.items():
                expect[(r.index[node], position)] = expect.get((r.index[node], position), 0) + c
        real = {}
        for node in table.index:
            for position in table.columns:
                x = int(table.at[node, position])
                if x:
                    real[(r.nid(node, what), position)] = x
        if real != expect:
            raise Violation('motif-table', '%s participation %r, expected %r' % (what, real, expect))
    return sum(want.values())


class MotifReplica(Replica):
    counted = 0
    occurrences = 0

    def op_motif(self, sequence, delta, rmode, rseed):
        seams.RandomSeam.set(rseed, rmode)
        before = self.observe()
        try:
            self.occurrences += count_motif(self, sequence, delta)
        finally:
            seams.RandomSeam.set(0)
        self.counted += 1
        if self.observe() != before:
            raise Violation('changed', 'count_temporal_motif(%r, %r) changed the graph' % (sequence, delta))


@scenario
class C10(Scenario):
    pid = 'C10'
    count = {'quick': 10000, 'thorough': 250000}
    rule = ('a run is a history of updates of an ImpulseDiGraph with motif counts in between, under seeded and '
            'extreme random sources and chosen node hashes; non-trivial: at least one motif occurrence; distinct by '
            'operations')
    real = Scenario.real + ', pandas'
    stub = 'the random source and node hash order are simulated; the network and its clients are simulated'

    def generate(self, rng):
        g = Gen(rng, 'ImpulseDiGraph')
        crowd = rng.random() < 0.015
        g.configure(n=rng.choice([2, 3, 4, 4, 5, 5, 6, 7] if not crowd else [8, 12, 16]), ordered=True, loops=rng.choice([0, 0.05, 0.3]))
        if g.profile not in ('tiny', 'small', 'dyadic', 'late', 'epoch', 'nano'):
            g.profile = 'small'
        poll = Poll(rng, g)
        self.motifs = [self.shape(rng) for _ in range(rng.choice([1, 1, 2]))]
        if crowd:
            # many nodes and edges, a motif which occurs often
            self.motifs = [m for m in self.motifs if len(m) < 4 and len({x for e in m for x in e}) < 4] or [[[1, 2], [2, 1]]]
            g.note('large-graph')
        longest = max(len(m) for m in self.motifs)
        if longest > 3 or max(len({x for e in m for x in e}) for m in self.motifs) > 3:
            # the count takes as long as there are sequences of so many edges
            g.largest_batch = 8
        most = {5: 3, 4: 6}.get(longest, 20)
        messages = [g.update_op(rng.choice([0, 0.1, 0.3])) for _ in range(min(most, rng.choice([0, 3, 6, 10, 15, 20])))]
        self.deltas = [rng.choice([0, 1, 2, 3, 5, 10, 100] + [0.5, 2.25]) for _ in range(2)]
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if longest < 4 else 1):
            for op in self.occurrence(rng, g):
                messages.insert(rng.randint(0, len(messages)), op)
        swarm = g.swarm()
        ops = []
        if crowd:
            ops.append(['bulk', rng.choice([40, 80, 120]), rng.randrange(2 ** 32), rng.choice(['spread', 'spread', 'instant', 'hub', 'path'])])
            self.deltas = [rng.choice([1, 2, 5, 10, 30])]
        for op in g.deliver(messages, swarm):
            ops.append(op)
            if not crowd and rng.random() < 0.12:
                ops.append(poll(lambda: self.motif(rng, g)))
        for _ in range(rng.choice([1, 2, 3])):
            m = self.motif(rng, g)
            ops.append(m)
            if rng.random() < 0.4:
                ops.append(['motif', m[1], m[2], rng.choice(['low', 'high', 'seeded']), rng.randrange(2 ** 32)])
                g.note('same-question-other-random-source')
        return {'cls': 'ImpulseDiGraph', 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': g.sim_time}

    @staticmethod
    def shape(rng):
        """A connected motif."""
        if rng.random() < 0.4:
            return [list(e) for e in rng.choice(MOTIFS)]
        size = rng.choice([2, 2, 3, 3, 3, 4, 4, 5])
        edges = [[i, rng.randrange(i)] for i in range(1, size)]
        edges = [e if rng.random() < 0.5 else e[::-1] for e in edges]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if len(edges) < 5:
                k = rng.random()
                if k < 0.4:
                    edges.append(list(rng.choice(edges)))
                elif k < 0.6:
                    edges.append(rng.choice(edges)[::-1])
                else:
                    edges.append([rng.randrange(size), rng.randrange(size)])
        rng.shuffle(edges)
        names = rng.choice([list(range(size)), list(range(1, size + 1)), list('edcba'), [10, 3, 7, 25, 1]])
        return [[names[u], names[v]] for u, v in edges]

    def occurrence(self, rng, g):
        """Updates which make an occurrence of a motif, or nearly one."""
        motif, delta = rng.choice(self.motifs), rng.choice(self.deltas)
        names = list(dict.fromkeys(x for e in motif for x in e))
        if len(names) > len(g.nodes):
            return []
        at = dict(zip(names, rng.sample(range(len(g.nodes)), len(names))))
        first = g.time()
        times = [first + delta * k / 4 if g.profile != 'nano' else first + int(delta * k // 4)
                 for k in sorted(rng.choice([0, 1, 2, 3, 4, 4]) for _ in motif)]
        if rng.random() < 0.6:
            # in steps, from the first moment to the last
            n = max(1, len(motif) - 1)
            times = [first + i for i in range(len(motif))] if rng.random() < 0.5 or g.profile == 'nano' else \
                [first + delta * (i * 64 // n) / 64 for i in range(len(motif))]
        edges = [list(e) for e in motif]
        if rng.random() < 0.15:
            i, j = rng.randrange(len(edges)), rng.randrange(len(edges))
            edges[i], edges[j] = edges[j], edges[i]
        g.event_times.extend(times)
        g.note('motif-occurrence-spread-in-history')
        return [['add', at[u], at[v], t, t, g.attr()] for (u, v), t in zip(edges, times)]

    def motif(self, rng, g):
        rmode = rng.choice(['seeded', 'low', 'high', 'extreme'])
        g.note('random:' + rmode)
        k = rng.random()
        delta = rng.choice(self.deltas) if k < 0.7 else \
            rng.choice([0, 1, 2, 3, 5, 10, 100] + [0.5, 2.25])
        motif = rng.choice(self.motifs)
        if rng.random() < 0.25:
            motif = self.shape(rng)
            if len(motif) > max(len(m) for m in self.motifs) or len(g.nodes) > 7:
                motif = rng.choice(self.motifs)
        return ['motif', motif, delta, rmode, rng.randrange(2 ** 32)]

    def nontrivial(self, plan, res):
        return res.stats.get('occurrences', 0) > 0

    def execute(self, plan):
        r = MotifReplica(plan['cls'], plan['nodes'], self.dnx)
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['motif_counts'] = r.counted
            self.stats['occurrences'] = r.occurrences


# ------------------------------------------------------------------------------------------------------- readers

def turns(rng, threads, last=False):
    """A schedule for threads: where they are switched."""
    shape = rng.choice(['random', 'random', 'novel', 'preempt', 'nested', 'nested'])
    unit = 'line' if shape == 'random' or shape == 'nested' and rng.random() < 0.3 else 'novel'
    switches = []
    sweep = []
    if shape == 'preempt':
        # one thread stops somewhere, another one runs through, the first one goes on - again for several places
        a = len(threads) - 1 if last and rng.random() < 0.8 else rng.randrange(len(threads))
        for k in rng.sample(range(1, 61), rng.choice([10, 20, 30])):
            sweep.append([[1, a], [k, rng.choice([t for t in range(len(threads)) if t != a])]])
    elif shape == 'nested':
        # one thread stops somewhere, another one gets somewhere, the first one runs through
        for _ in range(rng.choice([10, 20, 40])):
            a, b = rng.sample(range(len(threads)), 2)
            sweep.append([[1, a], [rng.randint(1, 40), b], [rng.randint(1, 25), a]])
    else:
        p = rng.choice([0.02, 0.1, 0.3, 0.7] if unit == 'line' else [0.1, 0.2, 0.4, 0.8])
        for _ in range(rng.choice([10, 50, 200])):
            gap = 1
            while rng.random() > p and gap < 200:
                gap += 1
            switches.append([gap, rng.randrange(len(threads))])
    return switches, sweep, unit


def cuts(rng, threads):
    """Reads which are cut off half way."""
    interrupts = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 4])):
            t = rng.randrange(len(threads))
            interrupts.append([t, rng.randrange(len(threads[t])), rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 80])])
    return interrupts


@scenario
class C11(Scenario):
    pid = 'C11'
    count = {'quick': 6000, 'thorough': 150000}
    rule = ('a run has 2 to 4 reader threads (and sometimes a training thread) on one graph, switched at source lines '
            'of dynetworkx by a seeded schedule, some reads cut off half way; non-trivial: at least one switch '
            'happened inside a read; distinct by queries and schedule')
    real = Scenario.real + ', Python threads'
    state_measure = 'distinct interleavings: the sequence of (thread, line) at which threads were switched or cut off'
    stub = 'the thread scheduler: one thread runs at a time, handed over at lines chosen by the plan; clock and random'

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        counting = cls == 'ImpulseDiGraph' and rng.random() < 0.5
        g.configure(**{'ordered': True} if counting else {})
        ops = [g.update_op(0.1) for _ in range(rng.choice([3, 8, 15, 30, 60]))]
        if rng.random() < 0.4:
            ops.append(train_op(rng, g, 3))
        families = ('edges', 'edges', 'has_edge', 'nodes', 'has_node', 'n_nodes', 'interval', 'unique', 'degree')
        threads = []
        training = rng.random() < 0.4
        for _ in range(rng.choice([2, 2, 3, 4]) - training):
            qs = []
            for _ in range(rng.choice([1, 2, 4, 8])):
                k = rng.random()
                if k < 0.12:
                    qb, qe = g.window()
                    qs.append(['subgraph', qb, qe, ExportGen.opts(g, rng)])
                elif k < 0.16:
                    qs.append(['snapgraph', {}])
                elif k < 0.20:
                    o = ExportGen.opts(g, rng)
                    o.pop('inclusive', None)
                    o.pop('alias', None)
                    qs.append(['snapshots', 'number', rng.choice([2, 3, 5]), o])
                elif k < 0.24:
                    qs.append(['file', '/sim/copy-%d-%d.txt' % (len(threads), len(qs))])
                elif k < 0.32 and counting and len(ops) <= 15:
                    qs.append(['motif', [list(e) for e in rng.choice([m for m in MOTIFS if len(m) < 4])], rng.choice([1, 3, 10]),
                               None, 0])
                elif k < 0.5:
                    # one who looks for a pair, which may not be there, and one who walks over everything
                    q = g.edges_query()
                    q[1], q[2] = (g.any_node(), g.any_node()) if rng.random() < 0.6 else (None, None)
                    if rng.random() < 0.6:
                        q[3] = q[4] = None
                    qs.append(q)
                else:
                    qs.append(g.query(families))
            threads.append(qs)
        if training:
            for qs in threads:
                for i in range(len(qs)):
                    if rng.random() < 0.5:
                        q = g.edges_query()
                        q[1 + rng.randrange(2)] = g.any_node()
                        if q[3] is None and q[4] is None:
                            q[3] = g.time()
                        qs[i] = q
            threads.append([train_op(rng, g, rng.choice([1, 2, 3]))])
            g.note('training-thread')
        switches, sweep, unit = turns(rng, threads, training)
        interrupts = cuts(rng, threads)
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'threads': threads, 'interrupts': interrupts,
                'schedule': switches, 'sweep': sweep, 'unit': unit, 'faults': g.faults, 'sim_time': 0.0}

    def shrinkable(self, plan):
        return [('interrupts',), ('sweep',), ('schedule',)] + [('threads', i) for i in range(len(plan['threads']))] + [('ops',)]

    def nontrivial(self, plan, res):
        return res.stats.get('switches', 0) >= 1

    def execute(self, plan):
        r = TrainReplica(plan['cls'], plan['nodes'], self.dnx)
        self.run_ops(r, plan['ops'])
        r.answers = 0
        before = r.observe()
        if r.M.edges and any(op[0] == 'file' for qs in plan['threads'] for op in qs):
            r.file = r.saved('/sim/alone.txt')
        for schedule in [plan['schedule']] + plan.get('sweep', []):
            info = run_threads(r, plan['threads'], schedule, plan['interrupts'], self.stats, plan.get('unit', 'line'))
            self.log.append(info)
            self.states.add(seams.stable(info))
        self.stats['answers'] += r.answers
        if r.observe() != before:
            raise Violation('changed', 'reading changed what the graph contains')
        r.do(['deep_audit'])


# ------------------------------------------------------------------------------------------------------- exports

class ExportGen:
    @staticmethod
    def opts(g, rng):
        o = {}
        for k in ('multigraph', 'edge_data', 'ts', 'node_data'):
            if rng.random() < 0.5:
                o[k] = True
        if g.kind == 'impulse' and rng.random() < 0.4:
            o['inclusive'] = [rng.random() < 0.5, rng.random() < 0.5]
        if rng.random() < 0.2:
            o['alias'] = True
        return o

    @staticmethod
    def op(g, rng):
        k = rng.random()
        o = ExportGen.opts(g, rng)
        if k < 0.5:
            qb, qe = g.window()
            return ['subgraph', qb, qe, o]
        o.pop('inclusive', None)
        o.pop('alias', None)
        if k < 0.75:
            how = 'length' if rng.random() < 0.4 else 'number'
            value = rng.choice([2, 3, 4, 5, 8]) if how == 'number' else rng.choice([1, 2, 3, 5, 0.5, 2.5, 10, 100])
            if rng.random() < 0.2:
                o['return_length'] = True
            if rng.random() < 0.05:
                return ['snapshots', 'refused', rng.choice([
                    {}, {'number_of_snapshots': 3, 'length_of_snapshots': 2}, {'number_of_snapshots': 1},
                    {'number_of_snapshots': 0}, {'number_of_snapshots': -2}, {'number_of_snapshots': 2.5},
                    {'length_of_snapshots': 0}, {'length_of_snapshots': -1}, {'length_of_snapshots': -0.5}]), o]
            return ['snapshots', how, value, o]
        return ['snapgraph', o]


@scenario
class C13(Scenario):
    pid = 'C13'
    count = {'quick': 12000, 'thorough': 300000}
    rule = ('a run is a history of updates with exports to networkx, snapshots and snapshot graphs and imports of '
            'exports in between; non-trivial: at least one export of at least one edge; distinct by operations')

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure(large=0.008)
        swarm = g.swarm()
        ops = []
        poll = Poll(rng, g)
        for op in g.fill(g.deliver(g.phases(g.size()), swarm)):
            ops.append(op)
            if rng.random() < 0.3:
                ops.append(poll(lambda: ExportGen.op(g, rng)))
            if rng.random() < 0.04:
                ops.append(['reimport', {'adopt': rng.random() < 0.6, 'rename': rng.random() < 0.3}])
                g.note('moved-to-another-process-by-export')
        for _ in range(3):
            ops.append(ExportGen.op(g, rng))
        ops.append(['snapgraph', ExportGen.opts(g, rng)])
        ops.append(['reimport', {}])
        ops.append(['audit'])
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': g.sim_time}

    def nontrivial(self, plan, res):
        return res.stats.get('exported_edges', 0) > 0

    def execute(self, plan):
        r = ExportReplica(plan['cls'], plan['nodes'], self.dnx)
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['exports'] = r.exports
            self.stats['exported_edges'] = r.exported_edges


LISTS = ['edges', 'edges_at', 'edges_from', 'edges_of', 'edges_of_at', 'edges_between', 'edges_of_both', 'edges_with_data',
         'unique', 'unique_at', 'unique_begin', 'unique_end', 'delta', 'delta_at', 'nodes_at', 'interval']


@scenario
class C12(Scenario):
    pid = 'C12'
    count = {'quick': 12000, 'thorough': 300000}
    rule = ('a run is a history of updates during which clients hold exports and result lists, and change them; '
            'non-trivial: at least one held export was compared after a later update; distinct by operations')

    def generate(self, rng):
        cls = rng.choice(ALL)
        g = Gen(rng, cls)
        g.configure(large=0.004)
        ops = []
        for op in g.fill(g.deliver(g.phases(g.size()), g.swarm())):
            ops.append(op)
            k = rng.random()
            if k < 0.25:
                kind = rng.choice(['export', 'export', 'export', 'list', 'import'])
                if kind == 'export':
                    ops.append(['hold', ExportGen.op(g, rng)])
                elif kind == 'import':
                    ops.append(['hold_import', ExportGen.opts(g, rng)])
                else:
                    ops.append(['hold_list', rng.choice(LISTS), g.any_node(), g.any_node(), self.span(rng, g)])
                g.note('result-held-across-updates')
            elif k < 0.35:
                ops.append(['scribble', rng.randrange(100), rng.randrange(4)])
                g.note('held-result-changed-by-client')
            elif k < 0.5:
                ops.append(['check_held'])
            elif k < 0.56:
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(['ask_again', rng.choice(LISTS), g.any_node(), g.any_node(), self.span(rng, g), rng.randrange(4)])
                g.note('asked-again-after-client-changed-answer')
            elif k < 0.59:
                ops.append(['export_again', ExportGen.op(g, rng), rng.randrange(4)])
                g.note('asked-again-after-client-changed-answer')
            elif k < 0.62:
                ops.append(['feed', g.any_node(), g.attr(p=1)])
                g.note('fed-dictionary-changed-by-client')
        ops += [['check_held'], ['deep_audit'] if rng.random() < 0.2 else ['audit']]
        return {'cls': cls, 'nodes': g.nodes, 'ops': ops, 'faults': g.faults, 'sim_time': 0.0}

    @staticmethod
    def span(rng, g):
        """A window with both ends, or None for the whole graph."""
        if rng.random() < 0.5:
            return None
        a, b = g.point(), g.point()
        return [a, b] if a <= b else [b, a]

    def nontrivial(self, plan, res):
        return res.stats.get('held', 0) > 0

    def execute(self, plan):
        r = ExportReplica(plan['cls'], plan['nodes'], self.dnx)
        try:
            self.run_ops(r, plan['ops'])
        finally:
            self.stats['held'] = r.held_checks


# ------------------------------------------------------------------------------------------------ snapshot graphs

class SnapScenario(Scenario):
    state_measure = 'distinct lists of (interval, nodes, edges) of snapshot graphs, over all runs'
    rule = ('a run is a seeded history of snapshots and updates by interval and by index, some of which break off, with '
            'queries in between; non-trivial: at least 2 snapshots and 3 compared answers; distinct by operations')
    stub = 'the data sources of updates are simulated'
    mix = {}

    def generate(self, rng):
        return snap_history(rng, **self.mix)

    def nontrivial(self, plan, res):
        return res.stats.get('answers', 0) >= 3 and res.stats.get('snapshots', 0) >= 2

    def execute(self, plan):
        r = SnapReplica(plan['cls'], plan['nodes'], self.dnx)
        try:
            self.run_ops(r, plan['ops'], remember=False)
        finally:
            self.stats['snapshots'] = r.max_len
            self.stats['splits'] = r.splits
            self.stats['round_trips'] = r.round_trips
            self.stats['converted'] = r.converted
            self.stats['fired'] = dict(r.fired)


@scenario
class C14(SnapScenario):
    pid = 'C14'
    count = {'quick': 16000, 'thorough': 300000}
    mix = {'updates': 1.0, 'queries': 0.3, 'bad': 0.15, 'kinds': True}


@scenario
class C15(SnapScenario):
    pid = 'C15'
    count = {'quick': 14000, 'thorough': 300000}
    mix = {'updates': 0.4, 'queries': 1.5, 'bad': 0.05, 'kinds': True}


@scenario
class C16(SnapScenario):
    pid = 'C16'
    count = {'quick': 12000, 'thorough': 250000}
    mix = {'updates': 0.5, 'queries': 0.0, 'bad': 0.0, 'disk': disk_config}
    stub = 'the disk is simulated under Python\'s own io buffering'
    rule = ('a run is a seeded history of snapshots and updates with saves and loads under disk faults; non-trivial: at '
            'least one file was saved and loaded; distinct by operations and disk behaviour')

    def nontrivial(self, plan, res):
        return res.stats.get('round_trips', 0) > 0


@scenario
class C19(SnapScenario):
    pid = 'C19'
    count = {'quick': 16000, 'thorough': 300000}
    mix = {'updates': 0.6, 'queries': 0.0, 'bad': 0.1, 'convert': True}

    def generate(self, rng):
        return snap_history(rng, kinds=rng.choice([False, False, 'multi']), **self.mix)

    rule = ('a run is a seeded history of snapshots and updates with conversions to an interval graph in between; '
            'non-trivial: at least 2 snapshots were converted; distinct by operations')

    def nontrivial(self, plan, res):
        return res.stats.get('converted', 0) >= 2


@scenario
class C21(SnapScenario):
    pid = 'C21'
    count = {'quick': 6000, 'thorough': 150000}
    mix = {'updates': 0.4, 'queries': 0.0, 'bad': 0.05}
    rule = ('a run has 2 to 4 threads which ask, walk over, convert, save and load one snapshot graph (and sometimes one more '
            'which updates a snapshot graph of its own), switched at source lines of dynetworkx by a seeded schedule, some '
            'reads cut off half way; non-trivial: at least one switch happened inside a read; distinct by queries and schedule')
    real = Scenario.real + ', Python threads'
    state_measure = 'distinct interleavings: the sequence of (thread, line) at which threads were switched or cut off'
    stub = 'the thread scheduler: one thread runs at a time, handed over at lines chosen by the plan'

    def generate(self, rng):
        plan = snap_history(rng, readers=rng.choice([2, 2, 3, 4]), kinds=rng.random() < 0.4, **self.mix)
        threads = plan['threads']
        plan['interrupts'] = cuts(rng, threads)
        plan['other'] = None
        if rng.random() < 0.3:
            other = snap_history(rng, updates=1.0, queries=0.5, bad=0.1, convert=True, nodes=plan['nodes'])
            plan['other'] = other['cls']
            threads.append(other['ops'][:30])
        plan['schedule'], plan['sweep'], plan['unit'] = turns(rng, threads, plan['other'] is not None)
        return plan

    def shrinkable(self, plan):
        return [('interrupts',), ('sweep',), ('schedule',)] + [('threads', i) for i in range(len(plan['threads']))] + [('ops',)]

    def nontrivial(self, plan, res):
        return res.stats.get('switches', 0) >= 1

    def execute(self, plan):
        r = SnapReplica(plan['cls'], plan['nodes'], self.dnx)
        self.run_ops(r, plan['ops'], remember=False)
        r.answers = 0
        r.alone('/sim/alone.txt')
        for schedule in [plan['schedule']] + plan.get('sweep', []):
            owners = [r] * len(plan['threads'])
            if plan['other']:
                owners[-1] = SnapReplica(plan['other'], plan['nodes'], self.dnx)
            info = run_threads(owners, plan['threads'], schedule, plan['interrupts'], self.stats, plan.get('unit', 'line'))
            self.log.append(info)
            self.states.add(seams.stable(info))
        r.op_audit()
        self.stats['answers'] = self.stats.get('answers', 0) + r.answers
        for k, v in r.fired.items():
            self.stats['fired'][k] = self.stats['fired'].get(k, 0) + v


@scenario
class C22(Scenario):
    pid = 'C22'
    count = {'quick': 9000, 'thorough': 150000}
    rule = ('a run has 2 to 4 threads, each with a graph of its own of any class, which it updates, asks, trains, exports, '
            'converts, counts motifs in, saves and loads, switched at source lines of dynetworkx by a seeded schedule; every '
            'answer is compared with the model of its graph and every file with that of the same client on its own; '
            'non-trivial: at least one switch happened inside a call; distinct by operations and schedule')
    real = Scenario.real + ', Python threads, scikit-learn'
    state_measure = 'distinct interleavings: the sequence of (thread, line) at which threads were switched'
    stub = 'the thread scheduler: one thread runs at a time, handed over at lines chosen by the plan; disk, clock and random'

    def generate(self, rng):
        return tenants.threads(rng, train_op, ExportGen.op, turns)

    def shrinkable(self, plan):
        return [('sweep',), ('schedule',)] + [('threads', i) for i in range(len(plan['threads']))]

    def nontrivial(self, plan, res):
        return res.stats.get('switches', 0) >= 1

    def owners(self, plan):
        out = []
        for cls in plan['graphs']:
            r = (OwnSnaps if cls in tenants.SNAPS else TrainReplica)(cls, plan['nodes'], self.dnx)
            r.own = []
            if out and plan['one_set_of_nodes']:
                r.n, r.index = out[0].n, out[0].index
            out.append(r)
        return out

    def execute(self, plan):
        alone = []
        if any(op[0] == 'own_file' for t in plan['threads'] for op in t):
            for r, ops in zip(self.owners(plan), plan['threads']):
                for op in ops:
                    r.do(op)
                alone.append(r.own)
        for schedule in [plan['schedule']] + plan['sweep']:
            owners = self.owners(plan)
            info = run_threads(owners, plan['threads'], schedule, [], self.stats, plan['unit'])
            self.log.append(info)
            self.states.add(seams.stable(info))
            for r in owners:
                r.do(['audit' if r.cls in tenants.SNAPS else 'deep_audit'])
                self.stats['answers'] = self.stats.get('answers', 0) + r.answers
            for k, own in enumerate(alone):
                if owners[k].own != own:
                    got, want = next((a, b) for a, b in zip(owners[k].own, own) if a != b)
                    raise Violation('file', 'saved and loaded among other threads graph %d (%s) is %.400r, alone %.400r' % (
                        k, owners[k].cls, got, want))


# ------------------------------------------------------------------------------------------------ several graphs

@scenario
class C20(Scenario):
    pid = 'C20'
    count = {'quick': 18000, 'thorough': 250000}
    rule = ('a run lets the clients of 2 to 4 graphs of any classes take turns, with updates, queries, trainings, exports, '
            'objects fed to several graphs and graphs made of others; non-trivial: at least 3 audits of a graph after '
            'another one was updated; distinct by operations')
    real = Scenario.real + ', scikit-learn'
    stub = 'the clients, the order in which they are served, the clock and the random source are simulated'

    def generate(self, rng):
        return tenants.generate(rng, train_op, ExportGen.op)

    def nontrivial(self, plan, res):
        return res.stats.get('audits', 0) >= 3

    def execute(self, plan):
        t = tenants.Tenants(plan, self.dnx, TrainReplica)
        try:
            for i, (k, op) in enumerate(plan['ops']):
                self.stats['step'] = i
                if op[0] == 'check':
                    t.check(k % len(t.r))
                    self.stats['audits'] = self.stats.get('audits', 0) + 1
                else:
                    t.do(k, op)
                self.log.append((i, k, op[0]))
                if op[0][:2] in ('ad', 'rm', 'sh', 'de'):
                    self.states.add(seams.stable((k, len(t.r), [(r.cls, len(r.M)) if r.cls in tenants.SNAPS else
                                                  (r.cls, len(r.M.edges), len(r.M.nodes)) for r in t.r])))
            for k in range(len(t.r)):
                t.check(k)
                self.stats['audits'] = self.stats.get('audits', 0) + 1
        finally:
            self.stats['answers'] = sum(r.answers for r in t.r)


# --------------------------------------------------------------------------------------- copies and checkpoints

@scenario
class C23(Scenario):
    pid = 'C23'
    count = {'quick': 8000, 'thorough': 250000}
    rule = ('a run is a history of updates of a graph of any class which is copied, checkpointed and, after simulated crashes, '
            'restored from checkpoints in between, the copies being updated further; non-trivial: at least one copy or restart '
            'and 3 compared answers; distinct by operations')
    stub = 'the clients, process restarts and the node hashes of the new process are simulated'

    def generate(self, rng):
        return copies.generate(rng, train_op, ExportGen.op)

    def nontrivial(self, plan, res):
        return res.stats.get('copies', 0) + res.stats.get('restored', 0) >= 1 and res.stats.get('answers', 0) >= 3

    def execute(self, plan):
        t = copies.Copies(plan, self.dnx, TrainReplica)
        try:
            for i, (k, op) in enumerate(plan['ops']):
                self.stats['step'] = i
                t.do(k, op)
                self.log.append((i, k, op[0]))
                if op[0][:2] in ('ad', 'rm', 'sn', 'co', 're'):
                    self.states.add(seams.stable([(len(r.M)) if r.cls in tenants.SNAPS else
                                                  (len(r.M.edges), len(r.M.nodes)) for r in t.r]))
            for r in t.r:
                r.do(['audit' if r.cls in tenants.SNAPS else 'deep_audit'])
        finally:
            self.stats['answers'] = sum(r.answers for r in t.r)
            self.stats['copies'] = t.copied
            self.stats['restored'] = t.restored


# ------------------------------------------------------------------------------------------------------ inside

class InsideReplica(inside.InsideReplica, TrainReplica):
    pass


class InsideSnaps(inside.InsideSnaps, SnapReplica):
    pass


@scenario
class C25(Scenario):
    pid = 'C25'
    count = {'quick': 20000, 'thorough': 250000}
    rule = ('a run is a history of updates and queries of a graph of any class in which batches, arguments and callbacks are code '
            'of a client which reads and updates the same graph, and answers are fed back; non-trivial: at least 3 calls from '
            'within a call; distinct by operations')
    stub = 'the clients and the disk are simulated'

    def generate(self, rng):
        return inside.generate(rng)

    def nontrivial(self, plan, res):
        return res.stats.get('nested', 0) >= 3

    def execute(self, plan):
        r = (InsideSnaps if plan['cls'] in tenants.SNAPS else InsideReplica)(plan['cls'], plan['nodes'], self.dnx)
        try:
            for i, op in enumerate(plan['ops']):
                self.stats['step'] = i
                r.do(op)
                self.log.append((i, op[0], r.nested))
                if op[0][:2] in ('ad', 'rm', 'sn', 'in'):
                    self.states.add(seams.stable((plan['cls'], len(r.M)) if plan['cls'] in tenants.SNAPS else
                                                 (len(r.M.edges), len(r.M.nodes), r.nested)))
        finally:
            self.stats['answers'] = r.answers
            self.stats['nested'] = r.nested


# -------------------------------------------------------------------------------------------------------- room

@scenario
class C24(Scenario):
    pid = 'C24'
    count = {'quick': 1500, 'thorough': 30000}
    state_measure = 'distinct (class, calls made, objects and entries held)'
    rule = ('a run sends some hundred to thousand updates through a graph in which at most 25 edges are present at a time, with '
            'queries of ever new windows, exports, files and trainings in between (snapshot graphs: queries only), and counts the '
            'objects and entries which the graph and dynetworkx hang on to; non-trivial: at least 300 calls; distinct by operations')
    stub = 'the clients, the disk, the clock and the random source are simulated'

    def generate(self, rng):
        return room.generate(rng, train_op, ExportGen.op)

    def nontrivial(self, plan, res):
        return len(plan['ops']) >= 300

    def execute(self, plan):
        r = (OwnSnaps if plan['cls'] in tenants.SNAPS else TrainReplica)(plan['cls'], plan['nodes'], self.dnx)
        r.own = []
        start = room.library()
        try:
            for i, op in enumerate(plan['ops']):
                self.stats['step'] = i
                if op[0] == 'room':
                    seen = room.check(r, self.dnx, start, i)
                    self.states.add(seams.stable((plan['cls'], i, seen)))
                    self.log.append((i, seen))
                    self.stats['measured'] = self.stats.get('measured', 0) + 1
                    continue
                r.do(op)
                if op[0] == 'own_file':
                    r.own.clear()
            r.do(['audit'])
        finally:
            self.stats['answers'] = r.answers


# ---------------------------------------------------------------------------------------------------- progress

@scenario
class C17(Scenario):
    pid = 'C17'
    state_measure = 'distinct (class, operation, edges present, steps taken)'
    count = {'quick': 1500, 'thorough': 30000}
    rule = ('a run lets edges of a seeded layout in time (disjoint, nested, staircase, same begin, same end, same interval, '
            'instants, a grid, at random, around one node, between one pair) arrive and be withdrawn in a seeded order '
            '(sorted, reversed, zigzag, bursts, ...) and counts the loop iterations and calls of dynetworkx code which '
            'single operations take; non-trivial: at least 100 edges; distinct by layout and order')

    SHAPES = ['chain', 'chain', 'nested', 'staircase', 'same-begin', 'same-end', 'one-interval', 'instants', 'grid', 'random',
              'random', 'hub', 'pair', 'touching']
    ORDERS = ['sorted', 'reverse', 'zigzag', 'shuffle', 'bursts', 'organ']
    DRAINS = [None, None, 'left', 'right', 'shuffle', 'churn', 'inside', 'refill', 'sliding']

    def generate(self, rng):
        cls = rng.choice(['IntervalGraph', 'IntervalDiGraph', 'IntervalGraph', 'IntervalDiGraph', 'ImpulseGraph', 'ImpulseDiGraph'])
        n = rng.choice([150, 300, 600, 600, 1200, 2500])
        shape, order, drain = rng.choice(self.SHAPES), rng.choice(self.ORDERS), rng.choice(self.DRAINS)
        if shape == 'pair' and 'Impulse' in cls:
            shape = 'hub'  # removing an impulse between two nodes looks at all of theirs
        edges = self.layout(rng, shape, n)
        ids = list(range(n))
        if order == 'reverse':
            ids.reverse()
        elif order == 'zigzag':
            ids = [x for p in zip(ids, reversed(ids)) for x in p][:n]
        elif order == 'shuffle':
            rng.shuffle(ids)
        elif order == 'bursts':
            blocks = [ids[i:i + 25] for i in range(0, n, 25)]
            rng.shuffle(blocks)
            ids = [x for b in blocks for x in b]
        elif order == 'organ':
            ids = ids[::2] + ids[1::2][::-1]
        removals = []
        if drain == 'left':
            removals = list(range(0, n * 9 // 10))
        elif drain == 'right':
            removals = list(range(n - 1, n // 10, -1))
        elif drain == 'inside':
            removals = [x for p in zip(range(n // 2, n), range(n // 2 - 1, -1, -1)) for x in p][:n * 9 // 10]
        elif drain in ('shuffle', 'refill'):
            removals = list(range(n * 9 // 10))
            rng.shuffle(removals)

        ops, present = [], set()
        top = max(e[3] for e in edges) + 1
        often = rng.choice([0.02, 0.05, 0.05])

        def add(i):
            ops.append(['add', i])
            present.add(i)

        def remove(i):
            ops.append(['remove', i, rng.random() < 0.2])
            present.discard(i)

        def ask(i):
            # a short window around an edge, or where there are few
            b, e = edges[i][2:]
            t = rng.choice([b, b, b + 1, b - 1, e, e, e - 1, rng.randint(-1, top), -5, top, top + 5])
            s = t + rng.choice([0, 1, 1, 2])
            if rng.random() < 0.15:
                t, s = rng.choice([(None, min(t, 5)), (t, None)])
            ops.append(['ask', t, s])

        for k, i in enumerate(ids):
            if i in present:
                continue
            add(i)
            if rng.random() < often:
                ask(i)
            if rng.random() < 0.02:
                ops.append(['add', i])
            if drain == 'churn' and rng.random() < 0.4:
                remove(min(present) if rng.random() < 0.5 else max(present))
            if drain == 'sliding' and k >= n // 4 and ids[k - n // 4] in present:
                remove(ids[k - n // 4])
        for i in removals:
            if i in present:
                remove(i)
                if rng.random() < often:
                    ask(i)
        if drain == 'refill':
            for i in removals[::-1]:
                add(i)
                if rng.random() < often:
                    ask(i)
        for i in sorted(present)[:20] + sorted(present)[-20:]:
            ask(i)
        return {'cls': cls, 'shape': shape, 'order': order, 'edges': edges, 'ops': ops,
                'faults': {'arrival-order:' + order: 1, 'layout:' + shape: 1, 'withdrawal:%s' % drain: 1},
                'sim_time': float(n)}

    @staticmethod
    def layout(rng, shape, n):
        side = max(2, int(n ** 0.5))
        edges = []
        for i in range(n):
            u, v = {'hub': (0, i + 1), 'pair': (0, 1)}.get(shape, (2 * i, 2 * i + 1))
            b = rng.randrange(4 * n)
            b, e = {'nested': (i, 4 * n - i), 'staircase': (i, i + 10), 'same-begin': (0, i + 1), 'same-end': (i, 2 * n),
                    'one-interval': (3, 8), 'instants': (i, i), 'grid': (i % side, side + i // side),
                    'random': (b, b + rng.choice([0, 1, 2, 5, 5, 20, n, 4 * n])), 'touching': (i, i + 1)
                    }.get(shape, (3 * i, 3 * i + 2))
            edges.append([u, v, b, e])
        return edges

    def nontrivial(self, plan, res):
        return True

    def execute(self, plan):
        import math
        cls, shape, order = (plan[k] for k in ('cls', 'shape', 'order'))
        kind, directed = CLASSES[cls]
        G = getattr(self.dnx, cls)()
        edges = [tuple(e) for e in plan['edges']]
        args = edges if kind == 'interval' else [e[:3] for e in edges]
        seams.MONITOR.events(jump=True, start=True)
        worst, profile = {}, set()

        def measured(what, size, f, *a, **kw):
            bound = 300 + 80 * math.log2(size + 2)
            with seams.budget(1_000_000) as m:
                try:
                    r = f(*a, **kw)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation('raised', '%s with %d edges (%s, %s arrival) raised %s: %s' % (
                        what, size, shape, order, type(e).__name__, e))
                steps = m.count
            if isinstance(r, list):
                bound += 16 * len(r)
            self.stats['measured'] = self.stats.get('measured', 0) + 1
            profile.add((cls, what, size, steps))
            worst[what] = max(worst.get(what, 0), steps / bound)
            if steps > bound:
                raise Violation('steps', '%s with %d edges present (%s, %s arrival) took %d steps, the bound is %d' % (
                    what, size, shape, order, steps, bound))
            return r

        present = set()
        try:
            for k, op in enumerate(plan['ops']):
                self.stats['step'] = k
                if op[0] == 'add':
                    i = op[1]
                    measured('add_edge' + ' again' * (i in present), len(present), G.add_edge, *args[i])
                    present.add(i)
                elif op[0] == 'remove':
                    i = op[1]
                    if i not in present:
                        continue
                    u, v, b, e = edges[i]
                    if op[2] and not directed:
                        u, v = v, u
                    if kind == 'interval':
                        measured('remove_edge', len(present), G.remove_edge, u, v, begin=b, end=e, overlapping=False)
                    else:
                        measured('remove_edge', len(present), G.remove_edge, u, v)
                    present.discard(i)
                else:
                    t, s = op[1:]
                    if kind == 'interval':
                        want = [args[k] for k in present if (s is None or edges[k][2] < s) and
                                (t is None or edges[k][3] > t) or edges[k][2] == t]
                    else:
                        want = [args[k] for k in present if (t is None or t <= edges[k][2]) and
                                (s is None or edges[k][2] < s or t == s == edges[k][2])]
                    got = measured('edges', len(present), lambda: list(G.edges(begin=t, end=s)))
                    self.stats['asked'] = self.stats.get('asked', 0) + 1
                    if sorted(map(tuple, got)) != sorted(want):
                        raise Violation('edges', 'edges(begin=%r, end=%r) with %d edges (%s, %s arrival): %d instead of %d, '
                                        '%.200r' % (t, s, len(present), shape, order, len(got), len(want),
                                                    set(map(tuple, got)) ^ set(want)))
            self.stats['answers'] = len(present)
            got = [tuple(x) for x in G.edges()]
            if sorted(got) != sorted(args[i] for i in present):
                raise Violation('edges', 'after %s arrival (%s) %d of %d edges are left' % (order, shape, len(got), len(present)))
            self.states |= {seams.stable(x) for x in profile}
            self.log.append(sorted(worst.items()))
        finally:
            seams.MONITOR.events(jump=True)
