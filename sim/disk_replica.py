"""Replicas which save themselves to a simulated disk, crash, restart and load; and text files written by others."""
import random

from . import seams
from .seams import Violation
from .graphs import Replica, freeze, CLASSES, bulk_edges
from .model import Model

PATH = '/sim/graph.txt'


def set_disk(cfg):
    d = seams.DISK
    d.faults = [dict(f) for f in cfg.get('faults', [])]
    d.fired = {}
    d.short = cfg.get('short', 0)
    d.eintr = cfg.get('eintr', 0)
    d.buffer = max(1, cfg.get('buffer', 8192))
    d.rng = random.Random(cfg.get('seed', 0))
    d.written = d.read_bytes = d.io_ops = 0
    d.open_handles = []


def fatal_fired():
    return any(k in seams.DISK.fired for k in ('enospc', 'eio-write', 'eio-close', 'open-emfile', 'open-denied', 'eio-read', 'crash'))


class DiskReplica(Replica):
    round_trips = 0
    io_ops = 0
    whole_times = False         # whole numbers which floats cannot tell apart

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.fired = {}
        self.saved = None           # what the file has to contain: {edge: attributes}, or 'unknown'
        self.delimiter = ' '

    def harvest(self):
        for k, v in seams.DISK.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.io_ops += seams.DISK.io_ops
        set_disk({})

    def contents(self):
        return {self.model_edge(k): freeze(a) for k, a in self.M.edges.items()}

    def op_save(self, delimiter, cfg):
        before = bytes(seams.DISK.files[PATH]) if PATH in seams.DISK.files else None
        set_disk(cfg)
        old = self.saved
        what = 'save_to_txt(delimiter=%r)' % delimiter
        crashed = False
        err = None
        try:
            _, err = self.attempt(self.G.save_to_txt, PATH, delimiter=delimiter)
        except seams.SimCrash:
            crashed = True
        fatal = fatal_fired()
        self.harvest()
        if crashed:
            if before is not None and seams.DISK.files.get(PATH) == before:
                cfg = {}        # the file is the one of the save before, whatever that was
            self.restart(delimiter, cfg)
            return
        if not self.M.nodes:
            if err is None:
                self.saved, self.delimiter = {}, delimiter
            else:
                self.saved = old    # an empty graph is refused before the file is touched
            return
        if err is not None:
            if not fatal:
                raise Violation('raised', '%s raised %s: %s' % (what, type(err).__name__, err))
            self.saved = 'unknown'
            self.op_audit()
            return
        self.saved, self.delimiter = self.contents(), delimiter
        if fatal:
            # it returned although the disk failed: then everything has to be on the disk all the same
            self.op_load({}, {})

    def op_equals(self):
        """'=' joins the names and values of attributes; it is refused as delimiter and no file is touched."""
        set_disk({'buffer': 8192, 'faults': []})
        files = {p: bytes(x) for p, x in seams.DISK.files.items()}
        _, err = self.attempt(self.G.save_to_txt, PATH, delimiter='=')
        if err is None:
            raise Violation('accepted', "save_to_txt(delimiter='=') returned")
        _, err = self.attempt(self.load, '=', {})
        if err is None:
            raise Violation('accepted', "load_from_txt(delimiter='=') returned")
        self.harvest()
        if {p: bytes(x) for p, x in seams.DISK.files.items()} != files:
            raise Violation('file-changed', "save_to_txt(delimiter='=') was refused but touched the file")

    def restart(self, delimiter, cfg):
        """The process died while saving. A new one starts from the file, or from the updates of its peers."""
        self.fired['restart'] = self.fired.get('restart', 0) + 1
        want = self.contents()
        if PATH not in seams.DISK.files:
            self.saved = None
        else:
            self.saved = 'unknown'
        if cfg.get('restart') == 'load' and self.saved is not None:
            loaded, err = self.attempt(self.load, delimiter, {})
            if err is None:
                got = self.read(loaded, 'load_from_txt of a torn file')
                odd = [e for e, a in got.items() if want.get(e) != a]
                if len(odd) > 1:
                    raise Violation('torn', 'after a crash while saving the file loads with %d edges which the graph '
                                            'did not have: %s' % (len(odd), self.show(odd)))
                self.G = loaded
                self.M = Model(self.kind, self.directed)
                for t, a in loaded.edges(data=True):
                    self.M.add_edge(t[0], t[1], t[2], t[3] if self.kind == 'interval' else t[2], a)
                return
        fresh = getattr(self.dnx, self.cls)()
        m = Model(self.kind, self.directed)
        for n, a in self.M.nodes.items():
            fresh.add_node(n, **a)
            m.add_node(n, a)
        for (u, v, b, e), a in self.M.edges.items():
            fresh.add_edge(*((u, v, b, e) if self.kind == 'interval' else (u, v, b)), **a)
            m.add_edge(u, v, b, e, a)
        self.G, self.M = fresh, m

    def load(self, delimiter, opts):
        kw = {'delimiter': delimiter}
        if opts.get('nodetype'):
            kw['nodetype'] = {'str': str, 'int': int}[opts['nodetype']]
        if opts.get('predict'):
            kw['predict'] = True
        if self.whole_times:
            kw['intervaltype' if self.kind == 'interval' else 'timestamptype'] = int
        return getattr(self.dnx, self.cls).load_from_txt(PATH, **kw)

    def read(self, graph, what):
        """The edges of a graph as {edge: attributes}; nodes which nobody saved make it fail."""
        out = {}
        n = 0
        for t, a in self.call('edges', lambda: list(graph.edges(data=True))):
            try:
                k = self.real_edge(t, what)
            except Violation:
                k = (repr(t), None, None, None)
            out[k] = freeze(a)
            n += 1
        if n != len(out):
            raise Violation('duplicates', '%s has the same edge more than once' % what)
        return out

    def op_load(self, cfg, opts):
        if self.saved is None or self.saved == 'unknown':
            return
        set_disk(cfg)
        what = 'load_from_txt(delimiter=%r, %r)' % (self.delimiter, opts)
        limit, self.limit = self.limit, self.limit * (20 if opts.get('predict') else 1)     # predict: 1000 queries
        try:
            loaded, err = self.attempt(self.load, self.delimiter, opts)
        finally:
            self.limit = limit
        fatal = fatal_fired()
        self.harvest()
        if err is not None:
            if fatal:
                return
            raise Violation('raised', '%s raised %s: %s' % (what, type(err).__name__, err))
        self.check_loaded(loaded, self.saved, what)
        self.round_trips += 1
        if opts.get('adopt') and not fatal:
            self.adopt(loaded)

    def check_loaded(self, loaded, want, what):
        if type(loaded) is not getattr(self.dnx, self.cls):
            raise Violation('type', '%s returned a %s' % (what, type(loaded).__name__))
        got = self.read(loaded, what)
        if got.keys() != want.keys():
            gone = [k for k in want if k not in got]
            new = [k for k in got if k not in want]
            raise Violation('lost' if gone else 'invented', '%s: missing %s, unexpected %r' % (what, self.show(gone), new[:4]))
        for k in want:
            if got[k] != want[k]:
                raise Violation('attributes', '%s: %s has %r, expected %r' % (what, self.show([k]), got[k], want[k]))
        ends = {x for k in want for x in k[:2]}
        nodes = [self.nid(x, what) for x in self.call('nodes', lambda: list(loaded.nodes()))]
        if len(nodes) != len(set(nodes)) or set(nodes) != ends:
            raise Violation('nodes', '%s: nodes %r, expected %r' % (
                what, sorted(nodes), sorted(ends)))
        self.answers += 1

    def adopt(self, loaded):
        """Continue on the loaded graph, as a restarted process does."""
        self.G = loaded
        m = Model(self.kind, self.directed)
        for t, a in loaded.edges(data=True):
            m.add_edge(t[0], t[1], t[2], t[3] if self.kind == 'interval' else t[2], a)
        self.M = m


# --------------------------------------------------------------------------------------------------- foreign files

TYPES = {'int': int, 'float': float, 'str': str, 'quarter': lambda s: int(float(s) * 4), 'upper': lambda s: s.upper()}


class TextFile:
    def __init__(self, scenario):
        self.s = scenario

    @staticmethod
    def generate(rng, g, disk_config):
        numeric = all(n[0] == 'i' for n in g.nodes)
        lay = {'order': ['u', 'v', 'begin', 'end'] if g.kind == 'interval' else ['u', 'v', 't']}
        if rng.random() < 0.6:
            rng.shuffle(lay['order'])
        lay['delimiter'] = rng.choice([' ', ' ', ',', '\t', '|', ';', '$', ' , ', '*', '--'])
        if lay['delimiter'] == '--':
            lay['delimiter'] = '::' if numeric else ':'
        words = [n[1] for n in g.nodes if n[0] == 's'] + (g.WORDS if g.odd else [])
        lay['comments'] = rng.choice([c for c in ['#', '#', '%', '//', '!'] if not any(c in w for w in words)])
        lay['nodetype'] = rng.choice([None, None, 'int', 'float', 'str'] if numeric else [None, None, 'str', 'int', 'upper'])
        lay['timetype'] = rng.choice([None, None, 'float', 'int', 'quarter'])
        lay['eol'] = rng.choice(['\n', '\n', '\r\n'])
        lay['final'] = rng.random() < 0.7
        lay['predict'] = rng.random() < 0.03
        if lay['timetype'] == 'int' and g.profile in ('dyadic', 'float', 'mixed', 'fine', 'huge'):
            lay['timetype'] = 'float'
        if g.kind == 'interval' and rng.random() < 0.2:
            # only one end is in the file, every edge lasts as long
            one = rng.choice(['begin', 'end'])
            lay['order'] = ['u', 'v', one]
            rng.shuffle(lay['order'])
            lay['duration'] = rng.choice([1, 2, 5, 100])
            if lay['timetype'] == 'quarter':
                lay['timetype'] = 'float'
            g.note('times-by-duration')
        if g.kind == 'interval' and rng.random() < 0.25:
            lay['merge'] = rng.choice([0, 0, 1, 2, 5])
            lay['timetype'] = rng.choice([None, 'int', 'float'])
            g.zero_length = 0
            if rng.random() < 0.7:
                del g.nodes[rng.choice([2, 3]):]
            g.note('merging-load')
        if lay['timetype'] == 'quarter':
            g.profile = 'dyadic'
        if lay['timetype'] == 'int' or 'merge' in lay:
            g.profile = rng.choice(['small', 'small', 'wide', 'epoch'])
        ops = []
        kinds = [g.attr(True, 1) for _ in range(rng.choice([1, 2, 3]))]
        for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 30, 80])):
            k = rng.random()
            if k < 0.1:
                ops.append(['comment', rng.choice(['', ' a remark', ' 1 2 3 4', 'u v begin end'])])
                g.note('comment-line')
            elif k < 0.17:
                ops.append(['blank', rng.choice(['', ' ', '   ', '\t'])])
                g.note('blank-line')
            else:
                _, u, v, b, e, a = g.add_op()
                if 'merge' in lay and rng.random() < 0.9:
                    a = rng.choice(kinds)
                ops.append(['rec', u, v, b, e, a, rng.choice([None, None, None, '', ' trailing remark', ' 9'])])
                if rng.random() < 0.08:
                    ops.append(ops[-1])
                    g.note('record-duplicated')
        if rng.random() < 0.004 and lay['timetype'] != 'quarter':
            ops.insert(rng.randint(0, len(ops)), ['bulk', rng.choice([300, 1000, 3000, 8000]), rng.randrange(2 ** 32)])
            g.note('large-file')
        if rng.random() < 0.25:
            hows = ['short', 'short', 'time']
            if g.kind == 'interval':
                hows += ['reversed', 'time2']
            if 'duration' in lay:
                hows = ['short', 'time']
            if lay['nodetype'] == 'float':
                hows.append('node')
            u, v = g.pair()
            b, e = g.span()
            how = rng.choice(hows)
            g.note('malformed:' + how)
            ops.insert(rng.randint(0, len(ops)), ['bad', how, u, v, b, e, rng.randrange(1, 4)])
        if rng.random() < 0.1:
            full = list(lay['order']) + ([lay['duration']] if 'duration' in lay else [])
            wrong = list(full)
            i = rng.randrange(len(lay['order']))
            if rng.random() < 0.5 and 'duration' not in lay or wrong[i] in 'uv' and rng.random() < 0.5:
                del wrong[i]
            elif wrong[i] in ('begin', 'end') and 'duration' not in lay:
                wrong.append('extra')
            else:
                wrong[i] = rng.choice(['w', 'node', 'x'])
            lay['wrong'] = wrong
            g.note('order-incomplete')
        d = disk_config(rng, g, 'load' if rng.random() < 0.25 else None)
        return {'cls': g.cls, 'nodes': g.nodes, 'ops': ops, 'layout': lay, 'disk': d, 'faults': g.faults, 'sim_time': 0.0}

    @staticmethod
    def merge(m, u, v, b, e, attr, grace):
        """The interval which the record and the edges it continues have together; those edges go."""
        gone = [k for k, a in m.edges.items() if m.joins(k, u, v) and a == attr
                and k[2] < e + grace + 1 and k[3] > b - grace - 1]
        for k in gone:
            b, e = min(b, k[2]), max(e, k[3])
            del m.edges[k]
        return b, e

    def execute(self, plan):
        s = self.s
        lay = plan['layout']
        cls = plan['cls']
        kind, directed = CLASSES[cls]
        timed = TYPES[lay['timetype'] or 'float']
        names = [str(n[1]) for n in plan['nodes']]
        if lay['nodetype'] in ('str', 'upper'):
            specs = [['s', TYPES[lay['nodetype']](x)] for x in names]
        else:
            specs = plan['nodes']
        r = DiskReplica(cls, specs, s.dnx)
        m = Model(kind, directed)
        lines = []
        bad = None
        records = 0
        ops = []
        for op in plan['ops']:
            if op[0] == 'bulk':
                r.limit *= 1 + op[1] // 50
                ops += [['rec', *x, None] for x in bulk_edges(len(names), *op[1:])]
            else:
                ops.append(op)
        for op in ops:
            if op[0] == 'comment':
                lines.append(lay['comments'] + op[1])
                continue
            if op[0] == 'blank':
                lines.append(op[1])
                continue
            if op[0] == 'rec':
                u, v, b, e, attr, remark = op[1:]
                fields = {'u': names[u], 'v': names[v], 'begin': str(b), 'end': str(e), 't': str(b)}
                cols = [fields[c] for c in lay['order']] + ['%s=%s' % (k, x) for k, x in attr.items()]
                line = lay['delimiter'].join(cols)
                if remark is not None:
                    line += ' ' + lay['comments'] + remark
                lines.append(line)
                records += 1
                tb, te = timed(str(b)), timed(str(e))
                if kind == 'impulse':
                    te = tb
                if 'duration' in lay:
                    if 'begin' in lay['order']:
                        te = tb + lay['duration']
                    else:
                        tb = te - lay['duration']
                if 'merge' in lay:
                    tb, te = self.merge(m, r.n[u], r.n[v], tb, te, dict(attr), lay['merge'])
                m.add_edge(r.n[u], r.n[v], tb, te, {k: x for k, x in attr.items()})
                continue
            _, how, u, v, b, e, k = op
            fields = {'u': names[u], 'v': names[v], 'begin': str(b), 'end': str(e), 't': str(b)}
            if how == 'time':
                fields['begin'] = fields['t'] = 'noon'
                if 'duration' in lay:
                    fields['end'] = 'noon'
            elif how == 'time2':
                fields['end'] = 'later'
            elif how == 'node':
                fields['u' if k == 1 else 'v'] = 'nobody'
            elif how == 'reversed':
                fields['begin'], fields['end'] = str(e + max(1, abs(e))), str(b)
            cols = [fields[c] for c in lay['order']]
            if how == 'short':
                cols = cols[:min(k, len(cols) - 1)]
            lines.append(lay['delimiter'].join(cols))
            bad = how
        text = lay['eol'].join(lines)
        if lines and lay['final']:
            text += lay['eol']
        seams.DISK.files[PATH] = bytearray(text.encode())
        set_disk(plan['disk'])
        order = tuple(lay['order'])
        if 'duration' in lay:
            order += (lay['duration'],)
        kw = {'delimiter': lay['delimiter'], 'order': order}
        if 'merge' in lay:
            kw['merge'] = (True, lay['merge'])
        if lay['comments'] != '#':
            kw['comments'] = lay['comments']
        if lay['nodetype']:
            kw['nodetype'] = TYPES[lay['nodetype']]
        if lay['timetype']:
            kw['intervaltype' if kind == 'interval' else 'timestamptype'] = timed
        if lay['predict']:
            kw['predict'] = True
        what = '%s.load_from_txt(delimiter=%r, order=%r, merge=%r, comments=%r, nodetype=%s, time=%s)' % (
            cls, lay['delimiter'], order, kw.get('merge'), lay['comments'], lay['nodetype'], lay['timetype'])
        if 'wrong' in lay:
            wrong = dict(kw, order=tuple(lay['wrong']))
            _, err = r.attempt(getattr(s.dnx, cls).load_from_txt, PATH, **wrong)
            if err is None:
                raise Violation('accepted', '%s.load_from_txt(%r) returned' % (cls, wrong))
        loaded, err = r.attempt(getattr(s.dnx, cls).load_from_txt, PATH, **kw)
        fatal = fatal_fired()
        r.harvest()
        s.stats['fired'] = dict(r.fired)
        s.stats['io_ops'] = r.io_ops
        s.stats['records'] = records
        s.stats['answers'] = 1
        s.stats['malformed'] = 1 if bad else 0
        s.log.append((records, bad, fatal, type(err).__name__))
        s.states.add(seams.stable((cls, text)))
        if bad:
            if err is None:
                raise Violation('accepted', '%s of a file with a malformed record (%s) returned' % (what, bad))
            return
        if err is not None:
            if fatal:
                return
            raise Violation('raised', '%s raised %s: %s' % (what, type(err).__name__, err))
        want = {r.model_edge(k): freeze(a) for k, a in m.edges.items()}
        r.check_loaded(loaded, want, what)
        r.G, r.M = loaded, m
        r.do(['deep_audit'])
