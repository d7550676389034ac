"""The seams: every source of nondeterminism the simulated code can reach.

Imported before dynetworkx, so that names dynetworkx binds at import time (``from timeit import default_timer``)
are already the simulator's.
"""
import builtins
import hashlib
import io
import os
import random
import sys
import time
import timeit

# --------------------------------------------------------------------------------------------------- violations


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, detail):
        super().__init__(kind + ': ' + detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself went wrong. Never reported as a violation."""


# -------------------------------------------------------------------------------------------------------- clock

class SimClock:
    """A virtual clock. Every reading advances it by an amount the plan decides; nothing reads real time."""

    def __init__(self):
        self.now = 0.0
        self.reads = 0
        self.source = None

    def reset(self, source=None):
        self.now = 0.0
        self.reads = 0
        self.source = source

    def read(self):
        self.reads += 1
        if self.source is not None:
            self.now += self.source(self.reads)
        else:
            self.now += 1e-6
        return self.now


CLOCK = SimClock()
REAL_PERF = time.perf_counter
REAL_MONO = time.monotonic


def _read_clock():
    return CLOCK.read()


def _read_clock_ns():
    return int(CLOCK.read() * 1e9)


def install_clock():
    timeit.default_timer = _read_clock
    time.perf_counter = _read_clock
    time.perf_counter_ns = _read_clock_ns
    time.process_time = _read_clock
    time.monotonic = _read_clock
    time.time = _read_clock


# ---------------------------------------------------------------------------------------------------- step budget

class StepMonitor:
    """Counts steps (loop iterations, or loop iterations and calls) of dynetworkx code, deterministically.

    The liveness seam: "finishes" means "finishes within a bounded number of steps of the code under test", never
    within an amount of real time.
    """
    TOOL = 4

    def __init__(self):
        self.count = 0
        self.limit = None
        self.hook = None
        self.suspended = False
        self.codes = []

    def install(self, modules):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'dnx-sim')
        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            self.codes.append(code)
            for const in code.co_consts:
                if hasattr(const, 'co_code'):
                    walk(const)

        def visit(obj, depth=0):
            if hasattr(obj, '__wrapped__') and depth < 6:
                visit(obj.__wrapped__, depth + 1)
            if hasattr(obj, '__code__'):
                walk(obj.__code__)
            elif isinstance(obj, (staticmethod, classmethod)):
                visit(obj.__func__)
            elif isinstance(obj, property):
                for f in (obj.fget, obj.fset, obj.fdel):
                    if f is not None:
                        visit(f)
            elif isinstance(obj, type) and obj.__module__.startswith('dynetworkx') and depth < 3:
                for member in vars(obj).values():
                    visit(member, depth + 1)

        for module in modules:
            for obj in list(vars(module).values()):
                if getattr(obj, '__module__', None) is not None and str(obj.__module__).startswith('dynetworkx'):
                    visit(obj)
        ev = mon.events
        mon.register_callback(self.TOOL, ev.JUMP, self._step)
        mon.register_callback(self.TOOL, ev.PY_START, self._start)
        mon.register_callback(self.TOOL, ev.LINE, self._line)

    def events(self, jump=True, start=False, line=False):
        ev = sys.monitoring.events
        mask = (ev.JUMP if jump else 0) | (ev.PY_START if start else 0) | (ev.LINE if line else 0)
        for code in self.codes:
            sys.monitoring.set_local_events(self.TOOL, code, mask)

    def _tick(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit = None
            raise Violation('no-progress', 'the call did not finish within its step budget')

    def _step(self, code, src, dst):
        if dst < src:
            if self.hook is not None:
                self.hook(code, -dst)
            else:
                self._tick()

    def _start(self, code, offset):
        self._tick()

    def _line(self, code, line):
        if self.hook is not None:
            self.hook(code, line)


MONITOR = StepMonitor()


class budget:
    """with budget(n): a call into dynetworkx must finish within n steps."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        if not MONITOR.suspended:
            MONITOR.count = 0
            MONITOR.limit = self.limit
        return MONITOR

    def __exit__(self, *exc):
        MONITOR.limit = None
        return False


def stable(obj):
    """A hash which does not depend on the interpreter's string hashing."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


# ---------------------------------------------------------------------------------------------------------- disk

class SimCrash(BaseException):
    """The process dies here. Only what reached the simulated disk survives."""


class SimDisk:
    """Files under /sim/. Python's own text and buffer layers run for real on top of a simulated raw file."""
    PREFIX = '/sim/'

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}
        self.faults = []        # [{'kind':..., 'at':..., 'n':...}]
        self.fired = {}
        self.rng = None
        self.open_handles = []
        self.short = 0.0
        self.eintr = 0.0
        self.buffer = 8192
        self.written = 0
        self.read_bytes = 0
        self.capacity = None
        self.io_ops = 0

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def fault(self, op, position):
        """The fault planned for this point of the I/O, if any. One-shot."""
        for f in self.faults:
            if not f.get('done') and f['op'] == op and position >= f['at']:
                f['done'] = True
                self.fire(f['kind'])
                return f
        return None

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.io_ops += 1
        f = self.fault('open', 0)
        if f is not None:
            if f['kind'] == 'open-emfile':
                raise OSError(24, 'Too many open files', path)
            raise PermissionError(13, 'Permission denied', path)
        binary = 'b' in mode
        base = mode.replace('b', '').replace('t', '')
        if 'r' in base and '+' not in base and path not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if 'x' in base and path in self.files:
            raise FileExistsError(17, 'File exists', path)
        if 'w' in base or 'x' in base:
            self.files[path] = bytearray()
        elif 'a' in base:
            self.files.setdefault(path, bytearray())
        raw = SimRaw(self, path, base)
        self.open_handles.append(raw)
        if binary and buffering == 0:
            return raw
        size = self.buffer
        if '+' in base:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in base:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding=encoding or 'utf-8', errors=errors, newline=newline,
                                line_buffering=buffering == 1)
        text.mode = mode
        text._CHUNK_SIZE = max(1, size)
        return text


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, base):
        super().__init__()
        self.disk = disk
        self.path = path
        self.name = path
        self.base = base
        self.pos = len(disk.files[path]) if 'a' in base else 0
        self.dead = False
        self.fd = None

    def readable(self):
        return 'r' in self.base or '+' in self.base

    def writable(self):
        return 'r' not in self.base or '+' in self.base

    def seekable(self):
        return True

    def fileno(self):
        if self.fd is None:
            self.fd = FDS.number(self)
        return self.fd

    def seek(self, offset, whence=0):
        data = self.disk.files[self.path]
        self.pos = offset if whence == 0 else (self.pos + offset if whence == 1 else len(data) + offset)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        data = self.disk.files[self.path]
        size = self.pos if size is None else size
        del data[size:]
        return size

    def _short(self, n):
        disk = self.disk
        if n > 1 and disk.short and disk.rng.random() < disk.short:
            disk.fire('short-io')
            return disk.rng.randint(1, n - 1)
        return n

    def _eintr(self):
        disk = self.disk
        if disk.eintr and disk.rng.random() < disk.eintr:
            disk.fire('eintr')
            raise InterruptedError(4, 'Interrupted system call')

    def readinto(self, b):
        disk = self.disk
        disk.io_ops += 1
        f = disk.fault('read', disk.read_bytes)
        if f is not None:
            raise OSError(5, 'Input/output error', self.path)
        self._eintr()
        data = disk.files[self.path]
        n = min(len(b), len(data) - self.pos)
        if n <= 0:
            return 0
        n = self._short(n)
        b[:n] = data[self.pos:self.pos + n]
        self.pos += n
        disk.read_bytes += n
        return n

    def write(self, b):
        disk = self.disk
        disk.io_ops += 1
        if self.dead:
            return len(b)       # the process is gone, nothing reaches the disk any more
        self._eintr()
        b = bytes(b)
        n = len(b)
        for f in disk.faults:
            if f.get('done') or f['op'] != 'write':
                continue
            room = f['at'] - disk.written
            if room < n:
                keep = max(0, room)
                if f['kind'] == 'enospc' and keep > 0:
                    n = keep    # a short write first, then the error
                    break
                f['done'] = f['kind'] != 'enospc'
                disk.fire(f['kind'])
                if f['kind'] == 'crash':
                    self._put(b[:keep])
                    self.kill()
                    raise SimCrash()
                if f['kind'] == 'enospc':
                    raise OSError(28, 'No space left on device', self.path)
                raise OSError(5, 'Input/output error', self.path)
        n = self._short(n)
        self._put(b[:n])
        return n

    def kill(self):
        for h in self.disk.open_handles:
            h.dead = True

    def _put(self, b):
        data = self.disk.files[self.path]
        if self.pos > len(data):
            data.extend(b'\0' * (self.pos - len(data)))
        data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.disk.written += len(b)

    def close(self):
        if not self.closed and not self.dead and self.writable():
            f = self.disk.fault('close', 0)
            super().close()
            if f is not None:
                # the write back failed: some of what was written never reaches the disk
                data = self.disk.files[self.path]
                del data[len(data) // 2:]
                raise OSError(5, 'Input/output error', self.path)
            return
        super().close()


class _Descriptors:
    """Numbers for simulated files, far from those of the operating system."""
    FIRST = 10 ** 6

    def __init__(self):
        self.raws = {}

    def number(self, raw):
        if len(self.raws) > 1000:
            self.raws.clear()
        n = self.FIRST + len(self.raws)
        self.raws[n] = raw
        return n

    def known(self, fd):
        return isinstance(fd, int) and fd in self.raws


FDS = _Descriptors()
DISK = SimDisk()
REAL_OPEN = builtins.open


def _is_sim(path):
    try:
        return isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(SimDisk.PREFIX)
    except Exception:
        return False


def _sim_open(file, *args, **kwargs):
    if _is_sim(file):
        return DISK.open(os.fspath(file), *args, **kwargs)
    if FDS.known(file):
        # the file exists already: it was opened by os.open
        kwargs = dict(zip(('mode', 'buffering', 'encoding', 'errors', 'newline'), args), **kwargs)
        kwargs.pop('closefd', None)
        mode = kwargs.pop('mode', 'r').replace('x', 'w')
        return DISK.open(FDS.raws[file].path, mode, **kwargs)
    return REAL_OPEN(file, *args, **kwargs)


def install_disk():
    builtins.open = _sim_open
    io.open = _sim_open
    real = {n: getattr(os, n) for n in ('replace', 'rename', 'remove', 'unlink', 'fsync', 'fdatasync', 'fstat', 'stat', 'lstat',
                                        'open', 'close', 'write', 'access', 'makedirs', 'mkdir', 'chmod', 'truncate')}
    real_exists, real_isfile, real_isdir, real_size = os.path.exists, os.path.isfile, os.path.isdir, os.path.getsize
    root = SimDisk.PREFIX.rstrip('/')

    def is_root(path):
        return isinstance(path, (str, os.PathLike)) and os.fspath(path).rstrip('/') == root

    def missing(path):
        if os.fspath(path) not in DISK.files:
            raise FileNotFoundError(2, 'No such file or directory', os.fspath(path))
        return os.fspath(path)

    def over(name):
        """Replace os.<name> for paths on the simulated disk."""
        def decorate(f):
            setattr(os, name, lambda p, *a, **kw: f(p, *a, **kw) if _is_sim(p) else real[name](p, *a, **kw))
            return f
        return decorate

    def move(src, dst, **kw):
        DISK.files[os.fspath(dst)] = DISK.files.pop(missing(src))

    def remove(path, **kw):
        del DISK.files[missing(path)]

    def stat(path, **kw):
        if is_root(path):
            return os.stat_result((0o40755, 1, 1, 2, 0, 0, 0, 0, 0, 0))
        return os.stat_result((0o100644, 2, 1, 1, 0, 0, len(DISK.files[missing(path)]), 0, 0, 0))

    over('replace')(move)
    over('rename')(move)
    over('remove')(remove)
    over('unlink')(remove)
    over('access')(lambda path, mode, **kw: os.fspath(path) in DISK.files)
    over('chmod')(lambda path, mode, **kw: None)
    over('truncate')(lambda path, n: DISK.files[missing(path)].__delitem__(slice(n, None)))

    @over('open')
    def os_open(path, flags, mode=0o777, **kw):
        how = 'a' if flags & os.O_APPEND else 'x' if flags & os.O_EXCL else 'w' if flags & os.O_TRUNC else 'r+'
        if how == 'r+' and flags & os.O_CREAT:
            DISK.files.setdefault(os.fspath(path), bytearray())
        return DISK.open(os.fspath(path), how + 'b', buffering=0).fileno()

    for name in ('stat', 'lstat'):
        setattr(os, name, lambda p, name=name, **kw: stat(p) if _is_sim(p) or is_root(p) else real[name](p, **kw))
    for name in ('makedirs', 'mkdir'):
        setattr(os, name, lambda p, *a, name=name, **kw: None if _is_sim(p) or is_root(p) else real[name](p, *a, **kw))
    for name in ('fsync', 'fdatasync'):
        setattr(os, name, lambda f, name=name: None if FDS.known(f) or isinstance(f, SimRaw) else real[name](f))
    os.fstat = lambda f: stat(FDS.raws[f].path) if FDS.known(f) else real['fstat'](f)
    os.close = lambda f: FDS.raws[f].close() if FDS.known(f) else real['close'](f)
    os.write = lambda f, b: FDS.raws[f].write(b) if FDS.known(f) else real['write'](f, b)
    os.path.exists = lambda p: os.fspath(p) in DISK.files if _is_sim(p) else is_root(p) or real_exists(p)
    os.path.isfile = lambda p: os.fspath(p) in DISK.files if _is_sim(p) else real_isfile(p)
    os.path.isdir = lambda p: is_root(p) or real_isdir(p)
    os.path.getsize = lambda p: len(DISK.files[missing(p)]) if _is_sim(p) else real_size(p)


# ------------------------------------------------------------------------------------------------------ randomness

class RandomSeam:
    """The module level functions of random, owned by the simulator: seeded, or biased towards their extremes."""
    REAL = {n: getattr(random, n) for n in ('randint', 'uniform', 'choices', 'choice', 'randrange', 'sample',
                                            'shuffle', 'random')}

    @classmethod
    def set(cls, seed, mode='seeded'):
        random.seed(seed)
        try:
            sys.modules['numpy'].random.seed(seed & 0x7fffffff)
        except Exception:
            pass
        for n, f in cls.REAL.items():
            setattr(random, n, f)
        if mode == 'seeded':
            return
        rng = random.Random(seed)

        def biased(low, high, real):
            k = rng.random()
            if mode == 'low' or (mode == 'extreme' and k < 0.4):
                return low
            if mode == 'high' or (mode == 'extreme' and k < 0.8):
                return high
            return real()

        random.randint = lambda a, b: biased(a, b, lambda: rng.randint(a, b))
        random.uniform = lambda a, b: biased(a, b, lambda: rng.uniform(a, b))

        def choice(seq):
            return biased(seq[0], seq[len(seq) - 1], lambda: rng.choice(seq))

        def choices(population, weights=None, *, cum_weights=None, k=1):
            if weights is not None or cum_weights is not None:
                return rng.choices(population, weights, cum_weights=cum_weights, k=k)
            return [choice(population) for _ in range(k)]

        random.choice = choice
        random.choices = choices


# ----------------------------------------------------------------------------------------------------------- nodes

SALT = [0]      # changes the hashes of nodes which come out of a pickle or a deep copy, as another process would


def revive(cls, k, h):
    return cls(k, (h * 31 + SALT[0]) % 2 ** 40 if SALT[0] else h)


class SimNode:
    """A node whose hash, and so its position in every set and dict walk over a set, is chosen by the plan."""
    __slots__ = ('k', 'h')

    def __reduce__(self):
        return revive, (SimNode, self.k, self.h)

    def __init__(self, k, h):
        self.k = k
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, SimNode) and other.k == self.k

    def __lt__(self, other):
        return self.k < other.k

    def __gt__(self, other):
        return self.k > other.k

    def __repr__(self):
        return 'N%d' % self.k


class SimObject:
    """A node which is equal to nothing but itself, as most objects are; a copy of it is another node."""
    __slots__ = ('k', 'h')

    def __reduce__(self):
        return revive, (SimObject, self.k, self.h)

    def __init__(self, k, h):
        self.k = k
        self.h = h

    def __hash__(self):
        return self.h

    def __lt__(self, other):
        return self.k < other.k

    def __gt__(self, other):
        return self.k > other.k

    def __repr__(self):
        return 'O%d' % self.k


def make_node(spec):
    kind = spec[0]
    if kind == 'i' or kind == 's' or kind == 'f':
        return spec[1]
    if kind == 't':
        return tuple(make_node(s) for s in spec[1])
    if kind == 'fs':
        return frozenset(make_node(s) for s in spec[1])
    if kind == 'n':
        return SimNode(spec[1], spec[2])
    if kind == 'o':
        return SimObject(spec[1], spec[2])
    raise HarnessError('unknown node spec %r' % (spec,))


def twin(x):
    """A node equal to x which is another object, where there is one: what counts is what a node equals."""
    t = type(x)
    if t is str:
        return ''.join(list(x)) if len(x) > 1 else x
    if t is tuple:
        return tuple([twin(y) for y in x])
    if t is frozenset:
        return frozenset([twin(y) for y in x])
    if t is int:
        return int(str(x))
    if t is SimNode:
        return SimNode(x.k, x.h)
    return x


class Nodes(list):
    """The nodes of a plan; whoever asks for one gets a twin of it."""

    def __getitem__(self, i):
        return twin(list.__getitem__(self, i))

    def __iter__(self):
        return map(twin, list.__iter__(self))


class Unhashable:
    __hash__ = None

    def __repr__(self):
        return 'Unhashable()'


class HashRaises:
    """Hashing this node fails."""

    def __hash__(self):
        raise TypeError('simulated: unhashable')

    def __repr__(self):
        return 'HashRaises()'


class Unorderable:
    """A timestamp which can be compared for equality only."""

    def __init__(self, k=0):
        self.k = k

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return 12345 + self.k

    def __repr__(self):
        return 'Unorderable(%d)' % self.k


class SourceFailed(Exception):
    """The data source which feeds an update broke off."""
