"""A thread scheduler the plan controls: one thread runs at a time and is replaced at source lines of dynetworkx."""
import threading

from . import seams
from .seams import Violation, HarnessError

LINE_CAP = 3_000_000
WAIT = 300


class SimInterrupt(BaseException):
    """The read is cut off at this line (a cancelled request, Ctrl-C)."""


class Baton:
    def __init__(self, n, switches, interrupts, unit='line'):
        self.n = n
        self.locks = [threading.Lock() for _ in range(n)]
        for lock in self.locks:
            lock.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.done = [False] * n
        self.current = None
        self.switches = list(switches)
        self.at = 0
        self.gap = self.switches[0][0] if self.switches else None
        self.interrupts = {(t, q): k for t, q, k in interrupts}
        self.query = [-1] * n
        self.lines = [0] * n
        self.total = 0
        self.switched = 0
        self.cut = 0
        self.trace = []
        self.abort = False
        self.novel = unit == 'novel'    # gaps count only lines the thread's current read has not passed before
        self.seen = [set() for _ in range(n)]

    def next_target(self):
        if self.at >= len(self.switches):
            self.gap = None
            return None
        target = self.switches[self.at][1] % self.n
        self.at += 1
        self.gap = self.switches[self.at][0] if self.at < len(self.switches) else None
        return target

    def hook(self, code, line):
        me = self.current
        if me is None:
            return
        self.total += 1
        self.lines[me] += 1
        if self.total > LINE_CAP:
            self.abort = True
            raise Violation('no-progress', 'the readers did not finish within %d lines' % LINE_CAP)
        if self.interrupts and self.interrupts.get((me, self.query[me])) == self.lines[me]:
            del self.interrupts[(me, self.query[me])]
            self.cut += 1
            self.trace.append((me, code.co_name, line, 'cut'))
            raise SimInterrupt()
        if self.gap is None:
            return
        if self.novel:
            if (code, line) in self.seen[me]:
                return
            self.seen[me].add((code, line))
        self.gap -= 1
        if self.gap > 0:
            return
        target = self.next_target()
        if target is None or target == me or self.done[target]:
            return
        self.switched += 1
        self.trace.append((me, code.co_name, line, target))
        self.current = target
        self.locks[target].release()
        self.wait(self.locks[me])

    @staticmethod
    def wait(lock):
        if not lock.acquire(timeout=WAIT):
            raise HarnessError('the baton was lost')

    def leave(self, me):
        self.done[me] = True
        left = [i for i in range(self.n) if not self.done[i]]
        if not left:
            self.current = None
            self.main.release()
            return
        target = self.next_target()
        if target not in left:
            target = left[0]
        self.current = target
        self.locks[target].release()


def run_threads(owner, threads, switches, interrupts, stats, unit='line'):
    """Run the operations of each thread on its owner, or on the one owner of all."""
    n = len(threads)
    owners = owner if isinstance(owner, list) else [owner] * n
    if not n:
        return ()
    b = Baton(n, switches, interrupts, unit)
    errors = []

    def body(me):
        try:
            b.wait(b.locks[me])
            for q, op in enumerate(threads[me]):
                if b.abort:
                    break
                b.query[me] = q
                b.lines[me] = 0
                b.seen[me].clear()
                try:
                    owners[me].do(op)
                except SimInterrupt:
                    pass
                b.query[me] = -1
        except BaseException as e:
            b.abort = True
            errors.append(e)
        finally:
            b.leave(me)

    workers = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    seams.MONITOR.suspended = True
    seams.MONITOR.events(jump=True, line=True)     # jump: also between two steps of a comprehension
    seams.MONITOR.hook = b.hook
    try:
        for w in workers:
            w.start()
        first = b.next_target() if switches else 0
        b.current = first if first is not None else 0
        b.locks[b.current].release()
        Baton.wait(b.main)
    finally:
        seams.MONITOR.hook = None
        seams.MONITOR.suspended = False
        seams.MONITOR.events(jump=True)
    for w in workers:
        w.join(WAIT)
    stats['switches'] = stats.get('switches', 0) + b.switched
    fired = stats.setdefault('fired', {})
    for name, k in (('thread-switch-inside-a-read', b.switched), ('read-cut-off', b.cut)):
        if k:
            fired[name] = fired.get(name, 0) + k
    for e in errors:
        if isinstance(e, HarnessError) or not isinstance(e, Violation):
            raise e
    if errors:
        raise errors[0]
    return (b.total, b.switched, b.cut, seams.stable(b.trace))
