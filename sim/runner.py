"""Runs plans of one property: generate from a seed, execute, minimise, store and replay."""
import hashlib
import json
import os
import random
import sys
import traceback

from . import seams
from .seams import Violation, HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')
DNX = None


def load_repo():
    """Import dynetworkx from the working tree, behind the seams."""
    global DNX
    if DNX is not None:
        return DNX
    sys.dont_write_bytecode = True
    import numpy, pandas, networkx, sklearn.linear_model  # noqa: the real libraries, before the clock is simulated
    seams.install_clock()
    seams.install_disk()
    sys.path.insert(0, REPO)
    import dynetworkx
    if not os.path.abspath(dynetworkx.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('dynetworkx was imported from %s' % dynetworkx.__file__)
    seams.MONITOR.install([m for n, m in sorted(sys.modules.items()) if n.split('.')[0] == 'dynetworkx'])
    seams.MONITOR.events(jump=True)
    DNX = dynetworkx
    return DNX


def seed_rng(pid, seed, index):
    return random.Random('%s/%d/%d' % (pid, seed, index))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Outcome:
    def __init__(self):
        self.violation = None
        self.stats = {}
        self.states = set()
        self.log = None


def execute(scenario, plan):
    """Run one plan from a clean simulator. Everything it depends on is in the plan."""
    seams.CLOCK.reset()
    seams.DISK.reset()
    seams.RandomSeam.set(plan.get('rseed', 0))
    seams.MONITOR.hook = None
    seams.MONITOR.limit = None
    out = Outcome()
    scenario.stats = {}
    scenario.states = set()
    scenario.log = []
    recursion = sys.getrecursionlimit()
    try:
        scenario.execute(plan)
    except Violation as v:
        out.violation = {'kind': v.kind, 'detail': v.detail, 'step': scenario.stats.get('step')}
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        # an answer which cannot even be read: of the wrong shape, or failing only when it is looked at
        where = traceback.extract_tb(e.__traceback__)[-1]
        out.violation = {'kind': 'unreadable', 'step': scenario.stats.get('step'),
                         'detail': '%s: %s (%s, line %s)' % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)}
    finally:
        sys.setrecursionlimit(recursion)
        seams.MONITOR.hook = None
        seams.MONITOR.limit = None
        seams.RandomSeam.set(0)
    out.stats = scenario.stats
    out.states = scenario.states
    out.log = digest([scenario.log, {k: v for k, v in scenario.stats.items() if k != 'steps'},
                      sorted(scenario.states), out.violation])
    return out


def minimise(scenario, plan, violation, limit=2500, seconds=90):
    """Drop operations and faults from the plan while the same kind of violation persists (ddmin)."""
    import copy
    evals = 0
    stop = seams.REAL_MONO() + seconds
    best = copy.deepcopy(plan)

    def fails(p):
        nonlocal evals
        evals += 1
        try:
            o = execute(scenario, p)
        except Exception:
            return False
        return o.violation is not None and o.violation['kind'] == violation['kind']

    def spent():
        return evals >= limit or seams.REAL_MONO() > stop

    for path in scenario.shrinkable(best):
        def get(p):
            for k in path:
                p = p[k]
            return p
        try:
            items = get(best)
        except (KeyError, IndexError, TypeError):
            continue
        if not isinstance(items, list):
            continue
        n = 2
        while len(items) >= 1 and not spent():
            size = max(1, len(items) // n)
            reduced = False
            for i in range(0, len(items), size):
                trial = copy.deepcopy(best)
                lst = get(trial)
                del lst[i:i + size]
                if fails(trial):
                    best = trial
                    items = get(best)
                    n = max(n - 1, 2)
                    reduced = True
                    break
                if spent():
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
    # simpler arguments: no attributes
    ops = best.get('ops')
    if isinstance(ops, list):
        for i, op in enumerate(ops):
            if spent():
                break
            for j, a in enumerate(op):
                if isinstance(a, dict) and a and op[0].startswith('add'):
                    trial = copy.deepcopy(best)
                    trial['ops'][i][j] = {}
                    if fails(trial):
                        best = trial
    return best, evals


def save_replay(pid, plan, violation, seed, index, directory):
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s-%d-%d.json' % (pid, seed, index))
    with seams.REAL_OPEN(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'run': index, 'violation': violation, 'plan': plan}, f, indent=1)
        f.write('\n')
    return path
