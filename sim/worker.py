"""One worker process: every `stride`-th run of a check. Prints JSON lines to stdout."""
import collections
import json
import sys
import traceback

from . import seams, runner
from .scenarios import SCENARIOS


def emit(out, obj):
    out.write(json.dumps(obj) + '\n')
    out.flush()


def main():
    pid, tier, seed, start, stride, count, deadline = sys.argv[1:8]
    mode = sys.argv[8] if len(sys.argv) > 8 else 'search'
    seed, start, stride, count, deadline = int(seed), int(start), int(stride), int(count), float(deadline)
    out = sys.stdout
    sys.stdout = sys.stderr     # nothing the code under test prints gets into the protocol
    t0 = seams.REAL_MONO()
    try:
        dnx = runner.load_repo()
        scenario = SCENARIOS[pid](dnx, tier)
        agg = collections.Counter()
        faults = collections.Counter()
        states = set()
        shapes = set()
        counted = set()
        logs = []
        sample = None
        sim_time = 0.0
        runs = nontrivial = 0
        late = False
        for index in range(start, count, stride):
            if seams.REAL_MONO() - t0 > deadline:
                late = True
                break
            rng = runner.seed_rng(pid, seed, index)
            plan = scenario.generate(rng)
            res = runner.execute(scenario, plan)
            runs += 1
            if mode == 'log':
                logs.append([index, res.log])
            shape = runner.digest([plan.get('cls'), plan.get('ops'), plan.get('schedule'), plan.get('disk'), plan.get('threads'), plan.get('sweep')])
            if scenario.nontrivial(plan, res):
                if shape not in counted:
                    counted.add(shape)
                    nontrivial += 1
                if sample is None or (len(json.dumps(plan)) < len(json.dumps(sample[1])) and len(json.dumps(plan)) > 300):
                    sample = [index, plan]
            shapes.add(shape)
            if len(states) < 3_000_000:
                states |= res.states
            for k, v in res.stats.items():
                if isinstance(v, (int, float)) and k != 'step':
                    agg[k] += v
                elif k == 'fired':
                    faults.update(v)
            faults.update(plan.get('faults', {}))
            sim_time += plan.get('sim_time', 0.0) + res.stats.get('clock', 0.0)
            if res.violation is not None:
                small, evals = runner.minimise(scenario, plan, res.violation)
                final = runner.execute(scenario, small)
                if final.violation is None:
                    small, final = plan, res    # it depends on what ran before; the parent sorts it out
                path = runner.save_replay(pid, small, final.violation, seed, index, 'replays')
                emit(out, {'type': 'violation', 'run': index, 'replay': path, 'violation': final.violation,
                           'evals': evals, 'log': final.log, 'start': start, 'stride': stride})
                break
        emit(out, {'type': 'done', 'runs': runs, 'nontrivial': nontrivial, 'shapes': len(shapes),
                   'counted': sorted(counted) if len(counted) < 500000 else None,
                   'states': [format(s & 0xffffffffffffffff, 'x') for s in states] if len(states) < 400000 else None,
                   'n_states': len(states), 'agg': dict(agg), 'faults': dict(faults), 'sim_time': sim_time,
                   'sample': sample, 'late': late, 'logs': logs})
    except BaseException:
        emit(out, {'type': 'error', 'trace': traceback.format_exc()})


if __name__ == '__main__':
    main()
