"""Replays one file in a fresh process; and describes a scenario."""
import json
import sys
import traceback

from . import seams, runner
from .scenarios import SCENARIOS


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    if sys.argv[1] == '--meta':
        s = SCENARIOS[sys.argv[2]]
        out.write(json.dumps({'count': s.count, 'rule': s.rule, 'real': s.real, 'stub': s.stub,
                              'state_measure': s.state_measure, 'assumptions': s.assumptions}) + '\n')
        return
    pid, path = sys.argv[1:3]
    try:
        dnx = runner.load_repo()
        with seams.REAL_OPEN(path) as f:
            doc = json.load(f)
        scenario = SCENARIOS[pid](dnx, 'quick')
        res = None
        b = doc.get('before')
        if b:
            # what fails here depends on what the process did before: the runs of one worker, in their order
            for index in range(b['from'], doc['run'], b['stride']):
                res = runner.execute(scenario, scenario.generate(runner.seed_rng(pid, doc['seed'], index)))
                if res.violation is not None:
                    break
        if res is None or res.violation is None:
            plan = doc.get('plan') or scenario.generate(runner.seed_rng(pid, doc['seed'], doc['run']))
            res = runner.execute(scenario, plan)
        out.write(json.dumps({'type': 'replayed', 'violation': res.violation, 'log': res.log}) + '\n')
    except BaseException:
        out.write(json.dumps({'type': 'error', 'trace': traceback.format_exc()}) + '\n')


if __name__ == '__main__':
    main()
