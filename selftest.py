"""Determinism of the simulator itself: same seed, same execution, whatever the number of workers.

Run by hand (python3 selftest.py [runs]); it is not one of the registered checks.
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
runs = sys.argv[1] if len(sys.argv) > 1 else '200'
bad = 0
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
with tempfile.TemporaryDirectory() as d:
    for p in props:
        logs = []
        for i, (workers, hashseed) in enumerate((('1', '0'), ('8', '0'), ('3', '0'), ('8', '77'))):
            log = os.path.join(d, '%s-%d' % (p, i))
            r = subprocess.run([sys.executable, 'check.py', p, '--seed', '4711', '--runs', runs, '--workers', workers,
                                '--log', log], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_HASHSEED=hashseed))
            if r.returncode:
                bad += 1
                print(p, 'exit', r.returncode, r.stdout[-500:], r.stderr[-500:])
            logs.append(open(log).read())
        same = logs[0] == logs[1] == logs[2]
        bad += not same
        print(p, 'deterministic' if same else 'NOT DETERMINISTIC',
              '' if logs[0] == logs[3] else '(log depends on string hashing, verdicts do not)')
sys.exit(1 if bad else 0)
