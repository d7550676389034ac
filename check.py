#!/usr/bin/env python3
"""Decide one property: seeded simulated runs over all cores.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--log]
    check.py C01 --replay FILE

Exit 0: held on every run. Exit 1: a line "VIOLATION property=<id> replay=<path>". Exit 2: the check itself failed.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'MKL_NUM_THREADS': '1'}
DEADLINE = {"quick": 540, "thorough": 3 * 3600}


def environment():
    env = dict(os.environ)
    for k, v in ENV.items():
        env.setdefault(k, v) if k == 'PYTHONHASHSEED' and os.environ.get('VERIF_HASHSEED') else env.__setitem__(k, v)
    if os.environ.get('VERIF_HASHSEED'):
        env['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
    env['PYTHONPATH'] = HERE
    return env


def spawn(args):
    return subprocess.Popen([PYTHON, '-m'] + args, cwd=HERE, env=environment(), stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def replay(pid, path, quiet=False):
    """Run a replay file in a fresh process. Returns the violation, or None."""
    p = spawn(['sim.replay', pid, os.path.abspath(path)])
    out, err = p.communicate()
    for line in out.splitlines():
        try:
            r = json.loads(line)
        except ValueError:
            continue
        if r['type'] == 'replayed':
            return r
    raise RuntimeError('the replay did not finish:\n' + out[-2000:] + err[-2000:])


def with_history(pid, path, v, seed):
    """A violation which needs what the process did before: find how many earlier runs, and replay those as well."""
    done = (v['run'] - v['start']) // v['stride']
    tried = None
    for k in [0, 1, 3, 10, 30, 100, 300, 1000, 3000, done]:
        k = min(k, done)
        if k == tried:
            continue
        tried = k
        doc = {'property': pid, 'seed': seed, 'run': v['run'], 'plan': None, 'violation': v['violation']}
        if k:
            doc['before'] = {'from': v['run'] - k * v['stride'], 'stride': v['stride']}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
            f.write('\n')
        r = replay(pid, path)
        if r['violation'] is not None:
            doc['violation'] = r['violation']
            with open(path, 'w') as f:
                json.dump(doc, f, indent=1)
                f.write('\n')
            return r
    return None


def known_findings():
    found = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                found.append(json.loads(line))
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--log', help='write the digest of every run to this file')
    a = ap.parse_args()
    pid = a.property
    if a.replay:
        r = replay(pid, a.replay)
        if r['violation'] is None:
            print('%s: the replay does not fail' % pid)
            return 0
        print('%s: %s: %s (step %s)' % (pid, r['violation']['kind'], r['violation']['detail'], r['violation'].get('step')))
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1
    meta = json.loads(subprocess.run([PYTHON, '-m', 'sim.replay', '--meta', pid], cwd=HERE, env=environment(),
                                     capture_output=True, text=True, check=True).stdout.splitlines()[-1])
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    count = a.runs or meta['count'][tier]
    deadline = a.deadline or DEADLINE[tier]
    t0 = time.monotonic()
    workers = [spawn(['sim.worker', pid, tier, str(a.seed), str(i), str(a.workers), str(count), str(deadline)] +
                     (['log'] if a.log else [])) for i in range(a.workers)]
    results, violations, errors = [], [], []
    outs = []
    for w in workers:
        try:
            outs.append(w.communicate(timeout=max(1, deadline + 240 - (time.monotonic() - t0))))
        except subprocess.TimeoutExpired:
            w.kill()
            outs.append(w.communicate())
            errors.append('a worker did not finish in time')
    for w, (out, err) in zip(workers, outs):
        done = False
        for line in out.splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r['type'] == 'violation':
                violations.append(r)
            elif r['type'] == 'done':
                results.append(r)
                done = True
            elif r['type'] == 'error':
                errors.append(r['trace'])
                done = True
        if not done:
            errors.append('a worker died (exit %s): %s' % (w.returncode, err[-1500:]))
    wall = time.monotonic() - t0

    # known findings are recognised by what fails, never by being a violation of the same property
    fresh = []
    for v in sorted(violations, key=lambda v: v['run']):
        for k in known_findings():
            if k.get('property') == pid and k.get('kind') == v['violation']['kind'] and k.get('match') and \
                    k['match'] in v['violation']['detail']:
                break
        else:
            fresh.append(v)
    for k in known_findings():
        if k.get('property') == pid and k.get('match'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', k['match'])))

    agg, faults, states, distinct, n_states = {}, {}, set(), set(), 0
    runs = nontrivial = 0
    sim_time = 0.0
    sample = None
    late = False
    logs = []
    for r in results:
        runs += r['runs']
        if r['counted'] is not None:
            distinct.update(r['counted'])
        else:
            nontrivial += r['nontrivial']
        sim_time += r['sim_time']
        late = late or r['late']
        logs += r['logs']
        for k, v in r['agg'].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        if r['states'] is not None:
            states.update(r['states'])
        else:
            n_states = max(n_states, r['n_states'])
        if r['sample'] and (sample is None or len(json.dumps(r['sample'])) < len(json.dumps(sample))):
            sample = r['sample']
    n_states = max(n_states, len(states))
    nontrivial += len(distinct)
    if a.log:
        with open(a.log, 'w') as f:
            json.dump(sorted(logs), f)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    hours = max(wall, 1e-3) / 3600
    evidence = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': nontrivial, 'rule': meta['rule'],
            'samples': [json.dumps({'run': sample[0], 'plan': sample[1]})[:4000]] if sample else [],
            'runs_planned': count, 'stopped_by_deadline': late,
            'seeds_per_hour': round(runs / hours),
            'simulated_seconds': round(sim_time, 1), 'faults_injected': dict(sorted(faults.items())),
            'distinct_states': n_states, 'state_measure': meta['state_measure'],
            'counters': {k: round(v, 1) for k, v in sorted(agg.items())},
            'real_components': meta['real'], 'stub_components': meta['stub'],
            'workers': a.workers,
        },
        'wall_s': round(wall, 1), 'violations': len(fresh),
        'assumptions': meta['assumptions'],
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s %s: %d runs (%d distinct and non-trivial), %d states, %.0f s simulated, %d faults of %d kinds, %.1f s' % (
        pid, tier, runs, nontrivial, n_states, sim_time, sum(faults.values()), len(faults), wall))
    status = 0
    for v in fresh:
        path = os.path.join(HERE, v['replay'])
        try:
            r = replay(pid, path)
            if r['violation'] is None or r['violation']['kind'] != v['violation']['kind'] or r['log'] != v['log']:
                r = with_history(pid, path, v, a.seed)
        except RuntimeError as e:
            errors.append(str(e))
            continue
        if r is None:
            errors.append('run %d cannot be replayed: %r' % (v['run'], v['violation']))
            continue
        print('%s: %s: %s' % (pid, r['violation']['kind'], r['violation']['detail']))
        print('run %d of seed %d, minimised in %d executions' % (v['run'], a.seed, v['evals']))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, v['replay'])))
        status = 1
        break
    for e in errors:
        print('ERROR %s: %s' % (pid, e), file=sys.stderr)
    if status == 0 and errors:
        status = 2
    if status == 0 and (runs == 0 or nontrivial == 0):
        print('ERROR %s: nothing was explored' % pid, file=sys.stderr)
        status = 2
    return status


if __name__ == '__main__':
    sys.exit(main())
