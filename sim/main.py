"""Command line: run one property's check, or replay a stored violation.

    python -m sim.main C01 [quick|thorough]
    python -m sim.main --replay FILE
"""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(ROOT, 'replays')
WALL = {'quick': 420, 'thorough': 660}  # no new batch is started after this
SHRINK_WALL = 90


def property_module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def run_plan(mod, plan):
    """Execute a plan; a hang of the code under test is a violation too."""
    try:
        out = mod.execute(plan)
    except core.Hang as e:
        out = core.Outcome()
        out.fail('hang', e)
    return out


def _job(args):
    pid, seed, tier, index = args
    mod = property_module(pid)
    plan = mod.generate(core.rng_for(seed, pid, index), index, tier)
    try:
        out = run_plan(mod, plan)
    except BaseException:
        return index, plan, None, traceback.format_exc()
    return index, plan, dict(out), None


def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                fields = dict(f.split('=', 1) for f in line[6:].split() if '=' in f)
                found.append((fields.get('property'), fields.get('class')))
    return found


def minimise(mod, plan, cls, wall=SHRINK_WALL):
    """Greedy delta debugging: keep any smaller plan that fails the same way."""
    t0 = time.monotonic()
    tried = kept = 0
    progress = True
    while progress and time.monotonic() - t0 < wall:
        progress = False
        for cand in mod.shrink(plan):
            if time.monotonic() - t0 > wall:
                break
            tried += 1
            try:
                out = run_plan(mod, cand)
            except core.HarnessError:
                continue
            v = out['violation']
            if v and v['class'] == cls:
                plan = cand
                kept += 1
                progress = True
                break
    return plan, tried, kept


def merge(total, part):
    for k, n in part.items():
        total[k] = total.get(k, 0) + n


def check(pid, tier, seed, runs=None, workers=None, verbose=False):
    mod = property_module(pid)
    core.load_repo()
    t0 = time.monotonic()
    runs = runs or mod.RUNS[tier]
    workers = workers or int(os.environ.get('VERIF_WORKERS', '8'))
    if hasattr(mod, 'prepare'):
        mod.prepare(seed, tier)
    stats = dict(faults={}, probes={})
    done = steps = days = 0
    distinct_traces, distinct_states, nontrivial = set(), set(), set()
    samples, logs, violations = [], [], []
    known = known_findings()
    seen_known = {}
    batch = workers * 12
    ctx = multiprocessing.get_context('fork')
    truncated = False
    with ctx.Pool(workers) as pool:
        for start in range(0, runs, batch):
            if time.monotonic() - t0 > WALL[tier]:
                truncated = True
                break
            jobs = [(pid, seed, tier, i) for i in range(start, min(start + batch, runs))]
            results = pool.map(_job, jobs, chunksize=1)
            for index, plan, out, err in results:
                if err is not None:
                    sys.stderr.write('run %d of %s: error in the check\n%s\n' % (index, pid, err))
                    return 2
                done += 1
                steps += out['steps']
                days += out['days']
                merge(stats['faults'], out['faults'])
                merge(stats['probes'], out['probes'])
                th = core.digest(out['trace'])
                logs.append(th)
                distinct_traces.add(th)
                distinct_states.update(out['interleavings'])
                if bool(out['faults']) if out['nontrivial'] is None else out['nontrivial']:
                    nontrivial.add(th)
                if len(samples) < 3 and index % 7 == 0:
                    samples.append({'run': index, 'trace': out['trace'][:12]})
                v = out['violation']
                if v is None:
                    continue
                if (pid, v['class']) in known:
                    seen_known[v['class']] = seen_known.get(v['class'], 0) + 1
                    continue
                violations.append((index, plan, v))
            if verbose:
                print('%d runs, %.1f s, %d violations' % (done, time.monotonic() - t0, len(violations)))
            if violations:
                break

    replay_path = None
    reported = []
    if violations:
        index, plan, v = min(violations, key=lambda x: x[0])
        small, tried, kept = minimise(mod, plan, v['class'])
        out = run_plan(mod, small)
        reproduced = bool(out['violation']) and out['violation']['class'] == v['class']
        if not reproduced:
            small, out = plan, None
        os.makedirs(REPLAYS, exist_ok=True)
        replay_path = os.path.join(REPLAYS, '%s-seed%s-run%d.json' % (pid, seed, index))
        record = dict(
            property=pid, seed=seed, run=index, violation=out['violation'] if out else v,
            reproduced=reproduced, shrink_tried=tried, shrink_kept=kept,
            plan=small, original_plan=plan,
            trace=out['trace'] if out else None,
        )
        with open(replay_path, 'w') as f:
            json.dump(record, f, indent=1, default=repr)
        reported.append(dict(replay=replay_path, **record['violation']))

    wall = time.monotonic() - t0
    evidence = dict(
        property=pid,
        tier=tier,
        seed=int(seed),
        level=mod.LEVEL,
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=samples,
            simulated_runs=done,
            seeds_per_hour=round(done / wall * 3600),
            simulated_days=days,
            simulated_time='%d days of weather (the code reads no clock)' % days,
            points_passed=steps,
            faults_injected=dict(sorted(stats['faults'].items())),
            probes=dict(sorted(stats['probes'].items())),
            distinct_traces=len(distinct_traces),
            distinct_states=len(distinct_states),
            distinct_states_measure=mod.STATES,
            run_log_digest=core.digest(logs),
            real_components=mod.REAL,
            stubbed_components=mod.STUBS,
            stopped_by_wall_clock=truncated,
            workers=workers,
        ),
        wall_s=round(wall, 2),
        assumptions=mod.ASSUMPTIONS,
        violations=reported,
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))

    for cls, n in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (pid, cls, n))
    if violations:
        v = reported[0]
        print('%s: %s' % (v['class'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, replay_path))
        return 1
    print(
        '%s held: %d runs in %.0f s, %d distinct traces, faults %s'
        % (pid, done, wall, len(distinct_traces), evidence['coverage']['faults_injected'])
    )
    return 0


def replay(path):
    with open(path) as f:
        record = json.load(f)
    core.load_repo()
    mod = property_module(record['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare(record['seed'], 'quick')
    out = run_plan(mod, record['plan'])
    for line in out['trace']:
        print(line)
    v = out['violation']
    if v:
        print('%s: %s' % (v['class'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (record['property'], path))
        return 1
    print('no violation')
    return 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    runs = int(argv[2]) if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return check(pid, tier, seed, runs, verbose=bool(os.environ.get('VERIF_VERBOSE')))


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
