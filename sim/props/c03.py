"""C03: a seeded session gives the same results in every process."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from .. import ambient, core, direct, gen, session
from . import c09, c10
from .c08 import brief

ID = 'C03'
LEVEL = 'exploration'
RUNS = {'quick': 280, 'thorough': 2600}
RULE = (
    'a run is a pair of process environments and one or several seeded session programs played in both; '
    'non-trivial = the environments differ; distinct by event log (environments, operations, results)'
)
STATES = 'distinct (environment differences, operation) pairs whose results were compared'
REAL = ['melodist', 'numpy (including its global generator)', 'pandas', 'scipy', 'fresh interpreters', 'files in a scratch directory']
STUBS = ['wall clock', 'directory listing order', 'environment variables of the workers']
TECHNIQUE = 'same seeded program under two simulated process environments, results and generator states compared'
LEVEL_NOTE = 'Sampled environments, programs and seeds; locales other than C, POSIX and C.UTF-8 are not installed here.'
ASSUMPTIONS = [
    'texts in files are ASCII',
    'warnings are not turned into errors',
    'operations rejected by an assertion are not compared between optimised and normal mode',
    'same library versions on the same machine',
]


def program(r):
    ops = session.history(
        r, r.randint(7, 12), weights={'bad': 0, 'save': 1.2, 'load': 1.0, 'calc': 5},
        days=r.choice((1, 3, 6, 14)),
    )
    daily = next(o['daily'] for o in reversed(ops) if o['op'] == 'set_daily')
    hourly = gen.hourly_spec(r, daily, 'cover')
    loc = gen.location(r)
    for k in range(r.randint(1, 4)):
        kind = r.choice(('fn', 'fn', 'fn', 'read', 'read', 'export'))
        if kind == 'fn':
            op = direct.call_spec(r, daily, hourly, loc)
        elif kind == 'read':
            p = c09.generate(r, 0, 'quick')
            p['fmt'] = r.choice(('knmi', 'knmi', p['fmt']))
            op = {'op': 'read', 'plan': dict(p, files=r.randint(2, 4), rows=min(p['rows'], 30)), 'dir': 'r%d' % k}
        else:
            op = {'op': 'export', 'frame': c10.frame_spec(r), 'file': 'e%d.smet' % k}
        ops.insert(r.randint(3, len(ops)), op)
    if r.random() < 0.7:
        ops.append({'op': 'save', 'st': 'a', 'file': 'end.json'})
    return {'seed': r.getrandbits(31), 'ops': ops}


def generate(r, index, tier):
    fresh = index % 10 == 0
    programs = [program(r) for _ in range(5 if fresh else 1)]
    env = ambient.generate(r, fresh)
    x = r.random()
    if x < 0.25:
        env['prologue'] = programs[0]['ops']
    elif x < 0.6:
        env['prologue'] = program(r)['ops']
    return {'fresh': fresh, 'env': env, 'programs': programs}


def _worker(env, programs, root):
    job, res = os.path.join(root, 'job.json'), os.path.join(root, 'result')
    with open(job, 'w') as f:
        json.dump({'env': env, 'programs': programs, 'root': root}, f)
    cmd = [sys.executable, '-B'] + (['-O'] if env['opt'] else []) + ['-m', 'sim.ambient', job, res]
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run(cmd, cwd=here, env=ambient.variables(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if p.returncode:
        raise core.HarnessError(p.stdout.decode(errors='replace')[-3000:])
    with open(res, 'rb') as f:
        return pickle.load(f)


def _forked(env, programs, root):
    res = []
    for i, p in enumerate(programs):
        d = os.path.join(root, 'p%d' % i)
        os.makedirs(d)
        res.append(core.isolated(ambient.play, env, p, d))
    return {'results': res, 'import': False}


def name(op):
    if op['op'] == 'fn':
        return 'fn ' + op['name']
    if op['op'] == 'read':
        return 'read ' + op['plan']['fmt']
    if op['op'] == 'export':
        return 'export'
    return brief(op)


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        run = _worker if plan['fresh'] else _forked
        ra, rb = os.path.join(root, 'x'), os.path.join(root, 'y')
        os.mkdir(ra)
        os.mkdir(rb)
        env = plan['env']
        a = run(ambient.base(), plan['programs'], ra)
        b = run(env, plan['programs'], rb)
        where = [k for k in ambient.differing(env) if k != 'prologue'] + (['prologue'] if env['prologue'] else [])
        for k in where:
            out.fault('environment: ' + k)
        out.probe('fresh interpreter', 2 * plan['fresh'])
        if a['import']:
            out.fail('generator-touched', 'importing the package changes the state of the generator')
        for p, xs, ys in zip(plan['programs'], a['results'], b['results']):
            for i, (op, x, y) in enumerate(zip(p['ops'], xs, ys)):
                if env['opt'] and x[0] == 'raise' or x[0] == 'raise' and 'AssertionError' in x[1]:
                    out.probe('operation not possible in this state')
                    if env['opt']:
                        break
                if not ambient.consumes(op):
                    for r in (x, y):
                        if not r[2]:
                            out.fail('generator-touched', 'operation %d (%s) changes the state of the generator' % (i, name(op)))
                    out.probe('generator state compared')
                if x[0] != y[0]:
                    d = '%s vs %s' % (x[:2] if x[0] == 'raise' else 'ok', y[:2] if y[0] == 'raise' else 'ok')
                elif x[0] == 'raise':
                    d = ''
                else:
                    d = session.differ(x[1], y[1])
                if d:
                    out.fail('result-differs', 'operation %d (%s) under other %s: %s' % (i, name(op), where, d[:700]))
                out['steps'] += 1
                out['interleavings'].append(core.digest([where, name(op)]))
                if op['op'] in ('set_daily', 'new') and op.get('daily'):
                    out['days'] += op['daily']['days'] * 2
            out.log([name(op) for op in p['ops']], [x[0] for x in xs], core.digest(session.numbers([x[1] for x in xs if x[0] == 'ok'])))
        out.log('environment', {k: env[k] for k in where if k != 'prologue'}, bool(env['prologue']), plan['fresh'])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def shrink(plan):
    ps = plan['programs']
    if len(ps) > 1:
        for i in range(len(ps)):
            yield dict(plan, programs=[ps[i]])
    env = plan['env']
    for k in ambient.differing(env):
        yield dict(plan, env=dict(env, **{k: ambient.base()[k]}))
    if plan['fresh'] and not any(env[k] != ambient.base()[k] for k in ambient.FRESH):
        yield dict(plan, fresh=False)
    if env['prologue'] and len(env['prologue']) > 1:
        n = len(env['prologue'])
        yield dict(plan, env=dict(env, prologue=env['prologue'][: n // 2]))
        for i in reversed(range(n)):
            yield dict(plan, env=dict(env, prologue=env['prologue'][:i] + env['prologue'][i + 1:]))
    if len(ps) == 1:
        ops = ps[0]['ops']
        for i in reversed(range(1, len(ops))):
            yield dict(plan, programs=[dict(ps[0], ops=ops[:i] + ops[i + 1:])])
