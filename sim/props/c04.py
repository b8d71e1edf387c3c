"""C04: restoring saved parameters after a restart continues the session unchanged."""
import json
import os
import shutil
import tempfile

from .. import core, gen, session
from ..child import describe, enter
from .c08 import brief

ID = 'C04'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 8000}
RULE = (
    'a run is one session cut by 1-3 restarts (planned, or a crash that loses everything since the last '
    'save), each continued by a new process, compared with one process that never stopped; non-trivial = '
    'a disaggregation succeeded after a restart; distinct by event log'
)
STATES = 'distinct parameter sets restored'
REAL = ['melodist', 'numpy', 'pandas', 'scipy', 'json', 'processes', 'files in a scratch directory']
STUBS = ["the bit generator behind numpy's global RandomState and unseeded Generators"]
TECHNIQUE = 'generated sessions with process restarts at every kind of step against a twin that never stops'
LEVEL_NOTE = 'Exploration of sampled histories; results must agree to 1e-6 relative (tables are saved to ten decimals).'
ASSUMPTIONS = ['location, daily data and observations are given to the new process again by the user']
TOL = dict(rtol=1e-6, atol=1e-6)


# ---------------------------------------------------------------- generation
def generate(r, index, tier):
    daily = gen.daily_spec(r)
    hourly = gen.hourly_spec(r, daily, r.choice(('cover', 'cover', 'year')))
    base = {'loc': gen.location(r, 0.1), 'daily': daily, 'hourly': hourly}
    year = hourly['kind'] == 'year'
    ops = []
    restarts = r.choice((1, 1, 2, 3))
    saved = False
    for k in range(restarts):
        for _ in range(r.randint(0 if k else 1, 4)):
            ops.append(change(r, daily, year))
        for _ in range(r.choice((0, 0, 1, 2))):
            ops.append(session.dis_op(r, r.choice(session.PARAMS), daily))
        if saved and r.random() < 0.3:
            while ops and ops[-1]['op'] == 'dis':  # no result of the lost part is used
                ops.pop()
            ops.append({'op': 'crash'})
        else:
            ops.append({'op': 'restart'})
            saved = True
        if r.random() < 0.3:
            ops.append({'op': 'obs', 'st': 'a', 'hourly': hourly})
            ops.append(change(r, daily, year))
    for _ in range(r.randint(2, 5)):
        op = session.dis_op(r, r.choice(session.PARAMS), daily)
        for _ in range(3):
            if not session.possible(op, []) and session.possible(op, ops):
                break
            op = session.dis_op(r, r.choice(session.PARAMS), daily)
        ops.append(op)
    if r.random() < 0.4:
        ops.append(dict(r.choice([o for o in ops if o['op'] == 'dis'])))
    return dict(base, ops=tidy(ops))


def tidy(ops):
    """No disaggregation between a save and a crash, calibrations need observations."""
    out = []
    have = True
    for o in ops:
        if o['op'] in ('restart', 'crash'):
            have = False
        if o['op'] == 'obs':
            have = True
        if o['op'] == 'calc' and not have:
            continue
        if o['op'] == 'crash':
            while out and out[-1]['op'] not in ('restart', 'crash'):
                out.pop()
        out.append(o)
    return out


def change(r, daily, year):
    k = r.random()
    if k < 0.75:
        return session.calc_op(r, r.choice(session.PARAMS), daily, 'a', year)
    if k < 0.83:
        return {'op': 'param', 'st': 'a', 'var': 'hum', 'values': {'kr': r.choice((6, 12)), 'a0': r.uniform(-3, 3), 'a1': r.uniform(0.8, 1.1)}}
    if k < 0.91:
        return {'op': 'param', 'st': 'a', 'var': 'wind',
                'values': {'a': r.uniform(0, 0.5), 'b': r.uniform(0.5, 1.5), 't_shift': r.uniform(0, 24)}}
    t = r.choice(('angstroem', 'bristcamp'))
    return {'op': 'table', 'st': 'a', 'table': t, 'month': r.randint(1, 12),
            'column': 'a' if r.random() < 0.5 else {'angstroem': 'b', 'bristcamp': 'c'}[t], 'value': r.uniform(0.1, 0.9)}


# ----------------------------------------------------------------- execution
def _start(w, plan, obs):
    session.run_op(w, {'op': 'new', 'st': 'a', 'loc': plan['loc']})
    session.run_op(w, {'op': 'set_daily', 'st': 'a', 'daily': plan['daily']})
    if obs:
        session.run_op(w, {'op': 'stats', 'st': 'a', 'hourly': plan['hourly']})


def _twin(plan):
    """One process, no files. A crash undoes what was not saved: those
    operations are left out; a restart loses the results, not the parameters."""
    enter()
    w = session.World('/nonexistent')
    _start(w, plan, True)
    keep, since = [], []
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'crash':
            since = []
            keep.append((i, op))
        elif op['op'] == 'restart':
            keep += since + [(i, op)]
            since = []
        else:
            since.append((i, op))
    keep += since
    res, params = {}, {}
    for i, op in keep:
        if op['op'] in ('restart', 'crash'):
            session.run_op(w, {'op': 'set_daily', 'st': 'a', 'daily': plan['daily']})
            params[i] = session.plain_stats(w.st['a'].statistics)
            continue
        res[i] = session.attempt(w, op)
    return res, params


def _process(plan, root, first, ops, last):
    """One process of the chain: restore, work, save."""
    enter()
    w = session.World(root)
    _start(w, plan, first)
    path = os.path.join(root, 'p.json')
    params = text = None
    if not first:
        try:
            params, text = _restore(w, path, os.path.join(root, 'q.json'))
        except Exception as e:
            return 'restoring: ' + describe(e), None, None
    res = {i: session.attempt(w, op) for i, op in ops}
    if last == 'restart':
        try:
            w.st['a'].statistics.to_json(path)
        except Exception as e:
            return 'saving: ' + describe(e), None, None
    return res, params, text


def _restore(w, path, second):
    import melodist

    with open(path) as f:
        before = json.load(f)
    s = melodist.StationStatistics.from_json(path)
    params = session.plain_stats(s)
    again = json.loads(s.to_json())
    s.to_json(second)
    s2 = melodist.StationStatistics.from_json(second)
    third = json.loads(s2.to_json())
    text = session.differ(before, again, rtol=1e-9, atol=1e-12) or session.differ(again, third, rtol=1e-12, atol=1e-12)
    w.st['a'].statistics = s
    return params, text


def execute(plan):
    out = core.Outcome(nontrivial=False)
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        want, want_params = core.isolated(_twin, plan)
        part, first, parts = [], True, []
        for i, op in enumerate(plan['ops']):
            if op['op'] in ('restart', 'crash'):
                parts.append((part, op['op'], i))
                part = []
            else:
                part.append((i, op))
        parts.append((part, 'end', None))
        after = False
        cut = None
        for ops, last, i in parts:
            res, params, text = core.isolated(_process, plan, root, first, ops, last)
            if isinstance(res, str):
                out.fail('restart-failed', res)
                return out
            if not first:
                out['interleavings'].append(core.digest(session.numbers(params)))
                d = session.differ(want_params[cut], params, **TOL)
                if d:
                    out.fail('parameters-differ', 'after the restart at step %d: %s' % (cut, d))
                elif text:
                    out.fail('save-not-stable', 'saving what was restored gives something else: %s' % text)
            for j, op in ops:
                got = res[j]
                out.log(j, brief(op), got[0], core.digest(session.numbers(got[1])) if got[0] == 'ok' else '')
                if last == 'crash' or out.failed:
                    continue
                ref = want[j]
                if got[0] != ref[0]:
                    out.fail('outcome-differs', 'step %d %s: %s restarted, %s uninterrupted' % (
                        j, brief(op), got if got[0] == 'raise' else 'ok', ref if ref[0] == 'raise' else 'ok'))
                elif got[0] == 'ok':
                    d = session.differ(ref[1], got[1], **TOL)
                    if d:
                        out.fail('result-differs', 'step %d %s: %s' % (j, brief(op), d))
                    if after and op['op'] == 'dis':
                        out.probe('result after restart: %s %s' % (op['var'], op['kw']['method']))
                        out['nontrivial'] = True
                        out['days'] += plan['daily']['days']
            if out.failed:
                return out
            if last != 'end':
                out.fault('process restart' if last == 'restart' else 'process crash')
                out.log(last)
            first, after, cut = False, True, i
            out['steps'] += len(ops)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops) - 1, -1, -1):
        smaller = tidy(ops[:i] + ops[i + 1:])
        if any(o['op'] in ('restart',) for o in smaller) and first_is_restart(smaller):
            yield dict(plan, ops=smaller)
    d = plan['daily']
    if d['nan'] or d.get('drop'):
        yield dict(plan, daily=dict(d, nan=0, drop=[]))
    if d['days'] > 1:
        yield dict(plan, daily=dict(d, days=d['days'] // 2 or 1, drop=[]))


def first_is_restart(ops):
    for o in ops:
        if o['op'] in ('restart', 'crash'):
            return o['op'] == 'restart'
    return False
