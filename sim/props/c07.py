"""C07: concurrent work on different stations, caller inputs, deep copies."""
import copy
import os
import shutil
import tempfile

from .. import core, direct, gen, points, rng, sched, session
from ..child import describe, enter
from .c08 import brief as _brief

ID = 'C07'
LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 5000}
RULE = (
    'a run is 2-3 tasks of 3-8 operations under one schedule plus one solo reference process per task '
    '(or one deep-copy / hand-over program); non-trivial = at least one switch happened inside library '
    'code, or the copied or handed-over object was not empty; distinct by event log, which contains the schedule digest'
)
STATES = 'distinct schedules (sequences of task and number of library lines run before the switch)'
REAL = ['melodist', 'numpy', 'pandas', 'scipy', 'Python threads', 'files in a scratch directory']
STUBS = ["thread scheduling (at lines of melodist code)", "the bit generator behind numpy's global RandomState"]
TECHNIQUE = 'seeded thread schedules at line granularity against solo executions in fresh processes'
LEVEL_NOTE = (
    'Switches happen at lines of melodist code, not inside numpy, pandas or scipy. Sampled schedules, '
    'from rare switches to one every few lines.'
)
ASSUMPTIONS = [
    'each thread uses its own random stream',
    'shared objects are only read by the threads: the same tables, series, dictionaries and parameter '
    'objects may be passed to calls in several threads',
    'results agree to 1e-9 relative',
]
RTOL = 1e-9


# ---------------------------------------------------------------- generation
def generate(r, index, tier):
    mode = r.choice(('tasks', 'tasks', 'tasks', 'tasks', 'copy', 'handover'))
    daily = gen.daily_spec(r, days=r.choice((2, 3, 4, 6)), nan=r.choice((0, 0, 0.1)))
    daily['drop'] = []
    hourly = gen.hourly_spec(r, daily, r.choice(('cover', 'cover', 'year')))
    if hourly['kind'] == 'year':
        hourly['per_month'] = 2
    loc = gen.location(r, 0.05)
    if mode != 'tasks':
        return {'mode': mode, 'ops': program(r, daily, hourly, loc, r.randint(6, 10), fn=0),
                'more': [change(r, daily, loc) for _ in range(r.randint(2, 5))],
                'which': r.choice(('copy', 'original')), 'what': r.choice(('station', 'station', 'statistics')),
                'seed': r.getrandbits(32)}
    n = r.choice((2, 2, 2, 3))
    same = r.random() < 0.6
    shared = same and r.random() < 0.35
    tasks = []
    for t in range(n):
        if t and not same:
            daily = gen.daily_spec(r, days=daily['days'] if r.random() < 0.5 else None, nan=0)
            daily['days'] = min(daily['days'], 6)
            daily['drop'] = []
            hourly = gen.hourly_spec(r, daily, 'cover')
            loc = gen.location(r, 0.05) if r.random() < 0.6 else loc
        tasks.append(program(r, daily, hourly, loc, r.randint(3, 8), 0.15 if shared else 0.45, shared))
    if same and r.random() < 0.4:  # the same program twice, different random numbers
        twin = copy.deepcopy(tasks[0])
        for o in twin:
            if 'draws' in o:
                o['draws'] = {'kind': 'uniform', 'seed': r.getrandbits(32)}
        tasks[1] = twin
    return {'mode': mode, 'tasks': tasks, 'seed': r.getrandbits(32),
            'p': r.choice(('burst', 'burst', 0.0005, 0.002, 0.01, 0.05, 0.05, 0.2, 0.5)), 'segments': None,
            'shared_stats': shared}


def program(r, daily, hourly, loc, length, fn, shared=False):
    ops = [{'op': 'new', 'st': 'a', 'loc': loc}, {'op': 'set_daily', 'st': 'a', 'daily': daily},
           {'op': 'stats', 'st': 'a', 'hourly': hourly}]
    if fn and not shared and r.random() < 0.3:
        ops = []
        fn = 1
    elif not shared:
        for v in r.sample(session.PARAMS, r.choice((0, 1, 2, 2, 3))):
            ops.append(session.calc_op(r, v, daily, 'a', False))
            if r.random() < 0.7:
                ops.append(calibrated(r, v, daily))
    pre = len(ops)
    while len(ops) < pre + length:
        if r.random() < fn:
            ops.append(direct.call_spec(r, daily, hourly, loc))
        else:
            ops.append(change(r, daily, loc, None if shared else ops))
    for o in ops:
        if 'draws' in o and o['draws']['kind'] == 'points':
            o['draws'] = {'kind': 'uniform', 'seed': o['draws']['seed']}
    return ops


def calibrated(r, var, daily):
    """A disaggregation that uses calibrated parameters, if there is one."""
    for _ in range(6):
        op = session.dis_op(r, var, daily, 'a')
        if not session.possible(op, []):
            break
    return op


def change(r, daily, loc, ops=()):
    if ops is None:
        return session.dis_op(r, r.choice(session.PARAMS), daily, 'a')
    k = r.choice(('calc', 'calc', 'dis', 'dis', 'dis', 'dis', 'set_loc', 'set_daily', 'param', 'interp'))
    if k == 'calc':
        return session.calc_op(r, r.choice(session.PARAMS), daily, 'a', False)
    if k == 'dis':
        for _ in range(4):
            op = session.dis_op(r, r.choice(session.PARAMS), daily, 'a')
            if session.possible(op, list(ops)):
                break
        return op
    if k == 'set_loc':
        return {'op': 'set_loc', 'st': 'a', 'loc': gen.location(r, 0.05)}
    if k == 'set_daily':
        return {'op': 'set_daily', 'st': 'a', 'daily': dict(daily, seed=r.getrandbits(32))}
    if k == 'param':
        return {'op': 'param', 'st': 'a', 'var': 'hum', 'values': {'kr': r.choice((6, 12))}}
    return {'op': 'interp', 'st': 'a', 'columns': {'T7': 7, 'T14': 14}}


# ----------------------------------------------------------------- execution
def named(df):
    df.index.name = 'time'
    df.columns.name = 'variable'
    return df


class SharedWorld(session.World):
    """Tasks asking for the same input get the very same object."""

    def __init__(self, root, store):
        super().__init__(root)
        self.store = store

    def daily(self, spec):
        return self._get('d' + core.digest(spec), lambda: named(gen.daily_frame(spec)))

    def hourly(self, spec):
        return self._get('h' + core.digest(spec), lambda: named(gen.hourly_frame(spec)))

    def memo(self, name, op, make):
        key = name + core.digest([op['daily'], op['hourly'], op['loc'], op['seed'] % 5, op['stats']])
        return self._get(key, make)

    def _get(self, key, make):
        if key not in self.store:
            value = make()
            # made before the threads start; a key asked for the first time later is private
            self.store[key] = (value, direct.fingerprint(value))
        return self.store[key][0]

    def damage(self):
        for key in sorted(self.store):
            value, fp = self.store[key]
            d = direct.changed(fp, direct.fingerprint(value))
            if d:
                return '%s %s' % (type(value).__name__, d)
        return ''


def step(w, op, strict):
    """Run one operation; also tell whether it changed anything it was given."""
    if op['op'] != 'fn':
        return session.attempt(w, op, rng.use_thread), ''
    try:
        f, args, kw = direct.prepare(w, op)
    except Exception as e:
        return ('raise', 'preparing: ' + describe(e)), ''
    before = direct.fingerprint([list(args), kw]) if strict else None
    rng.use_thread(op['draws'])
    try:
        res = 'ok', direct.as_plain(f(*args, **kw))
    except Exception as e:
        res = 'raise', describe(e)
    hurt = ''
    if strict:
        d = direct.changed(before, direct.fingerprint([list(args), kw]))
        if d:
            hurt = '%s changed its argument%s' % (op['name'], d)
    return res, hurt


def _warm(w, ops):
    """Make the shared inputs before the threads start."""
    for op in ops:
        if isinstance(op.get('daily'), dict):
            w.daily(op['daily'])
        if isinstance(op.get('hourly'), dict):
            w.hourly(op['hourly'])
        if 'master' in op:
            w.hourly(op['master'])
        if op['op'] == 'fn':
            try:
                direct.prepare(w, op)
            except Exception:
                pass


def _common_stats(plan, w):
    """One calibrated parameter object that every task attaches to its station."""
    import melodist

    new = next(o for o in plan['tasks'][0] if o['op'] == 'new')
    st = next(o for o in plan['tasks'][0] if o['op'] == 'stats')
    s = melodist.StationStatistics(data=w.hourly(st['hourly']), lon=new['loc']['lon'], lat=new['loc']['lat'],
                                   timezone=new['loc']['tz'])
    for f in ('wind', 'humidity', 'temperature', 'radiation', 'precipitation'):
        try:
            getattr(s, 'calc_%s_stats' % f)()
        except Exception:
            pass
    return s


def _task_ops(plan, t):
    ops = plan['tasks'][t]
    if shares(plan):  # a shared parameter object is only read
        ops = [dict(o, op='use_shared') if o['op'] == 'stats' else o for o in ops
               if o['op'] not in ('calc', 'param', 'set_loc', 'obs')]
    return ops


def shares(plan):
    return plan['shared_stats'] and all(any(o['op'] == 'stats' for o in t) for t in plan['tasks'])


def _run_ops(w, ops, common, strict):
    res, hurt = [], ''
    for i, op in enumerate(ops):
        if op['op'] == 'use_shared':
            w.st['a'].statistics = common
            res.append(('ok', None))
            continue
        r, h = step(w, op, strict)
        res.append(r)
        hurt = hurt or (h and 'op %d: %s' % (i, h))
    return res, hurt


def _solo(plan, t, root):
    enter()
    w = SharedWorld(root, {})
    ops = _task_ops(plan, t)
    _warm(w, ops)
    common = _common_stats(plan, w) if shares(plan) else None
    before = direct.fingerprint(common) if common is not None else None
    res, hurt = _run_ops(w, ops, common, True)
    if common is not None and not hurt:
        d = direct.changed(before, direct.fingerprint(common))
        hurt = d and 'shared parameter object changed' + d
    return res, hurt or w.damage()


def _together(plan, root):
    enter()
    store = {}
    n = len(plan['tasks'])
    ops = [_task_ops(plan, t) for t in range(n)]
    worlds = [SharedWorld(os.path.join(root, str(t)), store) for t in range(n)]
    for w, o in zip(worlds, ops):
        os.makedirs(w.root)
        _warm(w, o)
    common = _common_stats(plan, worlds[0]) if shares(plan) else None
    before = direct.fingerprint(common) if common is not None else None
    s = sched.Scheduler(plan['seed'], plan['p'], plan.get('segments'))
    points.install(on_line=s.point)
    try:
        res = s.run([lambda t=t: _run_ops(worlds[t], ops[t], common, False)[0] for t in range(n)])
    finally:
        points.uninstall()
    hurt = worlds[0].damage()
    if common is not None and not hurt:
        d = direct.changed(before, direct.fingerprint(common))
        hurt = d and 'shared parameter object changed' + d
    return res, hurt, s.trace, s.points, s.switches


def brief(op):
    if op['op'] == 'fn':
        return 'fn/' + op['name']
    return _brief(op)


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        if plan['mode'] == 'tasks':
            _execute_tasks(plan, out, root)
        else:
            _execute_copy(plan, out, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def _execute_tasks(plan, out, root):
    refs = []
    for t in range(len(plan['tasks'])):
        ref_root = os.path.join(root, 'solo%d' % t)
        os.makedirs(ref_root)
        res, hurt = core.isolated(_solo, plan, t, ref_root)
        refs.append(res)
        if hurt:
            out.fail('caller-data-changed', hurt)
            return
    both = os.path.join(root, 'both')
    os.makedirs(both)
    res, hurt, trace, npoints, switches = core.isolated(_together, plan, both)
    out['steps'] = npoints
    out.fault('thread switch', switches)
    out.probe('shared parameter object', shares(plan))
    out['interleavings'].append(core.digest(trace))
    out.log('schedule', core.digest(trace), npoints, switches)
    if plan.get('segments') is None:
        out['plan_patch'] = {'segments': trace}
    for t in range(len(plan['tasks'])):
        ops = _task_ops(plan, t)
        if isinstance(res[t], tuple) and res[t][0] == 'died':
            out.fail('task-died', res[t][1])
            return
        for i, op in enumerate(ops):
            got, want = res[t][i], refs[t][i]
            out.log(t, brief(op), got[0], core.digest(session.numbers(got[1])) if got[0] == 'ok' else '')
            if isinstance(op.get('daily'), dict):
                out['days'] += op['daily']['days']
            if got[0] != want[0]:
                out.fail('concurrent-outcome', 'task %d op %d %s: %s together, %s alone' % (
                    t, i, brief(op), got if got[0] == 'raise' else 'ok', want if want[0] == 'raise' else 'ok'))
            elif got[0] == 'ok':
                d = session.differ(want[1], got[1], rtol=RTOL)
                if d:
                    out.fail('concurrent-result', 'task %d op %d %s: %s' % (t, i, brief(op), d))
            if out.failed:
                return
    if hurt:
        out.fail('caller-data-changed', hurt)


# ------------------------------------------------ copies and handed-over data
def _copy(plan, root):
    enter()
    w = session.World(root)
    for op in plan['ops']:
        session.attempt(w, op)
    w.st.setdefault('a', None)
    s = w.st['a']
    if s is None:
        return 'empty', '', []
    states = []
    if plan['mode'] == 'handover':
        return _handover(plan, w, s)
    if plan['what'] == 'statistics':
        st = s.statistics
        twin = copy.deepcopy(st)
        d = session.differ(session.plain_stats(st, True), session.plain_stats(twin, True), rtol=0, atol=0)
        if d:
            return 'copy', 'a deep copy of the parameters differs' + d, states
        keep, touch = (st, twin) if plan['which'] == 'copy' else (twin, st)
        before = session.plain_stats(keep, True)
        s.statistics = touch
        scribble_stats(touch)
        for op in plan['more']:
            session.attempt(w, op)
        after = session.plain_stats(keep, True)
        d = session.differ(before, after, rtol=0, atol=0)
        return ('copy', 'changing the %s changed the other%s' % (plan['which'], d), states) if d else ('ok', '', states)
    twin = copy.deepcopy(s)
    d = session.differ(session.snapshot(s), session.snapshot(twin), rtol=0, atol=0)
    if d:
        return 'copy', 'a deep copy of the station differs' + d, states
    keep, touch = (s, twin) if plan['which'] == 'copy' else (twin, s)
    before = session.snapshot(keep)
    w.st['a'] = touch
    for op in plan['more']:
        session.attempt(w, op)
        states.append(core.digest(session.numbers(session.snapshot(touch))))
    for f in (touch.data_daily, touch.data_disagg):
        if f is not None:
            f.iloc[:, :] = 999.0
    scribble_stats(touch.statistics)
    d = session.differ(before, session.snapshot(keep), rtol=0, atol=0)
    return ('copy', 'changing the %s changed the other%s' % (plan['which'], d), states) if d else ('ok', '', states)


def scribble_stats(st):
    """Overwrite everything inside a parameter object in place."""
    import numpy as np
    import pandas as pd

    def spoil(x):
        if isinstance(x, (pd.DataFrame, pd.Series)):
            if len(x):
                x.iloc[:] = -7.0
        elif isinstance(x, np.ndarray):
            x[...] = 7
        elif isinstance(x, dict):
            for k in list(x):
                spoil(x[k])
                x[k] = -7.0
        elif isinstance(x, list):
            for v in x:
                spoil(v)
            x.append(-7)
        elif hasattr(x, '__dict__'):
            for k, v in list(vars(x).items()):
                spoil(v)

    for v in session.PARAMS:
        spoil(getattr(st, v))
    if st.data is not None:
        st.data.iloc[:, :] = -7.0


def _handover(plan, w, s):
    """What the caller later does with its own table does not reach the station."""
    import melodist

    daily = next((o['daily'] for o in plan['ops'] if o['op'] == 'set_daily'), None)
    hourly = next((o['hourly'] for o in plan['ops'] if o['op'] == 'stats'), None)
    if daily is None or hourly is None:
        return 'empty', '', []
    mine, obs = gen.daily_frame(daily), gen.hourly_frame(hourly)
    s.data_daily = mine
    s.statistics = melodist.StationStatistics(data=obs)
    before = session.snapshot(s)
    fp = direct.fingerprint([mine, obs])
    for f in (s.data_daily, s.statistics.data):
        f.iloc[:, :] = 300.0
    d = direct.changed(fp, direct.fingerprint([mine, obs]))
    if d:
        return 'handover', "changing the station's data changed the caller's table" + d, []
    s.data_daily = mine
    s.statistics.data = obs
    mine.iloc[:, :] = 999.0
    obs.iloc[:, :] = 999.0
    mine['extra'] = 1.0
    d = session.differ(before, session.snapshot(s), rtol=0, atol=0)
    if d:
        return 'handover', "changing the caller's table changed the station" + d, []
    return 'ok', '', []


def _execute_copy(plan, out, root):
    kind, detail, states = core.isolated(_copy, plan, root)
    out['interleavings'] = states
    out['steps'] = len(plan['ops']) + len(plan['more'])
    out['nontrivial'] = kind != 'empty'
    out.probe(plan['mode'] if plan['mode'] == 'handover' else 'copy of ' + plan['what'], kind != 'empty')
    out.log(plan['mode'], plan['which'], plan['what'], kind, core.digest(states), core.digest([brief(o) for o in plan['ops'] + plan['more']]))
    if detail:
        out.fail('not-independent', detail)


# ------------------------------------------------------------------ shrinking
def shrink(plan):
    if plan['mode'] != 'tasks':
        for key in ('more', 'ops'):
            for i in range(len(plan[key]) - 1, -1, -1):
                if plan[key][i]['op'] != 'new':
                    yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
        return
    tasks = plan['tasks']
    if len(tasks) > 2:
        for t in range(len(tasks)):
            yield dict(plan, tasks=tasks[:t] + tasks[t + 1:], segments=None)
    if plan['shared_stats']:
        yield dict(plan, shared_stats=False)
    if plan.get('segments') is None:
        for t in range(len(tasks)):
            for i in range(len(tasks[t]) - 1, -1, -1):
                smaller = tasks[t][:i] + tasks[t][i + 1:]
                if tasks[t][i]['op'] != 'new' or not any('st' in o for o in smaller):
                    yield dict(plan, tasks=tasks[:t] + [smaller] + tasks[t + 1:])
        # make the schedule explicit, then simplify it
        out = execute(plan)
        patch = out['plan_patch']
        if patch:
            yield dict(plan, **patch)
        return
    seg = plan['segments']
    n = len(seg)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(plan, segments=seg[:i] + seg[i + size:])
        size //= 2
