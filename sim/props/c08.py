"""C08: results depend only on current inputs, never on the session history."""
import os
import shutil
import tempfile

from .. import core, gen, session
from ..child import enter

ID = 'C08'
LEVEL = 'exploration'
RUNS = {'quick': 640, 'thorough': 5200}
RULE = (
    'a run is one session of up to 16 operations on one or two stations plus one fresh-process '
    'reference per examined result; non-trivial = the examined result was preceded by at least one '
    'operation it must not depend on; distinct by event log'
)
STATES = 'digests of station states after each operation'
REAL = ['melodist', 'numpy', 'pandas', 'scipy', 'files in a scratch directory']
STUBS = ["the bit generator behind numpy's global RandomState and unseeded Generators"]
TECHNIQUE = 'generated session histories against a fresh-process replay of the operations they depend on'
LEVEL_NOTE = (
    'Exploration of sampled histories. The data-flow table in sim/session.py (effects) is the '
    'specification; failed operations are taken to have no effect.'
)
ASSUMPTIONS = [
    'a parameter object is attached to one station at a time',
    'results agree to 1e-9 relative',
]


def generate(r, index, tier):
    ops = session.history(r, r.randint(8, 16))
    if r.random() < 0.3:
        other = session.history(r, r.randint(5, 9), st='b', files=('r.json',))
        ops = interleave(r, ops, other)
    if r.random() < 0.5:  # the same call again, at once or later
        dis = [i for i, o in enumerate(ops) if o['op'] in ('dis', 'calc')]
        if dis:
            i = r.choice(dis)
            j = r.randint(i + 1, len(ops))
            ops = ops[:j] + [dict(ops[i])] + ops[j:]
    plan = {'ops': ops, 'check': [r.random() for _ in range(3)]}
    if r.random() < 0.7:
        plan['ops'] = ops + motif(r, ops)
        plan['check'] = [0.9999] + plan['check']  # the last result is always examined
    return plan


def motif(r, ops):
    """Two similar results with one change of the inputs between them."""
    daily = next(o['daily'] for o in reversed(ops) if o['op'] == 'set_daily' and o['st'] == 'a')
    kind = r.choice(('recalibrate', 'recalibrate', 'move', 'move', 'data', 'data', 'switch'))
    year = gen.hourly_spec(r, daily, 'year')
    cover = gen.hourly_spec(r, daily, 'cover')
    part = dict(gen.hourly_spec(r, daily, 'part'), start='2013-%02d-05' % r.randint(1, 12), days=r.choice((15, 40)))
    if kind == 'recalibrate':
        var = r.choice(session.PARAMS)
        first, second = r.sample([year, cover, part], 2)
        out = [{'op': 'obs', 'st': 'a', 'hourly': first},
               session.calc_op(r, var, daily, year=first is year),
               {'op': 'obs', 'st': 'a', 'hourly': second},
               session.calc_op(r, var, daily, year=second is year)]
        if r.random() < 0.4 and second is not part:
            out.append(session.dis_op(r, var, daily))
        return out
    var = r.choice(session.PARAMS)
    if kind == 'move' and r.random() < 0.8:
        var = r.choice(('temp', 'glob'))
    op = session.dis_op(r, var, daily)
    out = [{'op': 'obs', 'st': 'a', 'hourly': r.choice((year, cover))}, session.calc_op(r, var, daily, year=False)]
    if var == 'hum':
        out.append(session.dis_op(r, 'temp', daily))
    out.append(op)
    if kind == 'move':
        old = [o['loc'] for o in ops if o['st'] == 'a' and 'loc' in o][-1]
        new = gen.location(r)
        part = r.choice((('lon',), ('lat',), ('tz',), ('lon', 'lat', 'tz')))
        out.append({'op': 'set_loc', 'st': 'a', 'loc': dict(old, **{k: new[k] for k in part}), 'order': list(part)})
        if var == 'temp' and r.random() < 0.4:
            out.append(session.calc_op(r, var, daily, year=False))
    elif kind == 'data':
        other = gen.daily_spec(r)
        new = dict(other, start=daily['start'], days=daily['days'], drop=daily['drop'])
        if r.random() < 0.4 and 'master' not in op:  # as many days, at another time
            new['start'] = gen.start_date(r)
            out[0]['hourly'] = year
        out.append({'op': 'set_daily', 'st': 'a', 'daily': new})
        if var == 'hum':
            out.append(session.dis_op(r, 'temp', daily))
    else:
        out += [session.dis_op(r, r.choice(session.PARAMS), daily) for _ in range(2)]
    return out + [dict(op, draws=gen.draw_spec(r)) if r.random() < 0.3 else dict(op)]


def interleave(r, a, b):
    out = []
    a, b = list(a), list(b)
    while a or b:
        src = a if (a and (not b or r.random() < len(a) / (len(a) + len(b)))) else b
        out.append(src.pop(0))
    return out


ALLOWED = {  # operation -> parts of the state it may change
    'set_daily': ('daily', 'hourly', 'sun'),
    'set_loc': ('loc', 'sun', 'stats.coord'),
    'stats': ('stats',), 'load': ('stats',), 'obs': ('stats.obs',), 'save': (), 'bad': (), 'interp': (),
}


def frame_violation(op, before, after):
    """Which part of the state changed although the operation must not touch it."""
    k = op['op']
    if k == 'calc':
        allowed = ('stats.' + op['var'],)
    elif k == 'param':
        allowed = ('stats.' + op['var'],)
    elif k == 'dis':
        allowed = ('hourly.' + op['var'], 'sun')
    else:
        allowed = ALLOWED[k]

    def walk(a, b, path):
        if path in allowed:
            return ''
        if any(x.startswith(path + '.') for x in allowed) and a is not None and b is not None:
            if path == 'hourly':
                a = {c: a[c] for c in a.columns} | {'#index': list(a.index)}
                b = {c: b[c] for c in b.columns} | {'#index': list(b.index)}
            if set(a) != set(b):
                return '%s: parts %s vs %s' % (path, list(a), list(b))
            for k2 in a:
                d = walk(a[k2], b[k2], '%s.%s' % (path, k2))
                if d:
                    return d
            return ''
        return session.differ(a, b, rtol=0, atol=0, path=path)

    for part in before:
        if part == 'sun' and before['sun'] is None:
            continue
        d = walk(before[part], after[part], part)
        if d:
            return d
    return ''


def _session(ops, root, frames):
    enter()
    w = session.World(root)
    results, states, problem = [], [], None
    for i, op in enumerate(ops):
        before = {n: session.snapshot(s) for n, s in w.st.items()} if frames else None
        res = session.attempt(w, op)
        results.append(res)
        if frames:
            for n, s in w.st.items():
                after = session.snapshot(s)
                states.append(core.digest(session.numbers(after)))
                if n not in before or problem:
                    continue
                # a failed or foreign operation must not change this station at all
                o = op if n == op['st'] and res[0] == 'ok' else {'op': 'save'}
                d = frame_violation(o, before[n], after)
                if d:
                    problem = 'op %d %s (%s) changed %s' % (i, brief(op), res[0], d)
    return results, states, problem


def brief(op):
    kw = op.get('kw') or {}
    parts = [op['op'], op['st'], op.get('var', ''), kw.get('method', op.get('kind', ''))]
    return '/'.join(str(p) for p in parts if p)


def execute(plan):
    out = core.Outcome(nontrivial=False)
    ops = plan['ops']
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        results, states, problem = core.isolated(_session, ops, os.path.join(root), True)
        out['interleavings'] = states
        for op, res in zip(ops, results):
            out.log(brief(op), res[0], core.digest(session.numbers(res[1])) if res[0] == 'ok' else res[1])
            if op['op'] == 'bad' and res[0] == 'ok':
                pass
            out.probe('failed operation', res[0] == 'raise')
            out.probe(op['op'])
            if op['op'] == 'set_daily':
                out['days'] += op['daily']['days']
        out['steps'] = len(ops)
        if problem:
            out.fail('side-effect', problem)
            return out
        status = [x[0] for x in results]
        cand = [i for i, o in enumerate(ops) if o['op'] in ('dis', 'calc', 'interp', 'load')]
        for u in plan['check']:
            if not cand:
                break
            i = cand.pop(int(u * len(cand)))
            mine = [j for j in range(i + 1) if ops[j]['st'] == ops[i]['st']]
            sub = [ops[j] for j in mine]
            st = [status[j] for j in mine]
            keep = session.dependency_slice(sub, st, len(sub) - 1)
            out.probe('irrelevant earlier operation', i + 1 - len(keep))
            out['nontrivial'] = out['nontrivial'] or len(keep) < i + 1
            ref_root = tempfile.mkdtemp(prefix='ref-', dir=root)
            ref, _, _ = core.isolated(_session, [sub[j] for j in keep], ref_root, False)
            got, want = results[i], ref[-1]
            if got[0] != want[0]:
                out.fail('history-outcome', 'op %d %s: %s in the session, %s fresh' % (
                    i, brief(ops[i]), got if got[0] == 'raise' else 'ok', want if want[0] == 'raise' else 'ok'))
            elif got[0] == 'ok':
                d = session.differ(got[1], want[1])
                if d:
                    out.fail('history-result', 'op %d %s: %s' % (i, brief(ops[i]), d))
            if out.failed:
                out['plan_patch'] = {'op': i}
                return out
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def shrink(plan):
    ops = plan['ops']
    n = len(ops)
    if len(plan['check']) < 30:
        yield dict(plan, check=[0.0] * 30)  # examine everything while shrinking
    if n > 6:
        for i in range(0, n, 3):
            yield dict(plan, ops=[o for j, o in enumerate(ops) if not (i <= j < i + 3 and o['op'] != 'new')])
    for i in range(n - 1, -1, -1):
        if ops[i]['op'] != 'new' or not any(o['st'] == ops[i]['st'] for o in ops[i + 1:]):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        d = o.get('daily')
        if isinstance(d, dict):
            if d['nan'] or d.get('drop'):
                yield dict(plan, ops=ops[:i] + [dict(o, daily=dict(d, nan=0, drop=[]))] + ops[i + 1:])
            if d['days'] > 2:
                yield dict(plan, ops=ops[:i] + [dict(o, daily=dict(d, days=d['days'] // 2, drop=[]))] + ops[i + 1:])
