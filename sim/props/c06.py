"""C06: a failed or interrupted operation leaves no partial effect."""
import os
import shutil
import tempfile

from .. import core, gen, points, session
from ..child import describe, enter
from .c08 import brief

ID = 'C06'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 5000}
RULE = (
    'a run is a session prefix, one operation and one or two injected failures of a call the library makes '
    'during it, or up to eight interrupts before a line of it (sites are chosen uniformly among the '
    'distinct ones reached, then an occurrence; interrupts also among the last twelve lines executed); '
    'non-trivial = the failure fired; distinct by event log'
)
STATES = 'distinct (operation, call site or line, exception) triples at which a failure fired'
REAL = ['melodist', 'numpy', 'pandas', 'scipy', 'files in a scratch directory']
STUBS = [
    "the bit generator behind numpy's global RandomState",
    'outgoing calls of melodist code: the chosen one raises instead of being made',
    'keyboard interrupts: raised before the chosen line of melodist code',
]
TECHNIQUE = 'failure injected into the k-th call the library makes or before its k-th line, state compared with before/after'
LEVEL_NOTE = (
    'Samples call sites and lines over operations and histories. Interrupts inside a line or inside '
    'NumPy, pandas and SciPy are not modelled.'
)
ASSUMPTIONS = ['interrupts arrive between lines or in calls, not between two parts of one line']

EXC = {
    'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
    'RuntimeError': RuntimeError, 'ValueError': ValueError,
}


def generate(r, index, tier):
    ops = session.history(
        r, r.randint(6, 10), weights={'save': 0, 'load': 0, 'bad': 0, 'interp': 0, 'stats': 0.2, 'calc': 5},
        days=r.choice((1, 2, 4, 9)),
    )
    daily = next(o['daily'] for o in reversed(ops) if o['op'] == 'set_daily')
    year = [o for o in ops if o['op'] in ('stats', 'obs')][-1]['hourly']['kind'] == 'year'
    k = index % 13
    if k < 5:
        target = session.calc_op(r, session.PARAMS[k], daily, year=year)
    elif k < 10:
        target = session.dis_op(r, session.PARAMS[k - 5], daily)
    elif k == 10:
        target = {'op': 'set_daily', 'st': 'a', 'daily': gen.daily_spec(r)}
    elif k == 11:
        target = {'op': 'obs', 'st': 'a', 'hourly': gen.hourly_spec(r, daily, 'cover')}
    else:
        ops.append({'op': 'save', 'st': 'a', 'file': 'p.json'})
        if r.random() < 0.6:
            ops.append(session.calc_op(r, r.choice(('wind', 'temp', 'hum')), daily, year=year))
        target = {'op': 'load', 'st': 'a', 'file': 'p.json'}
    if r.random() < 0.3:
        ops += session.history(r, 5, st='b')[:5]
    follow = [session.dis_op(r, r.choice(session.PARAMS), daily)]
    return {
        'prefix': ops, 'op': target, 'follow': follow,
        'site': r.random(), 'occurrence': r.choice((0.0, 0.0, 0.999, r.random())),
        'exc': r.choice(sorted(EXC)), 'second': r.random() < 0.25,
        'at': 'call' if index // 13 % 3 else 'line', 'last': r.sample(range(1, 13), 6),
    }


def injector(plan):
    if plan['at'] == 'line':
        f = points.LineFault()
        f.exc = KeyboardInterrupt('injected')
        return f, {'on_line': f}
    f = points.CallFault()
    f.exc = EXC[plan['exc']]('injected')
    return f, {'on_call': f}


def _play(plan, root, nth):
    """nth is None: undisturbed reference. Otherwise the nth calls are failed."""
    enter()
    w = session.World(root)
    for op in plan['prefix']:
        session.attempt(w, op)

    def state():
        return {n: session.snapshot(s) for n, s in w.st.items()}

    res = {'before': state()}
    if nth is None:
        f, hook = injector(plan)
        f.record = True
        points.install(**hook)
        try:
            res['op'] = session.attempt(w, plan['op'])
        finally:
            points.uninstall()
        res['sites'] = f.sites
    else:
        res['faults'] = []
        for k in nth:
            f, hook = injector(plan)
            f.nth = k
            points.install(**hook)
            try:
                r = ('ok', session.run_op(w, plan['op']))
            except BaseException as e:
                r = ('raise', describe(e))
            finally:
                points.uninstall()
            res['faults'].append((f.fired, r, state()))
        res['op'] = session.attempt(w, plan['op'])
    res['after'] = state()
    res['follow'] = [session.attempt(w, op) for op in plan['follow']]
    return res


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        ra, rb = os.path.join(root, 'ref'), os.path.join(root, 'sub')
        os.mkdir(ra)
        os.mkdir(rb)
        ref = core.isolated(_play, plan, ra, None)
        sites = ref['sites']
        out.log(brief(plan['op']), ref['op'][0], len(sites), len(set(sites)))
        out['steps'] = len(sites)
        if ref['op'][0] == 'raise':
            out.probe('operation not possible in this state')
            d = session.differ(ref['before'], ref['after'], 0, 0)
            if d:
                out.fail('partial-effect', '%s raised %s but changed %s' % (brief(plan['op']), ref['op'][1], d))
            return out
        if not sites:
            return out
        if 'nth' in plan:  # explicit choice in a minimised replay
            nth = plan['nth']
        else:
            distinct = sorted(set(sites))
            chosen = [distinct[int(plan['site'] * len(distinct))]]
            if plan['second']:
                chosen.append(distinct[int(plan['site'] * 7919 % 1 * len(distinct))])
            nth = []
            for c in chosen:
                where = [i for i, s in enumerate(sites) if s == c]
                nth.append(where[int(plan['occurrence'] * len(where))])
            if plan['at'] == 'line':
                # results are stored at the end of an operation
                nth += [len(sites) - k for k in plan['last'] if k <= len(sites)]
        out['plan_patch'] = {'nth': nth}
        sub = core.isolated(_play, plan, rb, nth)
        for k, (fired, r, st) in zip(nth, sub['faults']):
            exc = plan['exc'] if plan['at'] == 'call' else 'interrupt between lines'
            out.log('fault', k, exc, fired, r[0])
            if fired is None:
                out.probe('fault not reached')
                continue
            out.fault(exc)
            out['interleavings'].append(core.digest([brief(plan['op']), sites[k] if k < len(sites) else k, exc]))
            if r[0] == 'ok':
                d = session.differ(ref['after'], st)
                if d:
                    out.fail('success-without-effect', '%s returned normally after %s failed, but %s' % (
                        brief(plan['op']), fired, d))
            else:
                d1 = session.differ(ref['before'], st, 0, 0)
                d2 = session.differ(ref['after'], st) if d1 else ''
                if d1 and d2:
                    out.fail('partial-effect', '%s failed at %s %d (%s): neither old (%s) nor new (%s)' % (
                        brief(plan['op']), plan['at'], k, fired, d1, d2))
            if out.failed:
                return out
        if sub['op'][0] != 'ok':
            out.fail('no-retry', '%s after a failure: %s' % (brief(plan['op']), sub['op'][1]))
            return out
        d = session.differ(ref['op'][1], sub['op'][1]) or session.differ(ref['after'], sub['after'])
        if d:
            out.fail('retry-differs', '%s: %s' % (brief(plan['op']), d))
            return out
        for op, a, b in zip(plan['follow'], ref['follow'], sub['follow']):
            if a[0] != b[0] or (a[0] == 'ok' and session.differ(a[1], b[1])):
                out.fail('later-result-differs', '%s after %s: %s' % (
                    brief(op), brief(plan['op']), session.differ(a[1], b[1]) if a[0] == b[0] else (a[0], b[0])))
    except core.Hang:
        raise
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def shrink(plan):
    p = plan['prefix']
    nth = plan.get('nth')
    if nth is None:
        patch = execute(plan)['plan_patch']
        if patch:
            yield dict(plan, **patch)
    elif len(nth) > 1:
        for k in nth:
            yield dict(plan, nth=[k])
    if plan['second']:
        yield dict(plan, second=False)
    if plan['follow']:
        yield dict(plan, follow=[])
    for i in range(len(p) - 1, -1, -1):
        if p[i]['op'] != 'new' or p[i]['st'] != 'a':
            yield dict(plan, prefix=p[:i] + p[i + 1:])
