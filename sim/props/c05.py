"""C05: damaged parameter files are never accepted, failed saves are reported."""
import os
import shutil
import tempfile

from .. import core, fs, gen, points, sched, session
from ..child import describe, enter

ID = 'C05'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 2000, 'thorough': 12000}
RULE = (
    'a run is one or two saves to one file with one disk fault plan, or savers and loaders of one file as '
    'threads under one schedule, then a load by a fresh process; '
    'non-trivial = a fault fired; distinct by event log (fault, position, outcome of save and load)'
)
STATES = 'distinct byte contents of the file the loader was confronted with, and distinct schedules'
REAL = ['melodist', 'numpy', 'pandas', 'json', 'Python buffered and text I/O', 'files in a scratch directory']
STUBS = ['raw file transfers, open, rename, fsync (faults and crash points)', 'page cache loss at power failure']
TECHNIQUE = 'fault injection at every byte and operation of the save, crash and power-loss simulation'
LEVEL_NOTE = (
    'Crash positions are sampled over all bytes of the file, with the last bytes and buffer boundaries '
    'favoured; thorough covers most positions of small files. The load after a crash is fault-free.'
)
ASSUMPTIONS = ['a crash leaves a prefix of the new data, the old data, or zero-filled pages in the file']

LOSS = ('keep', 'old', 'empty', 'prefix', 'zeros')


def param_history(r):
    """Operations that give a station with some calibrated parameters."""
    daily = gen.daily_spec(r, nan=0)
    hourly = gen.hourly_spec(r, daily, r.choice(('cover', 'year')))
    if hourly['kind'] == 'year':
        hourly['per_month'] = 2
    ops = [{'op': 'new', 'st': 'a', 'loc': gen.location(r, 0)}, {'op': 'stats', 'st': 'a', 'hourly': hourly}]
    some = r.sample(('wind', 'hum', 'temp', 'glob', 'precip'), r.randint(0, 5))
    for v in some:
        ops.append(session.calc_op(r, v, daily, year=hourly['kind'] == 'year'))
        if v == 'glob':
            ops[-1].pop('daily', None)
            ops[-1]['kw'] = {}
    return ops


def user_set(r):
    """Parameters set by hand; their files all have the same layout."""
    def v():
        return float('%d.%03d5' % (r.randint(10, 99), r.randint(0, 999)))
    return [{'op': 'new', 'st': 'a', 'loc': {'lon': 0.0, 'lat': 40.0, 'tz': 0}},
            {'op': 'param', 'st': 'a', 'var': 'wind', 'values': {'a': v(), 'b': v(), 't_shift': v()}},
            {'op': 'param', 'st': 'a', 'var': 'hum', 'values': {'a0': v(), 'a1': v(), 'kr': r.choice((10, 12))}}]


def generate(r, index, tier):
    kind = r.choice(('none', 'crash_write', 'crash_write', 'crash_write', 'crash_event', 'enospc', 'eio_write',
                     'eio_close', 'open', 'power', 'power', 'unserialisable', 'cut', 'cut', 'reread', 'concurrent', 'concurrent', 'concurrent'))
    a, b = param_history(r), param_history(r)
    if r.random() < (0.75 if kind == 'concurrent' else 0.4):  # two calibrations of the same kind: files that look alike
        b = [dict(o, hourly=dict(o['hourly'], seed=r.getrandbits(32))) if o['op'] == 'stats' else o for o in a]
    if kind == 'concurrent' and r.random() < 0.6:
        a, b = user_set(r), user_set(r)
    return {
        'a': a, 'b': b, 'old': r.random() < 0.7, 'kind': kind,
        'at': r.choice((r.random(), r.random(), 1 - 10 ** r.uniform(-4, -1), 10 ** r.uniform(-4, -1), 'last', 'first', 'block')),
        'back': r.randint(1, 6),
        'event': r.choice((0, 0, 1, 2, 3)),
        'buffer': r.choice((16, 100, 512, 8192, 8192, 65536)),
        'rates': {'short_write': r.choice((0, 0.3, 0.9)), 'eintr_write': r.choice((0, 0.2)),
                  'short_read': r.choice((0, 0.3, 0.9)), 'eintr_read': r.choice((0, 0.2))},
        'loss': r.choice(LOSS), 'seed': r.getrandbits(32), 'bad': r.choice(('object', 'set', 'complex')),
        'retry': r.random() < 0.4,
        'tasks': r.choice((['save b', 'load'], ['save b', 'load'], ['save b', 'save a'], ['save b', 'save a', 'load'])),
        'rounds': r.randint(2, 8), 'p': r.choice(('burst', 'burst', 0.02, 0.1, 0.3)), 'segments': None,
    }


def _stats(ops):
    w = session.World('/nonexistent')
    for op in ops:
        session.attempt(w, op)
    return w.st['a'].statistics


def _prepare(plan):
    """Reference contents: size of the save, parameters before and after."""
    enter()
    a = _stats(plan['a'])
    b = _stats(plan['b'])
    return session.plain_stats(a), session.plain_stats(b), len(b.to_json().encode())


def _save(plan, root, disk_plan, spoil):
    """The process that saves; returns what the user saw."""
    enter()
    path = os.path.join(root, 'p.json')
    a = _stats(plan['a'])
    b = _stats(plan['b'])
    if plan['old']:
        a.to_json(path)
    if spoil:
        b.wind.a = {'object': object(), 'set': {1, 2}, 'complex': 1j}[plan['bad']]
    disk = fs.Disk(root, disk_plan)
    fs.install(disk)
    try:
        b.to_json(path)
        seen = ('ok', '')
    except fs.SimCrash:
        seen = ('crash', '')
    except Exception as e:
        seen = ('raise', describe(e))
    if disk.frozen:
        seen = ('crash', '')
    retry = None
    if seen[0] == 'raise' and plan['retry'] and not spoil:
        fs.install(fs.Disk(root, {'buffer': plan['buffer']}))
        try:
            b.to_json(path)
            retry = 'ok'
        except Exception as e:
            retry = describe(e)
    fs.detach()
    if plan['kind'] == 'power' and seen[0] != 'raise':
        import random

        seen = ('power', fs.power_loss(disk, path, plan['loss'], random.Random(plan['seed'])))
    content = None
    if os.path.exists(path):
        with open(path, 'rb') as f:
            content = f.read()
    return seen, retry, dict(disk.fired), disk.written, content


def _load(root, disk_plan):
    enter()
    import melodist

    disk = fs.Disk(root, disk_plan)
    fs.install(disk)
    try:
        s = melodist.StationStatistics.from_json(os.path.join(root, 'p.json'))
        return 'ok', session.plain_stats(s), dict(disk.fired)
    except fs.SimCrash:
        raise
    except Exception as e:
        return 'raise', describe(e), dict(disk.fired)
    finally:
        fs.detach()


def _concurrent(plan, root, disk_plan):
    """Savers and loaders of one file as threads, switched at lines and I/O calls."""
    enter()
    import melodist

    path = os.path.join(root, 'p.json')
    sets = {'a': _stats(plan['a']), 'b': _stats(plan['b'])}
    if plan['old']:
        sets['a'].to_json(path)
    disk = fs.Disk(root, disk_plan)
    s = sched.Scheduler(plan['seed'], plan['p'], plan.get('segments'))
    disk.on_io = s.point

    def save(name):
        seen = []
        for _ in range(plan['rounds']):
            try:
                sets[name].to_json(path)
                seen.append(('saved', name))
            except Exception as e:
                seen.append(('raise', describe(e)))
        return seen

    def load():
        seen = []
        for _ in range(2 * plan['rounds']):
            try:
                seen.append(('loaded', session.plain_stats(melodist.StationStatistics.from_json(path))))
            except Exception as e:
                seen.append(('refused', describe(e)))
        return seen

    fs.install(disk)
    points.install(on_line=s.point)
    try:
        res = s.run([(lambda t=t: save(t[-1]) if t != 'load' else load()) for t in plan['tasks']])
    finally:
        points.uninstall()
        fs.detach()
    with open(path, 'rb') as f:
        content = f.read()
    return res, s.trace, s.switches, dict(disk.fired), content


def _execute_concurrent(plan, root, a, b, out):
    rates = {k: v for k, v in plan['rates'].items() if v}
    res, trace, switches, fired, content = core.isolated(
        _concurrent, plan, root, {'seed': plan['seed'], 'buffer': plan['buffer'], 'rates': rates})
    for k, n in fired.items():
        out.fault(k, n)
    out.fault('thread switch', switches)
    out['steps'] = sum(n for _, n in trace)
    if plan.get('segments') is None:
        out['plan_patch'] = {'segments': trace}
    savers = [t[-1] for t in plan['tasks'] if t != 'load']
    saved = [('new', b)] + ([('old', a)] if plan['old'] or 'a' in savers else [])
    for t, seen in zip(plan['tasks'], res):
        if isinstance(seen, tuple):
            out.fail('task-died', seen[1])
            return
        for kind, what in seen:
            name = which(what, saved) if kind == 'loaded' else None
            out.log(t, kind, name)
            if kind == 'raise':
                out.fail('save-raised', what)
            if kind == 'loaded' and name is None:
                out.fail('damaged-file-accepted', 'loading during a save gives something never saved: %s' % (
                    session.differ(b, what, rtol=1e-6, atol=1e-8)))
            out.probe('loaded during a save', kind == 'loaded')
            out.probe('loader refused a half-written file', kind == 'refused')
    out['interleavings'].append(core.digest(trace))
    res = core.isolated(_load, root, {})
    name = which(res[1], saved) if res[0] == 'ok' else None
    out.log('finally', res[0], name)
    if res[0] == 'ok' and name is None and not out.failed:
        out.fail('damaged-file-accepted', 'after concurrent saves loading gives something never saved: %s' % (
            session.differ(b, res[1], rtol=1e-6, atol=1e-8)))
    if len(savers) == 1 and name != 'new' and not out.failed:
        out.fail('acknowledged-save-lost', 'after all saves returned loading gives %s' % (name or res[1]))


def which(loaded, sets):
    for name, s in sets:
        if not session.differ(s, loaded, rtol=1e-6, atol=1e-8):
            return name
    return None


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        a, b, size = core.isolated(_prepare, plan)
        if plan['kind'] == 'concurrent':
            _execute_concurrent(plan, root, a, b, out)
            return out
        at = plan['at']
        if at == 'last':
            at = size - plan['back']
        elif at == 'first':
            at = plan['back'] - 1
        elif at == 'block':
            at = max(0, (size // plan['buffer']) * plan['buffer'] - plan['back'] + 3)
        else:
            at = int(at * size)
        at = min(max(at, 0), size - 1)
        kind = plan['kind']
        faults = []
        if kind in ('crash_write', 'enospc', 'eio_write'):
            faults = [{'kind': kind, 'at': at}]
        elif kind == 'crash_event':
            faults = [{'kind': 'crash_event', 'at': plan['event']}]
        elif kind == 'eio_close':
            faults = [{'kind': 'eio_close'}]
        elif kind == 'open':
            faults = [{'kind': 'open', 'at': 0, 'errno': ('EMFILE', 'EACCES', 'EROFS')[plan['seed'] % 3]}]
        rates = {k: v for k, v in plan['rates'].items() if v}
        seen, retry, fired, written, content = core.isolated(
            _save, plan, root, {'seed': plan['seed'], 'buffer': plan['buffer'], 'rates': rates, 'faults': faults},
            kind == 'unserialisable',
        )
        for k, n in fired.items():
            out.fault(k, n)
        out['steps'] = written
        sets = [('new', b)] + ([('old', a)] if plan['old'] else [])
        if kind == 'power':
            out.fault('power_loss:' + seen[1])
        if kind == 'cut' and seen[0] == 'ok':
            # the file system gave back part of an acknowledged file
            with open(os.path.join(root, 'p.json'), 'wb') as f:
                f.write(content[:at])
            content = content[:at]
            out.fault('truncated file')
        if seen[0] == 'ok' and any(k in fired for k in ('enospc', 'eio_write', 'eio_close', 'open_EMFILE', 'open_EACCES', 'open_EROFS')):
            out.fail('failed-save-not-reported', '%s at byte %d of %d: save returned normally' % (kind, at, size))
        if seen[0] == 'raise' and not any(f.split('_')[0] in ('enospc', 'eio', 'open') for f in fired) and kind != 'unserialisable':
            out.fail('save-raised', seen[1])
        if kind == 'unserialisable':
            if seen[0] != 'raise':
                out.fail('unserialisable-accepted', seen)
            elif plan['old'] != (content is not None) or (plan['old'] and which_file(root, a) is None):
                out.fail('old-file-touched', 'saving unserialisable parameters changed the existing file')
            out.fault('unserialisable')
        load_rates = {'short_read': plan['rates']['short_read'], 'eintr_read': plan['rates']['eintr_read']}
        res = core.isolated(_load, root, {'seed': plan['seed'] + 1, 'buffer': plan['buffer'], 'rates': load_rates})
        for k, n in res[2].items():
            out.fault(k, n)
        name = which(res[1], sets) if res[0] == 'ok' else None
        where = at if kind == 'cut' or any(k in fired for k in ('crash_write', 'enospc', 'eio_write')) else ''
        out.log(sorted(out['faults']), where, size, seen[0], retry, res[0], name)
        out['interleavings'].append(core.digest([len(content) if content is not None else -1, core.digest(repr(content))]))
        if res[0] == 'ok' and name is None:
            d = session.differ(b, res[1], rtol=1e-6, atol=1e-8)
            out.fail('damaged-file-accepted', '%s, file of %s bytes (complete: %d) loads as something never saved: %s' % (
                kind, len(content), size, d))
        if seen[0] == 'ok' and kind not in ('cut',) and not out.failed:
            if res[0] != 'ok':
                out.fail('acknowledged-save-lost', res[1])
            elif name != 'new':
                out.fail('acknowledged-save-lost', 'loading gives the %s parameters' % name)
        if retry is not None and not out.failed:
            out.probe('retried save')
            if retry != 'ok':
                out.fail('no-retry', retry)
            elif name != 'new':
                out.fail('acknowledged-save-lost', 'after a retried save loading gives %s' % (name or res[1]))
        out.probe('loader refused a damaged file', res[0] == 'raise' and bool(content))
        out.probe('file absent or empty', not content)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def which_file(root, a):
    res = core.isolated(_load, root, {})
    return which(res[1], [('old', a)]) if res[0] == 'ok' else None


def shrink(plan):
    if plan['kind'] == 'concurrent':
        if len(plan['tasks']) > 2:
            for t in range(3):
                yield dict(plan, tasks=plan['tasks'][:t] + plan['tasks'][t + 1:], segments=None)
        if plan['rounds'] > 1:
            yield dict(plan, rounds=1, segments=None)
        if plan.get('segments'):
            seg = plan['segments']
            size = len(seg) // 2
            while size >= 1:
                for i in range(0, len(seg), size):
                    yield dict(plan, segments=seg[:i] + seg[i + size:])
                size //= 2
    for key in ('a', 'b'):
        for i in range(len(plan[key]) - 1, 1, -1):
            yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
    if any(plan['rates'].values()):
        yield dict(plan, rates={k: 0 for k in plan['rates']})
    if plan['buffer'] != 8192:
        yield dict(plan, buffer=8192)
    if plan['old']:
        yield dict(plan, old=False)
    if plan['retry']:
        yield dict(plan, retry=False)
    if plan['kind'] == 'concurrent' and plan.get('segments') is None:
        patch = execute(plan)['plan_patch']
        if patch:
            yield dict(plan, **patch)
