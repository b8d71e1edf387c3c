"""C10: SMET exports are complete when acknowledged, never misread after a crash."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import core, fs, gen
from ..child import describe, enter

ID = 'C10'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 10000, 'thorough': 80000}
RULE = (
    'a run is one export (sometimes over an older one) with one disk fault plan, then an import by a fresh '
    'process; non-trivial = a fault fired; distinct by event log (fault, position, what export and import did)'
)
STATES = 'distinct byte contents of the file the import was confronted with'
REAL = ['melodist', 'numpy', 'pandas', 'Python buffered and text I/O', 'files in a scratch directory']
STUBS = ['raw file transfers, open, rename, fsync (faults and crash points)']
TECHNIQUE = 'fault injection at every byte and operation of the export, crash simulation'
LEVEL_NOTE = (
    'Crash positions are sampled over all bytes, header bytes, the header/data boundary and the end favoured. '
    'thorough reaches most positions of small files. A crash leaves a prefix of what was written so far.'
)
ASSUMPTIONS = [
    'values are finite or missing and not equal to the missing-value code',
    'metadata keys and values are single-line strings or numbers, keys without "="',
    'a crash leaves the old file or a prefix of the new one',
]

COLUMNS = {'d': ('tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind', 'ssd'),
           'h': ('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')}
META = (('station_id', 'ID 4711'), ('station_name', 'Obergurgl'), ('latitude', 46.87), ('longitude', 11.03),
        ('altitude', 1938), ('nodata', -999), ('tz', 1), ('source', 'http://x.org/?a=b'), ('comment', ''),
        ('acquisition', 'x y  z'))


def frame_spec(r):
    mode = r.choice('dh')
    cols = r.sample(COLUMNS[mode], r.randint(1, len(COLUMNS[mode])))
    return {'mode': mode, 'cols': cols, 'rows': r.choice((1, 1, 2, 3, 5, 24, 60)), 'start': gen.start_date(r),
            'seed': r.getrandbits(32), 'nan': r.choice((0, 0, 0.2, 0.7)), 'gap': r.random() < 0.2,
            'nodata': r.choice((-999, -999, -999, -9999, -777.5)), 'empty': r.random() < 0.15, 'check_nan': r.random() < 0.7,
            'meta': r.sample(range(len(META)), r.randint(0, len(META)))}


def make(spec):
    """(data, metadata) to export."""
    g = gen.np_rng('smet', spec['seed'])
    n = spec['rows']
    idx = pd.date_range(spec['start'], periods=n * (2 if spec['gap'] else 1), freq='D' if spec['mode'] == 'd' else 'h')
    if spec['gap']:
        idx = pd.DatetimeIndex(idx[np.sort(g.choice(2 * n, n, replace=False))])
    scale = {'precip': 20.0, 'wind': 9.0, 'hum': 100.0, 'glob': 900.0, 'ssd': 60.0}
    data = {}
    for c in spec['cols']:
        v = 250 + 50 * g.random(n) if c[0] == 't' else scale[c] * g.random(n)
        if c == 'precip':
            v = np.where(g.random(n) < 0.5, 0.0, v)
        if g.random() < 0.1:
            v = -v
        if g.random() < 0.1:
            v = np.round(v)
        v = np.where(g.random(n) < spec['nan'], np.nan, v)
        data[c] = v
    df = pd.DataFrame(index=idx, data=data)
    if spec['empty']:
        df[spec['cols'][0]] = np.nan
    return df, {META[i][0]: META[i][1] for i in spec['meta']}


def expected(spec):
    df, meta = make(spec)
    if spec['check_nan']:
        df = df[[c for c in df.columns if df[c].notna().any()]]
    if spec['nodata'] != -999:
        meta.pop('nodata', None)  # describes the file, not the data
    return {'columns': list(df.columns), 'index': [str(t) for t in df.index], 'values': df.to_numpy(),
            'meta': {k: str(v).strip() for k, v in meta.items()}}


def generate(r, index, tier):
    kind = r.choice(('none', 'none', 'crash_write', 'crash_write', 'crash_write', 'crash_write', 'crash_event', 'enospc',
                     'eio_write', 'eio_close', 'open', 'cut', 'cut', 'cut'))
    return {
        'new': frame_spec(r), 'old': frame_spec(r) if r.random() < 0.4 else None, 'kind': kind,
        'where': r.choice(('header', 'header', 'boundary', 'data', 'data', 'last', 'line')),
        'u': r.random(), 'back': r.randint(0, 12), 'event': r.choice((0, 0, 1, 2)),
        'buffer': r.choice((16, 100, 512, 8192, 8192)), 'seed': r.getrandbits(32),
        'rates': {'short_write': r.choice((0, 0.3, 0.9)), 'eintr_write': r.choice((0, 0.2)),
                  'short_read': r.choice((0, 0.3)), 'eintr_read': r.choice((0, 0.2))},
    }


def _export(root, spec):
    import melodist

    df, meta = make(spec)
    melodist.write_smet(os.path.join(root, 'x.smet'), df, meta, nodata_value=spec['nodata'], mode=spec['mode'],
                        check_nan=spec['check_nan'])


def _clean(root, spec):
    enter()
    try:
        _export(root, spec)
    except Exception as e:
        return 'raise', describe(e)
    with open(os.path.join(root, 'x.smet'), 'rb') as f:
        return 'ok', f.read()


def _write(root, plan, disk_plan):
    enter()
    if plan['old'] is not None:
        _export(root, plan['old'])
    disk = fs.Disk(root, disk_plan)
    fs.install(disk)
    try:
        _export(root, plan['new'])
        seen = ('ok', '')
    except fs.SimCrash:
        seen = ('crash', '')
    except Exception as e:
        seen = ('raise', describe(e))
    if disk.frozen:
        seen = ('crash', '')
    fs.detach()
    content = None
    if os.path.exists(os.path.join(root, 'x.smet')):
        with open(os.path.join(root, 'x.smet'), 'rb') as f:
            content = f.read()
    return seen, dict(disk.fired), disk.written, content


def stamp(x):
    try:
        return str(pd.Timestamp(x))
    except (ValueError, TypeError):
        return '?' + str(x)


def _read(root, mode, disk_plan):
    enter()
    import melodist

    disk = fs.Disk(root, disk_plan)
    fs.install(disk)
    try:
        header, df = melodist.read_smet(os.path.join(root, 'x.smet'), mode)
        res = ('ok', {'columns': [str(c) for c in df.columns], 'index': [stamp(t) for t in df.index],
                      'dates': isinstance(df.index, pd.DatetimeIndex),
                      'values': [[_num(v) for v in row] for row in df.to_numpy().tolist()],
                      'meta': {str(k): str(v) for k, v in header.items()}})
    except Exception as e:
        res = ('raise', describe(e))
    fs.detach()
    return res, dict(disk.fired)


def _num(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return repr(v)


def differs(want, got, torn):
    """'' if what was read is the export (or, torn, a leading part of it)."""
    n = len(got['index'])
    if n > len(want['index']):
        return '%d records read, %d exported' % (n, len(want['index']))
    if torn and n == 0:
        return ''
    if not torn and n != len(want['index']):
        return '%d records read, %d exported' % (n, len(want['index']))
    if got['columns'] != want['columns']:
        return 'columns %s read, %s exported' % (got['columns'], want['columns'])
    for k, v in want['meta'].items():
        if got['meta'].get(k) != v:
            return 'metadata %s: %r read, %r exported' % (k, got['meta'].get(k), v)
    if not torn and not got['dates']:
        return 'timestamps are not dates'
    last = n - 1 if torn else n
    for i in range(last):
        if got['index'][i] != want['index'][i]:
            return 'record %d has time %s, exported %s' % (i, got['index'][i], want['index'][i])
        for c, a, b in zip(want['columns'], want['values'][i], got['values'][i]):
            if isinstance(b, str) or (np.isnan(a) != np.isnan(b)) or abs(a - b) > 0.00501:
                return 'record %d %s: %r read, %r exported' % (i, c, b, float(a))
    return ''


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    ref_root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        want = expected(plan['new'])
        state, ref = core.isolated(_clean, ref_root, plan['new'])
        if state == 'raise':
            out.fail('export-raised', ref)
            return out
        size = len(ref)
        head = max(ref.find(b'[DATA]'), 0)
        u, back = plan['u'], plan['back']
        at = {'header': int(u * head), 'boundary': head - 4 + back, 'data': head + int(u * (size - head)),
              'last': size - 1 - back, 'line': ref.rfind(b'\n', 0, int(u * size) + 1) - 1 + back % 4}[plan['where']]
        at = min(max(at, 0), size - 1)
        kind = plan['kind']
        faults = []
        if kind in ('crash_write', 'enospc', 'eio_write'):
            faults = [{'kind': kind, 'at': at}]
        elif kind == 'crash_event':
            faults = [{'kind': kind, 'at': plan['event']}]
        elif kind == 'eio_close':
            faults = [{'kind': kind}]
        elif kind == 'open':
            faults = [{'kind': 'open', 'at': 0, 'errno': ('EMFILE', 'EACCES', 'EROFS')[plan['seed'] % 3]}]
        rates = {k: v for k, v in plan['rates'].items() if v}
        seen, fired, written, content = core.isolated(
            _write, root, plan, {'seed': plan['seed'], 'buffer': plan['buffer'], 'rates': rates, 'faults': faults})
        for k, n in fired.items():
            out.fault(k, n)
        out['steps'] = written
        where = at if any(k in fired for k in ('crash_write', 'enospc', 'eio_write')) else ''
        hard = [k for k in fired if k.split('_')[0] in ('enospc', 'eio', 'open')]
        if hard and seen[0] == 'ok':
            out.fail('failed-export-not-reported', '%s at byte %d of %d: export returned normally' % (hard, at, size))
        if seen[0] == 'raise' and not hard:
            out.fail('export-raised', seen[1])
        torn = seen[0] != 'ok'
        if kind == 'cut' and seen[0] == 'ok':
            with open(os.path.join(root, 'x.smet'), 'wb') as f:
                f.write(content[:at])
            content, torn = content[:at], True
            where = at
            out.fault('truncated file')
        read_rates = {k: v for k, v in rates.items() if 'read' in k}
        mode = plan['new']['mode']
        old_intact = False
        if plan['old'] is not None and torn:
            s2, old = core.isolated(_clean, ref_root, plan['old'])
            old_intact = s2 == 'ok' and old == content
        if old_intact:
            mode, want, torn = plan['old']['mode'], expected(plan['old']), False
        res, fired = core.isolated(_read, root, mode, {'seed': plan['seed'] + 1, 'buffer': plan['buffer'], 'rates': read_rates})
        for k, n in fired.items():
            out.fault(k, n)
        out['interleavings'].append(core.digest(repr(content)))
        out['days'] = plan['new']['rows'] if mode == 'd' else plan['new']['rows'] // 24
        n = len(res[1]['index']) if res[0] == 'ok' else -1
        out.log(sorted(out['faults']), where, size, seen[0], res[0], n, torn)
        out.probe('leading part read', torn and n > 0)
        out.probe('torn file refused', torn and res[0] == 'raise' and bool(content))
        out.probe('previous export kept', old_intact)
        if out.failed:
            return out
        if not torn:
            if res[0] == 'raise':
                out.fail('acknowledged-export-unreadable', res[1])
            elif differs(want, res[1], False):
                out.fail('acknowledged-export-differs', differs(want, res[1], False))
        elif res[0] == 'ok':
            d = differs(want, res[1], True)
            if d:
                out.fail('torn-export-misread', '%d of %d bytes: %s' % (len(content), size, d))
    finally:
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(ref_root, ignore_errors=True)
    return out


def shrink(plan):
    if plan['old'] is not None:
        yield dict(plan, old=None)
    if any(plan['rates'].values()):
        yield dict(plan, rates={k: 0 for k in plan['rates']})
    new = plan['new']
    for key, values in (('rows', [n for n in (1, 2, 5) if n < new['rows']]), ('nan', [0] if new['nan'] else []),
                        ('nodata', [-999] if new['nodata'] != -999 else []), ('gap', [False] if new['gap'] else []), ('empty', [False] if new['empty'] else [])):
        for v in values:
            yield dict(plan, new=dict(new, **{key: v}))
    for key in ('meta', 'cols'):
        if len(new[key]) > (key == 'cols'):
            for i in range(len(new[key])):
                yield dict(plan, new=dict(new, **{key: new[key][:i] + new[key][i + 1:]}))
    if plan['buffer'] != 8192:
        yield dict(plan, buffer=8192)
