"""C09: readers deliver the complete files or raise, whatever the I/O does."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import core, fs, gen, session
from ..child import describe, enter

ID = 'C09'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 7000, 'thorough': 60000}
RULE = (
    'a run is one import of one generated SMET, DWD or KNMI data set under one disk plan; non-trivial = '
    'transfers were disturbed, the listing was permuted or an operation failed; distinct by event log'
)
STATES = 'distinct sequences of disk operations seen by the reader, with the fault that met them'
REAL = ['melodist', 'numpy', 'pandas', 'Python buffered and text I/O', 'files in a scratch directory']
STUBS = ['raw file transfers, open, directory listing']
TECHNIQUE = 'fault injection at every read position, open and listing of the import'
LEVEL_NOTE = 'Read positions are sampled over all bytes the undisturbed reader requests, including repeated passes.'
ASSUMPTIONS = [
    'files follow the formats of the providers: SMET 1.1, DWD CDC semicolon tables, KNMI hourly tables with 31 header lines',
    'the files of one KNMI directory cover different hours',
]


# ---------------------------------------------------------------- generation
def generate(r, index, tier):
    fmt = r.choice(('smet', 'dwd_d', 'dwd_h', 'knmi', 'knmi', 'knmi1'))
    kind = r.choice(('benign', 'benign', 'eio_read', 'eio_read', 'open', 'list', 'vanish'))
    if kind in ('list', 'vanish') and fmt != 'knmi':
        kind = r.choice(('benign', 'eio_read', 'open'))
    return {
        'fmt': fmt, 'kind': kind, 'seed': r.getrandbits(32), 'files': r.randint(1, 4), 'rows': r.choice((1, 2, 5, 30, 120)),
        'nan': r.choice((0, 0.1, 0.5)), 'start': gen.start_date(r), 'u': r.random(), 'sticky': r.random() < 0.5,
        'end': r.random() < 0.3, 'nth': r.choice((0, 0, 1, 1, 2, 3, 4)), 'errno': r.choice(('EMFILE', 'EACCES', 'ENOENT', 'EIO')),
        'after': r.choice((0, 0, 1, 2)), 'listing': r.getrandbits(16) if r.random() < 0.8 else None,
        'pad': r.random() < 0.6, 'skip_last': r.random() < 0.7,
        'buffer': r.choice((16, 100, 512, 8192, 8192)), 'extra': r.random() < 0.4,
        'rates': {'short_read': r.choice((0, 0.3, 0.9)), 'eintr_read': r.choice((0, 0.2))},
    }


def _fmt(v, pad, digits=1):
    s = '-999' if np.isnan(v) else ('%%.%df' % digits) % v
    return s.rjust(9) if pad else s


def build(plan, root):
    """Write the files; returns the records a faithful reader delivers."""
    g = gen.np_rng('io', plan['seed'])
    n, pad = plan['rows'], plan['pad']
    start = pd.Timestamp(plan['start'])

    def column(lo, hi, digits, m):
        v = np.round(g.uniform(lo, hi, m), digits)
        return np.where(g.random(m) < plan['nan'], np.nan, v)

    fmt = plan['fmt']
    if fmt == 'smet':
        names = [('TA', 'temp', 250, 310), ('PSUM', 'precip', 0, 20), ('RH', 'hum', 5, 99), ('VW', 'wind', 0, 15)]
        names = [names[i] for i in sorted(g.choice(4, g.integers(1, 5), replace=False))]
        mult = [float(g.choice((1.0, 0.1, 100.0))) for _ in names]
        idx = pd.date_range(start, periods=n, freq='h')
        data = {a: column(lo, hi, 2, n) for a, _, lo, hi in names}
        with open(os.path.join(root, 'x.smet'), 'w') as f:
            f.write('SMET 1.1 ASCII\n[HEADER]\nstation_id = x\nlatitude = 47.1\n')
            f.write('fields = timestamp %s\nunits_multiplier = 1 %s\n[DATA]\n' % (
                ' '.join(data), ' '.join('%g' % m for m in mult)))
            for i, t in enumerate(idx):
                f.write(t.strftime('%Y-%m-%dT%H:%M') + ' ' + ' '.join(_fmt(data[c][i], pad, 2) for c in data) + '\n')
        want = pd.DataFrame(index=idx, data={b: data[a] * m for (a, b, _, _), m in zip(names, mult)})
        return {'df': want, 'header': {'station_id': 'x', 'latitude': '47.1'}}
    if fmt in ('dwd_d', 'dwd_h'):
        with open(os.path.join(root, 'meta.txt'), 'w') as f:
            f.write('Stations_id;Stationshoehe;Geogr.Breite;Geogr.Laenge;von_datum;bis_datum;Stationsname\n')
            lines = int(g.integers(1, 4))
            for k in range(lines):
                lat, lon = round(47 + float(g.random()) * 7, 4), round(6 + float(g.random()) * 8, 4)
                f.write('%d;316;%s;%s;19510101;20151231;Erfurt%d\n' % (1270 + k, lat, lon, k))
        header = {'Stations_id': 1269 + lines, 'Stationsname': 'Erfurt%d' % (lines - 1), 'Breite': lat, 'Laenge': lon}
        daily = fmt == 'dwd_d'
        groups = [[('LUFTTEMPERATUR', 'tmean', -20, 35, 273.15), ('LUFTTEMPERATUR_MINIMUM', 'tmin', -25, 20, 273.15),
                   ('LUFTTEMPERATUR_MAXIMUM', 'tmax', -15, 40, 273.15), ('NIEDERSCHLAGSHOEHE', 'precip', 0, 30, 0),
                   ('REL_FEUCHTE', 'hum', 5, 99, 0), ('WINDGESCHWINDIGKEIT', 'wind', 0, 12, 0),
                   ('SONNENSCHEINDAUER', 'sun_h', 0, 12, 0)]] if daily else [
            [('NIEDERSCHLAGSHOEHE', 'precip', 0, 9, 0)],
            [('LUFTTEMPERATUR', 'tmean', -20, 35, 273.15), ('REL_FEUCHTE', 'hum', 5, 99, 0)],
            [('WINDGESCHWINDIGKEIT', 'wind', 0, 12, 0)]][:min(plan['files'], 3)]
        want = None
        for k, cols in enumerate(groups):
            # the files of one station need not cover the same time
            m = n if k == 0 else max(1, n + int(g.integers(-2, 3)))
            first = start if k == 0 else start + pd.Timedelta(hours=int(g.integers(-2, 3)))
            idx = pd.date_range(first, periods=m, freq='D' if daily else 'h')
            data = [column(lo, hi, 1, m) for _, _, lo, hi, _ in cols]
            with open(os.path.join(root, 'dwd%d.txt' % k), 'w') as f:
                f.write('STATIONS_ID; MESS_DATUM;QUALITAETS_NIVEAU;%s;eor\n' % ';'.join(
                    (' ' if pad else '') + c[0] for c in cols))
                for i, t in enumerate(idx):
                    f.write('       1270;%s;   10;%s;eor\n' % (
                        t.strftime('%Y%m%d' if daily else '%Y%m%d%H'), ';'.join(_fmt(v[i], pad) for v in data)))
                if plan['skip_last']:
                    f.write('\x1a\n')
            df = pd.DataFrame(index=idx, data={c[1]: v + c[4] for c, v in zip(cols, data)})
            want = df if want is None else want.join(df, how='outer')
        return {'df': want, 'header': header}
    parts = []
    count = plan['files'] if fmt == 'knmi' else 1
    os.makedirs(os.path.join(root, 'knmi'))
    begin = start
    for k in range(count):
        m = max(1, n // count)
        idx = pd.date_range(begin, periods=m * 24 if m < 4 else m, freq='h') + pd.Timedelta(hours=1)
        begin = (idx[-1] + pd.Timedelta(days=int(g.integers(1, 3)))).normalize()
        m = len(idx)
        raw = {'FH': column(0, 150, 0, m), 'T': column(-150, 300, 0, m), 'SQ': column(0, 10, 0, m), 'Q': column(0, 300, 0, m),
               'RH': column(-1, 90, 0, m), 'U': column(20, 100, 0, m)}
        with open(os.path.join(root, 'knmi', 'uurgeg_350_%d.txt' % (2001 + k)), 'w') as f:
            for i in range(31):
                f.write('KNMI header line %d, with commas, T, RH\n' % i)
            f.write('# STN,YYYYMMDD,   HH,%s\n\n' % ','.join(c.rjust(5) for c in raw))
            for i, t in enumerate(idx):
                h = t.hour or 24
                d = t - pd.Timedelta(hours=h)
                f.write('  350,%s,%5d,%s\n' % (d.strftime('%Y%m%d'), h, ','.join(
                    '     ' if np.isnan(raw[c][i]) else '%5d' % raw[c][i] for c in raw)))
        p = raw['RH'] / 10
        parts.append(pd.DataFrame(index=idx, data=dict(
            temp=raw['T'] / 10 + 273.15, precip=np.where(p < 0, 0.0, p), glob=raw['Q'] * 10000 / 3600.0,
            hum=raw['U'], wind=raw['FH'] / 10, ssd=raw['SQ'] * 6)))
    if plan['extra']:
        with open(os.path.join(root, 'knmi', 'readme.csv'), 'w') as f:
            f.write('not data\n')
    return {'df': pd.concat(parts), 'header': None}


# ----------------------------------------------------------------- execution
def _import(plan, root):
    import melodist

    fmt = plan['fmt']
    if fmt == 'smet':
        return melodist.read_smet(os.path.join(root, 'x.smet'), 'h')
    if fmt in ('dwd_d', 'dwd_h'):
        files = [os.path.join(root, f) for f in ('dwd0.txt', 'dwd1.txt', 'dwd2.txt') if os.path.exists(os.path.join(root, f))]
        return melodist.read_dwd(files[0] if fmt == 'dwd_d' else files, os.path.join(root, 'meta.txt'),
                                 fmt[-1], plan['skip_last'])
    if fmt == 'knmi':
        return None, melodist.data_io.read_knmi_dataset(os.path.join(root, 'knmi') + os.sep)
    return None, melodist.data_io.read_single_knmi_file(os.path.join(root, 'knmi', 'uurgeg_350_2001.txt'))


def _read(plan, root, disk_plan):
    enter()
    disk = fs.Disk(root, disk_plan)
    fs.install(disk)
    try:
        header, df = _import(plan, root)
        res = 'ok', {'header': {k: str(v) for k, v in header.items()} if header is not None else None, 'df': df}
    except fs.SimCrash:
        raise
    except Exception as e:
        res = 'raise', describe(e)
    fs.detach()
    return res, dict(disk.fired), disk.read, disk.opens, disk.log


def differs(want, got):
    if want['header'] is not None:
        for k, v in want['header'].items():
            if got['header'].get(k) != str(v):
                return 'header %s: %r read, %r in the file' % (k, got['header'].get(k), v)
    a, b = want['df'], got['df']
    if not isinstance(b.index, pd.DatetimeIndex):
        return 'index is %s' % type(b.index).__name__
    if len(a) != len(b):
        return '%d records read, %d in the files' % (len(b), len(a))
    if set(a.columns) != set(b.columns):
        return 'columns %s read, %s in the files' % (sorted(b.columns), sorted(a.columns))
    if not (a.index == b.index).all():
        i = int(np.argmin(a.index == b.index))
        return 'record %d has time %s, %s in the files' % (i, b.index[i], a.index[i])
    for c in a.columns:
        d = session.differ(a[c].to_numpy(float), b[c].to_numpy(float), path=c)
        if d:
            return d
    return ''


def execute(plan):
    out = core.Outcome()
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        want = build(plan, root)
        kind = plan['kind']
        disk_plan = {'seed': plan['seed'], 'buffer': plan['buffer'], 'listing': plan['listing'],
                     'rates': {k: v for k, v in plan['rates'].items() if v}, 'faults': []}
        total = opens = None
        if kind in ('eio_read', 'open'):
            clean, _, total, opens, _ = core.isolated(_read, plan, root, {'buffer': plan['buffer']})
            if kind == 'eio_read':
                at = int(plan['u'] * total) if not plan['end'] else max(0, total - 1 - int(plan['u'] * 20))
                disk_plan['faults'] = [{'kind': 'eio_read', 'at': at, 'sticky': plan['sticky']}]
            else:
                disk_plan['faults'] = [{'kind': 'open', 'at': plan['nth'] % max(opens, 1), 'errno': plan['errno']}]
        elif kind == 'list':
            disk_plan['faults'] = [{'kind': 'list', 'errno': ('EACCES', 'EIO')[plan['seed'] % 2], 'after': plan['after']}]
        elif kind == 'vanish':
            disk_plan['vanish'] = os.path.join('knmi', 'uurgeg_350_%d.txt' % (2001 + plan['seed'] % plan['files']))
        res, fired, _, _, log = core.isolated(_read, plan, root, disk_plan)
        for k, n in fired.items():
            out.fault(k, n)
        hard = [k for k in fired if k.split('_')[0] in ('eio', 'open', 'list', 'file')]
        out['steps'] = len(log)
        out['days'] = len(want['df']) // (1 if plan['fmt'] == 'dwd_d' else 24)
        out.log(plan['fmt'], sorted(fired), res[0], len(want['df']), core.digest([log, fired]))
        out['interleavings'].append(core.digest([log, fired]))
        if hard:
            # a reader may retry, but it must not deliver less
            if res[0] == 'ok' and differs(want, res[1]):
                out.fail('incomplete-data-returned', '%s %s: %s' % (plan['fmt'], hard, differs(want, res[1])))
            out.probe('reader raised', res[0] == 'raise')
        elif res[0] == 'raise':
            out.fail('reader-raised', '%s: %s' % (plan['fmt'], res[1]))
        else:
            d = differs(want, res[1])
            if d:
                out.fail('wrong-records', '%s: %s' % (plan['fmt'], d))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def shrink(plan):
    if plan['rows'] > 1:
        for n in (1, 2, 5, 30):
            if n < plan['rows']:
                yield dict(plan, rows=n)
    if plan['files'] > 1:
        yield dict(plan, files=plan['files'] - 1)
    for key, v in (('nan', 0), ('pad', False), ('extra', False), ('listing', None), ('buffer', 8192)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    if any(plan['rates'].values()):
        yield dict(plan, rates={k: 0 for k in plan['rates']})
