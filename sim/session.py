"""Programs of public operations on stations, their results and their states."""
import copy
import os
import sys

import numpy as np
import pandas as pd

from . import gen, rng

SEASONS = [
    None,
    [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
    [[10, 11, 12, 1, 2, 3], [4, 5, 6, 7, 8, 9]],
]
PARAMS = ('wind', 'precip', 'hum', 'temp', 'glob')

TEMP = [
    {'method': m, 'min_max_time': t, 'mod_nighttime': n}
    for m in ('sine_min_max', 'sine_mean', 'sine')
    for t in ('fix', 'sun_loc', 'sun_loc_shift')
    for n in ((False, True) if m != 'sine_mean' else (False,))
] + [{'method': 'mean_course_min_max'}, {'method': 'mean_course_mean'}] * 3
HUM = [
    {'method': m, 'preserve_daily_mean': p}
    for m in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
              'month_hour_precip_mean')
    for p in (False, True)
]
WIND = [{'method': m} for m in ('equal', 'cosine', 'random')]
PRECIP = [{'method': m} for m in ('equal', 'cascade', 'cascade', 'masterstation')]
GLOB = [{'method': m} for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')]
METHODS = {'temp': TEMP, 'hum': HUM, 'wind': WIND, 'precip': PRECIP, 'glob': GLOB}
LONG = {'temp': 'temperature', 'hum': 'humidity', 'wind': 'wind', 'precip': 'precipitation',
        'glob': 'radiation'}


# ---------------------------------------------------------------- generation
def dis_op(r, var, daily, st='a'):
    op = {'op': 'dis', 'st': st, 'var': var, 'kw': dict(r.choice(METHODS[var])),
          'draws': gen.draw_spec(r, points=(0.25, 0.5))}
    if op['kw'].get('method') == 'masterstation':
        op['master'] = {'seed': r.getrandbits(32), 'kind': 'cover', 'nan': 0,
                        'start': daily['start'], 'days': daily['days']}
    return op


def calc_op(r, var, daily, st='a', year=True):
    op = {'op': 'calc', 'st': st, 'var': var, 'kw': {}}
    if var == 'precip':
        op['kw'] = {'avg_stats': r.random() < 0.6, 'percentile': r.choice((50, 30, 75))}
        op['seasons'] = r.choice((0, 0, 1, 2)) if year else 0
    if var == 'glob' and r.random() < 0.5:
        op['daily'] = r.choice(('obs', 'obs', daily))
        op['kw'] = {'how': r.choice(('all', 'all', 'all', 'seasonal')) if year else 'all'}
        op['day_length'] = r.random() < 0.7
    return op


# ----------------------------------------------------------------- execution
class World:
    """Stations and files of one simulated process."""

    def __init__(self, root):
        self.root = root
        self.st = {}
        self.frames = {}

    def path(self, name):
        return os.path.join(self.root, name)

    def daily(self, spec):
        return gen.daily_frame(spec)

    def hourly(self, spec):
        return gen.hourly_frame(spec)


def run_op(w, op, setrng=rng.use):
    """Perform one operation; returns the value the user would look at."""
    import melodist

    kind = op['op']
    if kind == 'new':
        loc = op['loc']
        s = melodist.Station(
            id='1', name='x', lon=loc['lon'], lat=loc['lat'], timezone=loc['tz'],
            data_daily=w.daily(op['daily']) if op.get('daily') else None,
        )
        w.st[op['st']] = s
        return None
    s = w.st[op['st']]
    if kind == 'set_daily':
        s.data_daily = w.daily(op['daily'])
        return s.data_daily.copy()
    if kind == 'set_loc':
        loc = op['loc']
        for k in op.get('order', ('lon', 'lat', 'tz')):
            setattr(s, {'tz': 'timezone'}.get(k, k), loc[k])
        return s.sun_times.copy() if s.sun_times is not None else None
    if kind == 'stats':
        s.statistics = melodist.StationStatistics(data=w.hourly(op['hourly']))
        return None
    if kind == 'obs':
        s.statistics.data = w.hourly(op['hourly'])
        return None
    if kind == 'param':
        getattr(s.statistics, op['var']).update(op['values'])
        return None
    if kind == 'table':  # a user edits a monthly radiation parameter
        getattr(s.statistics.glob, op['table']).loc[op['month'], op['column']] = op['value']
        return None
    if kind == 'calc':
        kw = dict(op['kw'])
        if op['var'] == 'precip':
            months = SEASONS[op['seasons']]
            kw['months'] = None if months is None else [np.array(m) for m in months]
        if op['var'] == 'glob' and op.get('daily'):
            util = sys.modules['melodist.util.util']
            d = s.statistics.data
            if op['daily'] == 'obs':
                kw['data_daily'] = util.daily_from_hourly(d)
            else:
                kw['data_daily'] = w.daily(op['daily'])
            if op['day_length']:
                kw['day_length'] = util.get_sun_times(
                    kw['data_daily'].index, s.lon, s.lat, s.timezone
                ).daylength
        getattr(s.statistics, 'calc_%s_stats' % LONG[op['var']])(**kw)
        return plain(getattr(s.statistics, op['var']))
    if kind == 'dis':
        kw = dict(op['kw'])
        if 'master' in op:
            kw['master_precip'] = w.hourly(op['master']).precip
        if op.get('draws'):
            setrng(op['draws'])
        getattr(s, 'disaggregate_' + LONG[op['var']])(**kw)
        return getattr(s.data_disagg, op['var']).copy()
    if kind == 'interp':
        return s.interpolate(dict(op['columns']))
    if kind == 'save':
        s.statistics.to_json(w.path(op['file']))
        return None
    if kind == 'load':
        s.statistics = melodist.StationStatistics.from_json(w.path(op['file']))
        return plain_stats(s.statistics)
    if kind == 'bad':
        return bad_call(w, s, op)
    raise ValueError(kind)


BAD = ('method', 'daily_type', 'daily_order', 'daily_celsius', 'stats_type', 'obs_type', 'no_obs')


def bad_call(w, s, op):
    """Calls that must fail; they must also leave no trace."""
    import melodist

    k = op['kind']
    if k == 'method':
        return getattr(s, 'disaggregate_' + LONG[op['var']])(method='no such method')
    if k == 'daily_type':
        s.data_daily = [1, 2, 3]
    if k == 'daily_order':
        s.data_daily = w.daily({'seed': 1, 'start': '2014-01-01', 'days': 5, 'nan': 0}).iloc[::-1]
    if k == 'daily_celsius':
        d = w.daily({'seed': 1, 'start': '2014-01-01', 'days': 5, 'nan': 0})
        s.data_daily = d.assign(tmin=d.tmin - 273.15)
    if k == 'stats_type':
        s.statistics = {}
    if k == 'obs_type':
        s.statistics.data = w.daily({'seed': 1, 'start': '2014-01-01', 'days': 5, 'nan': 0})
    if k == 'no_obs':
        getattr(s.statistics, 'calc_%s_stats' % LONG[op['var']])(bogus=1)


def attempt(w, op, setrng=rng.use):
    """('ok', value) or ('raise', exception type name)."""
    from .child import describe

    try:
        return 'ok', run_op(w, op, setrng)
    except Exception as e:
        return 'raise', describe(e)


# ---------------------------------------------------------------- comparison
def plain(x):
    """Copy of a parameter value made of dicts, lists, arrays and tables."""
    import melodist

    if isinstance(x, melodist.cascade.CascadeStatistics):
        return {k: plain(v) for k, v in vars(x).items()}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy()
    return copy.deepcopy(x)


def plain_stats(s, data=False):
    d = {v: plain(getattr(s, v)) for v in PARAMS}
    if data:
        d['obs'] = plain(s.data)
        d['coord'] = (s._lon, s._lat, s._timezone) if hasattr(s, '_lon') else None
    return d


def snapshot(s, sun=True):
    d = {
        'daily': plain(s.data_daily), 'hourly': plain(s.data_disagg),
        'loc': (s.lon, s.lat, s.timezone), 'id': s.id, 'name': s.name,
        'stats': plain_stats(s.statistics, data=True),
    }
    if sun:
        d['sun'] = plain(s.sun_times)
    return d


def differ(a, b, rtol=1e-9, atol=1e-9, path=''):
    """'' if equal within tolerance, else where they differ first."""
    if a is None or b is None:
        return '' if a is None and b is None else '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = differ(a[k], b[k], rtol, atol, '%s.%s' % (path, k))
            if d:
                return d
        return ''
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if type(a) is not type(b):
            return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
        if list(a.columns) != list(b.columns):
            return '%s: columns %s vs %s' % (path, list(a.columns), list(b.columns))
        if len(a.index) != len(b.index) or not (a.index == b.index).all():
            return '%s: index differs' % path
        for i, c in enumerate(a.columns):
            d = differ(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), rtol, atol, '%s[%s]' % (path, c))
            if d:
                return d
        return ''
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        if type(a) is not type(b):
            return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
        if len(a.index) != len(b.index) or not (a.index == b.index).all():
            return '%s: index differs' % path
        return differ(a.to_numpy(), b.to_numpy(), rtol, atol, path)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            if len(a) != len(b):
                return '%s: length %d vs %d' % (path, len(a), len(b))
            for i, (p, q) in enumerate(zip(a, b)):
                d = differ(p, q, rtol, atol, '%s[%d]' % (path, i))
                if d:
                    return d
            return ''
        if x.shape != y.shape:
            return '%s: shape %s vs %s' % (path, x.shape, y.shape)
        ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = np.argwhere(~ok)[0]
            return '%s: %d of %d values differ, first at %s: %r vs %r' % (
                path, (~ok).sum(), ok.size, i.tolist(), float(x[tuple(i)]), float(y[tuple(i)]))
        return ''
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return '' if np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True) else '%s: %r vs %r' % (path, a, b)
    return '' if a == b else '%s: %r vs %r' % (path, a, b)


def numbers(x, acc=None):
    """All numbers in a value, rounded, for state digests."""
    acc = [] if acc is None else acc
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            numbers(x[k], acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            numbers(v, acc)
    elif isinstance(x, (pd.Series, pd.DataFrame, np.ndarray)):
        try:
            v = np.asarray(x, float).ravel()
            acc.append(len(v))
            acc.append(float(np.round(np.nansum(v), 4)))
            acc.append(int(np.isnan(v).sum()))
        except (TypeError, ValueError):
            acc.append(repr(np.asarray(x).tolist())[:200])
    else:
        acc.append(repr(x))
    return acc


# ------------------------------------------------------- generated histories
def history(r, length, st='a', weights=None, files=('p.json', 'q.json'), polar=0.1, nan=None, days=None):
    """A random but sensible session on one station."""
    w = dict(dis=10, calc=4, set_daily=1.5, set_loc=1, stats=0.7, obs=0.7, save=0.7, load=0.7,
             bad=1, param=0.5, interp=0.4)
    w.update(weights or {})
    daily = gen.daily_spec(r, nan=nan, days=days)
    hourly = gen.hourly_spec(r, daily, r.choice(('cover', 'year')))
    ops = [{'op': 'new', 'st': st, 'loc': gen.location(r, polar)},
           {'op': 'set_daily', 'st': st, 'daily': daily},
           {'op': 'stats', 'st': st, 'hourly': hourly}]
    if r.random() < 0.3:
        ops[1], ops[2] = ops[2], ops[1]
    year = hourly['kind'] == 'year'
    for var in r.sample(PARAMS, r.randint(1, 5)):
        ops.append(calc_op(r, var, daily, st, year))
    saved = []
    kinds, ws = zip(*w.items())
    while len(ops) < length:
        k = r.choices(kinds, ws)[0]
        if k == 'dis':
            for _ in range(4):  # mostly what the calibrations so far allow
                op = dis_op(r, r.choice(('temp', 'temp', 'hum', 'wind', 'precip', 'glob')), daily, st)
                if possible(op, ops):
                    break
            ops.append(op)
        elif k == 'calc':
            ops.append(calc_op(r, r.choice(PARAMS), daily, st, year))
        elif k == 'set_daily':
            daily = gen.daily_spec(r, nan=nan, days=days)
            if r.random() < 0.3:  # same first day and length, other values or other gaps
                daily = dict(daily, start=ops[1].get('daily', ops[2].get('daily', daily))['start'])
            ops.append({'op': 'set_daily', 'st': st, 'daily': daily})
        elif k == 'set_loc':
            order = ['lon', 'lat', 'tz']
            r.shuffle(order)
            ops.append({'op': 'set_loc', 'st': st, 'loc': gen.location(r, polar), 'order': order})
        elif k in ('stats', 'obs'):
            hourly = gen.hourly_spec(r, daily, r.choice(('cover', 'year')))
            year = hourly['kind'] == 'year'
            ops.append({'op': k, 'st': st, 'hourly': hourly})
        elif k == 'save':
            f = r.choice(files)
            saved.append(f)
            ops.append({'op': 'save', 'st': st, 'file': f})
        elif k == 'load' and saved:
            ops.append({'op': 'load', 'st': st, 'file': r.choice(saved)})
        elif k == 'bad':
            ops.append({'op': 'bad', 'st': st, 'kind': r.choice(BAD), 'var': r.choice(PARAMS)})
        elif k == 'param':
            ops.append({'op': 'param', 'st': st, 'var': 'hum', 'values': {'kr': r.choice((6, 12))}})
        elif k == 'interp':
            ops.append({'op': 'interp', 'st': st, 'columns': {'T7': 7, 'T14': 14, 'T19': 19}})
    return ops


def possible(op, ops):
    need = {'cosine', 'cascade', 'mean_course', 'mean_course_min_max', 'mean_course_mean',
            'dewpoint_regression', 'linear_dewpoint_variation', 'month_hour_precip_mean'}
    if op['kw']['method'] in need or op['kw'].get('min_max_time') == 'sun_loc_shift':
        for o in reversed(ops):
            if o['op'] == 'calc' and o['var'] == op['var']:
                return True
            if o['op'] == 'stats':
                return False
        return False
    return True


ALL_PARAMS = {'params:' + v for v in PARAMS}
RESULTS = {'result:' + v for v in PARAMS}


def effects(op):
    """(reads, writes) of an operation on the resources of its station."""
    k = op['op']
    if k == 'new':
        return set(), {'loc', 'daily', 'obs'} | ALL_PARAMS | RESULTS
    if k == 'set_daily':
        return set(), {'daily'} | RESULTS
    if k == 'set_loc':  # what is not set stays
        return ({'loc'} if len(op.get('order', 'abc')) < 3 else set()), {'loc'}
    if k == 'stats':
        return set(), {'obs'} | ALL_PARAMS
    if k == 'obs':
        return set(), {'obs'}
    if k == 'param':
        # sets one entry of the group and keeps the others
        return {'params:' + op['var']}, {'params:' + op['var']}
    if k == 'calc':
        v = op['var']
        reads = {'obs'}
        if v in ('temp', 'glob'):
            reads.add('loc')
        if v == 'glob':
            reads.add('params:glob')
        return reads, {'params:' + v}
    if k == 'dis':
        v = op['var']
        reads = {'daily', 'params:' + v}
        if v in ('temp', 'glob'):
            reads.add('loc')
        if v == 'hum':
            reads.add('result:temp')
        return reads, {'result:' + v}
    if k == 'interp':
        return {'daily'}, set()
    if k == 'save':
        return set(ALL_PARAMS), {'file:' + op['file']}
    if k == 'load':
        return {'file:' + op['file']}, {'obs'} | ALL_PARAMS
    return set(), set()


def dependency_slice(ops, status, i):
    """The operations a result really depends on, by the documented data flow.

    This is the specification of history independence: replaying only these in
    a fresh process must give the same result as the whole history did.
    """
    reads, _ = effects(ops[i])
    needed = set(reads)
    keep = [i]
    for j in range(i - 1, -1, -1):
        op = ops[j]
        if op['op'] == 'new':
            keep.append(j)
            break
        if status[j] != 'ok':
            continue
        rd, wr = effects(op)
        if wr & needed:
            keep.append(j)
            needed -= wr
            needed |= rd
    return sorted(keep)
