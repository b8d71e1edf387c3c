"""Direct calls of the public functions, with arguments made from specs."""
import copy
import sys

import numpy as np
import pandas as pd

from . import session
from .props import c01


def fingerprint(x):
    """Everything about an argument that a caller could notice changing."""
    import melodist

    if isinstance(x, pd.DataFrame):
        return {
            'columns': [str(c) for c in x.columns], 'index': x.index.asi8.copy() if isinstance(x.index, pd.DatetimeIndex) else list(x.index),
            'names': [str(x.index.name), str(x.columns.name)], 'dtypes': [str(t) for t in x.dtypes],
            'values': [x.iloc[:, i].to_numpy().copy() for i in range(x.shape[1])],
        }
    if isinstance(x, pd.Series):
        return {
            'name': str(x.name), 'index': x.index.asi8.copy() if isinstance(x.index, pd.DatetimeIndex) else [str(i) for i in x.index],
            'names': [str(n) for n in x.index.names], 'dtype': str(x.dtype), 'values': x.to_numpy().copy(),
        }
    if isinstance(x, pd.DatetimeIndex):
        return {'values': x.asi8.copy(), 'name': str(x.name)}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, melodist.cascade.CascadeStatistics):
        return {k: fingerprint(v) for k, v in vars(x).items()}
    if isinstance(x, melodist.StationStatistics):
        return {k: fingerprint(getattr(x, k)) for k in session.PARAMS}
    if isinstance(x, dict):
        return {str(k): fingerprint(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [fingerprint(v) for v in x]
    return copy.deepcopy(x)


def changed(a, b):
    return session.differ(a, b, rtol=0, atol=0)


def util():
    return sys.modules['melodist.util.util']


NAMES = (
    'cascade', 'cascade5', 'equal', 'master', 'build', 'wind', 'windfit', 'hum', 'dewreg', 'mhpm', 'temp',
    'shift', 'rad', 'pot', 'bc', 'angstroem', 'distribute', 'daily', 'drop', 'gaps', 'sun', 'course', 'prep',
    'vap', 'dew', 'subset', 'smet', 'aggregate',
)


def call_spec(r, daily, hourly, loc):
    return {'op': 'fn', 'name': r.choice(NAMES), 'daily': daily, 'hourly': hourly, 'loc': loc,
            'seed': r.getrandbits(16), 'stats': c01.stats_spec(r), 'draws': {'kind': 'uniform', 'seed': r.getrandbits(32)}}


def prepare(w, op):
    """(function, args, kwargs) of a direct call; arguments may be shared objects."""
    import melodist

    n = op['name']
    D, H, loc = w.daily(op['daily']), w.hourly(op['hourly']), op['loc']
    ll = (loc['lon'], loc['lat'], loc['tz'])
    pick = op['seed']

    def sun():
        return w.memo('sun', op, lambda: util().get_sun_times(D.index, *ll))

    def hourly_temp():
        return w.memo('ht', op, lambda: melodist.disaggregate_temperature(D, method='sine_mean', sun_times=sun()))

    def pot():
        return w.memo('pot', op, lambda: melodist.potential_radiation(util().hourly_index(D.index), *ll))

    def stats(nlev, per_level):
        spec = dict(op['stats'], kind={'calibrated': 'sample'}.get(op['stats']['kind'], op['stats']['kind']))

        def make():
            if per_level:
                return [c01.make_stats(dict(spec, seed=spec['seed'] + k), 1) for k in range(nlev)]
            return c01.make_stats(spec, nlev)
        return w.memo('casc%d%s' % (nlev, per_level), op, make)

    if n == 'cascade':
        return melodist.disagg_prec_cascade, (D.precip, stats(5, pick % 2 == 0)), {}
    if n == 'cascade5':
        d = w.memo('head', op, lambda: D.precip.iloc[:2])
        return melodist.disagg_prec_cascade, (d, stats(9, pick % 2 == 0)), {'hourly': False, 'level': 9}
    if n == 'equal':
        return melodist.disagg_prec, (D,), {'method': 'equal'}
    if n == 'master':
        m = w.memo('master', op, lambda: w.hourly(dict(seed=op['seed'], kind='cover', nan=0, start=op['daily']['start'], days=op['daily']['days'])).precip)
        return melodist.disagg_prec, (D.precip,), {'method': 'masterstation', 'hourly_data_obs': m}
    if n == 'build':
        months = w.memo('months', op, lambda: [np.arange(12) + 1])
        return melodist.build_casc, (H,), {'months': months, 'avg_stats': pick % 2 == 0, 'percentile': 40}
    if n == 'aggregate':
        return melodist.aggregate_precipitation, (w.memo('hp', op, lambda: H[['precip']].fillna(0)),), {}
    if n == 'wind':
        return melodist.disaggregate_wind, (D.wind,), [
            {'method': 'equal'}, {'method': 'random'}, {'method': 'cosine', 'a': 0.3, 'b': 1.0, 't_shift': 14.0}][pick % 3]
    if n == 'windfit':
        return melodist.fit_cosine_function, (H.wind,), {}
    if n == 'hum':
        m = ('equal', 'minimal', 'dewpoint_regression', 'min_max', 'linear_dewpoint_variation')[pick % 5]
        kw = {'method': m, 'temp': hourly_temp(), 'a0': 5.0, 'a1': 0.98, 'kr': 12, 'preserve_daily_mean': pick % 7 < 3}
        return melodist.disaggregate_humidity, (D,), kw
    if n == 'dewreg':
        return melodist.calculate_dewpoint_regression, (w.memo('hd', op, lambda: H.dropna()),), {}
    if n == 'mhpm':
        return melodist.calculate_month_hour_precip_mean, (H,), {}
    if n == 'temp':
        m, t = [('sine_min_max', 'fix'), ('sine_min_max', 'sun_loc'), ('sine_mean', 'fix'), ('sine', 'sun_loc')][pick % 4]
        return melodist.disaggregate_temperature, (D,), {
            'method': m, 'min_max_time': t, 'mod_nighttime': pick % 3 == 0, 'sun_times': sun()}
    if n == 'shift':
        return melodist.get_shift_by_data, (H.temp,) + ll, {}
    if n == 'rad':
        m = ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc')[pick % 3]
        return melodist.disaggregate_radiation, (D,), {'method': m, 'sun_times': sun(), 'pot_rad': pot()}
    if n == 'pot':
        return melodist.potential_radiation, (util().hourly_index(D.index),) + ll, {'split': pick % 2 == 0, 'cloud_fraction': (pick % 5) / 5}
    if n == 'bc':
        return melodist.bristow_campbell, (D.tmin, D.tmax, w.memo('potd', op, lambda: pot().resample('D').mean()), 0.75, 2.4), {}
    if n == 'angstroem':
        return melodist.angstroem, (D.ssd, sun().daylength, w.memo('potd', op, lambda: pot().resample('D').mean()), 0.25, 0.6), {}
    if n == 'distribute':
        return melodist.distribute_equally, (D.precip,), {'divide': pick % 2 == 0}
    if n == 'daily':
        return util().daily_from_hourly, (H,), {}
    if n == 'drop':
        return util().drop_incomplete_days, (w.memo('odd', op, lambda: H.iloc[5:-7]),), {'shift': pick % 3}
    if n == 'gaps':
        return util().detect_gaps, (H, 3600), {'verbose': False}
    if n == 'sun':
        return util().get_sun_times, (D.index,) + ll, {}
    if n == 'course':
        return util().calculate_mean_daily_course_by_month, (H.temp,), {'normalize': pick % 2 == 0}
    if n == 'prep':
        return util().prepare_interpolation_data, (D, w.memo('cols', op, lambda: {'T7': 7, 'T14': 14})), {}
    if n == 'vap':
        return util().vapor_pressure, (H.temp, H.hum), {}
    if n == 'dew':
        return util().dewpoint_temperature, (H.temp, H.hum), {}
    if n == 'subset':
        return melodist.seasonal_subset, (H, w.memo('mlist', op, lambda: [1, 2, 12, 6])), {}
    if n == 'smet':
        md = w.memo('meta', op, lambda: {'station_id': 'x1', 'latitude': 47.0})
        df = w.memo('smetdf', op, lambda: H[['temp', 'precip', 'hum', 'wind']].iloc[:48])

        def there_and_back(path, data, metadata):
            melodist.write_smet(path, data, metadata, mode='h')
            header, back = melodist.read_smet(path, 'h')
            return dict(header), back
        return there_and_back, (w.path('x%d.smet' % op['seed']), df, md), {}
    raise ValueError(n)


def as_plain(x):
    return session.plain(x)
