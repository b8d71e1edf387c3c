"""Synthetic weather, described by small JSON specs and built from them."""
import numpy as np
import pandas as pd

from . import core

DRAWS = ('uniform', 'uniform', 'extreme', 'points', 'zero', 'top', 'alternate')


def np_rng(*parts):
    return np.random.Generator(np.random.PCG64(core.derive_seed(*parts)))


def draw_spec(r, points=()):
    kind = r.choice(DRAWS)
    spec = {'kind': kind, 'seed': r.getrandbits(32)}
    if kind == 'extreme':
        spec['rate'] = r.choice((0.02, 0.2, 0.6))
    if kind == 'points':
        spec['rate'] = r.choice((0.3, 0.9))
        spec['points'] = list(points)
    return spec


def start_date(r):
    """A start date; month ends, year ends and leap days are frequent."""
    year = r.choice((2011, 2012, 2015, 2016, 2000, 1999))
    mode = r.random()
    if mode < 0.3:
        return '%d-%02d-%02d' % (year, r.randint(1, 12), r.randint(1, 28))
    if mode < 0.6:
        return '%d-%02d-%02d' % (year, r.randint(1, 12), r.randint(25, 28))
    if mode < 0.8:
        return '%d-02-%02d' % (year, r.randint(24, 28))
    return '%d-12-%02d' % (year, r.randint(26, 31))


def day_index(start, n, drop=()):
    idx = pd.date_range(start=start, periods=n, freq='D')
    if drop:
        keep = np.ones(n, bool)
        keep[[d for d in drop if d < n]] = False
        idx = pd.DatetimeIndex(idx[keep])
    return idx


def daily_spec(r, days=None, nan=None, polar=False):
    n = days or r.choice((1, 2, 3, 4, 6, 9, 14, 35))
    drop = []
    if n > 2 and r.random() < 0.3:
        drop = sorted(r.sample(range(1, n - 1), min(n - 2, r.randint(1, 3))))
    return {
        'seed': r.getrandbits(32), 'start': start_date(r), 'days': n, 'drop': drop,
        'nan': r.choice((0, 0, 0.1, 0.3)) if nan is None else nan,
    }


def daily_frame(spec):
    g = np_rng('daily', spec['seed'])
    n = spec['days']
    idx = pd.date_range(start=spec['start'], periods=n, freq='D')
    season = 10.0 * np.cos(2 * np.pi * (idx.dayofyear - 200) / 365.25)
    temp = 281.0 + season + g.normal(0, 4, n)
    hum = g.uniform(35, 95, n)
    df = pd.DataFrame(
        index=idx,
        data=dict(
            temp=temp,
            tmin=temp - g.uniform(1, 7, n),
            tmax=temp + g.uniform(1, 7, n),
            precip=np.where(g.random(n) < 0.55, np.round(g.gamma(0.8, 6.0, n) + 0.1, 1), 0.0),
            glob=g.uniform(15, 330, n),
            ssd=g.uniform(0, 8, n),
            hum=hum,
            hum_min=hum - g.uniform(1, 30, n),
            hum_max=np.minimum(hum + g.uniform(1, 30, n), 100.0),
            wind=g.gamma(2.0, 1.5, n) + 0.1,
            T7=temp - g.uniform(0, 5, n),
            T14=temp + g.uniform(0, 5, n),
            T19=temp + g.uniform(-2, 2, n),
        ),
    )
    if spec['nan']:
        df = df.mask(g.random(df.shape) < spec['nan'])
    if spec.get('drop'):
        df = df.drop(df.index[[d for d in spec['drop'] if 0 < d < n - 1]])
        df.index = pd.DatetimeIndex(df.index, freq=None)
    return df


def hourly_spec(r, daily=None, kind=None):
    """Observations; 'cover' spans the months of a daily spec, 'year' is a
    thinned out full year, 'part' is anything."""
    kind = kind or r.choice(('cover', 'cover', 'year', 'year', 'part'))
    spec = {'seed': r.getrandbits(32), 'kind': kind, 'nan': r.choice((0, 0, 0.03))}
    if kind == 'cover' and daily is not None:
        spec['start'] = str((pd.Timestamp(daily['start']) - pd.Timedelta(days=r.randint(2, 7))).date())
        spec['days'] = daily['days'] + 8 + r.randint(0, 10)
    elif kind == 'year':
        spec['start'] = '%d-01-01' % r.choice((2011, 2012, 2015))
        spec['per_month'] = r.choice((2, 3, 4))
    else:
        spec['start'] = start_date(r)
        spec['days'] = r.choice((12, 20, 40))
    return spec


def hourly_frame(spec):
    g = np_rng('hourly', spec['seed'])
    if spec['kind'] == 'year':
        days = pd.date_range(start=spec['start'], periods=365, freq='D')
        days = days[days.day <= spec['per_month']]
    else:
        days = pd.date_range(start=spec['start'], periods=spec['days'], freq='D')
    idx = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in days for h in range(24)])
    n = len(idx)
    hod = idx.hour.to_numpy()
    season = 10.0 * np.cos(2 * np.pi * (idx.dayofyear.to_numpy() - 200) / 365.25)
    base = np.repeat(g.normal(0, 3, len(days)), 24)
    temp = 281.0 + season + base + g.uniform(2, 5) * np.cos(2 * np.pi * (hod - 15) / 24) + g.normal(0, 0.7, n)
    sun = np.clip(np.cos(2 * np.pi * (hod - 12.3) / 24) + 0.1, 0, None)
    cloud = np.repeat(g.uniform(0.2, 1.0, len(days)), 24)
    wet = np.repeat(g.random(n // 4 + 1) < 0.5, 4)[:n] & (g.random(n) < 0.8)
    # wet and dry days alternate so that each month has both kinds
    wet &= (idx.day.to_numpy() % 2 == 1) | np.repeat(g.random(len(days)) < 0.15, 24)
    df = pd.DataFrame(
        index=idx,
        data=dict(
            temp=temp,
            precip=np.where(wet, np.round(g.gamma(0.7, 1.5, n) + 0.1, 1), 0.0),
            glob=700.0 * sun * cloud,
            hum=np.clip(70 - 15 * np.cos(2 * np.pi * (hod - 15) / 24) + g.normal(0, 8, n), 5, 100),
            wind=np.clip(3 + 1.2 * np.cos(2 * np.pi * (hod - 14) / 24) + g.normal(0, 0.8, n), 0.05, None),
            ssd=60.0 * np.clip(sun * cloud, 0, 1),
        ),
    )
    if spec['nan']:
        df = df.mask(g.random(df.shape) < spec['nan'])
    return df


def location(r, polar=0.1):
    lon = round(r.uniform(-170, 170), 2)
    if r.random() < polar:
        lat = round(r.choice((1, -1)) * r.uniform(67, 82), 2)
    else:
        lat = round(r.uniform(-58, 58), 2)
    return {'lon': lon, 'lat': lat, 'tz': round(lon / 15)}
