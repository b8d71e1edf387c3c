"""C02: random wind is finite and non-negative for every random stream."""
import numpy as np
import pandas as pd

from .. import core, gen, rng
from ..child import enter, legit

ID = 'C02'
LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 15000}
RULE = (
    'a run is one series disaggregated three times under one simulated random stream (as is, '
    'scaled, one day changed); non-trivial = adversarial stream or missing days or gaps; distinct '
    'by event log'
)
STATES = 'digests of the disaggregated series'
REAL = ['melodist', 'numpy', 'pandas', "numpy's distribution code on top of the seam"]
STUBS = ["the bit generator behind numpy's global RandomState and unseeded Generators"]
TECHNIQUE = 'seeded and adversarial random streams behind numpy\'s global generator'
LEVEL_NOTE = (
    'Exploration: sampled daily series and random streams; extreme draws are forced. '
    'Trusts numpy and pandas.'
)
ASSUMPTIONS = ['daily means are 0 or between 1e-3 and 60 m/s']


def generate(r, index, tier):
    n = r.choice((1, 2, 3, 5, 10, 30, 62))
    daily = []
    for _ in range(n):
        x = r.random()
        daily.append(None if x < 0.12 else 0.0 if x < 0.2 else round(10 ** r.uniform(-3, 1.7), 4))
    drop = sorted(r.sample(range(1, n - 1), r.randint(1, n - 2))) if n > 2 and r.random() < 0.35 else []
    return {
        'start': gen.start_date(r), 'daily': daily, 'drop': drop,
        'via': r.choice(('station', 'function')),
        'draws': {'kind': r.choice(gen.DRAWS), 'seed': r.getrandbits(32), 'rate': r.choice((0.02, 0.3, 0.9))},
        'factor': r.choice((2.0, 0.5, 3.7)), 'day': r.randrange(n),
    }


def _run(plan):
    enter()
    import melodist

    out = core.Outcome()
    n = len(plan['daily'])
    keep = [i for i in range(n) if i not in plan['drop']]
    idx = pd.DatetimeIndex(gen.day_index(plan['start'], n)[keep], freq=None)
    daily = pd.Series(
        index=idx, dtype=float,
        data=[np.nan if plan['daily'][i] is None else plan['daily'][i] for i in keep],
    )

    def call(series):
        stream = rng.use(dict(plan['draws'], points=[0.5, 2.0**-53]))
        if plan['via'] == 'station':
            st = melodist.Station(lon=11.0, lat=47.0, timezone=1)
            st.data_daily = pd.DataFrame({'wind': series})
            st.disaggregate_wind(method='random')
            res = st.data_disagg.wind
            used = st.data_daily.wind
        else:
            res = melodist.disaggregate_wind(series, method='random')
            used = series
        out['steps'] += stream.n
        if plan['draws']['kind'] != 'uniform':
            out.fault('draws:' + plan['draws']['kind'], stream.n)
        out.probe('extreme draw', stream.extreme)
        return used, pd.Series(res)

    ok, got = legit(out, lambda: call(daily), 'random wind')
    if ok:
        used, res = got
        judge(out, used, res)
        out.log(plan['via'], len(used), plan['draws']['kind'], core.digest(np.round(res.values, 9).tolist()))
        out['interleavings'].append(core.digest(np.round(res.values, 9).tolist()))
    if ok and not out.failed:
        ok, got = legit(out, lambda: call(daily * plan['factor']), 'random wind, scaled')
        if ok and not np.allclose(
            got[1].values, res.values * plan['factor'], rtol=1e-9, atol=1e-12, equal_nan=True
        ):
            out.fail('not-linear', 'factor %r' % plan['factor'])
    if ok and not out.failed:
        k = min(plan['day'], len(daily) - 1)
        if np.isfinite(daily.iloc[k]):
            other = daily.copy()
            other.iloc[k] = other.iloc[k] + 5.0
            ok, got = legit(out, lambda: call(other), 'random wind, one day changed')
            if ok:
                far = got[1].index.normalize() != daily.index[k]
                if not np.allclose(
                    got[1].values[far], res.values[far], rtol=1e-9, atol=1e-12, equal_nan=True
                ):
                    out.fail('days-coupled', 'changing %s' % daily.index[k].date())
    out['days'] = len(daily)
    out.probe('missing day', sum(t is None for t in plan['daily']))
    out.probe('calm day', sum(t == 0 for t in plan['daily']))
    out.probe('gap in days', len(plan['drop']))
    out['nontrivial'] = bool(out['faults'] or plan['drop'] or None in plan['daily'])
    return out


def judge(out, daily, res):
    want = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in daily.index for h in range(24)])
    if len(res) != len(want) or not (res.index == want).all():
        return out.fail('time-steps', 'expected %d steps, got %d' % (len(want), len(res)))
    v = res.to_numpy(float).reshape(-1, 24)
    for d, (day, obs) in enumerate(daily.items()):
        if np.isnan(obs):
            if not np.isnan(v[d]).all():
                return out.fail('missing-day-filled', '%s %r' % (day.date(), v[d]))
        elif not np.isfinite(v[d]).all():
            return out.fail('not-finite', '%s mean %r: %r' % (day.date(), obs, v[d]))
        elif (v[d] < 0).any():
            return out.fail('negative', '%s mean %r: %r' % (day.date(), obs, v[d]))
        elif obs == 0 and (v[d] != 0).any():
            return out.fail('calm-day-windy', '%s: %r' % (day.date(), v[d]))


def execute(plan):
    return core.isolated(_run, plan)


def shrink(plan):
    n = len(plan['daily'])
    if plan['drop']:
        yield dict(plan, drop=[])
    if n > 4:
        yield dict(plan, daily=plan['daily'][: n // 2], drop=[d for d in plan['drop'] if d < n // 2 - 1], day=min(plan['day'], n // 2 - 1))
        yield dict(plan, daily=plan['daily'][n // 2:], drop=[], day=0)
    for i in range(n):
        if n > 1:
            yield dict(
                plan, daily=plan['daily'][:i] + plan['daily'][i + 1:],
                drop=[d - (d > i) for d in plan['drop'] if d != i and 0 < d - (d > i) < n - 2],
                day=max(0, plan['day'] - (plan['day'] >= i)),
            )
    if plan['via'] == 'station':
        yield dict(plan, via='function')
    if plan['draws']['kind'] != 'uniform':
        yield dict(plan, draws=dict(plan['draws'], kind='uniform'))
    for i in range(n):
        if plan['daily'][i] not in (None, 0.0, 1.0):
            t = list(plan['daily'])
            t[i] = 1.0
            yield dict(plan, daily=t)
