"""C01: the cascade conserves precipitation for every random stream."""
import numpy as np
import pandas as pd

from .. import core, gen, rng
from ..child import enter, legit

ID = 'C01'
LEVEL = 'exploration'
RUNS = {'quick': 3600, 'thorough': 24000}
RULE = (
    'a run is one disaggregation under one simulated random stream; non-trivial = the stream '
    'was adversarial or the daily series had gaps, jumps, missing days or several seasons; runs are '
    'distinct when their event logs (configuration, draw count, result digest) differ'
)
STATES = 'digests of the disaggregated series'
REAL = ['melodist (all of it)', 'numpy', 'pandas', "numpy's distribution code on top of the seam"]
STUBS = ["the bit generator behind numpy's global RandomState and unseeded Generators"]
TECHNIQUE = 'seeded and adversarial random streams behind numpy\'s global generator'
LEVEL_NOTE = (
    'Exploration: sampled statistics, daily series and random streams; extreme and threshold draws '
    'are forced. Trusts numpy and pandas.'
)
ASSUMPTIONS = [
    'branching probabilities are non-negative and add up to 1 to within rounding',
    'seasons cover all months of the daily data',
    'daily totals are 0 or between 1e-6 and 1e4',
]

SEASONS = [
    [list(range(1, 13))],
    [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
    [[m] for m in range(1, 13)],
    [[1, 2, 3, 10, 11, 12], [4, 5, 6, 7, 8, 9]],
]


def stats_spec(r):
    kind = r.choice(('sample', 'random', 'random', 'degenerate', 'sevenths', 'calibrated'))
    return {'kind': kind, 'seed': r.getrandbits(32)}


def make_stats(spec, nlev):
    """One CascadeStatistics object from a spec."""
    import melodist

    g = gen.np_rng('stats', spec['seed'])
    c = melodist.cascade.CascadeStatistics()
    c.threshold = np.sort(g.choice([0.05, 0.3, 1.0, 2.5, 5.0, 12.0], size=nlev))
    kind = spec['kind']
    if kind in ('sample', 'calibrated'):
        c.fill_with_sample_data()
    elif kind == 'random':
        p = g.dirichlet([g.choice([0.2, 1.0, 5.0])] * 3, size=(2, 4))
        c.p01, c.p10, c.pxx = p[..., 0].copy(), p[..., 1].copy(), p[..., 2].copy()
        c.wxx = np.moveaxis(g.dirichlet([g.choice([0.2, 1.0, 5.0])] * 7, size=(2, 4)), 2, 0).copy()
    elif kind == 'degenerate':
        k = g.integers(0, 3, size=(2, 4))
        c.p01, c.p10, c.pxx = (k == 0) * 1.0, (k == 1) * 1.0, (k == 2) * 1.0
        w = g.integers(0, 7, size=(2, 4))
        c.wxx = np.array([(w == i) * 1.0 for i in range(7)])
    elif kind == 'sevenths':
        c.p01 = np.full((2, 4), 1.0 / 3.0)
        c.p10 = np.full((2, 4), 1.0 / 3.0)
        c.pxx = np.full((2, 4), 1.0 / 3.0)
        c.wxx = np.full((7, 2, 4), 1.0 / 7.0)
    return c


def calibrated(spec, hourly, level, per_level):
    import melodist

    g = gen.np_rng('obs', spec['seed'])
    if hourly:
        n, freq = 24 * int(g.integers(14, 30)), 'h'
    else:
        n, freq = 2 ** (level + 1) + int(g.integers(0, 600)), '5min'
    wet = np.repeat(g.random(n // 3 + 1) < g.choice([0.2, 0.5]), 3)[:n]
    amount = np.where(wet & (g.random(n) < 0.8), np.round(g.gamma(0.7, 2.0, n) + 0.1, 1), 0.0)
    idx = pd.date_range('2012-01-01', periods=n, freq=freq)
    obs = pd.DataFrame(index=idx, data={'precip': amount})
    return melodist.build_casc(
        obs, hourly=hourly, level=level, avg_stats=not per_level,
        percentile=int(g.choice([25, 50, 80])),
    )[0]


def thresholds_of(stats):
    pts = set()
    for s in stats if isinstance(stats, list) else [stats]:
        pts.update(np.ravel(s.p01).tolist())
        pts.update(np.ravel(s.p01 + s.p10).tolist())
        pts.update(np.ravel(np.cumsum(s.wxx, axis=0)).tolist())
    return sorted(pts)[:200]


def generate(r, index, tier):
    hourly = r.random() < 0.65
    n = r.choice((1, 1, 2, 3, 5, 8, 15)) if hourly else r.choice((1, 2, 3, 4))
    wet = r.choice((0.2, 0.6, 1.0))
    totals = []
    for _ in range(n):
        x = r.random()
        if x < 0.15:
            totals.append(None)
        elif r.random() < wet:
            totals.append(r.choice((
                round(r.uniform(0.1, 60), 1), 10 ** r.uniform(-6, 4), 0.1, 1.0, r.uniform(0, 5) + 1e-6,
            )))
        else:
            totals.append(0.0)
    drop = sorted(r.sample(range(1, n - 1), r.randint(1, n - 2))) if n > 2 and r.random() < 0.35 else []
    via = 'station' if hourly and r.random() < 0.4 else 'function'
    jumps = []
    if n > 1 and r.random() < 0.15:  # the calendar jumps ahead, often by whole years
        jumps = [[r.randrange(1, n), r.choice((364, 365, 365, 365, 730, 27, 30))]]
    plan = {
        'start': gen.start_date(r), 'totals': totals, 'drop': drop, 'jumps': jumps, 'hourly': hourly,
        'level': 9 if hourly else r.choice((9, 9, 10, 11)),
        'stats': stats_spec(r), 'per_level': r.random() < 0.35, 'via': via,
        'seasons': r.randrange(len(SEASONS)) if via == 'station' else 0,
        'draws': {'kind': r.choice(gen.DRAWS), 'seed': r.getrandbits(32), 'rate': r.choice((0.05, 0.3, 0.9))},
        'entry': r.choice(('disagg_prec', 'disagg_prec_cascade')),
        'repeat': r.random() < 0.15,
        'shift': r.choice((7, 1, 23, 24, -1, -7, 30)) if via == 'function' and r.random() < 0.2 else 0,
    }
    return plan


def build(plan):
    import melodist

    n = len(plan['totals'])
    keep = [i for i in range(n) if i not in plan['drop']]
    idx = gen.day_index(plan['start'], n)
    for at, days in plan['jumps']:
        idx = idx[:at].append(idx[at:] + pd.Timedelta(days=days))
    idx = pd.DatetimeIndex(idx[keep], freq=None)
    daily = pd.Series(
        index=idx, data=[np.nan if plan['totals'][i] is None else plan['totals'][i] for i in keep],
        dtype=float,
    )
    nlev = 5 if plan['hourly'] else plan['level']

    def one(j):
        spec = dict(plan['stats'], seed=plan['stats']['seed'] + j)
        if spec['kind'] == 'calibrated':
            return calibrated(spec, plan['hourly'], plan['level'], plan['per_level'])
        if plan['per_level']:
            return [
                make_stats(dict(spec, seed=spec['seed'] * 31 + k), 1) for k in range(nlev)
            ]
        return make_stats(spec, nlev)

    seasons = SEASONS[plan['seasons']]
    return daily, seasons, [one(j) for j in range(len(seasons))]


def _run(plan):
    enter()
    import melodist

    out = core.Outcome()
    daily, seasons, stats = build(plan)
    inputs = daily.copy()
    pts = [p for s in stats for p in thresholds_of(s)]
    rounds = 2 if plan['repeat'] else 1
    for round_ in range(rounds):
        stream = rng.use(dict(plan['draws'], points=pts, seed=plan['draws']['seed'] + round_))
        if plan['via'] == 'station':
            st = melodist.Station(lon=11.0, lat=47.0, timezone=1)
            st.data_daily = pd.DataFrame({'precip': daily})
            st.statistics.precip.update(months=seasons, stats=stats)
            daily_in = st.data_daily.precip.copy()

            def call():
                st.disaggregate_precipitation(method='cascade')
                return st.data_disagg.precip
        else:
            daily_in = inputs

            def call():
                if plan['hourly'] and plan['entry'] == 'disagg_prec':
                    return melodist.disagg_prec(
                        daily, method='cascade', cascade_options=stats[0], shift=plan['shift'])
                return melodist.disagg_prec_cascade(
                    daily, stats[0], hourly=plan['hourly'], level=plan['level'], shift=plan['shift']
                )

        ok, res = legit(out, call, 'cascade disaggregation')
        if ok:
            judge(out, daily_in, res, plan)
        out.log(plan['via'], plan['hourly'], plan['level'], len(daily_in), stream.n,
                core.digest(np.round(np.asarray(res, float), 6).tolist()) if ok else 'raised')
        if ok:
            out['interleavings'].append(core.digest(np.round(np.asarray(res, float), 9).tolist()))
        out['steps'] += stream.n
        out['days'] += len(daily_in)
        if plan['draws']['kind'] != 'uniform':
            out.fault('draws:' + plan['draws']['kind'], stream.n)
        out.probe('extreme draw', stream.extreme)
        if out.failed:
            break
    out.probe('missing day', sum(t is None for t in plan['totals']))
    out.probe('gap in days', len(plan['drop']))
    out.probe('jump in the calendar', len(plan['jumps']))
    out.probe('several seasons', len(seasons) > 1)
    out.probe('single day', len(inputs) == 1)
    out.probe('per-level statistics', plan['per_level'])
    out.probe('five-minute', not plan['hourly'])
    out.probe('shifted', plan['shift'] != 0)
    out['nontrivial'] = bool(
        out['faults'] or plan['drop'] or plan['jumps'] or None in plan['totals'] or len(seasons) > 1)
    return out


def judge(out, daily, res, plan):
    if not isinstance(res, pd.Series):
        return out.fail('not-a-series', type(res))
    step = pd.Timedelta(hours=1) if plan['hourly'] else pd.Timedelta(minutes=5)
    per_day = 24 if plan['hourly'] else 288
    want = pd.DatetimeIndex([d + step * i for d in daily.index for i in range(per_day)])
    if len(res) != len(want) or not (res.index == want).all():
        return out.fail('time-steps', 'expected %d steps, got %d' % (len(want), len(res)))
    v = res.to_numpy(dtype=float)
    seen = np.ones(len(v), dtype=bool)
    k = plan['shift']
    if k:  # undo the shift; what it moved past the end is unknown
        k = max(min(k, len(v)), -len(v))
        empty = v[:k] if k > 0 else v[k:]
        if not np.isnan(empty).all():
            return out.fail('shift-edge', 'shift %d: %r' % (k, empty))
        lost = np.full(abs(k), np.nan)
        v = np.concatenate([v[k:], lost]) if k > 0 else np.concatenate([lost, v[:k]])
        if k > 0:
            seen[len(v) - k:] = False
        else:
            seen[:-k] = False
    v = v.reshape(len(daily), per_day)
    seen = seen.reshape(len(daily), per_day)
    total = float(np.nansum(daily))
    for d, (day, obs) in enumerate(daily.items()):
        row = v[d][seen[d]]
        if np.isnan(obs):
            if not np.isnan(row).all():
                return out.fail('missing-day-filled', '%s %r' % (day.date(), row[:4]))
            continue
        if not np.isfinite(row).all():
            return out.fail('not-finite', '%s total %r: %r' % (day.date(), obs, row))
        if (row < -1e-9 * max(1.0, total)).any():
            return out.fail('negative', '%s total %r: %r' % (day.date(), obs, row))
        if obs == 0 and (np.abs(row) > 1e-9 * max(1.0, total)).any():
            return out.fail('dry-day-wet', '%s: %r' % (day.date(), row))
        excess = row.sum() - obs
        if (abs(excess) if seen[d].all() else excess) > 1e-9 * max(1.0, total):
            return out.fail('sum', '%s total %r sum %r' % (day.date(), obs, row.sum()))


def execute(plan):
    return core.isolated(_run, plan)


def shrink(plan):
    n = len(plan['totals'])
    if plan['drop']:
        yield dict(plan, drop=[])
        for i in range(len(plan['drop'])):
            yield dict(plan, drop=plan['drop'][:i] + plan['drop'][i + 1:])
    for i in range(n):
        if n > 1:
            yield dict(
                plan, totals=plan['totals'][:i] + plan['totals'][i + 1:],
                jumps=[[min(max(a - (a > i), 1), n - 2), d] for a, d in plan['jumps']] if n > 2 else [],
                drop=[d - (d > i) for d in plan['drop'] if d != i],
            )
    for i in range(n):
        if plan['totals'][i] not in (None, 0.0, 1.0):
            t = list(plan['totals'])
            t[i] = 1.0
            yield dict(plan, totals=t)
    if plan['jumps']:
        yield dict(plan, jumps=[])
    if plan['shift']:
        yield dict(plan, shift=0)
    if plan['repeat']:
        yield dict(plan, repeat=False)
    if plan['seasons']:
        yield dict(plan, seasons=0)
    if plan['via'] == 'station':
        yield dict(plan, via='function', seasons=0, shift=0)
    if plan['per_level']:
        yield dict(plan, per_level=False)
    if plan['stats']['kind'] != 'sample':
        yield dict(plan, stats=dict(plan['stats'], kind='sample'))
    if plan['draws']['kind'] != 'uniform':
        yield dict(plan, draws=dict(plan['draws'], kind='uniform'))
    if not plan['hourly'] and plan['level'] > 9:
        yield dict(plan, level=9)
