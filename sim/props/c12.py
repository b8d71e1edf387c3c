"""C12: outcomes of the random methods follow the given probabilities."""
import math

import numpy as np
import pandas as pd

from .. import core, gen, rng
from ..child import enter, legit

ID = 'C12'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 20000}
RULE = (
    'a run is one configuration: either statistics that leave one outcome per level, position and '
    'intensity class, executed under one random stream, or genuinely random statistics whose '
    'outcome frequencies are counted over one seed; non-trivial = at least one draw was made; runs are distinct '
    'when their event logs (configuration, draw count, result or outcome counts) differ'
)
STATES = 'digests of the decoded outcomes'
REAL = ['melodist (all of it)', 'numpy', 'pandas', "numpy's distribution code on top of the seam"]
STUBS = ["the bit generator behind numpy's global RandomState and unseeded Generators"]
TECHNIQUE = 'simulated random streams, independent reference cascade, outcome counts against the parameters'
LEVEL_NOTE = (
    'Exploration: with one possible outcome the result is compared with an independent cascade for '
    'adversarial streams; otherwise frequencies and correlations must stay within six standard '
    'deviations. Deviations in probability below about 3 percentage points are not seen.'
)
ASSUMPTIONS = [
    'branching probabilities are non-negative and add up to 1',
    'amounts are not within 0.1 % of an intensity threshold',
    'the first and last day of a season are dry when several seasons are counted',
]

SIGMA = 6.0
LARGE = 12000  # days
START, ENCL, END, ISO = range(4)  # column order of the statistics


# ----------------------------------------------------------------- reference

def positions(v):
    """Column of the statistics for every wet interval (-1: dry)."""
    wet = np.asarray(v) > 0
    before = np.concatenate([[False], wet[:-1]])
    after = np.concatenate([wet[1:], [False]])
    kind = np.where(before, np.where(after, ENCL, END), np.where(after, START, ISO))
    return np.where(wet, kind, -1)


def reference(daily, rules, thresholds):
    """The cascade with one outcome per level, class and position.

    rules[l][class][position] is '01', '10' or the weight class 0..6.
    Returns the finest intervals, or None when an amount is near a threshold.
    """
    v = np.asarray(daily, float)
    for rule, limit in zip(rules, thresholds):
        kind = positions(v)
        out = np.zeros(2 * len(v))
        for i in np.flatnonzero(kind >= 0):
            if abs(v[i] - limit) < 2e-3 * max(v[i], limit):
                return None
            what = rule[1 if v[i] > limit else 0][kind[i]]
            w = {'01': 0.0, '10': 1.0}.get(what)
            if w is None:
                w = (what + 0.5) / 7.0
            out[2 * i], out[2 * i + 1] = w * v[i], (1 - w) * v[i]
        v = out
    return v


def rule_stats(rule, thresholds):
    import melodist

    c = melodist.cascade.CascadeStatistics()
    c.threshold = np.array(thresholds, float)
    for b in range(2):
        for t in range(4):
            what = rule[b][t]
            c.p01[b, t] = what == '01'
            c.p10[b, t] = what == '10'
            c.pxx[b, t] = what not in ('01', '10')
            c.wxx[what if what not in ('01', '10') else (b * 3 + t) % 7, b, t] = 1.0
    return c


# ------------------------------------------------------------------ generate

def _rule(r):
    bias = r.random()
    return [
        [r.randrange(7) if r.random() < bias else r.choice(('01', '10')) for _ in range(4)]
        for _ in range(2)
    ]


def _totals(r, n):
    wet = r.choice((0.3, 0.6, 0.9, 1.0))
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.05:
            out.append(None)
        elif r.random() < wet:
            out.append(round(10 ** r.uniform(-1, 2), 3))
        else:
            out.append(0.0)
    return out


def generate(r, index, tier):
    if index % 60 == 30:  # few but large samples for small deviations
        return {
            'mode': 'counts', 'hourly': True, 'levels': 5, 'per_level': r.random() < 0.5, 'days': LARGE,
            'stats': r.choice(('random', 'sample', 'branch')), 'seed': r.getrandbits(32),
            'stream': r.getrandbits(32), 'seasons': 1, 'calls': 1, 'via': r.choice(('station', 'direct')),
        }
    x = r.random()
    if x < 0.66:
        hourly = r.random() < 0.8
        levels = 5 if hourly else r.choice((9, 9, 9, 10, 11))
        n = r.choice((1, 2, 3, 5, 9, 14)) if hourly else r.choice((1, 2, 3))
        per_level = r.random() < 0.6
        rules = [_rule(r) for _ in range(levels)] if per_level else [_rule(r)] * levels
        return {
            'mode': 'forced', 'hourly': hourly, 'levels': levels, 'per_level': per_level,
            'start': gen.start_date(r), 'totals': _totals(r, n), 'rules': rules,
            'thresholds': [round(10 ** r.uniform(-1.5, 1.5), 4) * math.pi / 3 for _ in range(levels)],
            'via': r.choice(('station', 'disagg_prec', 'direct')) if hourly else 'direct',
            'draws': {
                'kind': r.choice(('uniform', 'extreme', 'points', 'zero', 'top', 'alternate')),
                'seed': r.getrandbits(32), 'rate': r.choice((0.05, 0.3, 0.9)),
            },
        }
    if x < 0.88:
        hourly = r.random() < 0.8
        per_level = r.random() < 0.6
        return {
            'mode': 'counts', 'hourly': hourly, 'levels': 5 if hourly else 9,
            'per_level': per_level, 'days': r.choice((240, 420)) if hourly else r.choice((24, 40)),
            'stats': r.choice(('random', 'random', 'sample', 'branch', 'calibrated')),
            'seed': r.getrandbits(32), 'stream': r.getrandbits(32),
            'seasons': r.choice((1, 1, 2)) if hourly else 1,
            'calls': r.choice((1, 1, 2)), 'via': r.choice(('station', 'direct')),
        }
    return {
        'mode': 'wind', 'days': r.choice((80, 150, 300)), 'seed': r.getrandbits(32),
        'stream': r.getrandbits(32), 'calls': r.choice((1, 2)), 'via': r.choice(('station', 'direct')),
        'constant': r.random() < 0.3,
    }


# -------------------------------------------------------------------- forced

def _statistics(plan):
    """Statistics objects; the list runs from the finest level to the coarsest."""
    levels = plan['levels']
    if plan['per_level']:
        stats = [
            rule_stats(plan['rules'][l], [plan['thresholds'][l]] * 1) for l in range(levels)
        ]
        return stats[::-1]
    return rule_stats(plan['rules'][0], plan['thresholds'][::-1])


def _run_forced(plan):
    enter()
    import melodist

    out = core.Outcome()
    idx = gen.day_index(plan['start'], len(plan['totals']))
    daily = pd.Series([np.nan if t is None else t for t in plan['totals']], index=idx, dtype=float)
    fine = reference(daily.fillna(0.0), plan['rules'], plan['thresholds'])
    if fine is None:
        out.log('amount at a threshold, not executed')
        return out
    stats = _statistics(plan)
    pts = [0.0, 1.0] + [k / 7 for k in range(1, 7)]
    stream = rng.use(dict(plan['draws'], points=pts))

    def call():
        if plan['via'] == 'station':
            st = melodist.Station(lon=11.0, lat=47.0, timezone=1)
            st.data_daily = pd.DataFrame({'precip': daily})
            st.statistics.precip.update(months=[list(range(1, 13))], stats=[stats])
            st.disaggregate_precipitation(method='cascade')
            return st.data_disagg.precip
        if plan['via'] == 'disagg_prec':
            return melodist.disagg_prec(daily, method='cascade', cascade_options=stats)
        return melodist.disagg_prec_cascade(daily, stats, hourly=plan['hourly'], level=max(9, plan['levels']))

    ok, res = legit(out, call, 'cascade')
    out['steps'], out['days'] = stream.n, len(daily)
    if plan['draws']['kind'] != 'uniform':
        out.fault('draws:' + plan['draws']['kind'], stream.n)
    out['nontrivial'] = stream.n > 0
    out.probe('extreme draw', stream.extreme)
    out.probe('one outcome, five-minute' if not plan['hourly'] else 'one outcome, hourly')
    out.probe('per-level statistics', plan['per_level'])
    if ok:
        compare(out, daily, np.asarray(res, float), fine, plan)
        out['interleavings'].append(core.digest(np.round(np.asarray(res, float), 4).tolist()))
    out.log('forced', plan['via'], plan['levels'], stream.n, core.digest(np.round(np.asarray(res, float), 4).tolist()) if ok else 'raised')
    return out


def compare(out, daily, res, fine, plan):
    per_day = 24 if plan['hourly'] else 288
    n = len(daily)
    if len(res) != n * per_day:
        return out.fail('time-steps', '%d values' % len(res))
    res = res.reshape(n, per_day)
    fine = fine.reshape(n, -1)
    for d in range(n):
        total = daily.iloc[d]
        if np.isnan(total) or total == 0:
            continue
        # rain that has fallen by the end of every reported step
        got = np.cumsum(res[d])
        have = np.concatenate([[0.0], np.cumsum(fine[d])])
        at = np.arange(1, per_day + 1) * (fine.shape[1] / per_day)
        if plan['hourly']:
            lo = hi = np.interp(at, np.arange(len(have)), have)
        else:  # an interval may be reported in any step it overlaps
            lo, hi = have[np.floor(at + 1e-9).astype(int)], have[np.ceil(at - 1e-9).astype(int)]
        slack = 2e-3 * total
        bad = np.flatnonzero(~((got >= lo - slack) & (got <= hi + slack)))
        if len(bad):
            s = bad[0]
            return out.fail(
                'impossible-outcome', 'day %d (total %r), step %d: rain so far %.5f, only %.5f to %.5f is possible'
                % (d, total, s, got[s], lo[s], hi[s]),
            )


# -------------------------------------------------------------------- counts

def _count_stats(plan, season):
    import melodist

    g = gen.np_rng('c12', plan['seed'], season)
    levels = plan['levels']

    def one(level_limits):
        c = melodist.cascade.CascadeStatistics()
        kind = plan['stats']
        if kind == 'sample':
            c.fill_with_sample_data()
        else:
            if kind == 'branch':  # one branch only: isolates a single draw per interval
                p = np.zeros((2, 4, 3))
                p[..., 0] = g.uniform(0.2, 0.8, size=(2, 4))
                p[..., 1] = 1 - p[..., 0]
            else:
                p = g.dirichlet([2.0] * 3, size=(2, 4))
            c.p01, c.p10, c.pxx = p[..., 0].copy(), p[..., 1].copy(), p[..., 2].copy()
            c.wxx = np.moveaxis(g.dirichlet([1.0] * 7, size=(2, 4)), 2, 0).copy()
        c.threshold = np.array(level_limits, float)
        return c

    base = float(g.choice([3.0, 8.0]))
    limits = [base * math.pi / 3 / 2.0 ** (l * 0.6) for l in range(levels)]  # coarse to fine
    if plan['stats'] == 'calibrated':
        n = 24 * 120
        wet = np.repeat(g.random(n // 4) < 0.4, 4)
        rain = np.where(wet & (g.random(n) < 0.8), g.gamma(0.7, 2.0, n) + 0.1, 0.0)
        obs = pd.DataFrame({'precip': rain}, index=pd.date_range('2012-01-01', periods=n, freq='h'))
        if plan['hourly']:
            stats = melodist.build_casc(obs, hourly=True, avg_stats=not plan['per_level'])[0]
            if isinstance(stats, list):
                return stats, [s.threshold[0] for s in stats[::-1]]
            return stats, list(stats.threshold[:levels][::-1])
        stats = one(limits[::-1])
        return stats, limits
    if plan['per_level']:
        stats = [one([limit]) for limit in limits]
        return stats[::-1], limits
    return one(limits[::-1]), limits


def _pattern(g, n):
    """Daily totals: spells of one to four wet days separated by dry days."""
    out = [0.0]
    while len(out) < n:
        out += (10 ** g.uniform(-0.3, 1.6, size=int(g.choice([1, 1, 2, 3, 4])))).round(3).tolist()
        out += [0.0] * int(g.choice([1, 1, 2]))
    out = out[:n]
    out[-1] = 0.0
    return np.array(out)


def decode(daily, res, stats, limits, hourly):
    """Outcomes of every decodable wet interval.

    Yields (level, parent index, class, position, statistics, first-half share).
    """
    depth = 3 if hourly else 5
    fine = res.reshape(len(daily) * 2**depth, -1).sum(axis=1)
    tree = [fine]
    for _ in range(depth):
        tree.insert(0, tree[0].reshape(-1, 2).sum(axis=1))
    found = []
    for l in range(depth):
        v, nxt = tree[l].copy(), tree[l + 1]
        v[v < 1e-9] = 0.0
        kind = positions(v)
        s = stats[len(stats) - 1 - l] if isinstance(stats, list) else stats
        for i in np.flatnonzero(kind >= 0):
            if abs(v[i] - limits[l]) < 1e-6 * limits[l]:
                continue
            found.append((l, i, int(v[i] > limits[l]), int(kind[i]), s, nxt[2 * i] / v[i]))
    return found


def outcome(share):
    if share < 1e-7:
        return '01'
    if share > 1 - 1e-7:
        return '10'
    return min(6, int(share * 7))


def _z(out, cls, hits, expected, variance, what):
    """Flag a sum of independent 0/1 outcomes that is too far from its mean."""
    if variance < 9.0:  # too few for the normal approximation
        if expected == 0 and hits > 0:
            out.fail(cls, '%s: %d times, although impossible' % (what, hits))
        return
    z = (hits - expected) / math.sqrt(variance)
    out.probe('frequency compared')
    if abs(z) > SIGMA:
        out.fail(cls, '%s: %d times, expected %.1f (%.1f standard deviations)' % (what, hits, expected, z))


def _corr(out, cls, a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = np.isfinite(a) & np.isfinite(b)
    a, b = a[ok], b[ok]
    if len(a) < 60:
        return
    out.probe('independence compared')
    z = float((a * b).sum() / math.sqrt(len(a)))
    if abs(z) > SIGMA:
        out.fail(cls, '%s: correlation %.2f over %d pairs' % (what, z / math.sqrt(len(a)), len(a)))


def _run_counts(plan):
    enter()
    import melodist

    out = core.Outcome()
    g = gen.np_rng('c12 days', plan['seed'])
    n = plan['days']
    halves = [list(range(1, 7)), list(range(7, 13))]
    two = plan['seasons'] == 2
    months = halves if two else [list(range(1, 13))]
    if two:
        parts = [
            pd.Series(_pattern(g, n // 2), index=pd.date_range('2013-01-10', periods=n // 2))[:'2013-06-30'].copy(),
            pd.Series(_pattern(g, n // 2), index=pd.date_range('2013-07-10', periods=n // 2))[:'2013-12-31'].copy(),
        ]
        for p in parts:
            p.iloc[0] = p.iloc[-1] = 0.0
    else:
        parts = [pd.Series(_pattern(g, n), index=pd.date_range('2013-01-10', periods=n))]
    made = [_count_stats(plan, k) for k in range(len(parts))]
    stream = rng.use({'kind': 'uniform', 'seed': plan['stream']})
    station = None
    if plan['via'] == 'station' and plan['hourly']:
        station = melodist.Station(lon=11.0, lat=47.0, timezone=1)
        station.data_daily = pd.DataFrame({'precip': pd.concat(parts)})
        station.statistics.precip.update(months=months, stats=[m[0] for m in made])
    elif two:
        parts, made = parts[:1], made[:1]

    def call():
        if station is not None:
            station.disaggregate_precipitation(method='cascade')
            res = station.data_disagg.precip
            return [
                res[str(p.index[0].date()):str(p.index[-1].date())].to_numpy(float) for p in parts
            ]
        return [
            np.asarray(melodist.disagg_prec_cascade(p, m[0], hourly=plan['hourly'], level=9), float)
            for p, m in zip(parts, made)
        ]

    rounds = []
    for _ in range(plan['calls']):
        ok, res = legit(out, call, 'cascade')
        if not ok:
            return out
        rounds.append(res)
    out['steps'] = stream.n
    out['days'] = sum(len(p) for p in parts) * plan['calls']
    out.probe('random decision', stream.n)
    out['nontrivial'] = stream.n > 0
    out.probe('several seasons', len(parts) > 1)
    out.probe('several calls', plan['calls'] > 1)

    rows = []  # (call, season, level, interval, class, position, stats, outcome)
    for c, res in enumerate(rounds):
        for k, (p, m, v) in enumerate(zip(parts, made, res)):
            per_day = 24 if plan['hourly'] else 288
            if len(v) != len(p) * per_day or not np.isfinite(v).all():
                out.fail('time-steps', '%d values for %d days' % (len(v), len(p)))
                return out
            for l, i, b, t, s, share in decode(p.to_numpy(), v, m[0], m[1], plan['hourly']):
                rows.append((c, k, l, i, b, t, s, outcome(share)))

    counts(out, rows)
    independence(out, rows, plan)
    seen = {}
    for row in rows:
        key = '%d%d%d%d:%s' % (row[1], row[2], row[4], row[5], row[7] if row[7] in ('01', '10') else 'xx')
        seen[key] = seen.get(key, 0) + 1
    out['interleavings'].append(core.digest(seen))
    out.log('counts', plan['via'], plan['hourly'], plan['per_level'], plan['stats'], stream.n, core.digest(seen))
    return out


NAMES = ('starting', 'enclosed', 'ending', 'isolated')


def counts(out, rows):
    cells = {}
    for c, k, l, i, b, t, s, o in rows:
        cells.setdefault((k, l, b, t), (s, []))[1].append(o)
    pooled = {}
    for (k, l, b, t), (s, os) in sorted(cells.items(), key=lambda x: x[0]):
        p = {'01': s.p01[b, t], '10': s.p10[b, t], 'xx': s.pxx[b, t]}
        name = 'season %d level %d %s %s' % (k, l + 1, ('below', 'above')[b], NAMES[t])
        kinds = ['xx' if o not in ('01', '10') else o for o in os]
        for what, prob in p.items():
            prob = min(max(float(prob), 0.0), 1.0)
            e, var = len(os) * prob, len(os) * prob * (1 - prob)
            hits = kinds.count(what)
            _z(out, 'branch-frequency', hits, e, var, '%s: %s' % (name, what))
            for pool in (('all', b, t, what), ('level', l, what)):
                q = pooled.setdefault(pool, [0, 0.0, 0.0])
                q[0], q[1], q[2] = q[0] + hits, q[1] + e, q[2] + var
        both = [o for o in os if o not in ('01', '10')]
        w = s.wxx[:, b, t]
        total = float(np.sum(w))
        if total < 0.99:
            continue
        for j in range(7):
            prob = min(max(float(w[j]) / total, 0.0), 1.0)
            e, var = len(both) * prob, len(both) * prob * (1 - prob)
            hits = both.count(j)
            _z(out, 'weight-frequency', hits, e, var, '%s: weight class %d' % (name, j))
            q = pooled.setdefault(('weight', b, t, j), [0, 0.0, 0.0])
            q[0], q[1], q[2] = q[0] + hits, q[1] + e, q[2] + var
            q = pooled.setdefault(('weights', j), [0, 0.0, 0.0])
            q[0], q[1], q[2] = q[0] + hits, q[1] + e, q[2] + var
    for pool, (hits, e, var) in sorted(pooled.items(), key=lambda x: str(x[0])):
        _z(out, 'pooled-frequency', hits, e, var, 'pooled %s' % (pool,))


def _scores(rows):
    """Standardised scores with mean 0 and variance 1 under the given probabilities."""
    branch, side = {}, {}
    for c, k, l, i, b, t, s, o in rows:
        p01, p10, pxx = (float(x[b, t]) for x in (s.p01, s.p10, s.pxx))
        # order the outcomes second half, first half, both
        x = {'01': 0, '10': 1}.get(o, 2)
        mean = p10 + 2 * pxx
        var = p10 + 4 * pxx - mean**2
        if var > 0.02:
            branch[(c, k, l, i)] = (x - mean) / math.sqrt(var)
        if o not in ('01', '10'):
            w = s.wxx[:, b, t] / np.sum(s.wxx[:, b, t])
            j = np.arange(7)
            m = float((w * j).sum())
            v = float((w * j * j).sum()) - m * m
            if v > 0.05:
                side[(c, k, l, i)] = (o - m) / math.sqrt(v)
    return branch, side


def independence(out, rows, plan):
    branch, side = _scores(rows)

    def pairs(a, b, step):
        keys = [(x, step(x)) for x in a if step(x) in b]
        return [a[x] for x, _ in keys], [b[y] for _, y in keys]

    for name, q in (('branch', branch), ('weight', side)):
        for lag in (1, 2, 3):
            _corr(out, 'intervals-dependent', *pairs(q, q, lambda x: (x[0], x[1], x[2], x[3] + lag)),
                  '%s, intervals %d apart' % (name, lag))
        for lag in (1, 2, 7):
            for l in (1, 2):
                _corr(out, 'days-dependent', *pairs(
                    {x: y for x, y in q.items() if x[2] == l}, q,
                    lambda x: (x[0], x[1], x[2], x[3] + lag * 2**x[2])),
                    '%s, days %d apart, level %d' % (name, lag, l + 1))
        _corr(out, 'levels-dependent', *pairs(q, q, lambda x: (x[0], x[1], x[2] + 1, 2 * x[3])),
              '%s, interval and its first half' % name)
        _corr(out, 'levels-dependent', *pairs(q, q, lambda x: (x[0], x[1], x[2] + 1, 2 * x[3] + 1)),
              '%s, interval and its second half' % name)
        _corr(out, 'calls-dependent', *pairs(q, q, lambda x: (x[0] + 1, x[1], x[2], x[3])),
              '%s, same interval in two calls' % name)
        _corr(out, 'seasons-dependent', *pairs(q, q, lambda x: (x[0], x[1] + 1, x[2], x[3])),
              '%s, same place in two seasons' % name)
    _corr(out, 'draws-dependent', *pairs(side, side, lambda x: (x[0], x[1], x[2], x[3] - 1)), 'weights of neighbours')
    _corr(out, 'draws-dependent', *pairs(side, branch, lambda x: (x[0], x[1], x[2], x[3] + 1)),
          'weight and branch of the next interval')


# ---------------------------------------------------------------------- wind

def _run_wind(plan):
    enter()
    import melodist

    out = core.Outcome()
    g = gen.np_rng('c12 wind', plan['seed'])
    idx = pd.date_range('2013-02-01', periods=plan['days'])
    mean = np.full(len(idx), 2.0) if plan['constant'] else g.uniform(0.2, 12.0, len(idx))
    daily = pd.Series(mean, index=idx)
    stream = rng.use({'kind': 'uniform', 'seed': plan['stream']})
    st = melodist.Station(lon=11.0, lat=47.0, timezone=1)
    st.data_daily = pd.DataFrame({'wind': daily})

    def call():
        if plan['via'] == 'station':
            st.disaggregate_wind(method='random')
            return np.asarray(st.data_disagg.wind, float)
        return np.asarray(melodist.disaggregate_wind(daily, method='random'), float)

    series = []
    for _ in range(plan['calls']):
        ok, v = legit(out, call, 'random wind')
        if not ok:
            return out
        if len(v) != 24 * len(daily) or not np.isfinite(v).all() or (v < 0).any():
            out.fail('time-steps', 'invalid wind values')
            return out
        u = np.exp(-((v.reshape(-1, 24) / mean[:, None]) ** (1 / 0.3)))
        series.append(u)
    out['steps'], out['days'] = stream.n, len(daily) * plan['calls']
    out.probe('random decision', stream.n)
    out['nontrivial'] = stream.n > 0
    out.probe('wind distribution')
    u = np.concatenate([s.ravel() for s in series])
    _uniform(out, u, 'all hours')
    for h in range(0, 24, 6):
        _uniform(out, np.concatenate([s[:, h:h + 6].ravel() for s in series]), 'hours from %d' % h)
    x = [(s - 0.5) * math.sqrt(12) for s in series]
    for s in x:
        flat = s.ravel()
        for lag in (1, 2, 3, 12, 23, 24, 25, 48, 168):
            if lag < len(flat):
                _corr(out, 'hours-dependent', flat[:-lag], flat[lag:], 'hours %d apart' % lag)
        day = s.mean(axis=1) * math.sqrt(24)
        _corr(out, 'days-dependent', day[:-1], day[1:], 'daily means')
        spread = (s**2).sum() / s.size
        if abs(day.var() - 1) > SIGMA * 1.6 * math.sqrt(2 / len(day)) + 0.02:
            out.fail('hours-dependent', 'variance of daily means %.2f, expected 1 (%.2f)' % (day.var(), spread))
    for a, b in zip(x, x[1:]):
        _corr(out, 'calls-dependent', a.ravel(), b.ravel(), 'two calls')
    if len(np.unique(np.round(u, 12))) < 0.99 * len(u):
        out.fail('hours-dependent', 'only %d different values in %d' % (len(np.unique(np.round(u, 12))), len(u)))
    out['interleavings'].append(core.digest(np.round(u[:200], 6).tolist()))
    out.log('wind', plan['via'], len(u), core.digest(np.round(u[:50], 6).tolist()))
    return out


def _uniform(out, u, what):
    """Kolmogorov-Smirnov distance to the uniform distribution."""
    u = np.sort(u)
    n = len(u)
    i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    out.probe('distribution compared')
    if d * math.sqrt(n) > 3.8:  # probability below 1e-12
        out.fail('wind-distribution', '%s: distance %.3f over %d values' % (what, d, n))


def execute(plan):
    fn = {'forced': _run_forced, 'counts': _run_counts, 'wind': _run_wind}[plan['mode']]
    return core.isolated(fn, plan)


def shrink(plan):
    if plan['mode'] != 'forced':
        if plan.get('calls', 1) > 1:
            yield dict(plan, calls=1)
        if plan.get('seasons', 1) > 1:
            yield dict(plan, seasons=1)
        if plan['via'] == 'station':
            yield dict(plan, via='direct')
        return
    n = len(plan['totals'])
    for i in range(n):
        if n > 1:
            yield dict(plan, totals=plan['totals'][:i] + plan['totals'][i + 1:])
    if plan['via'] != 'direct':
        yield dict(plan, via='direct')
    for i, t in enumerate(plan['totals']):
        if t not in (0.0, None):
            yield dict(plan, totals=plan['totals'][:i] + [0.0] + plan['totals'][i + 1:])
    if plan['draws']['kind'] != 'uniform':
        yield dict(plan, draws=dict(plan['draws'], kind='uniform'))
    if plan['per_level']:
        for l in range(plan['levels']):
            flat = [['10'] * 4, ['10'] * 4]
            if plan['rules'][l] != flat:
                yield dict(plan, rules=plan['rules'][:l] + [flat] + plan['rules'][l + 1:])
