"""C11: documented daily guarantees hold at every point of every session."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import core, gen, points, session
from ..child import describe, enter
from .c06 import EXC
from .c08 import brief

ID = 'C11'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 8000}
RULE = (
    'a run is one session with failed calls, injected failures, recalibrations, restores and simulated '
    'random streams; every successful disaggregation is judged against the daily data; non-trivial = at '
    'least one judged result; distinct by event log'
)
STATES = 'digests of judged hourly results'
REAL = ['melodist', 'numpy', 'pandas', 'scipy', 'files in a scratch directory']
STUBS = [
    "the bit generator behind numpy's global RandomState and unseeded Generators",
    'outgoing calls of melodist code chosen to fail',
]
TECHNIQUE = 'generated session histories with injected failures, invariants after every operation'
LEVEL_NOTE = (
    'Exploration of sampled histories, locations and daily data. Days with less than five hours of '
    'daylight are excluded from the shape guarantees of temperature and radiation.'
)
ASSUMPTIONS = [
    'time zone fits the longitude to within half an hour',
    'tmin < mean < tmax on every complete day',
    'seasons of precipitation statistics cover all months of the data',
]


def generate(r, index, tier):
    ops = session.history(
        r, r.randint(12, 24), weights={'dis': 18, 'set_daily': 2, 'calc': 4}, polar=0.15,
    )
    faults = {}
    for i, o in enumerate(ops):
        if o['op'] in ('dis', 'calc', 'set_daily') and i > 2 and r.random() < 0.15:
            faults[str(i)] = [r.choice((0, 1, 2, 3, 5, 8, 13, 30, 80)), r.choice(sorted(EXC))]
    return {'ops': ops, 'faults': faults}


def day_length(days, lat):
    """Independent, rough day length in hours."""
    dec = np.deg2rad(23.44) * np.sin(2 * np.pi * (days.dayofyear.to_numpy() - 80.5) / 365.25)
    x = -np.tan(np.deg2rad(lat)) * np.tan(dec)
    return 24 / np.pi * np.arccos(np.clip(x, -1, 1))


class Judge:
    def __init__(self, out, what, daily, loc, stats, res):
        self.out, self.what = out, what
        self.D, self.loc, self.stats = daily, loc, stats
        self.n = len(daily)
        self.res = res
        self.v = res.to_numpy(float).reshape(self.n, 24)
        dl = day_length(daily.index, loc['lat'])
        dark = dl < 5.0
        self.lit = ~(dark | np.roll(dark, 1) | np.roll(dark, -1))
        self.judged = 0

    def col(self, name):
        return self.D[name].to_numpy(float)

    def bad(self, cls, d, text):
        self.out.fail(cls, '%s on %s: %s' % (self.what, self.D.index[d].date(), text))

    def close(self, cls, d, got, want, tol=1e-6):
        self.judged += 1
        if not abs(got - want) <= tol * max(1.0, abs(want)):
            self.bad(cls, d, 'got %r, want %r' % (got, want))

    def all_nan(self, d):
        self.judged += 1
        if not np.isnan(self.v[d]).all():
            self.bad('missing-filled', d, self.v[d])

    def finite(self, d):
        if not np.isfinite(self.v[d]).all():
            self.bad('missing', d, self.v[d])
            return False
        return True

    def course(self, frame, month):
        """Column of a monthly course if complete, else None."""
        if frame is None or month not in frame.columns:
            return None
        c = frame[month].to_numpy(float)
        return c if np.isfinite(c).all() else None

    # -- variables
    def temp(self, kw):
        m = kw['method']
        tmin, tmax, tmean = self.col('tmin'), self.col('tmax'), self.col('temp')
        shape_ok = abs(self.loc['lat']) <= 58
        for d in range(self.n):
            row = self.v[d]
            if m in ('sine_mean', 'mean_course_mean'):
                if m == 'sine_mean' and not self.lit[d]:
                    continue
                if np.isnan(tmin[d] + tmax[d] + tmean[d]):
                    self.all_nan(d)
                    continue
                if m == 'mean_course_mean' and self.course(self.stats['temp']['mean_course'], self.D.index[d].month) is None:
                    continue
                if self.finite(d):
                    self.close('temp-mean', d, row.mean(), tmean[d])
                    self.close('temp-range', d, row.max() - row.min(), tmax[d] - tmin[d])
            elif m == 'mean_course_min_max':
                if np.isnan(tmin[d] + tmax[d]):
                    self.all_nan(d)
                    continue
                if self.course(self.stats['temp']['mean_course'], self.D.index[d].month) is None:
                    continue
                if self.finite(d):
                    self.close('temp-min', d, row.min(), tmin[d])
                    self.close('temp-max', d, row.max(), tmax[d])
            else:
                if not self.lit[d]:
                    continue
                p, q = max(d - 1, 0), min(d + 1, self.n - 1)
                if np.isnan(tmin[d]) and np.isnan(tmax[d]):
                    if shape_ok:
                        self.all_nan(d)
                    continue
                lo = np.nanmin([tmin[d], tmin[q], np.inf])
                hi = np.nanmax([tmax[d], tmax[p], -np.inf])
                with np.errstate(all='ignore'):
                    if (row < lo - 1e-6).any() or (row > hi + 1e-6).any():
                        # the curve spans two values, either of which may exceed the other
                        lo2 = np.nanmin([lo, tmax[d], tmax[p]])
                        hi2 = np.nanmax([hi, tmin[d], tmin[q]])
                        if (row < lo2 - 1e-6).any() or (row > hi2 + 1e-6).any():
                            self.bad('temp-bounds', d, row)
                if np.isnan(tmin[[p, d, q]]).any() or np.isnan(tmax[[p, d, q]]).any():
                    continue
                if self.finite(d) and shape_ok:
                    self.judged += 1
                    if np.abs(row - tmax[d]).min() > 1e-6:
                        self.bad('temp-max', d, '%r not in %r' % (tmax[d], row))
                    if np.abs(row - tmin[d]).min() > 1e-6:
                        self.bad('temp-min', d, '%r not in %r' % (tmin[d], row))

    def hum(self, kw, temp):
        m, keep = kw['method'], kw['preserve_daily_mean']
        with np.errstate(invalid='ignore'):
            wrong = (self.v < 0) | (self.v > 100)
        if wrong.any():
            self.bad('hum-bounds', int(np.argwhere(wrong)[0][0]), self.v[wrong][:3])
        t = temp.to_numpy(float).reshape(self.n, 24)
        hum, tmin, tmax = self.col('hum'), self.col('tmin'), self.col('tmax')
        hmin, hmax = self.col('hum_min'), self.col('hum_max')
        for d in range(self.n):
            row = self.v[d]
            if m == 'equal':
                if np.isnan(hum[d]):
                    self.all_nan(d)
                elif self.finite(d):
                    self.close('hum-equal', d, row.min(), hum[d])
                    self.close('hum-equal', d, row.max(), hum[d])
                continue
            if m in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation'):
                if np.isnan(tmin[d]):
                    self.all_nan(d)
                    continue
                a0, a1 = (0.0, 1.0) if m == 'minimal' else (self.stats['hum']['a0'], self.stats['hum']['a1'])
                near = [tmin[d]]
                if m == 'linear_dewpoint_variation':
                    near.append(tmin[min(d + 1, self.n - 1)])
                dew = a0 + a1 * np.array(near)
                if np.isfinite(t[d]).all() and ((dew > 180) & (dew < 350)).all():
                    self.finite(d)
            if m == 'min_max':
                if np.isnan(tmin[d] + tmax[d] + hmin[d] + hmax[d]):
                    self.all_nan(d)
                    continue
                if not keep:
                    for h in range(24):
                        if np.isnan(t[d, h]):
                            continue
                        want = hmax[d] + (t[d, h] - tmin[d]) / (tmax[d] - tmin[d]) * (hmin[d] - hmax[d])
                        self.close('hum-min-max', d, row[h], min(max(want, 0.0), 100.0))
            if m == 'minimal' and not keep:
                for h in range(24):
                    if not np.isnan(t[d, h]) and t[d, h] <= tmin[d] + 1e-12:
                        self.close('hum-saturated', d, row[h], 100.0)
            if keep and np.isfinite(row).all() and not np.isnan(hum[d]) and row.min() > 0 and row.max() < 100:
                self.close('hum-mean', d, row.mean(), hum[d])

    def wind(self, kw):
        w = self.col('wind')
        for d in range(self.n):
            row = self.v[d]
            if np.isnan(w[d]):
                self.all_nan(d)
                continue
            if not self.finite(d):
                continue
            if kw['method'] == 'equal':
                self.close('wind-equal', d, row.min(), w[d])
                self.close('wind-equal', d, row.max(), w[d])
            elif kw['method'] == 'cosine':
                self.close('wind-cosine', d, row.mean(), self.stats['wind']['b'] * w[d])
            else:
                self.judged += 1
                if (row < 0).any():
                    self.bad('wind-negative', d, row)

    def precip(self, kw, master=None):
        p = self.col('precip')
        for d in range(self.n):
            row = self.v[d]
            if np.isnan(p[d]):
                self.all_nan(d)
                continue
            if not self.finite(d):
                continue
            if (row < -1e-9).any():
                self.bad('precip-negative', d, row)
            self.close('precip-sum', d, row.sum(), p[d])
            if p[d] == 0 and np.abs(row).max() > 1e-9:
                self.bad('precip-dry', d, row)
            if kw['method'] == 'equal':
                self.close('precip-equal', d, row.max(), p[d] / 24)
            if kw['method'] == 'masterstation':
                m = master.loc[str(self.D.index[d].date())].to_numpy(float)
                want = m / m.sum() * p[d] if m.sum() > 0 else np.full(24, p[d] / 24)
                if not np.allclose(row, want, rtol=1e-6, atol=1e-9):
                    self.bad('precip-master-shape', d, row)

    def glob(self, kw):
        m = kw['method']
        with np.errstate(invalid='ignore'):
            if (self.v < 0).any():
                self.bad('glob-negative', 0, self.v.min())
        g, ssd = self.col('glob'), self.col('ssd')
        tmin, tmax = self.col('tmin'), self.col('tmax')
        for d in range(self.n):
            row = self.v[d]
            if m in ('pot_rad', 'mean_course'):
                if np.isnan(g[d]):
                    self.all_nan(d)
                    continue
                if m == 'pot_rad' and not self.lit[d]:
                    continue
                if m == 'mean_course' and self.course(self.stats['glob']['mean_course'], self.D.index[d].month) is None:
                    continue
                if self.finite(d):
                    self.close('glob-mean', d, row.mean(), g[d], tol=0.011 if g[d] <= 1 else 0.011 / g[d] + 1e-6)
            elif m == 'pot_rad_via_ssd' and self.lit[d]:
                if np.isnan(ssd[d]):
                    self.all_nan(d)
                else:
                    self.finite(d)
            elif m == 'pot_rad_via_bc' and self.lit[d]:
                if np.isnan(tmin[d]) or np.isnan(tmax[d]):
                    self.all_nan(d)
                elif not np.isnan(tmin[min(d + 1, self.n - 1)]):
                    self.judged += 1
            if m != 'mean_course' and self.lit[d] and np.isfinite(row).all() and day_length(self.D.index[d:d + 1], self.loc['lat'])[0] < 20:
                # midnight +/- 1 h is dark away from the polar circles
                if abs(self.loc['lat']) <= 58 and (row[0] > 0 or row[23] > 0):
                    self.bad('glob-night', d, row)


def _run(plan, root):
    enter()
    out = core.Outcome(nontrivial=False)
    w = session.World(root)
    daily = loc = None
    last_temp = None
    for i, op in enumerate(plan['ops']):
        fault = plan['faults'].get(str(i))
        fired = None
        if fault:
            f = points.CallFault()
            f.nth, f.exc = fault[0], EXC[fault[1]]('injected')
            points.install(on_call=f)
            try:
                try:
                    res = ('ok', session.run_op(w, op))
                except BaseException as e:
                    res = ('raise', describe(e))
            finally:
                points.uninstall()
            fired = f.fired
            if fired:
                out.fault(fault[1])
        else:
            res = session.attempt(w, op)
        out.log(brief(op), res[0], fired or '', core.digest(session.numbers(res[1])) if res[0] == 'ok' else '')
        out.probe('failed operation', res[0] == 'raise')
        s = w.st.get(op['st'])
        if op['op'] == 'set_daily':
            d = w.daily(op['daily'])
            d = d.reindex(pd.date_range(d.index[0], d.index[-1], freq='D'))
            # an interrupted assignment may have taken effect or not (C06)
            if res[0] == 'ok' or not session.differ(s.data_daily, d):
                daily, last_temp = d, None
                out['days'] += len(daily)
        if res[0] != 'ok':
            if fired and op['op'] == 'dis' and op['var'] == 'temp':
                last_temp = s.data_disagg.temp.copy()
            continue
        if op['op'] == 'new':
            loc = op['loc']
        if op['op'] == 'set_loc':
            loc = op['loc']
        if op['op'] == 'dis':
            want = pd.date_range(daily.index[0], periods=24 * len(daily), freq='h')
            r = res[1]
            if not isinstance(r, pd.Series) or len(r) != len(want) or not (r.index == want).all():
                out.fail('hours', '%s: result covers %d hours, expected %d' % (brief(op), len(r), len(want)))
                return out
            if op['var'] == 'temp':
                last_temp = r
            j = Judge(out, '%d %s' % (i, op['kw']), daily, loc, session.plain_stats(s.statistics), r)
            if op['var'] == 'hum':
                t = last_temp if last_temp is not None else pd.Series(np.nan, index=want)
                j.hum(op['kw'], t)
            elif op['var'] == 'precip':
                j.precip(op['kw'], w.hourly(op['master']).precip if 'master' in op else None)
            else:
                getattr(j, op['var'])(op['kw'])
            out.probe('judged ' + op['kw']['method'], j.judged > 0)
            out['nontrivial'] = out['nontrivial'] or j.judged > 0
            out['steps'] += j.judged
            out['interleavings'].append(core.digest(session.numbers(r)))
        if op['op'] == 'interp':
            for c, h in op['columns'].items():
                at = res[1][res[1].index.hour == h].to_numpy(float)
                given = daily[c].to_numpy(float)
                ok = ~np.isnan(given)
                if not np.allclose(at[ok], given[ok], rtol=1e-9):
                    out.fail('interpolation', 'given values of %s not kept' % c)
            out.probe('judged interpolation')
        if out.failed:
            return out
    return out


def execute(plan):
    root = tempfile.mkdtemp(prefix='vp-sim-')
    try:
        return core.isolated(_run, plan, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink(plan):
    ops = plan['ops']

    def without(idx):
        keep = [j for j in range(len(ops)) if j not in idx]
        faults = {str(k): plan['faults'][str(j)] for k, j in enumerate(keep) if str(j) in plan['faults']}
        return dict(plan, ops=[ops[j] for j in keep], faults=faults)

    if plan['faults']:
        yield dict(plan, faults={})
    n = len(ops)
    if n > 6:
        for i in range(1, n, 3):
            yield without(set(range(i, min(i + 3, n))))
    for i in range(n - 1, 0, -1):
        yield without({i})
    for i, o in enumerate(ops):
        d = o.get('daily')
        if isinstance(d, dict):
            if d['nan'] or d.get('drop'):
                yield dict(plan, ops=ops[:i] + [dict(o, daily=dict(d, nan=0, drop=[]))] + ops[i + 1:])
            if d['days'] > 1:
                yield dict(plan, ops=ops[:i] + [dict(o, daily=dict(d, days=d['days'] // 2, drop=[]))] + ops[i + 1:])
