"""S20, S21 and S25: reconstructions, forecasts and evaluations against spec/Models.tla."""
import json, random, math, datetime, zoneinfo
from vlib import *

DAY = 86400
STARTS = {'UTC': [1600000000 // DAY * DAY, 0], 'Europe/Rome': [1679698800, 1698530400, 1672527600], 'America/New_York': [1678424400, 1667361600], 'Europe/London': [1679788800 - 86400 * 3, 1698534000 - 86400]}   # local midnights, some next to changes of the offset


def _lib():
    import timeseria.datastructures as d
    import timeseria.models.base, timeseria.models.forecasters, timeseria.models.reconstructors
    return d


def when(t, tz):
    return datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(tz))


def dst(t, tz):
    d = when(t, tz).dst()
    return int(d.total_seconds()) if d else 0


def epoch(dt):
    return int(dt.timestamp())


def step_to(t, unit, tz):
    """The next boundary, computed independently of the library."""
    if unit[0] != 'cal':
        return t + unit[1]
    x = when(t, tz)
    y = (x.replace(tzinfo=None) + datetime.timedelta(days=unit[1])) if unit[2] == 'D' else x.replace(tzinfo=None, year=x.year + x.month // 12, month=x.month % 12 + 1)
    return epoch(y.replace(tzinfo=zoneinfo.ZoneInfo(tz)))


def unit_name(unit):
    if unit[0] == 'cal':
        return '%d%s' % (unit[1], unit[2])
    return '%ds' % unit[1] if unit[1] % 3600 else '%dh' % (unit[1] // 3600)


class Build:
    """A series, described by kind, unit, zone and the rows (values by label, loss)."""

    def __init__(self, kind, unit, tz, start):
        self.kind, self.unit, self.tz, self.start = kind, unit, tz, start

    def times(self, n, at=None):
        out, t = [], self.start if at is None else at
        for _ in range(n):
            e = step_to(t, self.unit, self.tz)
            out.append((t, e if self.kind == 'slot' else t))
            t = e
        return out

    def series(self, rows, at=None, cls=None):
        d = _lib()
        from timeseria.units import TimeUnit
        s = d.TimeSeries()
        u = TimeUnit(unit_name(self.unit))
        for (t, e), (x, loss, ix) in zip(self.times(len(rows), at), rows):
            kw = {}
            if loss != 'absent':
                kw['data_loss'] = loss
            if ix:
                kw['data_indexes'] = dict(ix)
            if self.kind == 'slot':
                s.append(d.DataTimeSlot(start=d.TimePoint(t=t, tz=self.tz), unit=u, data=anyorder(dict(x), t // 60 + 7 * len(s)), **kw))
            else:
                s.append(d.DataTimePoint(t=t, tz=self.tz, data=anyorder(dict(x), t // 60 + 7 * len(s)), **kw))
        return travelled(s)

    @property
    def seconds(self):
        return self.unit[1] * DAY if self.unit[0] == 'cal' else self.unit[1]


def build(rng, calendar=True, dst_ok=False, months=False):
    tz = rng.choice(list(STARTS)) if not dst_ok else rng.choice(['Europe/Rome', 'America/New_York', 'Europe/London'])
    start = rng.choice(STARTS[tz])
    kind = rng.choice(['point', 'slot'])
    if kind == 'slot' and calendar and rng.random() < .45:
        if months and rng.random() < .4:
            tz, start = 'Europe/Rome', 1672527600
            return Build(kind, ('cal', 1, 'M'), tz, start)
        return Build(kind, ('cal', 1, 'D'), tz, start)
    return Build(kind, ('phys', rng.choice([60, 600, 900, 1800, 3600])), tz, start)


def seconds(t):
    return int(t) if t == int(t) and abs(t) < 2**31 else -1


def count(t, tz, unit):
    """The number of the calendar unit (days since the epoch, months since year 0, divided by how many of them the unit has)."""
    if unit[-1:] not in ('D', 'M') or t < 0:
        return 0
    x = when(t, tz)
    return ((x.date() - datetime.date(1970, 1, 1)).days if unit[-1] == 'D' else x.year * 12 + x.month - 1) // int(unit[:-1])


def observe(s, flag, enc=num):
    out = []
    for it in s:
        ix = dict(it.data_indexes)
        f, loss = ix.pop(flag, None), ix.pop('data_loss', None)
        slot = hasattr(it, 'start')
        t, e = (seconds(it.start.t), seconds(it.end.t)) if slot else (seconds(it.t),) * 2
        kind = repr((type(it).__name__, str(it.tz), str(it.unit) if slot else ''))
        others = repr(sorted((k, v) for k, v in ix.items() if v is not None))
        out.append(dict(t=t, e=e, dst=dst(t, str(it.tz)), n=count(t, str(it.tz), str(it.unit) if slot else ''), x={str(l): enc(v) for l, v in it.data.items()} if isinstance(it.data, dict) else {'~': [9, 0]}, loss=opt(loss), flag=opt(f),
                        rest=kind + others, kind=kind, others=others))
    return out


def blank(t, e, tz, labels, unit):
    return dict(t=t, e=e, dst=dst(t, tz), n=count(t, tz, unit_name(unit)), x={l: [0, 1] for l in labels}, loss=[])


def rows_of(rng, n, labels, lossy=.3, vals=(0, 1, 2, 3, 5, 8, -4), runs=True):
    rows, lost = [], False
    for _ in range(n):
        lost = rng.random() < (.55 if lost and runs else lossy)
        loss = rng.choice([1, 1, .75, .5]) if lost else rng.choice([0, 0, .25, 'absent', None])
        rows.append(({l: rng.choice(vals) for l in labels}, loss, {'anomaly': .5} if rng.random() < .15 else {}))
    return rows


NOFIT = dict(limit=[], P={'~': dict(res=1, per=1, da=False, cal=False)}, fit=[], w={'~': 0})


def trace(how, steps, site, **kw):
    return dict(dict(NOFIT, how=how, steps=steps, site=site, tag=site), **kw)


# -- reconstructors ------------------------------------------------------------------------------------

def stairs(form, window):
    from timeseria.models.reconstructors import Reconstructor

    class Stairs(Reconstructor):

        @Reconstructor.predict_function
        def predict(self, series, from_i, to_i):
            base = series[from_i - 1].data if from_i > 0 else {l: 7 for l in series.data_labels()}
            if form == 'dict':
                return {l: [base[l] + 10 * (j + 1) for j in range(to_i - from_i + 1)] for l in series.data_labels()}
            return [{l: base[l] + 10 * (j + 1) for l in series.data_labels()} for j in range(to_i - from_i + 1)]
    Stairs.window = window
    return Stairs()


def fit_items(s):
    return [{k: v for k, v in o.items() if k in ('t', 'dst', 'n', 'x', 'loss')} for o in observe(s, '~')]


def periods(rng, b):
    return rng.randint(1, 4)


def fit_reconstructor(rng, b, per=None, n=None, lossy=.2):
    """A fitted periodic average reconstructor, and what the specification needs of it."""
    from timeseria.models.reconstructors import PeriodicAverageReconstructor
    per = per or periods(rng, b)
    da = b.unit[0] != 'cal' and b.tz != 'UTC' and rng.random() < .4
    f = b.series(rows_of(rng, n or rng.randint(per + 1, per * 6), ['a'], lossy=lossy))
    lim = rng.choice([1.0, 1.0, .5, None])
    kw = dict(periodicity=per)
    if da:
        kw['dst_affected'] = True
    if lim != 1.0 or rng.random() < .5:
        kw['data_loss_limit'] = lim
    if rng.random() < .2:
        kw['offset_method'] = 'average'
    m = PeriodicAverageReconstructor()
    e, v = guarded(lambda: m.fit(f, **kw))
    return m, e, dict(fit=fit_items(f), limit=opt(lim), P={'a': dict(res=b.seconds, per=per, da=da, cal=b.unit[0] == 'cal')}), f


def saved_and_loaded(m, rng):
    import tempfile, shutil
    p = tempfile.mkdtemp(prefix='model-', dir=scratch())
    m.save(p + '/m')
    r = type(m).load(p + '/m')
    shutil.rmtree(p)
    return r


def reconstruct(m, s, thr, inplace, form=None):
    before = observe(s, 'data_reconstructed')
    kw = {}
    if thr != 1.0:
        kw['data_loss_threshold'] = thr
    if inplace:
        kw['inplace'] = True
    e, r = guarded(lambda: m.apply(s, **kw))
    return dict(op='reconstruct', before=before, thr=num(thr), inplace=inplace, err=e, out=[] if e or r is None else observe(r, 'data_reconstructed'), after=observe(s, 'data_reconstructed'))


def rand_reconstruct(seed):
    rng = random.Random(seed)
    how = rng.choice(['linear', 'stairs', 'reconstructor', 'reconstructor'])
    b = build(rng, months=how != 'linear')
    labels = ['a'] if how == 'reconstructor' else rng.choice([['a'], ['a', 'b'], ['c', 'a', 'b']])
    extra = {}
    if how == 'linear':
        from timeseria.models.reconstructors import LinearInterpolationReconstructor
        m = LinearInterpolationReconstructor()
    elif how == 'stairs':
        m = stairs(rng.choice(['dict', 'list']), rng.choice([0, 1, 2]))
    else:
        m, e, extra, f = fit_reconstructor(rng, b)
        if e:
            return trace(how, [dict(op='reconstruct', before=observe(f, '~'), thr=[1, 1], inplace=False, err='fit: ' + e, out=[], after=observe(f, '~'))], 'fit', **extra)
        if rng.random() < .2:
            m = saved_and_loaded(m, rng)
    steps = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(2, 14)
        at = b.times(rng.randint(1, 9))[-1][0]
        rows = rows_of(rng, n, labels)
        if rng.random() < .75:
            for z in (0, -1):
                rows[z] = (rows[z][0], 0, rows[z][2])
        s = b.series(rows, at)
        steps.append(reconstruct(m, s, rng.choice([1.0, 1.0, .75, .5]), rng.random() < .35))
        if not steps[-1]['err'] and steps[-1]['inplace'] and rng.random() < .5:
            steps.append(reconstruct(m, s, .5, False))            # and again
    return trace(how, steps, how, seed=seed, **extra)


def replay_reconstruct(job):
    n, h = job
    rng = random.Random(n)
    b = build(rng)
    if rng.random() < .4:
        b.start -= b.start % b.seconds if b.unit[0] != 'cal' else 0
    rows = [({'a': r['v'], 'b': r['v'] ** 2 - k}, 1 if r['b'] else 0, {}) for k, r in enumerate(h)]
    how = rng.choice(['linear', 'stairs', 'reconstructor'])
    extra = {}
    if how == 'linear':
        from timeseria.models.reconstructors import LinearInterpolationReconstructor
        m = LinearInterpolationReconstructor()
    elif how == 'stairs':
        m = stairs(rng.choice(['dict', 'list']), 1)
    else:
        rows = [({'a': x['a']}, l, i) for x, l, i in rows]
        from timeseria.models.reconstructors import PeriodicAverageReconstructor
        per = rng.randint(1, 3)
        m = PeriodicAverageReconstructor()
        f = b.series(rows)
        e, v = guarded(lambda: m.fit(f, periodicity=per))
        extra = dict(fit=fit_items(f), limit=[[1, 1]], P={'a': dict(res=b.seconds, per=per, da=False, cal=b.unit[0] == 'cal')})
        if e and not (len(rows) < 2 or all(r[1] for r in rows)):
            raise RuntimeError('not fitted: %s' % e)
        if e:
            return None
    return trace(how, [reconstruct(m, b.series(rows), 1.0, rng.random() < .3)], how, **extra)


# -- forecasters ------------------------------------------------------------------------------------------

def trend(native, parametric, window=None, double=False):
    from timeseria.models.forecasters import Forecaster

    def nxt(rows, labels, k):
        if double:
            return {l: rows[-1][l] * 2 for l in labels}
        return {l: 2 * rows[-1][l] - (rows[-2][l] if len(rows) > 1 else 0) + k for l in labels}

    class Trend(Forecaster):

        if parametric:
            @Forecaster.fit_function
            def fit(self, series):
                self.data['window'] = window

        @Forecaster.predict_function
        def predict(self, series, steps=1):
            labels = series.data_labels()
            rows = [it.data for it in series]
            if native == 'no':
                if steps > 1:
                    raise NotImplementedError('one step only')
                return nxt(rows, labels, len(rows))
            if native == 'one-listed':
                if steps > 1:
                    raise NotImplementedError('one step only')
                return [nxt(rows, labels, len(rows))]
            for _ in range(steps):
                rows.append(nxt(rows, labels, len(rows)))
            return rows[len(rows) - steps:]
    return Trend()


def fit_forecaster(rng, b, labels):
    from timeseria.models.forecasters import PeriodicAverageForecaster
    per = periods(rng, b)
    da = b.unit[0] != 'cal' and b.tz != 'UTC' and rng.random() < .4
    f = b.series(rows_of(rng, rng.randint(per + 1, per * 5), labels, lossy=.15))
    lim = rng.choice([1.0, 1.0, .5, None])
    w = rng.choice([None, None, None, rng.randint(1, 6)])
    m = PeriodicAverageForecaster() if w is None else PeriodicAverageForecaster(window=w)
    kw = dict(periodicity=per)
    if da:
        kw['dst_affected'] = True
    if lim != 1.0:
        kw['data_loss_limit'] = lim
    e, v = guarded(lambda: m.fit(f, **kw))
    if lim is not None and all(x[1] not in (None, 'absent') and x[1] >= lim for x in [(0, it.data_loss) for it in f]):
        return None, e, None, f
    return m, e, dict(fit=fit_items(f), limit=opt(lim), P={l: dict(res=b.seconds, per=per, da=da, cal=b.unit[0] == 'cal') for l in labels}, w={l: w or per for l in labels}), f


def forecast(rng, b, m, s, op, n, inplace=False, labels=()):
    before = observe(s, 'forecast')
    last = before[-1]['t']
    grid = [blank(t, e, b.tz, labels, b.unit) for t, e in b.times(n + 1, last)[1:]]
    st = dict(op=op, before=before, grid=grid, inplace=inplace)
    if op == 'apply':
        kw = dict(inplace=True) if inplace else {}
        e, r = guarded(lambda: m.apply(s, steps=n, **kw) if n > 1 or rng.random() < .5 else m.apply(s, **kw))
        out = [] if e or r is None else observe(r, 'forecast')
    elif op == 'forecast':
        e, r = guarded(lambda: m.forecast(s, steps=n) if n > 1 or rng.random() < .5 else m.forecast(s))
        out = [] if e else observe(r if isinstance(r, list) else [r], 'forecast')
    else:
        e, r = guarded(lambda: m.predict(s, steps=n) if n > 1 or rng.random() < .5 else m.predict(s))
        out = [] if e else [dict(t=0, e=0, dst=0, n=0, x={l: num(v) for l, v in x.items()}, loss=[], flag=[], rest='', kind='', others='') for x in (r if isinstance(r, list) else [r])]
    return dict(st, err=e, out=out, after=observe(s, 'forecast'))


def rand_forecast(seed):
    rng = random.Random(seed)
    how = rng.choice(['trend', 'forecaster', 'forecaster'])
    labels = rng.choice([['a'], ['a', 'b'], ['c', 'a', 'b']])
    b = build(rng, months=True)
    extra = {}
    site = how
    if how == 'trend':
        native, par = rng.choice(['yes', 'no', 'one-listed']), rng.random() < .5
        site = 'trend-%s' % native
        m = trend(native, par)
        if par:
            m.fit(b.series(rows_of(rng, 5, labels)))
    else:
        m, e, extra, f = fit_forecaster(rng, b, labels)
        if m is None:
            return None
        if e:
            g = observe(f, 'forecast')
            return trace('trend', [dict(op='predict', before=g, grid=[], inplace=False, err='fit: ' + e, out=[], after=g)], 'fit')
        if rng.random() < .2:
            m = saved_and_loaded(m, rng)
    steps = []
    for _ in range(rng.randint(1, 3)):
        at = b.times(rng.randint(1, 9))[-1][0]
        size = rng.randint(2, 12)
        s = b.series(rows_of(rng, size, labels, lossy=.1), at)
        op = rng.choice(['apply', 'apply', 'forecast', 'predict'])
        n = rng.choice([1, 1, 2, 3, 5])
        if how == 'trend' and native != 'yes' and op != 'apply':
            n = 1
        if rng.random() < .15 and op != 'apply':
            s = s.view(0, size)
        steps.append(forecast(rng, b, m, s, op, n, op == 'apply' and rng.random() < .35, labels))
        if steps[-1]['err'] == '' and steps[-1]['inplace'] and rng.random() < .6:     # on what was forecasted
            for it in s:
                it.data_indexes.pop('forecast', None)
            steps.append(forecast(rng, b, m, s, op, rng.choice([1, 2]), False, labels))
    return trace(how, steps, site, seed=seed, **extra)


def replay_forecast(job):
    n, h = job
    rng = random.Random(n)
    b = build(rng)
    rows = [({'a': r['v'], 'b': r['v'] ** 2 - k}, 1 if r['b'] else 0, {}) for k, r in enumerate(h)]
    s = b.series(rows)
    how = rng.choice(['trend', 'forecaster'])
    labels = ['a', 'b']
    if len(rows) < 2:
        return None
    if how == 'trend':
        m = trend(rng.choice(['yes', 'no']), False)
        extra = {}
    else:
        from timeseria.models.forecasters import PeriodicAverageForecaster
        per = rng.randint(1, 3)
        m = PeriodicAverageForecaster()
        e, v = guarded(lambda: m.fit(s, periodicity=per))
        if e and not all(r[1] for r in rows):
            raise RuntimeError('not fitted: %s' % e)
        if e:
            return None
        extra = dict(fit=fit_items(s), limit=[[1, 1]], P={l: dict(res=b.seconds, per=per, da=False, cal=b.unit[0] == 'cal') for l in labels}, w={l: per for l in labels})
    return trace(how, [forecast(rng, b, m, s, rng.choice(['apply', 'predict', 'forecast']) if how != 'trend' else 'apply', rng.choice([1, 2, 3]), False, labels)], how, **extra)


# -- evaluations -----------------------------------------------------------------------------------------

def rand_evaluate(seed):
    rng = random.Random(seed)
    b = build(rng)
    if rng.random() < .55:
        labels = rng.choice([['a'], ['a', 'b'], ['c', 'a', 'b']])
        double = rng.random() < .3
        w = rng.randint(1, 5)
        m = trend(rng.choice(['yes', 'no']), True, w, double)
        n = rng.randint(w + 1, 25)
        rows = rows_of(rng, n, labels, vals=(1, 2, 4, 5, -2) if not double else (1, 2, 4, 8, 16, .5))
        s = b.series(rows)
        m.fit(b.series(rows_of(rng, 4, labels)))
        mets = rng.sample(['MALE', 'HALE'], rng.randint(1, 2)) if double else rng.sample(['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE'], rng.randint(1, 4))
        pun = rng.sample(['LE'] if double else ['E', 'PE'], rng.randint(0, 1 if double else 2))
        kw = dict(error_metrics=mets)
        if not double and rng.random() < .2:
            kw, mets = {}, ['RMSE', 'MAE']
        rs = rng.random() < .4
        if rs:
            kw['return_results_series'] = True
            if pun:
                kw['punctual_error_metrics'] = pun
        enc = (lambda v: num(math.log2(v)) if v > 0 else [1, 0]) if double else num
        if rng.random() < .2 and not rs:
            s = s.view(0, n)
        before = observe(s, '~', enc)
        if rng.random() < .3:
            kw['verbose'] = True         # (which only prints)
        e, r = guarded(lambda: silently(m.evaluate, s, **kw))
        r = {} if e else r
        series = []
        punctual = []
        if rs and not e:
            ser = r.pop('series', None)
            if ser is not None:
                oth = {'_E': num, '_PE': num, '_AE': num, '_APE': num, '_LE': lambda v: num(v / math.log(2)), '_ALE': lambda v: num(v / math.log(2))}
                ob = []
                for it in ser:
                    x = {}
                    for l, v in it.data.items():
                        f = [g for z, g in oth.items() if l.endswith(z)]
                        x[l] = (f[0] if f else enc)(v)
                    ob.append(dict(t=seconds(it.start.t if hasattr(it, 'start') else it.t), x=x))
                series = [ob]
            punctual = (pun or []) + [dict(MAE='AE', MAPE='APE', MALE='ALE')[x] for x in mets if x in ('MAE', 'MAPE', 'MALE')]
        res = {k: num(v * v if k.endswith('_RMSE') else v / math.log(2) if double else v) for k, v in r.items()} or {'~': [0, 1]}
        st = dict(op='evaluate', before=before, start=w, metrics=mets, punctual=punctual, err=e, res=res, series=series, after=observe(s, '~', enc))
        return trace('double' if double else 'trend', [st], 'forecaster', seed=seed)
    how = rng.choice(['linear', 'stairs', 'reconstructor'])
    extra, per = {}, None
    if how == 'linear':
        from timeseria.models.reconstructors import LinearInterpolationReconstructor
        m, w = LinearInterpolationReconstructor(), 1
        if b.unit[0] == 'cal':   # days of 23 and 25 hours give values with too large denominators
            b = Build(b.kind, ('phys', 3600), b.tz, b.start)
    elif how == 'stairs':
        w = rng.choice([0, 1, 2, 3])
        m = stairs(rng.choice(['dict', 'list']), w)
    else:
        per = rng.randint(1, 3)
        m, e, extra, f = fit_reconstructor(rng, b, per, n=rng.randint(per + 1, per * 3), lossy=0)
        w = 1
        if e:
            return None
    n = rng.randint(2, 18)
    s = b.series(rows_of(rng, n, ['a'], lossy=.12, vals=(1, 2, 4, 5, -2) if how != 'reconstructor' else (1, 2, 3)))
    form = rng.choice(['auto', 'int', 'list', 'list'])
    steps = dict(auto=[1, per] if per else [1, 2, 3])
    arg = None
    if form == 'auto':
        steps = steps['auto']
    elif form == 'int':
        arg = rng.randint(1, 3)
        steps = list(range(1, arg + 1))
    else:
        arg = steps = rng.sample([1, 2, 3, 4], rng.randint(1, 2))
    mets = rng.sample(['RMSE', 'MAE', 'MAPE'], rng.randint(1, 3))
    thr = rng.choice([1.0, .5])
    limit = rng.choice([None, None, 3, 8])
    kw = dict(metrics=mets)
    if arg is not None:
        kw['steps'] = arg
    if limit:
        kw['limit'] = limit
    if thr != 1.0:
        kw['data_loss_threshold'] = thr
    before = observe(s, '~')
    e, r = guarded(lambda: m.evaluate(s, details=True, **kw))
    e2, r2 = guarded(lambda: m.evaluate(s, **kw))
    mean = e == e2
    if not e and not e2:
        mean = set(r2) == set(mets)
        for x in mets:
            v = [r['%s_%d_steps' % (x, k)] for k in set(steps) if '%s_%d_steps' % (x, k) in r]
            mean = mean and bool(v) and x in r and x in r2 and abs(r[x] - sum(v) / len(v)) < 1e-9 * max(1, abs(r[x])) and r[x] == r2[x]
    r = {} if e else r
    res = {k: num(v * v if k.startswith('RMSE') else v) for k, v in r.items() if k.endswith('_steps')} or {'~': [0, 1]}
    st = {'op': 'evaluate-gaps', 'before': before, 'window': w, 'thr': num(thr), 'limit': [limit] if limit else [], 'steps': steps, 'metrics': mets, 'err': e, 'res': res, 'mean': bool(mean), 'after': observe(s, '~')}
    return trace(how, [st], 'evaluate-' + how, seed=seed, **extra)


# -- the checks ---------------------------------------------------------------------------------------------

def _run(c, gen, replay, n):
    _lib()
    r = c.model('ModelsMC', env=dict(N='4' if QUICK else '5'))
    if replay:
        b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
        c.rng.shuffle(b)
        c.validate('ModelsTrace', pmap(replay, list(enumerate(b))), label='exported_behaviours')
    c.validate('ModelsTrace', pmap(gen, [SEED * 1000003 + i for i in range(n if QUICK else n * 12)]))
    c.assumptions += ['values are small rationals, times are exactly representable']


def check_S20(c):
    _run(c, rand_reconstruct, replay_reconstruct, 1800)

def check_S21(c):
    _run(c, rand_forecast, replay_forecast, 1800)

def check_S25(c):
    _run(c, rand_evaluate, None, 2500)
