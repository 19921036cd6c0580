"""S24: cross validation."""
import json, random, statistics
from vlib import *
from c_anomaly import series_of


def position(series, part):
    """Which range of the series a part of it is (-1, -1: not a contiguous one)."""
    ts = [x.t if not hasattr(x, 'start') else x.start.t for x in series]
    ps = [x.t if not hasattr(x, 'start') else x.start.t for x in part]
    if not ps or ps[0] not in ts:
        return -1, -1
    a = ts.index(ps[0])
    if ts[a:a + len(ps)] != ps or [repr(x.data) for x in part] != [repr(x.data) for x in series[a:a + len(ps)]]:
        return -1, -1
    return a, a + len(ps)


def argstr(kw):
    return repr(sorted(kw.items()))


class Recorder:
    """Mixed in a model class, records the calls made on it."""

    def _record(self, op, series, kw, **more):
        a, b = position(self._series, series)
        self._steps.append(dict(dict(op=op, args=argstr(kw), fitted=bool(self.fitted), fresh=True, err='', close=True, scores={'~': [0, 1]}, avg={'~': [0, 1]}, var={'~': [0, 1]}), **dict(more, **{'from': a, 'to': b})))


def toy(updatable, window, scores):
    from timeseria.models.base import Model

    class Toy(Recorder, Model):
        _steps = None

        @Model.fit_function
        def fit(self, series, **kw):
            self._record('fit', series, kw)
            self.data['learned'] = [x.data for x in series]

        @Model.predict_function
        def predict(self, series):
            return None

        @Model.evaluate_function
        def evaluate(self, series, **kw):
            res = {m: v[sum(s['op'] == 'evaluate' for s in self._steps)] for m, v in scores.items()}
            self._record('evaluate', series, kw, scores={m: num(x) for m, x in res.items()})
            return res

    if updatable:
        def fit_update(self, series, **kw):
            self._record('update', series, kw)
        Toy.fit_update = fit_update
    elif updatable is None:
        def fit_update(self, series, **kw):
            raise NotImplementedError('no')
        Toy.fit_update = fit_update
    if window:
        Toy.window = window
    return Toy


def real(name):
    from timeseria.models import PeriodicAverageForecaster, PeriodicAverageReconstructor
    from timeseria.datastructures import TimeSeries
    base = dict(PAF=PeriodicAverageForecaster, PAR=PeriodicAverageReconstructor)[name]

    class Recorded(Recorder, base):
        _steps, _last = None, None

        def fit(self, series, **kw):
            if self._steps is not None:
                self._record('fit', series, kw)
                self._last = (series.materialize() if hasattr(series, 'materialize') else series.duplicate(), kw)
            return base.fit(self, series, **kw)

        def evaluate(self, series, **kw):
            fitted = bool(self.fitted)
            res = base.evaluate(self, series, **kw)
            new = base()
            new.fit(self._last[0], **self._last[1])
            ref = new.evaluate(series.materialize() if hasattr(series, 'materialize') else series.duplicate(), **kw)
            same = set(ref) == set(res) and all(abs(ref[m] - res[m]) <= 1e-9 * max(1, abs(ref[m])) for m in ref)
            self._record('evaluate', series, kw, fresh=same, scores={m: [0, 1] for m in res})
            self._raw.append(res)
            self._steps[-1]['fitted'] = fitted
            return res
    return Recorded


FARGS = ['alpha', 'verbose_mode', 'profit_share', 'fit_order', 'evaluate_it']
EARGS = ['beta', 'limit', 'evaluate_steps', 'fit_it']


def one(rng, n, r, u, w, site, seed=None, kind='toy'):
    s = series_of(rng, n, kind=rng.choice(['point', 'slot', 'day'] if n < 200 else ['point', 'slot']), labels=['a'] if kind != 'toy' else None if rng.random() < .3 else ['a', 'b'])
    if kind == 'toy':
        ms = rng.sample(['RMSE', 'a_MAE', 'x'], rng.randint(1, 3))
        scores = {m: [rng.choice([0, 1, 2, 3, 4, .5, .25, -1]) for _ in range(r + 3)] for m in ms}
        m = toy(u or rng.choice([None, False]), w, scores)()
        fk = {k: rng.choice([1, 'x', None]) for k in rng.sample(FARGS, rng.choice([0, 0, 1, 2]))}
        ek = {k: rng.choice([1, 'x', None]) for k in rng.sample(EARGS, rng.choice([0, 0, 1, 2]))}
    else:
        for k, it in enumerate(s):
            it.data['a'] = [3, 5, 11, 7][k % 4] + rng.randint(0, 2) + k // 5
        m = real(kind)()
        fk = dict(periodicity=4) if rng.random() < .8 else dict(periodicity=2, data_loss_limit=.5)
        ek = dict(steps=[1, 2]) if kind == 'PAR' else rng.choice([{}, dict(error_metrics=['MAE', 'HAE'])])
    m._steps, m._series, m._raw = [], s, []
    kw = {'fit_' + k: v for k, v in fk.items()}
    kw.update({'evaluate_' + k: v for k, v in ek.items()})
    ks = list(kw)
    rng.shuffle(ks)
    kw = {k: kw[k] for k in ks}
    if not (r == 10 and rng.random() < .5):
        kw['rounds'] = r
    part = s
    if rng.random() < .15 and kind == 'toy':
        part = s.view(0, len(s))         # cross validating a view is as cross validating what it is of
    e, res = guarded(lambda: m.cross_validate(part, **kw), seconds=60)
    res = res if not e else {}
    steps = m._steps
    metrics = sorted(scores) if kind == 'toy' else sorted(m._raw[0]) if m._raw else ['~']
    close = True
    avg = {k[:-4]: num(v) for k, v in res.items() if k.endswith('_avg')} or {'~': [0, 1]}
    var = {k[:-6]: num(v * v) for k, v in res.items() if k.endswith('_stdev')} or {'~': [0, 1]}
    if kind != 'toy' and not e:
        for x in metrics:
            v = [q[x] for q in m._raw]
            close = close and abs(res.get(x + '_avg', 1e9) - statistics.mean(v)) < 1e-9 * max(1, abs(statistics.mean(v))) and abs(res.get(x + '_stdev', 1e9) - statistics.stdev(v)) < 1e-6
    if len(res) != 2 * len(metrics):
        close = False if not e else close
    steps.append(dict(op='result', args='', fitted=bool(m.fitted), fresh=True, err=e, close=close, scores={'~': [0, 1]}, avg=avg, var=var, **{'from': 0, 'to': 0}))
    return dict(n=n, r=r, u=bool(u), w=w, metrics=metrics, exact=kind == 'toy', fargs=argstr(fk), eargs=argstr(ek), steps=steps, tag=site, site=site, seed=-1 if seed is None else seed)


def replay_one(job):
    seed, b = job
    return one(random.Random(seed), b['n'], b['r'], b['u'], b['w'], 'exported')


def rand_case(seed):
    rng = random.Random(seed)
    if rng.random() < .25:
        kind = rng.choice(['PAF', 'PAR'])
        n = rng.randint(40, 90)
        return one(rng, n, rng.randint(2, 4), False, 0, kind, seed, kind)
    n = rng.choice([rng.randint(2, 12), rng.randint(12, 60), rng.randint(60, 150)])
    r = rng.randint(2, min(n, 12)) if rng.random() < .8 else min(n, 10)
    if r < 2:
        r = 2
    return one(rng, n, r, rng.random() < .5, rng.choice([0, 0, 1, 2, 3, 7]), 'toy', seed)


def check_S24(c):
    from timeseria.models import PeriodicAverageForecaster
    r = c.model('CrossValidationMC', env=dict(N='12' if QUICK else '20'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('CrossValidationTrace', pmap(replay_one, list(enumerate(b))), label='exported_behaviours')
    c.validate('CrossValidationTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(900 if QUICK else 10000)]))
    c.assumptions += ['from 2 rounds to as many as the items', 'models that can be fitted on each side']
