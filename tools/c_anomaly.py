"""S22 (events) and S23 (anomaly detectors)."""
import json, random
from vlib import *


def _lib():
    import timeseria.datastructures as d
    return d


def series_of(rng, n, kind=None, labels=None):
    """A series of n items of which only the shape matters."""
    d = _lib()
    from timeseria.units import TimeUnit
    kind = kind or rng.choice(['point', 'point', 'slot', 'day'])
    tz = rng.choice(['UTC', 'Europe/Rome', 'America/New_York'])
    labels = labels or rng.choice([['a'], ['a', 'b'], None])
    s = d.TimeSeries()
    step = rng.choice([60, 900, 3600])
    base = rng.choice([0, 1600000000 // 3600 * 3600])
    if kind == 'day':
        from propertime.utils import dt as mkdt
        start = d.TimePoint(dt=mkdt(2023, 3, 20, tz=tz))
    for k in range(n):
        data = [rng.randint(-5, 5) for _ in range(2)] if labels is None else {l: rng.randint(-5, 5) for l in labels}
        if kind == 'point':
            s.append(d.DataTimePoint(t=base + k * step, tz=tz, data=data))
        elif kind == 'slot':
            s.append(d.DataTimeSlot(start=d.TimePoint(t=base + k * step, tz=tz), unit=TimeUnit('%ds' % step), data=data))
        else:
            x = d.DataTimeSlot(start=start, unit=TimeUnit('1D'), data=data)
            start = x.end
            s.append(x)
    return travelled(s)


def observe_events(s):
    out = []
    for it in s:
        ix = dict(it.data_indexes)
        an, ev = ix.pop('anomaly', None), ix.pop('anomaly_event', None)
        span = (it.start.t, it.end.t, str(it.unit)) if hasattr(it, 'start') else (it.t,)
        out.append(dict(anomaly=opt(an), event=opt(ev), rest=repr((type(it).__name__, span, str(it.tz), it.data, sorted(ix.items(), key=str)))))
    return out


def mark(s, rng, thr, p, g, replace, inplace, site, defaults=False):
    from timeseria.models.anomaly_detectors import AnomalyDetector
    before = observe_events(s)
    kw = dict(index_treshold=thr, min_persistence=p, max_gap=g, replace_index=replace, inplace=inplace)
    if defaults:
        kw = {k: v for k, v in kw.items() if v != dict(index_treshold=1.0, min_persistence=2, max_gap=2, replace_index=False, inplace=False)[k]}
    e, r = guarded(lambda: AnomalyDetector.mark_events(s, **kw))
    return dict(before=before, thr=num(thr), p=p, g=g, replace=replace, inplace=inplace, err=e, out=[] if e else observe_events(r), after=observe_events(s),
                same=r is s, site=site)


def replay_events(job):
    n, b = job
    rng = random.Random(n)
    s = series_of(rng, len(b['a']))
    thr = rng.choice([1.0, 1, .5, .9])
    for it, x in zip(s, b['a']):
        it.data_indexes['anomaly'] = rng.choice([thr, 1]) if x else rng.choice([0, thr / 2, thr - .125])
        if rng.random() < .3:
            it.data_indexes['data_loss'] = rng.choice([None, 0, .5])
    return dict(steps=[mark(s, rng, thr, b['p'], b['g'], rng.random() < .3, rng.random() < .3, 'exported')], tag='mark_events')


def rand_events(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 4, 8, 15, 30, 60])
    s = series_of(rng, n)
    thr = rng.choice([1.0, 1.0, .5, .25, .75])
    dens = rng.choice([.05, .2, .5, .8, 1])
    v = 0
    for it in s:
        if rng.random() < .5:
            v = rng.choice([thr, 1, (1 + thr) / 2]) if rng.random() < dens else rng.choice([0, thr / 2, thr * 15 / 16])
        it.data_indexes['anomaly'] = v
        if rng.random() < .3:
            it.data_indexes['data_loss'] = rng.choice([None, 0, .5])
    steps = []
    for _ in range(3):
        st = mark(s, rng, thr, rng.randint(0, 6), rng.randint(0, 5), False, rng.random() < .3, 'random', defaults=True)
        steps.append(st)
        if rng.random() < .2:
            # a view is marked as the series it is of
            thr = rng.choice([1.0, .5])
    st = mark(s, rng, thr, 2, 2, True, rng.random() < .5, 'random', defaults=True)
    steps.append(st)
    return dict(steps=steps, tag='mark_events', seed=seed)


def check_S22(c):
    _lib()
    r = c.model('EventsMC', env=dict(N='8' if QUICK else '11'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('EventsTrace', pmap(replay_events, list(enumerate(b[:4000 if QUICK else 40000]))), label='exported_behaviours')
    c.validate('EventsTrace', pmap(rand_events, [SEED * 1000003 + i for i in range(1500 if QUICK else 20000)]))
    c.assumptions += ['every item has an anomaly index (an item without one is refused)', 'persistences and gaps are not negative']


# -- detectors -------------------------------------------------------------------------------------------

def toy(how, w):
    """A model of which the specification knows the predictions."""
    from timeseria.models.forecasters import Forecaster
    from timeseria.models.reconstructors import Reconstructor

    def mean(q):
        return sum(q) / len(q)
    if how == 'between':
        class Toy(Reconstructor):
            window = w

            @Reconstructor.fit_function
            def fit(self, series, verbose=False):
                pass

            @Reconstructor.predict_function
            def predict(self, series, from_i, to_i):
                return {l: [mean([series[from_i - w].data[l], series[from_i + w].data[l]])] for l in series.data_labels()}
    else:
        class Toy(Forecaster):
            window = w

            @Forecaster.fit_function
            def fit(self, series, verbose=False, target=None, with_context=False):
                if with_context:
                    self.data['context_data_labels'] = [l for l in series.data_labels() if l != target]
                    self.data['target_data_labels'] = [target]

            @Forecaster.predict_function
            def predict(self, series, steps=1, context_data=None):
                if how == 'other':
                    other = self.data['context_data_labels'][0]
                    return {l: context_data[other] for l in self.data['target_data_labels']}
                if how == 'last':
                    r = {l: series[len(series) - 1].data[l] for l in series.data_labels()}
                elif how == 'far':
                    r = {l: series[len(series) - w].data[l] for l in series.data_labels()}
                else:
                    r = {l: mean([series[len(series) - j].data[l] for j in range(1, w + 1)]) for l in series.data_labels()}
                return r if w != 2 else {l: [v] for l, v in r.items()} if how == 'far' else [r]
    return Toy


def observe_items(s, labels=None):
    out = []
    for it in s:
        ix = dict(it.data_indexes)
        an, loss = ix.pop('anomaly', None), ix.pop('data_loss', None)
        slot = hasattr(it, 'start')
        rest = repr((type(it).__name__, str(it.tz), str(it.unit) if slot else '', sorted((k, v) for k, v in ix.items() if v is not None)))
        enc = num if labels is not None else opt
        out.append(dict(t=[num(it.start.t), num(it.end.t)] if slot else [num(it.t)], x={str(l): enc(v) for l, v in it.data.items()}, loss=opt(loss), rest=rest, idx=opt(an, millionths)))
    return out


def millionths(v):
    try:
        return max(-2000000, min(2000000, round(float(v) * 1000000)))
    except Exception:
        return -1999999


def inputs(s):
    return [{k: v for k, v in o.items() if k != 'idx'} for o in observe_items(s, True)]


def detector_rows(rng, n, labels, vals, lossy=.15, ramp=0):
    rows = []
    for j in range(n):
        loss = rng.choice([1, 1, .75, .5]) if rng.random() < lossy else rng.choice([0, .25, 'absent', None])
        rows.append(({l: rng.choice(vals) + ramp * j for l in labels}, loss, {'event': .5} if rng.random() < .15 else {}))
    return rows


def degenerate(d, labels):
    return any(len(set(d.data['prediction_errors'].get(l, [0]))) < 3 for l in labels)


BOUNDS = [dict(k='avg'), dict(k='avg'), dict(k='max'), dict(k='max'), dict(k='num', v=[0, 1]), dict(k='num', v=[1, 2]), dict(k='num', v=[1, 1]), dict(k='num', v=[5, 2]), dict(k='num', v=[6, 1]), dict(k='sigma', v=[1, 1]),
          dict(k='sigma', v=[2, 1]), dict(k='sigma', v=[3, 2]), dict(k='sigma', v=[3, 1])]


def bound_arg(rng, b):
    if b['k'] == 'num':
        v = b['v'][0] / b['v'][1]
        return int(v) if v == int(v) and rng.random() < .5 else v
    return {'avg': 'avg_err', 'max': 'max_err', 'adh': 'adherence/%s' % b.get('v', [1])[0], 'sigma': '%s%s' % (b.get('v', [0, 1])[0] / b.get('v', [0, 1])[1], rng.choice(['_sigma', 'sig']))}[b['k']]


def rand_config(rng, labels, norm, signed=True):
    lo, hi = rng.choice(BOUNDS), rng.choice(BOUNDS + [dict(k='max'), dict(k='num', v=[6, 1])] + ([dict(k='adh', v=[rng.choice([10, 1000]), 1])] if norm else []))
    if rng.random() < .3:
        lo, hi = dict(k='avg'), dict(k='max')
    return dict(lo=lo, hi=hi, form=rng.choice(['straight', 'straight', 'lin', 'log', 'log']) if norm else 'straight', cat=rng.choice([[]] * 3 + [[[1, 2]], [[1, 4]], [[1, 1]], [[0, 1]]]),
                strategy=rng.choice(['max', 'max', 'min', 'avg', 'first']), loss=rng.choice([[1, 1], [1, 1], [1, 2], [3, 4]]),
                details=rng.choice([[], [], ['pred', 'err', 'adh'], ['pred'], ['err', 'adh'], ['adh']]))


def clamp(v):
    return 0 if v < 0 else 1 if v > 1 else v


def lin_form(x, y, xs, xe, ys, ye):
    return clamp(1 - (y - ye) / (ys - ye))


def log_form(x, y, xs, xe, ys, ye):
    import math
    return clamp((math.log10(y) - math.log10(ys)) / (math.log10(ye) - math.log10(ys)))


def straight(x, y, xs, xe, ys, ye):
    return (x - xs) / (xe - xs)


def symmetric(d, s, kw):
    """Whether both bounds have the same density (they are at the same distance from the centre): the index is not defined between them."""
    seen = []

    def form(x, y, xs, xe, ys, ye):
        seen.append(abs(float(ys) - float(ye)) <= 1e-6 * abs(float(ys)))
        return 0
    guarded(lambda: d.apply(s, **dict(kw, index_type=form, multivariate_index_strategy='max')))
    return any(seen)


def detect(d, s, cfg, labels, rng, site, like=(), preds=None):
    """One application, with what is needed to know the index of each label."""
    kw = {}
    if (cfg['lo']['k'], cfg['hi']['k']) != ('avg', 'max') or rng.random() < .5:
        kw['index_bounds'] = [bound_arg(rng, cfg['lo']), bound_arg(rng, cfg['hi'])]
    if cfg['form'] != 'log':
        kw['index_type'] = straight if cfg['form'] == 'straight' else 'lin'
    if cfg['cat']:
        kw['threshold'] = cfg['cat'][0][0] / cfg['cat'][0][1]
    if cfg['loss'] != [1, 1]:
        kw['data_loss_threshold'] = cfg['loss'][0] / cfg['loss'][1]
    if cfg['details']:
        kw['details'] = True if len(cfg['details']) == 3 and rng.random() < .7 else list(cfg['details'])
    if cfg['strategy'] != 'max':
        kw['multivariate_index_strategy'] = (lambda q: q[0]) if cfg['strategy'] == 'first' else cfg['strategy']
    if cfg['form'] != 'straight' and symmetric(d, s, kw):
        cfg = dict(cfg, form='straight')
        kw['index_type'] = straight
    before = inputs(s)
    if rng.random() < .25:
        kw['verbose'] = True             # (which only prints)
    e, r = guarded(lambda: silently(d.apply, s, **kw))
    out = [] if e else observe_items(r)

    def of_labels(**more):
        """The index of each label, item by item."""
        got = []

        def strategy(q):
            got.append([millionths(v) for v in q])
            return q[0]
        ee, rr = guarded(lambda: silently(d.apply, s, **dict(kw, multivariate_index_strategy=strategy, **more)))
        if ee:
            return []
        if len(labels) == 1:
            return [o['idx'] for o in observe_items(rr)]
        q = iter(got)
        return [next(q, []) if o['idx'] else [] for o in observe_items(rr)]
    idxs = [] if e else of_labels()
    forms = [] if e or cfg['form'] == 'straight' else of_labels(index_type=lin_form if cfg['form'] == 'lin' else log_form)
    return dict(op='apply', before=before, after=inputs(s), preds=preds or [], cfg={k: v for k, v in cfg.items()}, err=e, refusable=cfg['form'] == 'log' and e == 'ValueError', out=out, idxs=idxs, forms=forms, like=list(like), site=site)


def prepare(d, s, inplace, site):
    before = inputs(s)
    e, r = guarded(lambda: silently(d.preprocess, s, inplace=inplace, **(dict(verbose=True) if len(s) % 3 == 0 else {})))
    return dict(op='prepare', before=before, after=inputs(s), err=e, out=[] if e else inputs(r), same=r is s, inplace=inplace, site=site), r


def fitted(rng, how, w, metric, labels, dist, vals, b, stored=True, n=None, ramp=0):
    from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
    f = b.series(detector_rows(rng, n or rng.randint(2 * w + 8, 2 * w + 20), labels, vals, ramp=ramp))
    d = ModelBasedAnomalyDetector(model_class=toy(how, w))
    kw = dict(error_metric=metric, error_distribution=dist)
    if how == 'other':
        kw['with_context'] = True
    if not stored:
        kw['store_errors'] = False
    before = inputs(f)
    if rng.random() < .25:
        kw['verbose'] = True
    e, _ = guarded(lambda: silently(d.fit, f, **kw))
    step = dict(op='fit', err=e, after=inputs(f), site='fit')
    errors = {l: [num(v) for v in d.data['prediction_errors'][l]] for l in labels} if not e and stored else {'~': []}
    loc = {l: thousandths(d.data['error_distributions_params'][l]['loc']) for l in labels} if not e else {'~': 0}
    scale = {l: thousandths(d.data['error_distributions_params'][l]['scale']) for l in labels} if not e else {'~': 0}
    return d, f, step, dict(dist=dist, scale=scale, how=how, w=w, recon=how == 'between', metric=metric, labels=labels, fit=before, stored=stored, errors=errors, kept=kept(d, labels, not e and stored), loc=loc)


def kept(d, labels, ok):
    return {l: dict(a=[num(v) for v in d.data['actual_values'][l]], p=[num(v) for v in d.data['predicted_values'][l]]) for l in labels} if ok else {'~': 0}


def thousandths(v):
    return int(max(-1e6, min(1e6, float(v))) * 1000 // 1)


def constant(how, w, metric, rows, labels):
    """Whether the errors of fitting would all be (nearly) the same: there is no distribution then."""
    return any(len({r[0][l] for r in rows}) < 2 for l in labels)


def rand_detector(seed):
    from c_predict import build
    rng = random.Random(seed)
    how = rng.choice(['last', 'mean', 'far', 'between', 'other', 'observed'])
    if how == 'observed':
        return rand_periodic(rng, seed)
    w = rng.choice([1, 2, 4]) if how == 'mean' else rng.choice([1, 1, 2, 3])
    labels = ['a', 'b'] if how == 'other' else rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c']])
    metric = rng.choice(['E', 'E', 'AE', 'PE', 'APE'])
    vals = (1, 2, 4, 8) if metric in ('PE', 'APE') else rng.choice([(0, 1, 2, 3, 5, 8, -4), (1, 2, 3), (0, 0, 0, .5, 1, 7)])
    dist = rng.choice(['norm', 'norm', 'laplace', 'logistic', 'gennorm'])
    b = build(rng)
    stored = rng.random() < .9
    ramp = 0
    if metric in ('E', 'AE') and how == 'last' and rng.random() < .7:
        # nearly constant errors, far from zero
        ramp, vals, stored, dist = 4096, rng.choice([(0, 1, 2), (0, .5, 1)]), True, rng.choice(['norm', 'laplace', 'logistic'])
    d, f, fit, head = fitted(rng, how, w, metric, labels, dist, vals, b, stored, ramp=ramp)
    steps = [fit]
    if not fit['err'] and stored and degenerate(d, labels):
        # there is no distribution to score with, but what was kept is still as specified
        return dict(head, steps=steps, tag='detector', seed=seed)
    other = None
    if not fit['err']:
        for _ in range(2):
            cfg = rand_config(rng, labels, dist != 'gennorm')
            if ramp:
                cfg['lo'], cfg['hi'] = rng.choice([dict(k='num', v=[ramp, 1]), dict(k='num', v=[ramp - 1, 1]), dict(k='avg')]), rng.choice([dict(k='num', v=[ramp + 3, 1]), dict(k='adh', v=[rng.choice([10, 1000]), 1]), dict(k='adh', v=[10, 1])])
            if not stored:
                cfg['lo'], cfg['hi'] = rng.choice([dict(k='num', v=[1, 1]), dict(k='num', v=[0, 1])]), rng.choice([dict(k='num', v=[6, 1]), dict(k='sigma', v=[3, 1])])
            like = []
            for _ in range(rng.choice([1, 2, 3])):
                more = vals + rng.choice([(), (16, -16) if metric in ('E', 'AE') else (16,)])
                s = f if rng.random() < .3 else b.series(detector_rows(rng, rng.randint(0 if rng.random() < .1 else w + 2, 2 * w + 16), labels, more, rng.choice([0, .1, .3]), ramp), at=rng.choice([None, b.start + 7 * 86400 if b.unit[0] != 'cal' else None]))
                if len(s) < 2:
                    continue
                site = 'apply'
                if rng.random() < .3:
                    how_prep = rng.choice(['own', 'own', 'other'])
                    who = d
                    if how_prep == 'other':
                        other = other or fitted(rng, 'far' if how != 'far' else 'last', w + 1 if how not in ('between', 'other') else w, metric, labels, 'norm', vals, b)[0] if how not in ('between', 'other') else None
                        who = other if other is not None and other.fitted else d
                    st, p = prepare(who, s, rng.random() < .5, 'prepare')
                    if st['err']:
                        steps.append(st)
                        break
                    steps.append(st)
                    s, site = p, 'preprocessed-' + how_prep
                steps.append(detect(d, s, cfg, labels, rng, site, like))
                if not steps[-1]['err']:
                    like.append(len(steps))
    return dict(head, steps=steps, tag='detector', seed=seed)


def rand_periodic(rng, seed):
    """The detectors of the library: their predictions are observed, everything else is as specified."""
    from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector
    from c_predict import build, saved_and_loaded
    b = build(rng, calendar=False)
    recon = rng.random() < .5
    cls = PeriodicAverageReconstructorAnomalyDetector if recon else PeriodicAverageAnomalyDetector
    per = rng.randint(2, 4)
    win = rng.choice([None, None, rng.randint(1, 5)]) if not recon else None
    vals = rng.choice([(1, 2, 4, 8), (1, 2, 3)])
    metric = rng.choice(['E', 'AE', 'PE', 'APE'])
    f = b.series(detector_rows(rng, rng.randint(per * 4, per * 6), ['a'], vals, 0))
    d = cls(window=win) if win else cls()
    before, stale = inputs(f), None
    if rng.random() < .3:
        # what was preprocessed before fitting again is to be scored as if it was not
        g = b.series(detector_rows(rng, per * 5, ['a'], (3, 5, 20), 0))
        stale = b.series(detector_rows(rng, 5 * per + 6, ['a'], vals, .1))
        if guarded(lambda: (d.fit(g, periodicity=rng.choice([per, per + 1]), error_metric=metric, error_distribution='norm'), d.preprocess(stale, inplace=True)))[0]:
            stale = None
    e, _ = guarded(lambda: d.fit(f, periodicity=per, error_metric=metric, error_distribution='norm'))
    flat = not e and degenerate(d, ['a'])
    w = 1 if recon else win or per
    rounded = rounded_
    head = dict(dist='norm', scale={'a': thousandths(d.data['error_distributions_params']['a']['scale']) if not e else 0}, how='observed', w=w, recon=recon, metric=metric, labels=['a'], fit=before, stored=True, kept=kept(d, ['a'], not e), errors={'a': [rounded(v) for v in d.data['prediction_errors']['a']]} if not e else {'~': []}, loc={'a': thousandths(d.data['error_distributions_params']['a']['loc']) if not e else 0})
    return dict(head, steps=[dict(op='fit', err=e, after=inputs(f), site='fit')] + (periodic_steps(rng, b, d, f, vals, saved_and_loaded, stale) if not e and not flat else []), tag='detector', seed=seed)


def rounded_(v):
    return num(round(float(v) * 1000) / 1000)


def periodic_steps(rng, b, d, f, vals, saved_and_loaded, stale):
    steps = []
    w, recon = (1 if type(d).__name__.startswith('PeriodicAverageR') else d.model.window), type(d).__name__.startswith('PeriodicAverageR')
    if rng.random() < .3:
        d = saved_and_loaded(d, rng)
    for _ in range(2):
        cfg = rand_config(rng, ['a'], True)
        while 'sigma' in (cfg['lo']['k'], cfg['hi']['k']):
            cfg = rand_config(rng, ['a'], True)
        like = []
        for turn in range(2):
            s = stale if stale is not None and turn == 0 else f if rng.random() < .3 else b.series(detector_rows(rng, rng.randint(w + 3, 3 * w + 12), ['a'], vals + rng.choice([(), (16,)]), rng.choice([0, .2])), at=b.start + rng.choice([0, 7 * 86400]))
            e, r = guarded(lambda: d.apply(s.duplicate() if s is not stale else b.series([(dict(it.data), it.data_loss if it.data_loss is not None else 'absent', {}) for it in s]), index_type=straight, details=['pred'], data_loss_threshold=2))
            if e:
                steps.append(dict(op='apply', before=inputs(s), after=inputs(s), preds=[], cfg=cfg, err=e, refusable=False, out=[], idxs=[], forms=[], like=[], site='predictions'))
                return steps
            preds = [{'a': rounded_(it.data['a_pred'])} for it in r]
            preds = [{'a': [0, 1]}] * (w + 1) + preds + [{'a': [0, 1]}] * w
            site = 'periodic'
            if s is stale:
                site = 'preprocessed-before-fitting-again'
            elif rng.random() < .4:
                st, p = prepare(d, s, rng.random() < .5, 'prepare')
                steps.append(st)
                if st['err']:
                    return steps
                s, site = p, 'periodic-preprocessed'
            steps.append(detect(d, s, cfg, ['a'], rng, site, like, preds[:max(len(s), w + 1)]))
            if not steps[-1]['err']:
                like.append(len(steps) + 1)
    return steps


_toys = {}


def replay_detector(job):
    n, b = job
    from c_predict import Build
    rng = random.Random(n)
    how, w = b['how'], b['w']
    bld = Build('point', ('phys', 600), 'UTC', 1600000000 // 600 * 600)
    if (how, w) not in _toys:
        for seed in range(10):
            d, f, fit, head = fitted(random.Random(seed), how, w, 'E', ['a'], 'norm', (1, 2, 4, 7), bld)
            if not fit['err'] and not degenerate(d, ['a']):
                break
        _toys[how, w] = (d, fit, head)
    d, fit, head = _toys[how, w]
    s = bld.series([({'a': v}, rng.choice([1, 1.0]) if lost else rng.choice([0, .25, 'absent']), {}) for v, lost in zip(b['v'], b['lost'])])
    cfg = rand_config(rng, ['a'], True)
    cfg['loss'] = rng.choice([[1, 1], [1, 2]])
    return dict(head, steps=[fit, detect(d, s, cfg, ['a'], rng, 'exported')], tag='detector')


def check_S23(c):
    _lib()
    import timeseria.models.anomaly_detectors
    r = c.model('DetectorMC', env=dict(N='6' if QUICK else '7'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('DetectorTrace', pmap(replay_detector, list(enumerate(b[:600 if QUICK else 12000]))), label='exported_behaviours')
    c.validate('DetectorTrace', [t for t in pmap(rand_detector, [SEED * 1000003 + i for i in range(450 if QUICK else 8000)]) if t])
    c.assumptions += ['the errors of fitting are not all the same, and the distribution fitted on them is not degenerate', 'the centre of the error distribution is observed in the fitted model']
