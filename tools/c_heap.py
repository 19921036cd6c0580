"""S12 (and the refusals of in-place requests, S02): programs working on several series against spec/Heap.tla."""
import random, datetime, copy
from vlib import *
from c_container import _lib, KN, tzname, canon_unit
import c_operations as ops


def _f(v):
    if isinstance(v, bool) or v is None:
        return repr(v)
    try:
        return '%.10g' % float(v)
    except Exception:
        return repr(v)


def _data(d):
    if isinstance(d, dict):
        return 'D' + ','.join('%s=%s' % (k, _f(v)) for k, v in sorted(d.items(), key=lambda x: str(x[0])))
    if isinstance(d, (list, tuple)):
        return 'L' + ','.join(_f(v) for v in d)
    return 'X' + repr(d)


def content(x, data=None):
    """All that can be observed of an item, as a string."""
    slot = hasattr(x, 'end')
    if slot:
        w = '%r>%r %s/%s/%s %s' % (x.start.t, x.end.t, tzname(x.tz), tzname(x.start.tz), tzname(x.end.tz), canon_unit(x.unit))
    else:
        w = '%r %s' % (x.t, tzname(x.tz))
    ix = ','.join('%s=%s' % (k, _f(v)) for k, v in sorted(x.data_indexes.items()))
    return '%s %s %s {%s}' % (type(x).__name__, w, _data(x.data if data is None else data), ix)


def _safe(fn):
    e, v = guarded(fn)
    if e:
        return e
    if isinstance(v, dict):
        return _data(v)
    return _f(v) if isinstance(v, (int, float)) else str(v)


def attributes(s):
    if not hasattr(s, 'resolution'):
        return 'list %d' % len(s)
    a = [type(s).__name__, str(len(s)), tzname(s.tz) if _safe(lambda: s.tz) != 'AttributeError' else '', _safe(lambda: canon_unit(s.resolution)), _safe(lambda: s.data_labels()), _safe(lambda: s.item_type.__name__)]
    for n in ('avg', 'min', 'max', 'sum', 'guess_resolution'):
        a.append(_safe(getattr(s, n)))
    return '|'.join(a)


class Program:
    def __init__(self, rng, tag):
        self.rng, self.tag = rng, tag
        self.ids, self.objs, self.steps, self.pool = {}, [], [], []

    def id(self, text):
        return self.ids.setdefault(text, len(self.ids) + 1)

    def look(self):
        return [dict(attr=self.id('A' + attributes(s)), cells=[self.id(content(x)) for x in s]) for s in self.objs]

    def step(self, op, kind, o=0, r=0, idx=(), pos=0, err='', want=(), got=(), refused=False):
        self.steps.append(dict(op=op, kind=kind, o=o, r=r, idx=list(idx), pos=pos, err=err, want=list(want), got=list(got), refused=refused, obs=self.look()))

    def new(self, s, op='new'):
        self.objs.append(s)
        self.step(op, 'pure', 0, 1)

    # ---- what a program does --------------------------------------------------------
    def pure(self, o, name, fn):
        """Something which must not change anything; what it gives becomes an object, or is altered to see whether something leaks."""
        err, v = guarded(fn)
        d = _lib()
        if not err and isinstance(v, d.TimeSeries) and len(v) and not any(v is s for s in self.objs):
            self.objs.append(v)
            self.step(name, 'pure', o, 1)
            if len(self.objs) > 5:
                # deep changes to what it gave, which nobody else should see
                self.spoil(len(self.objs))
        else:
            self.step(name, 'pure', o, 0, err=err)
            if not err and v is not None and not isinstance(v, d.TimeSeries):
                guarded(lambda: wreck(v))
                self.step(name, 'result', o, 0)
        return err, v

    def share(self, o, name, fn, idx):
        err, v = guarded(fn)
        if err or v is None or len(v) != len(idx) or any(v is s for s in self.objs):
            self.step(name, 'pure', o, 0, err=err)
        else:
            self.objs.append(v)
            self.step(name, 'share', o, 1, idx=[j + 1 for j in idx])

    def inplace(self, o, name, fn, other, want):
        """other: the non in-place form on a duplicate; want(result, duplicate): the contents to be found."""
        s = self.objs[o - 1]
        e, dup = guarded(lambda: s.duplicate())
        if e:
            return                # after something refused half way
        e0, v0 = guarded(lambda: other(dup))
        w = [self.id(c) for c in want(v0, dup)] if not e0 else []
        err, v = guarded(lambda: fn(s))
        self.step(name, 'inplace', o, 0, err=err, want=w, got=[self.id(content(x)) for x in s] if not err else [], refused=bool(e0))

    def spoil(self, o):
        s = self.objs[o - 1]
        every = self.rng.random() < .6
        j = self.rng.randrange(len(s))
        for x in (list(s) if every else [s[j]]):
            if isinstance(x.data, dict) and x.data:
                x.data[sorted(x.data)[-1]] = self.rng.choice([12345, 12345, 54321 if every else None])
            elif isinstance(x.data, list) and x.data:
                x.data[-1] = self.rng.choice([12345, 12345, 54321 if every else None])
            x.data_indexes['custom'] = 0.125
        if every:
            self.step('items mutation', 'inplace', o, 0)
        else:
            self.step('item mutation', 'mutate', o, 0, pos=j + 1)

    def trace(self):
        return dict(steps=self.steps, tag=self.tag, _ids={v: k for k, v in self.ids.items()})


def wreck(v, depth=0):
    """Alter a result which is not a series, however deep."""
    if depth > 6:
        return
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)) or hasattr(v[k], 'data'):
                wreck(v[k], depth + 1)
            else:
                v[k] = -777
        v['leak'] = -777
    elif isinstance(v, list):
        for k in range(len(v)):
            if isinstance(v[k], (dict, list)) or hasattr(v[k], 'data'):
                wreck(v[k], depth + 1)
            else:
                v[k] = -777
        v.append(-777)
    elif isinstance(v, tuple):
        for x in v:
            wreck(x, depth + 1)
    elif hasattr(v, 'iloc'):
        for j in range(len(v)):
            for k in range(v.shape[1]):
                v.iat[j, k] = -777
    elif hasattr(v, 'data_indexes'):
        wreck(v.data, depth + 1)
        wreck(v.data_indexes, depth + 1)


# ------------------------------------------------------------------ operations

def pures(rng, s, p):
    """(name, function) of operations which must leave everything as it is."""
    from timeseria import operations as op, transformations as tr, storages as st
    d = _lib()
    ls = [str(l) for l in (_list(lambda: s.data_labels()))] or ['a']
    l = rng.choice(ls)
    n = len(s)
    step = 60
    e, r = guarded(lambda: s.resolution)
    try:
        step = float(r.as_seconds(s[0].dt)) if hasattr(r, 'as_seconds') else float(r)
    except Exception:
        pass
    mul = rng.choice([2, 3, 1])
    unit = '%ds' % max(1, int(step * mul))
    path = os.path.join(scratch(), 'h-%d-%d' % (os.getpid(), rng.randrange(10**9)))
    val = lambda: rng.choice([2, -1, 0.5, {l: 3}, {x: 2 for x in ls}])
    peer = rng.choice(p.objs)

    def stored(fn):
        try:
            return fn()
        finally:
            if os.path.exists(path):
                os.remove(path)

    def csv():
        s.to_csv(path)
        return d.TimeSeries.from_csv(path)

    def saved():
        s.save(path)
        return d.TimeSeries.load(path)

    def put():
        st.CSVFileStorage(path).put(s)
        return st.CSVFileStorage(path).get()

    res = [
        ('duplicate', lambda: s.duplicate()), ('deepcopy', lambda: copy.deepcopy(s)),
        ('derivative', lambda: s.derivative(diffs=rng.random() < .3, normalize=rng.random() < .7)), ('diff', lambda: s.diff()),
        ('integral', lambda: s.integral(normalize=rng.random() < .7, c=rng.choice([0, 2]), offset=rng.choice([None, None, 1]))), ('csum', lambda: s.csum(offset=rng.choice([None, 1]))),
        ('normalize', lambda: s.normalize(range=rng.choice([[0, 1], [-1, 1]]))), ('rescale', lambda: s.rescale(val())), ('offset', lambda: s.offset(val())),
        ('mavg', lambda: s.mavg(rng.choice([1, 2, 3]))), ('filter', lambda: s.filter(l)), ('filter', lambda: s.filter(*ls)), ('filter', lambda: op.filter(s, l)),
        ('min', lambda: s.min()), ('max', lambda: s.max()), ('avg', lambda: s.avg()), ('sum', lambda: s.sum(l)),
        ('merge', lambda: op.merge(s, peer)), ('merge', lambda: s.merge(peer)), ('merge', lambda: op.merge(s, s.duplicate(), peer)),
        ('resample', lambda: s.resample(unit)), ('aggregate', lambda: s.aggregate(unit)), ('aggregate', lambda: s.aggregate('1D')),
        ('aggregate', lambda: s.aggregate(unit, operations=[op.min, op.max])), ('resample', lambda: tr.resample(s, unit)),
        ('aggregate', lambda: tr.Aggregator(unit).process(s)), ('resample', lambda: tr.Resampler(unit).process(s)),
        ('as_tz', lambda: s.as_tz(rng.choice(['Europe/Rome', 'UTC', 'Asia/Tokyo']))),
        ('to_dict', lambda: s.to_dict()), ('to_json', lambda: s.to_json()), ('to_df', lambda: s.to_df()), ('data_labels', lambda: s.data_labels()),
        ('from_dict', lambda: d.TimeSeries.from_dict(s.to_dict())), ('from_json', lambda: d.TimeSeries.from_json(s.to_json())), ('from_df', lambda: d.TimeSeries.from_df(s.to_df())),
        ('csv', lambda: stored(csv)), ('save', lambda: stored(saved)), ('put', lambda: stored(put)),
        ('summary', lambda: s.summary()), ('inspect', lambda: s.inspect() and None), ('repr', lambda: repr(s) + str(s)), ('hash', lambda: hash(s)),
        ('plot', lambda: s.plot(html=True)), ('plot', lambda: s.plot(html=True, aggregate_by=2)), ('plot', lambda: s.plot(html=True, data_labels=[l], mark=[s[0].dt if hasattr(s[0], 'dt') else s[0].start.dt, s[-1].dt if hasattr(s[-1], 'dt') else s[-1].end.dt], full_precision=True)),
        ('materialize', lambda: s.view(0, max(1, n - 1)).materialize()), ('view operation', lambda: s.view(0, max(1, n - 1)).rescale(2)), ('view operation', lambda: s.view(0, max(1, n - 1)).derivative()),
        ('view operation', lambda: s.view(0, n).aggregate(unit)), ('view operation', lambda: s.view(0, n).resample(unit)),
        ('eq', lambda: s == peer), ('bool', lambda: bool(s)), ('in', lambda: s[0] in peer), ('index', lambda: s.index(s[-1])), ('iterate', lambda: [x.data_loss for x in s][:0]),
        ('select', lambda: _dup(s.select('%s = %s' % (l, s[rng.randrange(n)].data[l])))),
        ('item labels', lambda: s[0].data_labels()),
    ]
    return res


def _dup(x):
    return [copy.deepcopy(i) for i in x]


def _list(fn):
    e, v = guarded(fn)
    return list(v) if not e and v else []


def added(post):
    """The contents wanted from an operation adding labels next to the ones it is computed on."""
    def want(res, dup):
        out = []
        for x, y in zip(dup, res):
            if isinstance(x.data, dict):
                z = dict(x.data)
                z.update(y.data)
            else:
                z = y.data
            out.append(content(x, z))
        return out
    return want


def plain(res, dup):
    return [content(x) for x in res]


def one_inplace(rng, p, o):
    s = p.objs[o - 1]
    ls = [str(l) for l in _list(lambda: s.data_labels())] or ['a']
    l = rng.choice(ls)
    mine = set(id(x) for x in s)
    alone = not any(id(x) in mine for q in p.objs if q is not s for x in q)
    # what changes the labels of a part of a series leaves that series with items of different labels
    name = rng.choice((['derivative', 'integral', 'csum', 'rename_data_label', 'remove_data_label', 'change_tz'] if alone else []) + ['normalize', 'rescale', 'offset', 'remove_data_index', 'remove_data_loss'])
    if name in ('rename_data_label', 'remove_data_label', 'remove_data_index', 'remove_data_loss'):
        nm = {'rename_data_label': lambda x: x.rename_data_label(l, rng.choice(['new', ls[-1]])), 'remove_data_label': lambda x: x.remove_data_label(l),
              'remove_data_index': lambda x: x.remove_data_index(rng.choice(ops.NAMES)), 'remove_data_loss': lambda x: x.remove_data_loss()}[name]
        err, v = guarded(lambda: nm(s))
        p.step(name, 'inplace', o, 0, err=err, refused=bool(err))
        return
    if name == 'change_tz':
        z = rng.choice(['Europe/Rome', 'UTC', 'Asia/Tokyo', 'America/New_York'])
        if type(s).__name__ == 'TimeSeries':
            p.inplace(o, name, lambda x: x.change_tz(z), lambda x: x.as_tz(z), plain)
        return
    kw = {}
    if name in ('derivative', 'integral') and rng.random() < .4:
        kw['normalize'] = False
    if name == 'integral':
        kw['c'] = rng.choice([0, 1, {l: 2}, {x: 3 for x in ls}])
    if name == 'normalize':
        kw['range'] = rng.choice([[0, 1], [-1, 1], [2, 10]])
        if rng.random() < .3:
            kw['source_range'] = {x: [0, rng.choice([1, 10, 10, 0])] for x in (ls if rng.random() < .8 else ls[:1])}
    if name in ('rescale', 'offset'):
        kw['value'] = rng.choice([2, -1, 0, 0.5, {l: 3}, {x: 2 for x in ls}, None if rng.random() < .2 else 1])
    if isinstance(s[0].data, dict) and name in ('integral', 'csum', 'derivative'):
        want = added(name)
    else:
        want = plain
    p.inplace(o, name, lambda x: getattr(x, name)(inplace=True, **kw), lambda x: getattr(x, name)(**kw), want)


def one_share(rng, p, o):
    s = p.objs[o - 1]
    n = len(s)
    a = rng.randrange(0, n)
    b = rng.randrange(a, n) + 1
    k = rng.choice(['slice', 'slice method', 'view', 'head', 'tail', 'contents', 'copy', 'time slice', 'items'])
    idx = list(range(a, b))
    d = _lib()
    if k == 'slice':
        p.share(o, k, lambda: s[a:b], idx)
    elif k == 'slice method':
        p.share(o, k, lambda: s.slice(from_i=a, to_i=b), idx)
    elif k == 'view':
        if type(s).__name__ == 'TimeSeries':
            p.share(o, k, lambda: s.view(a, b), idx)
    elif k == 'head':
        p.share(o, k, lambda: s.head(b), list(range(0, b)))
    elif k == 'tail':
        p.share(o, k, lambda: s.tail(b), list(range(n - b, n)))
    elif k == 'items':
        p.share(o, k, lambda: d.TimeSeries(*[s[j] for j in idx]), idx)
    elif k == 'time slice':
        e, v = guarded(lambda: s.slice(from_t=s[a].t, to_t=s[b - 1].t))
        m = 0 if e or v is None else len(v)
        p.share(o, k, lambda: s.slice(from_t=s[a].t, to_t=s[b - 1].t), list(range(a, a + m)))
    else:
        p.step(k, 'pure', o, 0, err=guarded(lambda: getattr(s, k)())[0])


def one_append(rng, p, o):
    d = _lib()
    s = p.objs[o - 1]
    if type(s).__name__ != 'TimeSeries':
        return
    if rng.random() < .3 and len(s) > 2 and not any(getattr(x, 'series', None) is s for x in p.objs):
        err, v = guarded(lambda: s.pop())
        p.step('pop', 'append', o, 0, err=err)
        return
    x = s[-1]

    def add():
        data = {k: 4 for k in x.data} if isinstance(x.data, dict) else [4 for _ in x.data]
        if hasattr(x, 'end'):
            s.append(d.DataTimeSlot(start=d.TimePoint(t=x.end.t, tz=x.end.tz), unit=x.unit, data=data, data_loss=0))
        else:
            r = s.resolution
            s.append(d.DataTimePoint(t=x.t + (r if isinstance(r, (int, float)) else 60), tz=x.tz, data=data))
    err, v = guarded(add)
    p.step('append', 'append', o, 0, err=err)


# ------------------------------------------------------------------ models

def model_series(rng, kind, n, period, loss=True):
    d = _lib()
    T = KN['TimeUnit']
    s = d.TimeSeries()
    labels = rng.choice([['a'], ['a', 'b']])
    base = rng.choice([0, 1553900400])
    tz = rng.choice(['UTC', 'Europe/Rome'])
    prev = None
    for j in range(n):
        v = {l: float((j % period) * (k + 1) + rng.choice([0, 0, 0, .5])) for k, l in enumerate(labels)}
        kw = dict(data=anyorder(v, 7 * j))
        if loss:
            kw['data_loss'] = 1 if rng.random() < .12 and 0 < j < n - 1 else 0
        if kind == 'point':
            s.append(d.DataTimePoint(t=base + 3600 * j, tz=tz, **kw))
        else:
            st = d.TimePoint(t=prev.end.t, tz=tz) if prev is not None else d.TimePoint(t=base, tz=tz)
            prev = d.DataTimeSlot(start=st, unit=T('1h'), **kw)
            s.append(prev)
    return travelled(s)


def toy_forecaster():
    if 'Toy' not in KN:
        from timeseria.models.forecasters import Forecaster
        from timeseria.models.base import Model

        class Toy(Forecaster):
            """Without parameters: repeats the last item."""
            window = 1

            @Forecaster.predict_function
            def predict(self, series, steps=1):
                if steps > 1:
                    raise NotImplementedError('One step only')
                return dict(series[-1].data)

        class Naughty(Forecaster):
            """Fails after a few predictions."""
            window = 1

            @Forecaster.predict_function
            def predict(self, series, steps=1):
                if steps > 1:
                    raise NotImplementedError('One step only')
                if series[-1].data_indexes.get('forecast') == 1:
                    raise RuntimeError('Failed')
                return dict(series[-1].data)
        KN.update(Toy=Toy, Naughty=Naughty)
    return KN['Toy'], KN['Naughty']


def model_step(rng, p, o, ms):
    s = p.objs[o - 1]
    k = rng.choice(sorted(ms))
    m = ms[k]
    acts = ['apply', 'apply', 'evaluate', 'predict', 'inplace', 'inplace', 'cross_validate', 'fit', 'save', 'fit_apply']
    a = rng.choice(acts)
    path = os.path.join(scratch(), 'm-%d-%d' % (os.getpid(), rng.randrange(10**9)))
    import contextlib, io
    if a == 'fit':
        p.pure(o, k + '.fit', lambda: m.fit(s) and None)
    elif a == 'cross_validate':
        p.pure(o, k + '.cross_validate', lambda: type(m)().cross_validate(s, rounds=3))
    elif a == 'save':
        p.pure(o, k + '.save', lambda: m.save(path) and None)
        if os.path.isdir(path):
            shutil.rmtree(path)
    elif 'Forecaster' in k:
        n = rng.choice([1, 2, 3])
        if a in ('apply', 'fit_apply'):
            p.pure(o, k + '.apply', lambda: m.apply(s, steps=n))
        elif a == 'evaluate':
            p.pure(o, k + '.evaluate', lambda: m.evaluate(s, **rng.choice([{}, dict(return_results_series=True)])))
        elif a == 'predict':
            p.pure(o, k + '.forecast', lambda: m.forecast(s, steps=n))
            p.pure(o, k + '.predict', lambda: m.predict(s, steps=n))
        else:
            p.inplace(o, k + '.apply', lambda x: m.apply(x, steps=n, inplace=True), lambda x: m.apply(x, steps=n), plain)
    elif 'Reconstructor' in k:
        th = rng.choice([1, 1, .5])
        if a in ('apply', 'fit_apply'):
            p.pure(o, k + '.apply', lambda: m.apply(s, data_loss_threshold=th))
        elif a == 'evaluate':
            p.pure(o, k + '.evaluate', lambda: m.evaluate(s, steps=[1, 2]))
        elif a == 'predict':
            i = rng.randrange(1, len(s) - 1)
            p.pure(o, k + '.predict', lambda: m.predict(s, from_i=i, to_i=min(i + rng.randrange(3), len(s) - 2)))
        else:
            p.inplace(o, k + '.apply', lambda x: m.apply(x, data_loss_threshold=th, inplace=True), lambda x: m.apply(x, data_loss_threshold=th), plain)
    else:
        if a in ('apply', 'fit_apply'):
            p.pure(o, k + '.apply', lambda: m.apply(s, details=rng.random() < .5))
        elif a == 'evaluate':
            p.pure(o, k + '.inspect', lambda: m.inspect(plot=False) and None)
        else:
            if 'anomaly' in [n for x in s for n in x.data_indexes]:
                kw = dict(index_treshold=rng.choice([.5, 1]), min_persistence=rng.choice([1, 2]), max_gap=rng.choice([0, 1, 2]), replace_index=rng.random() < .3)
                if rng.random() < .4:
                    p.pure(o, k + '.mark_events', lambda: m.mark_events(s, **kw))
                else:
                    p.inplace(o, k + '.mark_events', lambda x: m.mark_events(x, inplace=True, **kw), lambda x: m.mark_events(x, **kw), plain)
            else:
                p.pure(o, k + '.apply', lambda: m.apply(s))


def make_models(rng, s):
    import contextlib, io
    from timeseria.models import forecasters as f, reconstructors as r, anomaly_detectors as a
    Toy, Naughty = toy_forecaster()
    ms = {'PeriodicAverageForecaster': f.PeriodicAverageForecaster(), 'ToyForecaster': Toy(), 'NaughtyForecaster': Naughty(),
          'LinearInterpolationReconstructor': r.LinearInterpolationReconstructor(), 'PeriodicAverageReconstructor': r.PeriodicAverageReconstructor(),
          'PeriodicAverageAnomalyDetector': a.PeriodicAverageAnomalyDetector()}
    for k, m in ms.items():
        if k.startswith('Periodic') and rng.random() < .9:
            guarded(lambda: m.fit(s, periodicity=6) if rng.random() < .7 else m.fit(s))
    return ms


# ------------------------------------------------------------------ cases

def rand_case(seed):
    rng = random.Random(seed)
    _lib()
    models = rng.random() < .35
    p = Program(rng, 'program')
    if models:
        n = rng.choice([18, 24, 30])
        kind = rng.choice(['point', 'slot'])
        for j in range(rng.choice([1, 2])):
            p.new(model_series(rng, kind, n, 6, loss=rng.random() < .7))
        if len(p.objs) > 1 and rng.random() < .5:
            for x in p.objs[1]:
                x.data_indexes['anomaly'] = rng.choice([0, 0, 0.25, .5, 1])
            p.objs[:] = p.objs[1:]
            p.steps = []
            p.ids = {}
            p.step('new', 'pure', 0, 1)
        # fitting is a step like the others
        import contextlib, io
        fits = p.objs[0].duplicate() if rng.random() < .5 else p.objs[0]
        with contextlib.redirect_stdout(io.StringIO()):
            ms = make_models(rng, fits)
            p.step('models fit', 'pure', 0, 0)
    else:
        g = ops.rand_geometry(rng)
        p.new(ops.build(rng, g))
        if rng.random() < .6:
            p.new(ops.build(rng, g, start=rng.choice([0, 0, g['step']])))
    import contextlib, io
    for _ in range(rng.choice([3, 5, 8])):
        o = rng.randrange(len(p.objs)) + 1
        s = p.objs[o - 1]
        if len(s) == 0:
            continue
        r = rng.random()
        if isinstance(s, list) and not isinstance(s, _lib().TimeSeries):
            r = .77               # a list of items: only its items can change
        with contextlib.redirect_stdout(io.StringIO()):
            if models and r < .7 and type(s).__name__ in ('TimeSeries', 'TimeSeriesView'):
                model_step(rng, p, o, ms)
            elif r < .5:
                for name, fn in rng.sample(pures(rng, s, p), 3):
                    if not any(len(x) == 0 for x in p.objs):
                        p.pure(o, name, fn)
            elif r < .65:
                one_share(rng, p, o)
            elif r < .75:
                one_append(rng, p, o)
            elif r < .8:
                p.spoil(o)
            else:
                one_inplace(rng, p, o)
        if len(p.objs) > 7:
            break
    return p.trace()


def replay_one(a):
    """A behaviour of the specification on the real series."""
    hist, seed = a
    rng = random.Random(seed)
    _lib()
    p = Program(rng, 'behaviour')
    g = ops.rand_geometry(rng, n=3)
    p.new(ops.build(rng, g))
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        for h in hist:
            if h['o'] > len(p.objs):
                break                 # a result of the real operation was not a series
            o = h['o']
            s = p.objs[o - 1]
            if len(s) == 0:
                break
            if h['op'] == 'pure':
                c = [x for x in pures(rng, s, p) if x[0] in ('duplicate', 'rescale', 'offset', 'filter', 'as_tz', 'derivative', 'integral', 'csum', 'deepcopy', 'merge', 'mavg', 'from_dict', 'normalize')]
                for name, fn in rng.sample(c, len(c)):
                    n = len(p.objs)
                    p.pure(o, name, fn)
                    if len(p.objs) > n:
                        break
            elif h['op'] == 'slice':
                p.share(o, 'slice', lambda: s[1:], list(range(1, len(s))))
            elif h['op'] == 'inplace':
                one_inplace(rng, p, o)
            elif h['op'] == 'mutate':
                p.spoil(o)
            else:
                one_append(rng, p, o)
    return p.trace()


def cases(c, n):
    r = c.model('HeapMC')
    beh = [json.loads(x[3:]) for x in r['prints'] if x.startswith('BEH')]
    rng = random.Random(SEED * 31 + 5)
    rng.shuffle(beh)
    beh = beh[:n // 3]
    c.cover['behaviours_exported'] = len(beh)
    tr = pmap(replay_one, [(b, SEED * 100003 + j) for j, b in enumerate(beh)])
    tr += pmap(rand_case, [SEED * 1000003 + j for j in range(n)])
    steps = {}
    for t in tr:
        for s in t['steps']:
            steps[s['op']] = steps.get(s['op'], 0) + 1
    c.cover['steps_by_operation'] = steps
    return tr


def check_S12(c):
    tr = cases(c, 900 if QUICK else 9000)
    for k in range(0, len(tr), 2000):
        c.validate('HeapTrace', tr[k:k + 2000], env={'FACET': 'frame'}, label='Heap')
    c.assumptions = ['contents are what the public attributes of the items show', 'slices, views, head, tail and contents share their items with the series by design']


def refusals(c, n=None):
    """The facet of S02 on requests to work in place."""
    tr = cases(c, n or (450 if QUICK else 5000))
    for k in range(0, len(tr), 2000):
        c.validate('HeapTrace', tr[k:k + 2000], env={'FACET': 'refusal'}, label='Heap refusals')
