"""S32 (what a series gives depends only on what it is made of) against spec/Origin.tla."""
import random, json, copy
from vlib import *
from c_container import _lib, KN
from c_operations import rand_geometry, build

FLAT = dict(op='', x=0, i=0, a=0, b=0)


def item_text(it, sort=False):
    order = (lambda d: sorted(d.items(), key=lambda x: str(x[0]))) if sort else (lambda d: list(d.items()))
    span = (repr(float(it.start.t)), repr(float(it.end.t)), str(it.start.tz), str(it.end.tz), str(it.unit)) if hasattr(it, 'start') else (repr(float(it.t)), str(it.tz))
    data = order(it.data) if isinstance(it.data, dict) else list(it.data)
    return repr((type(it).__name__, span, data, order(it.data_indexes)))


def text(v, deep=0):
    """An answer as a text: equal for equal answers."""
    d = _lib()
    if isinstance(v, d.Series):
        if not len(v):
            return 'empty series'
        # (whether or not it is a view is free)
        return 'series %s %s %s' % (v.tz if hasattr(v, 'tz') else '', v.resolution if hasattr(v, 'resolution') else '', [text(x) for x in v])
    if hasattr(v, 'data_indexes'):
        return item_text(v, True)
    if isinstance(v, dict):
        return repr(sorted((str(k), text(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return repr([text(x) for x in v])
    if hasattr(v, 'to_csv') and hasattr(v, 'columns'):
        return v.to_csv() + str(v.index.tz if hasattr(v.index, 'tz') else '')
    if isinstance(v, float):
        return repr(v)
    if hasattr(v, 'item') and hasattr(v, 'dtype'):
        return repr(float(v))
    return str(v)


def again(s):
    """A series with the same items, made from nothing."""
    d = _lib()
    r = d.TimeSeries()
    for it in s:
        kw = dict(data=copy.deepcopy(it.data), data_indexes=copy.deepcopy(it.data_indexes))
        if hasattr(it, 'start'):
            x = d.DataTimeSlot(start=d.TimePoint(t=it.start.t, tz=str(it.start.tz)), end=d.TimePoint(t=it.end.t, tz=str(it.end.tz)), unit=KN['TimeUnit'](str(it.unit)), **kw)
        else:
            x = d.DataTimePoint(t=it.t, tz=str(it.tz), **kw)
        r.append(x if item_text(x) == item_text(it) else copy.deepcopy(it))
    return r


def questions(rng, s):
    """Things to ask of a series, by name."""
    from timeseria import operations as o
    from timeseria.models import PeriodicAverageForecaster, PeriodicAverageReconstructor, LinearInterpolationReconstructor
    from timeseria.models.anomaly_detectors import AnomalyDetector, PeriodicAverageAnomalyDetector
    slots = hasattr(s[0], 'start')
    labels = list(s[0].data) if isinstance(s[0].data, dict) else []
    gap = 3600 if slots or len(s) < 2 else max(1, int(s[1].t - s[0].t))
    q = {}
    for u in (gap, 2 * gap, 60, '15m', '1h', '1D'):
        q['resample %s' % u] = lambda x, u=u: x.resample(u)
        q['aggregate %s' % u] = lambda x, u=u: x.aggregate(u)
        q['aggregate %s more' % u] = lambda x, u=u: x.aggregate(u, operations=['min', 'max', 'sum'])
    for n in ('diff', 'csum', 'integral', 'derivative', 'normalize', 'avg', 'min', 'max', 'sum', 'guess_resolution', 'data_labels', 'to_json', 'to_dict', 'summary', 'contents', 'head', 'tail',
              'duplicate', 'slice', 'to_df', 'derivative'):
        q[n] = lambda x, n=n: getattr(x, n)()
    q.update({'resolution': lambda x: str(x.resolution), 'tz': lambda x: str(x.tz), 'moments': lambda x: [str(y.dt) if not slots else (str(y.start.dt), str(y.end.dt), y.length) for y in x], 'losses': lambda x: [y.data_loss for y in x], 'str': lambda x: str(x), 'confidence': lambda x: x.guess_resolution(confidence=True), 'mavg': lambda x: x.mavg(2), 'mavg 3': lambda x: x.mavg(3),
              'twice': lambda x: o.merge(x, x), 'offset': lambda x: x.offset(3), 'rescale': lambda x: x.rescale(2), 'derivative diffs': lambda x: x.derivative(diffs=True),
              'derivative plain': lambda x: x.derivative(normalize=False), 'integral from': lambda x: x.integral(offset=1), 'json back': lambda x: _lib().TimeSeries.from_json(x.to_json()),
              'df back': lambda x: _lib().TimeSeries.from_df(x.to_df()), 'items': lambda x: [y for y in x], 'last': lambda x: x[-1], 'part': lambda x: x[0:2], 'view': lambda x: x.view(0, 2).avg(),
              'by time': lambda x: x.get(at_t=x[0].t) if not slots else x.get(at_i=0), 'from time': lambda x: x.slice(from_t=x[len(x) // 2].t if not slots else x[len(x) // 2].start.t),
              'zone': lambda x: x.as_tz('Asia/Tokyo'), 'len': lambda x: len(x), 'type': lambda x: x.item_type.__name__, 'select': lambda x: x.select('%s=1' % (labels or ['a'])[0]),
              'page': lambda x: page(x), 'mean by label': lambda x: x.avg(labels[0]) if labels else x.avg(),
              'forecast': lambda x: forecast(x), 'reconstruct': lambda x: LinearInterpolationReconstructor().apply(x), 'events': lambda x: AnomalyDetector.mark_events(x, index_treshold=.5, min_persistence=1)})
    for l in labels:
        q['filter ' + l] = lambda x, l=l: x.filter(l)
    def forecast(x):
        m = PeriodicAverageForecaster()
        m.fit(x, periodicity=2)
        return [m.predict(x), m.predict(x, steps=3), m.apply(x, steps=2)]
    def page(x):
        from c_plots import read
        return read(str(x.plot(html=True)), int((x[0].start if hasattr(x[0], 'start') else x[0]).t))
    # how the next item is taken
    def following(x):
        r = x.duplicate()
        y = next_item(x)
        r.append(y)
        return [r, r.resolution]
    def far(x):
        r = x.duplicate()
        y = next_item(x, 3)
        r.append(y)
        return [r, r.resolution]
    q.update({'takes the next': following, 'takes a later one': far})
    return q


def chosen(rng, qs, n):
    """Some of the questions, one or two of those on which bookkeeping bears."""
    core = [x for x in ('resolution', 'guess_resolution', 'confidence', 'str', 'derivative', 'integral', 'takes the next', 'takes a later one', 'tz', 'data_labels', 'moments') if x in qs] + \
           [x for x in qs if x.startswith(('resample', 'aggregate'))][:4]
    rest = sorted(set(qs) - {'page', 'forecast', 'events'})
    first = rng.sample(core, 2)
    return first + rng.sample([x for x in rest if x not in first], n - 2)


def next_item(x, k=1):
    d = _lib()
    it = x[len(x) - 1]
    kw = dict(data=copy.deepcopy(it.data), data_indexes=copy.deepcopy(it.data_indexes))
    if hasattr(it, 'start'):
        return d.DataTimeSlot(start=d.TimePoint(t=it.end.t, tz=str(it.tz)), unit=KN['TimeUnit'](str(it.unit)), **kw)
    g = it.t - x[len(x) - 2].t if len(x) > 1 else 60
    return d.DataTimePoint(t=it.t + k * g, tz=str(it.tz), **kw)


class Program:
    def __init__(self, rng):
        self.rng, self.ids, self.objs, self.steps, self.fixed = rng, {}, [], [], set()
        self.plain = set()       # on no time zone but that of the items

    def id(self, t):
        return self.ids.setdefault(t, len(self.ids) + 1)

    def items(self, s):
        return [self.id(item_text(x)) for x in s]

    def zone(self, s):
        # the zone told, if it is not that of the items; a view is also on the resolution and the labels of its series
        live = type(s).__name__ != 'TimeSeries' and getattr(s, 'series', None) is not None
        zs = list(dict.fromkeys(str(x.tz) for x in s))
        own = (zs[0] if zs else 'None') if len(zs) < 2 else 'UTC'
        tz = str(s.tz)
        return self.id('zone %s %s' % (tz if tz != own else '', 'part of %s %s' % (s.resolution, s.series.data_labels()) if live else ''))

    def step(self, op, o, s, site, **kw):
        self.steps.append(dict(dict(op=op, o=o, c=FLAT, items=self.items(s), zone=self.zone(s), err='', q=0, a=0, site=site), **kw))

    def new(self, s, site):
        self.objs.append(s)
        self.step('new', 0, s, site)
        return len(self.objs)

    def change(self, o, c, f):
        s = self.objs[o - 1]
        e, _ = guarded(f)
        self.step('change', o, s, c['op'], c=dict(FLAT, **c), err=e)
        return not e

    def made(self, o, c, f):
        e, r = guarded(f)
        if e:
            self.steps.append(dict(op='made', o=o, c=dict(FLAT, **c), items=[], zone=0, err=e, q=0, a=0, site=c['op']))
            return 0
        self.objs.append(r)
        if c['op'] == 'part' and type(r).__name__ == 'TimeSeries':
            self.plain.add(len(self.objs))
        self.step('made', o, r, c['op'], c=dict(FLAT, **c))
        return len(self.objs)

    def ask(self, o, names, qs):
        s = self.objs[o - 1]
        if not len(s):
            return
        for n in names:
            e, v = guarded(qs[n], s)
            self.step('ask', o, s, n, q=self.id('question ' + n), a=self.id('answer ' + ('refused ' + e if e else text(v))))

    def compare(self, o, names, qs):
        """The same questions to the series and to one made of the same items."""
        s = self.objs[o - 1]
        if not len(s) or len(s) > 80:
            return
        first = self.rng.random() < .5
        e, r = guarded(again, s)
        if e:
            self.ask(o, names, qs)
            return
        if first:
            self.ask(o, names, qs)
        p = self.new(r, 'again')
        self.plain.add(p)
        self.ask(p, self.rng.sample(names, len(names)), qs)
        if not first:
            self.ask(o, names, qs)

    def tried(self, o):
        rng, s, d = self.rng, self.objs[o - 1], _lib()
        first = s[0]
        bad = [lambda: s.append(3), lambda: s.pop(10**6), lambda: s.remove(next_item(s)), lambda: s.append(copy.deepcopy(first)), lambda: s.insert(0, next_item(s)) if len(s) > 1 else None,
               lambda: s.resample('1M'), lambda: s.aggregate('xyz'), lambda: s.mavg(10**6), lambda: s.filter('no such'), lambda: s.rename_data_label('no such', 'z'),
               lambda: s.slice(from_i='a'), lambda: s.get(at_t=-17.5), lambda: s.normalize(range=[3]), lambda: s.from_json('{'), lambda: s.view('a', 2), lambda: s.normalize(range=[3], inplace=True), lambda: s.offset(None, inplace=True)]
        for f in rng.sample(bad, 2):
            guarded(f)
        self.step('tried', o, s, 'refused')


def rand_case(seed):
    rng = random.Random(seed)
    d = _lib()
    g = rand_geometry(rng)
    g['n'] = rng.choice([3, 4, 5, 6, 8, 12])
    if rng.random() < .3:
        g['names'] = ['anomaly', 'data_loss']
    s = build(rng, g)
    slots = g['kind'] == 'slot'
    p = Program(rng)
    qs = questions(rng, s)
    heavy = [n for n in qs if n in ('page', 'forecast', 'events')]
    names = chosen(rng, qs, 6) + ([rng.choice(heavy)] if rng.random() < .5 else [])
    o = p.new(s, 'first')
    p.compare(o, rng.sample(names, 4), qs)
    gone = {}
    for _ in range(rng.choice([2, 3, 4])):
        free = [j + 1 for j in range(len(p.objs)) if j + 1 not in p.fixed and type(p.objs[j]).__name__ == 'TimeSeries' and 0 < len(p.objs[j]) < 80 and hasattr(p.objs[j][0], 'data_indexes')]
        if not free:
            break
        o = rng.choice([free[0], rng.choice(free), free[-1]])
        s = p.objs[o - 1]
        slots = hasattr(s[0], 'start')
        r = rng.random()
        if r < .35:
            # changes, leading back to the same items or not
            for _ in range(rng.choice([1, 2, 2, 3])):
                back = gone.pop(o, None)
                if back is not None and rng.random() < .8:
                    at, x = back
                    if at == len(s):
                        ok = p.change(o, dict(op='append', x=p.id(item_text(x))), lambda: s.append(x))
                    else:
                        ok = p.change(o, dict(op='insert', x=p.id(item_text(x)), i=at + 1), lambda: s.insert(at, x))
                elif rng.random() < .35:
                    e, x = guarded(next_item, s)
                    if e:
                        break
                    if o in p.plain and not slots and rng.random() < .5:
                        x.change_tz('Pacific/Auckland')
                    e, _ = guarded(again(s).append, x)
                    if e:
                        break          # (whether an item is acceptable is not decided here)
                    ok = p.change(o, dict(op='append', x=p.id(item_text(x))), lambda: s.append(x))
                elif len(s) > 1:
                    at = rng.choice([0, len(s) - 1] + ([rng.randrange(len(s))] if not slots else []))
                    x = s[at]
                    gone[o] = (at, x)
                    ok = p.change(o, dict(op='pop', i=at + 1), lambda: s.pop(at))
                else:
                    ok = True
                if not ok:
                    break
                if rng.random() < .4:
                    p.ask(o, rng.sample(names, 2), qs)
        elif r < .55:
            a = rng.randrange(0, max(1, len(s) - 1))
            b = rng.randrange(a + 1, len(s) + 1)
            how = rng.choice(['slice', 'slice', 'live', 'materialised', 'copy', 'deep', 'appended', 'in the brackets', 'by time', 'view of view'])
            if how in ('copy', 'deep', 'appended', 'through json'):
                o = p.made(o, dict(op='copy'), dict(copy=lambda: s.duplicate(), deep=lambda: copy.deepcopy(s), appended=lambda: again(s))[how])
            else:
                def part():
                    if how == 'live':
                        return s.view(a, b)
                    if how == 'materialised':
                        return s.view(a, b).duplicate()
                    if how == 'slice':
                        return s.slice(a, b)
                    if how == 'view of view':
                        return s.view(a, len(s)).view(0, b - a)
                    if how == 'by time' and not slots and b < len(s):
                        return s.slice(from_t=float(s[a].t), to_t=float(s[b].t))
                    return s[a:b]
                if how in ('live', 'view of view'):
                    p.fixed.add(o)
                o = p.made(o, dict(op='part', a=a, b=b), part)
                if o and type(p.objs[o - 1]).__name__ != 'TimeSeries':
                    p.fixed.add(o)
            if not o:
                break
        elif r < .8:
            # what an operation gives
            e, v = guarded(qs[rng.choice(sorted(set(qs) - set(heavy) - {'view', 'page'}))], s)
            if e or not isinstance(v, d.TimeSeries) or not len(v) or len(v) > 80 or not hasattr(v[0], 'data_indexes'):
                continue
            o = p.new(v, 'result')
            for f in range(1, o):
                p.fixed.add(f)           # (they may share their items)
        elif r < .9:
            p.tried(o)
        else:
            c = s.duplicate()
            def alter():
                if rng.random() < .5 and isinstance(c[0].data, dict):
                    l = rng.choice(list(c[0].data))
                    c.rename_data_label(l, 'renamed')
                    if rng.random() < .6:
                        c.rename_data_label('renamed', l)
                else:
                    c.change_tz(rng.choice(['Asia/Tokyo', 'Europe/Rome']))
                    if rng.random() < .6:
                        c.change_tz(str(s[0].tz))
            e, _ = guarded(alter)
            if e:
                continue
            o = p.new(c, 'altered')
        if len(p.objs[o - 1]) and hasattr(p.objs[o - 1][0], 'data_indexes'):
            p.compare(o, rng.sample(names, 4), qs)
    return dict(steps=p.steps, tag='origin', seed=seed)


def replay_one(job):
    seed, b = job
    rng = random.Random(seed)
    d = _lib()
    tick, tz = rng.choice([1, 60, 900, 3600]), rng.choice(['UTC', 'Europe/Rome'])
    base = rng.choice([0, 1553900400, 1572130800])
    lossy = rng.random() < .4
    def item(x):
        return d.DataTimePoint(t=base + x * tick, tz=tz, data=dict(a=x * x % 7, b=x), **(dict(data_loss=x % 3 / 2) if lossy else {}))
    p = Program(rng)
    ref = d.TimeSeries()
    for x in (1, 2):
        ref.append(item(x))
    qs = questions(rng, ref)
    names = chosen(rng, qs, 5)
    o = p.new(d.TimeSeries(), 'first')
    n = 1
    for h in b['h']:
        s = p.objs[o - 1]
        if h['op'] in ('append', 'insert'):
            x = item(h['x'])
            c = dict(op=h['op'], x=p.id(item_text(x)), i=h['i'])
            ok = p.change(o, c, (lambda: s.append(x)) if h['op'] == 'append' else (lambda: s.insert(h['i'] - 1, x)))
        elif h['op'] == 'pop':
            ok = p.change(o, dict(op='pop', i=h['i']), lambda: s.pop(h['i'] - 1))
        elif h['op'] == 'ask':
            p.ask(o, names, qs)
            ok = True
        else:
            how = rng.choice(['slice', 'brackets', 'view']) if h['op'] == 'part' else rng.choice(['duplicate', 'deep'])
            o = ok = p.made(o, dict(op=h['op'], a=h['a'], b=h['b']), dict(slice=lambda: s.slice(h['a'], h['b']), brackets=lambda: s[h['a']:h['b']], view=lambda: s.view(h['a'], h['b']).duplicate(),
                                                                          duplicate=lambda: s.duplicate(), deep=lambda: copy.deepcopy(s))[how])
        if not ok:
            break
    if o:
        p.compare(o, names, qs)
    return dict(steps=p.steps, tag='origin')


def check_S32(c):
    _lib()
    r = c.model('OriginMC', env=dict(K='5', N='5' if QUICK else '6'))
    behs = [json.loads(x[3:]) for x in r['prints'] if x.startswith('BEH')]
    c.cover['behaviours_exported'] = len(behs)
    c.rng.shuffle(behs)
    behs = behs[:2500 if QUICK else 15000]
    c.validate('OriginTrace', pmap(replay_one, list(enumerate(behs))), label='exported_behaviours')
    n = 2500 if QUICK else 18000
    c.validate('OriginTrace', [t for t in pmap(rand_case, [SEED * 1000003 + i for i in range(n)]) if t])
    c.assumptions += ['numerical data']
