"""S30: models based on an engine of another library, the engine replaced by a stand-in, against spec/External.tla."""
import sys, json, random, shutil, tempfile
from vlib import *
from c_predict import build, observe, unit_name
from c_units import zone_table

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
ENGINES = ('prophet', 'recon', 'auto', 'arima')


def _lib():
    import timeseria.datastructures as d
    import timeseria.models.base, timeseria.models.forecasters, timeseria.models.reconstructors
    return d


def unit(b):
    if b.unit[0] == 'phys':
        return [0, 0, 0, 0, b.unit[1]]
    return [0, b.unit[1], 0, 0, 0] if b.unit[2] == 'M' else [0, 0, 0, b.unit[1], 0]


def seen(s, flag):
    out = observe(s, flag)
    for o in out:
        for k in ('dst', 'n', 'rest'):
            o.pop(k)
    return out


def maps(v, label='v'):
    """Predictions, as a sequence of values by label (whatever form they have)."""
    if isinstance(v, dict):
        if any(isinstance(x, (list, tuple)) for x in v.values()):
            return [dict(x={str(l): num(x[j]) for l, x in v.items()}) for j in range(max(len(x) for x in v.values()))]
        v = [v]
    return [dict(x={str(l): num(x) for l, x in p.items()}) for p in v] if isinstance(v, list) else [dict(x={'~': [9, 0]})]


class Life:
    def __init__(self, rng, engine):
        from timeseria.models import forecasters as f, reconstructors as r
        self.rng, self.engine, self.steps = rng, engine, []
        self.b = build(rng, months=True)
        self.flag = 'data_reconstructed' if engine == 'recon' else 'forecast'
        self.order = 5
        if engine == 'arima':
            pdq = rng.choice([(1, 1, 0), (2, 0, 1), (0, 1, 1), (3, 2, 1)])
            self.order = pdq[0] + 2 * pdq[1] + 4 * pdq[2]
            self.m = f.ARIMAForecaster(*pdq) if pdq != (1, 1, 0) or rng.random() < .5 else f.ARIMAForecaster()
        else:
            self.m = dict(prophet=f.ProphetForecaster, auto=f.AARIMAForecaster, recon=r.ProphetReconstructor)[engine]()
        self.end = None

    def series(self, n, labels=('v',), at=None, b=None, lossy=.3):
        b, rng = b or self.b, self.rng
        rows = [({l: rng.randint(-20, 40) for l in labels}, rng.choice([1, 1, .5, .25]) if rng.random() < lossy else rng.choice([0, 0, 'absent', None]), {'anomaly': .5} if rng.random() < .1 else {}) for _ in range(n)]
        return b.series(rows, at)

    def step(self, op, s, f, thr=1, **kw):
        b = self.b
        st = dict(op=op, err='', before=seen(s, self.flag), labels=[str(l) for l in s.data_labels()], u=getattr(s, '_u', unit(b)), kind=b.kind, n=0, out=[], again=[], inplace=False, thr=num(thr), ns=[], res=[], order=self.order)
        st['from'], st['to'] = 0, 0
        st.update(kw)
        st['err'], v = guarded(f)
        st['after'] = seen(s, self.flag)
        self.steps.append(st)
        return st, v

    def fit(self, s):
        kw = {}
        if self.engine == 'auto':
            self.order = self.rng.choice([5, 2, 3])
            if self.order != 5:
                kw['max_p'] = self.order
        if self.rng.random() < .2:
            kw['verbose'] = False
        st, v = self.step('fit', s, lambda: self.m.fit(s, **kw), order=self.order)
        if not st['err']:
            self.end = st['before'][-1]['t']
        return st

    def use(self, s, op=None):
        rng, m = self.rng, self.m
        if self.engine == 'recon':
            op = op or rng.choice(['reconstruct', 'reconstruct', 'stretch', 'evaluate'])
            if op == 'reconstruct':
                thr, inplace = rng.choice([1, 1, .5]), rng.random() < .3
                kw = dict(data_loss_threshold=thr) if thr != 1 or rng.random() < .3 else {}
                if inplace:
                    kw['inplace'] = True
                st, v = self.step(op, s, lambda: m.apply(s, **kw), thr=thr, inplace=inplace)
                st['out'] = seen(v, self.flag) if not st['err'] and v is not None else []
            elif op == 'stretch':
                i = rng.randrange(len(s))
                j = min(len(s) - 1, i + rng.choice([0, 0, 1, 2, 3]))
                st, v = self.step(op, s, lambda: m.predict(s, from_i=i, to_i=j), **{'from': i, 'to': j})
                st['out'] = maps(v) if not st['err'] else []
            else:
                thr, ns = rng.choice([1, .5]), rng.choice([[1], [1, 2], [2], 'auto', 3])
                kw = dict(steps=ns) if ns != 'auto' else {}
                if thr != 1:
                    kw['data_loss_threshold'] = thr
                st, v = self.step(op, s, lambda: m.evaluate(s, metrics=['MAE'], **kw), thr=thr, ns=ns if isinstance(ns, list) else [1, 2, 3])
                st['res'] = [num(v.get('MAE'))] if not st['err'] else []
            return st
        op = op or rng.choice(['predict', 'predict', 'forecast', 'forecast', 'apply', 'apply', 'apply'] + ['evaluate'] * (self.engine == 'prophet'))
        if op == 'evaluate':
            st, v = self.step(op, s, lambda: m.evaluate(s, error_metrics=['MAE']))
            st['res'] = [num((v or {}).get(st['labels'][0] + '_MAE'))] if not st['err'] else []
            return st
        n = rng.choice([1, 1, 2, 3, 5])
        kw = dict(steps=n) if n > 1 or rng.random() < .3 else {}
        inplace = op == 'apply' and rng.random() < .3
        if inplace:
            kw['inplace'] = True
        st, v = self.step(op, s, lambda: getattr(m, op)(s, **kw), n=n, inplace=inplace)
        if op == 'predict':
            st['out'] = maps(v) if not st['err'] else []
        else:
            st['out'] = seen(v if op == 'apply' else v if isinstance(v, list) else [v], self.flag) if not st['err'] and v is not None else []
        return st

    def load(self, s):
        m = self.m
        ask = lambda x: maps(x.predict(s, from_i=0, to_i=len(s) - 1) if self.engine == 'recon' else x.predict(s, steps=2))
        e1, out = guarded(lambda: ask(m))
        p = tempfile.mkdtemp(prefix='engine-', dir=scratch())
        st, again = self.step('load', s, lambda: m.save(p + '/m'))
        if not st['err']:
            e2, again = guarded(lambda: ask(type(m).load(p + '/m')))
            none = lambda e: [dict(x={'~ ' + e: [9, 0]})]
            st['out'], st['again'] = (none(e1) if e1 else out), (none(e2) if e2 else again)
        shutil.rmtree(p)

    def trace(self, **kw):
        ts = [o['t'] for st in self.steps for o in st['before']] + [0]
        return dict(steps=self.steps, engine=self.engine, zone=zone_table(self.b.tz, min(ts) - 400 * 86400, max(ts) + 400 * 86400), tag='engine', **kw)

    def ending(self, n, end):
        """A series of n items, the last one at the given time."""
        ts = [t for t, e in self.b.times(60)]
        i = ts.index(end) if end in ts else n
        return self.series(min(n, i + 1), at=ts[max(0, i + 1 - n)])


def rand_life(seed):
    rng = random.Random(seed)
    _lib()
    x = Life(rng, rng.choice(ENGINES))
    if rng.random() < .1:
        x.use(x.series(5))
    for _ in range(rng.choice([1, 1, 2])):
        labels = ('v',) if rng.random() < .9 else ('v', 'w')
        s = x.series(rng.randint(3, 14), labels, at=x.b.times(rng.randint(1, 9))[-1][0])
        x.fit(s)
        if x.end is None:
            continue
        for _ in range(rng.randint(1, 4)):
            c = rng.random()
            if c < .3:
                u = s
            elif c < .45:                       # the series fitted on, changed by its owner
                if rng.random() < .5:
                    s.append(x.b.series([({l: 7 for l in labels}, 0, {})], x.b.times(2, s[-1].start.t if x.b.kind == 'slot' else s[-1].t)[1][0])[0])
                elif len(s) > 3:
                    s.pop()
                for it in s:
                    it.data_indexes.pop(x.flag, None)
                u = s
            elif c < .75:
                u = x.ending(rng.randint(2, 8), x.end)
            elif c < .8:
                u = x.series(4, ('w',))
            elif c < .85:
                o = build(rng)
                o.kind, o.tz, o.start, o.unit = x.b.kind, x.b.tz, x.b.start, ('phys', rng.choice([60, 600, 3600]))
                u = x.series(5, b=o)
                u._u = unit(o)
            else:
                u = x.series(rng.randint(2, 10), at=x.b.times(rng.randint(1, 9))[-1][0])
            st = x.use(u)
            if st['inplace'] and not st['err']:
                if u is s:
                    break
        if rng.random() < .15:
            x.load(x.ending(4, x.end))
    return x.trace(seed=seed)


def replay_one(job):
    n, engine, hist = job
    rng = random.Random(n)
    _lib()
    x = Life(rng, engine)
    own = {}
    ts = x.b.times(12)
    for h in hist:
        j = h['s']
        if j not in own:
            own[j] = x.series(3 + j if j != 3 else 4, at=ts[0 if j != 3 else 1][0], lossy=.4)
        s = own[j]
        if h['op'] == 'fit':
            x.fit(s)
        elif h['op'] == 'grow':
            s.append(x.b.series([({'v': rng.randint(0, 9)}, 0, {})], ts[len(s) + (1 if j == 3 else 0)][0])[0])
        else:
            u = s.duplicate()
            x.use(u)
    return x.trace()


def check_S30(c):
    _lib()
    r = c.model('ExternalMC', env=dict(N='4' if QUICK else '5'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    behs = [b for b in behs if any(h['op'] == 'use' for h in b['hist'])]
    c.cover['behaviours_exported'] = len(behs)
    c.rng.shuffle(behs)
    behs = behs[:1500 if QUICK else 12000]
    jobs = [(j, rng_engine(b, j), b['hist']) for j, b in enumerate(behs)]
    c.validate('ExternalTrace', pmap(replay_one, jobs), label='exported_behaviours')
    n = 2400 if QUICK else 40000
    c.validate('ExternalTrace', pmap(rand_life, [SEED * 1000003 + i for i in range(n)]))
    c.assumptions += ['Prophet, pmdarima and statsmodels are replaced by stand-ins whose answers tell apart what they were fitted on and what they are asked',
                      'series with one label, all in the same time zone']


def rng_engine(b, j):
    return {'clock': ('prophet', 'recon'), 'steps': ('auto', 'arima')}[b['engine']][j % 2]
