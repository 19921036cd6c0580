"""S18, S19: the life of models against spec/Lifecycle.tla; S24: cross validation against spec/CrossValidation.tla."""
import random, contextlib, io, hashlib
from vlib import *
from c_container import _lib, KN, tzname, canon_unit
from c_heap import content, _f, _data


def res_name(s):
    r = s.resolution
    return 'none' if r is None else r if isinstance(r, str) else canon_unit(r) if not isinstance(r, (int, float)) else '%gs' % r


def make(kind, step, n, labels, value, tz='UTC', base=0, loss=None, unit=None):
    d = _lib()
    s = d.TimeSeries()
    prev = None
    t = base
    for j in range(n):
        kw = dict(data=anyorder({l: float(value(j, k)) for k, l in enumerate(labels)}, 7 * j))
        if loss:
            kw['data_loss'] = loss(j)
        if kind == 'point':
            s.append(d.DataTimePoint(t=t, tz=tz, **kw))
            t += step(j) if callable(step) else step
        else:
            st = d.TimePoint(t=prev.end.t, tz=tz) if prev is not None else d.TimePoint(t=base, tz=tz)
            prev = d.DataTimeSlot(start=st, unit=KN['TimeUnit'](unit or '%ds' % step), **kw)
            s.append(prev)
    return travelled(s)


def descriptor(s):
    d = _lib()
    if not isinstance(s, d.TimeSeries):
        return dict(ts=False, n=len(s), res='none', labels=[], pt=True)
    if len(s) == 0:
        return dict(ts=True, n=0, res='none', labels=[], pt=True)
    return dict(ts=True, n=len(s), res=res_name(s), labels=[str(x) for x in s.data_labels()], pt=hasattr(s[0], 'coordinates'))


# ------------------------------------------------------------------ classes of models

def toys():
    if 'MToy' in KN:
        return KN['MToy']
    from timeseria.models.base import Model

    class Answers:
        def _value(self, series):
            return self.data['k'] * 1000 + len(series) * 10 + sum(series[-1].data.values())

    class MToy(Model, Answers):
        @Model.fit_function
        def fit(self, series, gain=1, fail=None, ctx=False, junk=False):
            self.data['k'] = -1
            self.data['context_data_labels'] = None
            if fail == 'early':
                raise RuntimeError('Early')
            self.data['k'] = gain * sum(sum(x.data.values()) for x in series)
            self.extra = self.data['k']
            self.data['context_data_labels'] = ['c'] if ctx else None
            self.data['junk'] = {1, 2} if junk else None
            if fail:
                raise ValueError('Late')

        @Model.predict_function
        def predict(self, series, context_data=None):
            return {'value': self._value(series), 'extra': self.extra}

        @Model.apply_function
        def apply(self, series):
            s = series.duplicate()
            for x in s:
                for l in x.data:
                    x.data[l] += self.data['k']
            return s

        @Model.evaluate_function
        def evaluate(self, series):
            if any(v == 666 for x in series for v in x.data.values()):
                raise RuntimeError('Cannot evaluate this')
            return {'score': self._value(series) % 17}

        @classmethod
        def load(cls, path):
            m = super().load(path)
            m.extra = m.data['k']
            return m

    class MToyNoFit(Model, Answers):
        def __init__(self):
            self.data = {'k': 3, 'resolution': KN['TimeUnit']('60s'), 'data_labels': ['a']}
            super().__init__()

        @Model.predict_function
        def predict(self, series):
            return {'value': self._value(series)}

        @Model.apply_function
        def apply(self, series):
            return series.duplicate()

        @Model.evaluate_function
        def evaluate(self, series):
            return {'score': self._value(series) % 17}

    class MToyNonParam(Model):
        @Model.predict_function
        def predict(self, series):
            return {'value': len(series)}

        @Model.apply_function
        def apply(self, series):
            return series.duplicate()

        @Model.evaluate_function
        def evaluate(self, series):
            return {'score': len(series)}

    KN.update(MToy=(MToy, MToyNoFit, MToyNonParam))
    return KN['MToy']


def toy_catalogue(rng):
    v = lambda j, k: rng.choice([0, 1, 2, 5])
    tz = rng.choice(['UTC', 'Europe/Rome'])
    st = rng.choice([60, 60, 600, 0.5])
    S = [make('point', st, 7, ['a'], v, tz), make('point', st, 5, ['a'], v), make('point', st * 2, 6, ['a'], v), make('point', st, 6, ['b'], v),
         make('point', st, 6, ['a', 'b'], v), make('point', lambda j: [st, 2 * st, st * 5][j % 3], 6, ['a'], v), _lib().TimeSeries(), [1, 2, 3],
         make('point', st, 1, ['a'], v), make('point', st, 1, ['b'], v), make('slot', 60, 5, ['a'], v, unit='%ss' % st if st >= 1 else None) if st >= 1 else make('point', st, 3, ['a'], v),
         make('slot', 0, 4, ['a'], v, unit='1D'), make('slot', 0, 4, ['a'], v, unit='1M'), make('slot', 86400, 4, ['a'], v, unit='24h'), make('point', st, 4, ['b', 'a'], v)]
    # as many labels of which only some are the same, more and fewer of them, and nearly the same resolution
    S += [make('point', st, 5, ['a', 'c'], v), make('point', st, 6, ['a', 'b'], v, tz), make('point', st, 5, ['a', 'b', 'c'], v), make('point', st, 4, ['A'], v),
          make('point', st + 1 / 64, 4, ['a'], v), make('slot', 0, 4, ['a'], v, unit='2D'),
          make('slot', 0, 1, ['a'], v, unit='2h'), make('slot', 0, 1, ['a'], v, unit='%ss' % st if st >= 1 else '1D')]
    if rng.random() < .3:
        S.append(S[0].view(1, 6))
    return S


def real_catalogue(rng, multi):
    # (the second and the third across a change of the daylight saving time)
    base = rng.choice([0, 1553900400, 1553950800])
    tz = rng.choice(['UTC', 'Europe/Rome'] if not base else ['UTC', 'Europe/Rome', 'Europe/Rome'])
    f = lambda j, k: (j % 6) * (k + 2) + rng.choice([0, 0, 0.5, 1]) + 1
    n = rng.choice([24, 30])
    loss = lambda j: 1 if rng.random() < .1 and 0 < j < n - 1 else 0
    S = [make('point', 3600, n, ['a'], f, tz, base), make('point', 3600, 26, ['a'], f, tz, base + 7200, loss=lambda j: 1 if j in (4, 11, 12) else 0),
         make('point', 1800, 24, ['a'], f, tz, base), make('point', 3600, 24, ['b'], f, tz, base),
         make('point', 3600, 24, ['a', 'b'], f, tz, base), make('point', lambda j: [3600, 7200, 1800][j % 3], 24, ['a'], f, tz), _lib().TimeSeries(), [1, 2, 3],
         make('slot', 3600, 25, ['a'], f, tz, base, unit='1h'), make('point', 3600, 24, ['a'], f, tz, base, loss=lambda j: 1), make('slot', 0, 24, ['a'], f, 'UTC', 0, unit='1D'),
         make('point', 3600, 3, ['a'], f, tz, base)]
    if multi:
        S += [make('point', 3600, 24, ['a', 'c'], f, tz, base), make('point', 3600, 25, ['a', 'b'], f, tz, base)]
    return S


def digest(v):
    d = _lib()
    if isinstance(v, d.TimeSeries):
        return 'S' + '|'.join(content(x) for x in v)
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (k, digest(v[k])) for k in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(digest(x) for x in v) + ']'
    return _f(v)


class Kind:
    """A class of models: how it is fitted, used, saved."""

    def __init__(self, name, rng):
        self.name, self.rng = name, rng
        from timeseria.models import forecasters as f, reconstructors as r, anomaly_detectors as a
        MToy, MToyNoFit, MToyNonParam = toys()
        self.cls = {'toy': MToy, 'toynofit': MToyNoFit, 'toynonparam': MToyNonParam, 'PAF': f.PeriodicAverageForecaster, 'PAR': r.PeriodicAverageReconstructor,
                    'LIR': r.LinearInterpolationReconstructor, 'PAAD': a.PeriodicAverageAnomalyDetector, 'PARAD': a.PeriodicAverageReconstructorAnomalyDetector}[name]
        self.toy = name.startswith('toy')
        self.fits = name not in ('toynofit', 'toynonparam', 'LIR')
        self.param = name not in ('toynonparam', 'LIR')
        self.series = toy_catalogue(rng) if self.toy else real_catalogue(rng, name == 'PAF')
        self.ops = ['apply'] if name.endswith('AD') else ['predict', 'apply', 'evaluate']
        self.probes = [dict(op=o, s=j + 1, ctx=False) for j in range(len(self.series)) for o in self.ops if not (name.endswith('AD') and j in (2, 4, 8, 11))]
        if name == 'toy':
            self.probes += [dict(op='predict', s=j + 1, ctx=True) for j in (0, 1, 3)]
        self.refs = {}
        # (the window of the forecaster is a setting of the class here: a loaded model would be fitted anew with the default one,
        # so it is not)
        self.settings = dict(window=rng.choice([2, 4])) if name == 'PAF' and rng.random() < .5 else {}

    def new(self):
        return self.cls(**self.settings)

    def fit_args(self, rng):
        n = self.name
        if n == 'toy':
            return dict(gain=rng.choice([1, 2]), fail=rng.choice([None, None, None, 'early', 'late']), ctx=rng.random() < .15, junk=rng.random() < .15)
        if n in ('PAF', 'PAR'):
            a = dict(periodicity=rng.choice([6, 6, 3, 'auto']), dst_affected=rng.random() < .4)
            if rng.random() < .1:
                a['data_loss_limit'] = 0
            if n == 'PAR' and rng.random() < .2:
                a['offset_method'] = rng.choice(['extremes', 'wrong'])
            return a
        if n.endswith('AD'):
            return dict(periodicity=rng.choice([6, 3]), error_metric=rng.choice(['E', 'AE', 'E', 'wrong']))
        return {}

    def key(self, j, args):
        return '%d %s' % (j, sorted(args.items()))

    def fit(self, m, j, args):
        return guarded(lambda: m.fit(self.series[j - 1], **args), seconds=60)

    def use(self, m, p):
        s = self.series[p['s'] - 1]
        kw = {}
        if p['ctx']:
            kw['context_data'] = {'c': 1}
        if p['op'] == 'predict':
            if self.name == 'PAF':
                kw['steps'] = 2
            if self.name in ('PAR', 'LIR'):
                kw.update(from_i=3, to_i=4) if len(s) > 5 else kw.update(from_i=1, to_i=1)
        if p['op'] == 'apply' and self.name == 'PAF':
            kw['steps'] = 3
        if p['op'] == 'evaluate' and self.name in ('PAR', 'LIR'):
            kw['steps'] = [1, 2]
        return getattr(m, p['op'])(s, **kw)

    def answers(self, m, ids):
        out = []
        for p in self.probes:
            e, v = guarded(lambda: self.use(m, p), seconds=60)
            out.append(dict(err=e, val=0 if e else ids.setdefault(digest(v), len(ids) + 1)))
        return out

    def reference(self, j, args, ids):
        k = self.key(j, args)
        if k not in self.refs:
            m = self.new()
            e, _ = self.fit(m, j, args)
            self.refs[k] = (e, self.answers(m, ids) if not e else None)
        return self.refs[k]


def tree(path):
    out = []
    for r, ds, fs in os.walk(path):
        out += [os.path.join(r, x) + '/' for x in ds]
        out += [os.path.join(r, x) + ':' + hashlib.md5(open(os.path.join(r, x), 'rb').read()).hexdigest() for x in fs]
    return set(out)


def run(kind, acts, rng, tag):
    """acts: list of (op, model, series, good wanted, path)."""
    root = tempfile.mkdtemp(prefix='life-', dir=scratch())
    open(os.path.join(root, 'afile'), 'w').write('content')
    os.makedirs(os.path.join(root, 'adir'))
    ids, steps, models, loaded, disk = {}, [], [kind.new()], [], {}
    if not kind.fits:
        kind.refs[kind.cls.__name__] = ('', kind.answers(kind.new(), ids))
    first = True
    with contextlib.redirect_stdout(io.StringIO()):
        for op, m, j, good, path in acts:
            if m > len(models):
                continue
            st = dict(op=op, m=max(m, 1), s=max(j, 1), key='', ctx=False, good=True, path='', exists=False, err='', left=False)
            x = models[m - 1] if m else None
            if op == 'fit' and kind.settings and any(x is y for y in loaded):
                continue
            if op == 'fit':
                args = kind.fit_args(rng)
                for _ in range(12):        # as wanted, if there is such a way
                    if good is None or (kind.reference(j, args, ids)[0] == '') == good:
                        break
                    args = kind.fit_args(rng)
                if kind.fits:
                    st.update(key=kind.key(j, args), good=kind.reference(j, args, ids)[0] == '', ctx=bool(args.get('ctx')))
                st['err'], v = kind.fit(x, j, args)
                x._junk = bool(args.get('junk')) if not st['err'] else getattr(x, '_junk', False)
            elif op == 'use':
                p = rng.choice(kind.probes)
                guarded(lambda: kind.use(x, p), seconds=60)
            elif op == 'save':
                full = {'': '', 'under a file': os.path.join(root, 'afile', 'x'), 'afile': os.path.join(root, 'afile'), 'adir': os.path.join(root, 'adir')}.get(path, os.path.join(root, path))
                st.update(path=path, exists=bool(full) and os.path.exists(full), good=path != 'under a file' and not getattr(x, '_junk', False))
                before = tree(root)
                st['err'], v = guarded(lambda: x.save(full))
                after = tree(root)
                # (creating the parent directories is fine)
                st['left'] = bool(before - after) or bool(st['err'] and (any(not x.endswith('/') for x in after - before)
                                                                        or bool(full) and not st['exists'] and os.path.exists(full)))
                if not st['err']:
                    disk[path] = full
            elif op == 'load':
                if path not in disk:
                    continue
                st['path'] = path
                st['err'], v = guarded(lambda: kind.cls.load(disk[path]))
                if not st['err']:
                    models.append(v)
                    loaded.append(v)
            elif op == 'cv':
                if kind.name in ('PAAD', 'PARAD') or not kind.fits:
                    continue
                e = False
                if kind.name == 'toy':
                    mode = 'ok' if good else rng.choice(['unknown', 'fit', 'evaluate', 'rounds'])
                    s = kind.series[j - 1]
                    kw = {'ok': {}, 'unknown': dict(wrong=1), 'fit': dict(fit_fail='late'), 'evaluate': {}, 'rounds': {}}[mode]
                    if mode == 'evaluate' and hasattr(s, 'duplicate') and len(s) > 3 and isinstance(s[0].data, dict):
                        s = s.duplicate()
                        s[0].data[sorted(s[0].data)[0]] = 666
                    elif mode in ('evaluate', 'rounds'):
                        kw, mode = dict(wrong=1), 'unknown'
                    if len(s) < 4 and hasattr(s, 'resolution'):
                        continue
                    st['good'] = mode == 'ok'
                    st['err'], v = guarded(lambda: x.cross_validate(s, rounds=3, **kw))
                else:
                    kw = dict(fit_periodicity=3)
                    s = kind.series[j - 1]
                    if kind.name == 'PAR':
                        kw['evaluate_steps'] = [1]
                    # whether what is specific of this model accepts it
                    probe = kind.new()
                    e0, v0 = guarded(lambda: probe.cross_validate(s, rounds=3, **kw), seconds=60)
                    st['good'] = e0 == ''
                    st['err'], v = guarded(lambda: x.cross_validate(s, rounds=3, **kw), seconds=60)
            elif op == 'new':
                models.append(kind.new())
            st['out'] = [kind.answers(y, ids) for y in models]
            steps.append(st)
            if len(models) > 3:
                break
    shutil.rmtree(root, ignore_errors=True)
    if not steps:
        return None
    c = dict(name=kind.cls.__name__, fits=kind.fits, param=kind.param, res='60s' if kind.name == 'toynofit' else '', labels=['a'] if kind.name == 'toynofit' else [])
    ref = [dict(key=k, out=o) for k, (e, o) in kind.refs.items() if o is not None] or [dict(key='~', out=[])]
    return {'class': c, 'total': kind.toy, 'series': [descriptor(s) for s in kind.series], 'probes': kind.probes, 'ref': ref, 'steps': steps, 'tag': tag, '_ids': {v: k[:300] for k, v in ids.items()}}


def rand_case(a):
    seed, name = a
    rng = random.Random(seed)
    _lib()
    k = Kind(name, rng)
    n = rng.choice([3, 5, 7]) if k.toy else rng.choice([2, 3, 4])
    acts = []
    compatible = [1, 2, 9] if not k.toy else [1, 2, 11]
    if rng.random() < .3 and (k.toy or name == 'PAF'):
        compatible = [5, 17] if k.toy else [5, 14]
    for _ in range(n):
        m = rng.choice([1, 1, 1, 2])
        op = rng.choice(['fit', 'fit', 'fit', 'save', 'save', 'load', 'cv', 'use', 'new'])
        j = rng.choice(compatible) if rng.random() < .6 else rng.randrange(len(k.series)) + 1
        acts.append((op, 0 if op in ('load', 'new') else m, j, rng.choice([True, True, None, False]), rng.choice(['p', 'q', 'p', '', 'afile', 'adir', 'sub/r', 'under a file'])))
        if op == 'fit' and rng.random() < .4:
            acts.append(('save', m, 1, True, rng.choice(['p', 'q'])))
            acts.append(('load', 0, 1, True, acts[-1][4]))
    return run(k, acts, rng, name)


def replay_one(a):
    hist, seed, name = a
    rng = random.Random(seed)
    _lib()
    k = Kind(name, rng)
    pos = {1: 1, 2: 3, 3: 4, 4: 7}
    acts = []
    for h in hist:
        p = h['path']
        if h['op'] == 'save' and not h['good']:
            p = 'under a file'
        acts.append((h['op'], h['m'], pos.get(h['s'], 1), h['good'], p))
    return run(k, acts, rng, name)


def cases(c, facet):
    r = c.model('LifecycleMC')
    beh = [json.loads(x[3:]) for x in r['prints'] if x.startswith('BEH')]
    rng = random.Random(SEED * 37 + (19 if facet == 'S19' else 18))
    # lives in which something is fitted
    beh = [b for b in beh if sum(1 for h in b if h['op'] == 'fit' and h['good']) >= (1 if facet == 'S18' else 1) and (facet == 'S18' or any(h['op'] == 'load' for h in b) or rng.random() < .05)]
    rng.shuffle(beh)
    nb = 250 if QUICK else 4000
    q = 1 if QUICK else 12
    jobs = [(b, SEED * 100003 + j, 'toy') for j, b in enumerate(beh[:nb])]
    c.cover['behaviours_exported'] = len(beh)
    tr = pmap(replay_one, jobs)
    todo = []
    for name, n in (('toy', 260), ('toynofit', 25), ('toynonparam', 12), ('PAF', 50), ('PAR', 50), ('LIR', 6), ('PAAD', 10), ('PARAD', 6)):
        todo += [(SEED * 1000003 + 7919 * j + len(name) + (5 if facet == 'S19' else 0), name) for j in range(n * q)]
    rng.shuffle(todo)
    tr += pmap(rand_case, todo)
    return [t for t in tr if t is not None]


def lifecycle(c, facet):
    tr = cases(c, facet)
    by = {}
    for t in tr:
        by[t['tag']] = by.get(t['tag'], 0) + 1
    c.cover['traces_by_model'] = by
    for k in range(0, len(tr), 1500):
        c.validate('LifecycleTrace', tr[k:k + 1500], env={'FACET': facet}, label='Lifecycle')
    c.assumptions = ['what a model has learnt is what it answers to the uses it is tried on after every step (10-15 series of every kind, predicting, applying and evaluating)',
                     'TensorFlow is not installed here: LSTM models are not run']


def check_S18(c):
    lifecycle(c, 'S18')


def check_S19(c):
    lifecycle(c, 'S19')
