"""S29: forecasters based on a network, its layers replaced by a recording stand-in, against spec/Network.tla."""
import sys, json, random
from vlib import *
from c_predict import Build, build, observe, when, unit_name, epoch

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))


def _lib():
    import timeseria.datastructures as d
    import timeseria.models.base, timeseria.models.forecasters
    import keras.models
    return d


def log():
    import keras.models
    out = list(keras.models.LOG)
    del keras.models.LOG[:]
    return out


def seen(s):
    """The items, with the hour of their local time."""
    out = observe(s, 'forecast')
    for o, it in zip(out, s):
        o['hour'] = (it.start if hasattr(it, 'start') else it).dt.hour
        for k in ('dst', 'n', 'rest', 'others'):
            o.pop(k)
    return out


def matrix(X):
    return [[num(v) for v in row] for row in X]


DUMMY = {'~': [0, 1]}


def step(op, **kw):
    return dict(dict(op=op, err='', before=[], after=[], given=False, full=False, c=DUMMY, next=[], asked=[], out=[], inplace=False, log=[], metrics=[], res=DUMMY, trainings=[], kept={'~': []}, min='MSE', epochs=30, neurons=128,
                     cfg=dict(labels=[], target=[], all=True, ctx=False, w=1, feats=[], norm=False, limit=[], leak=False)), **kw)


VALUES = ([0, 1, 2, 4], [0, 5, 10], [0, 1, 5], [-2, 0, 2], [3, 7, 5], [.5, 1, 1.5])


def series(rng, b, labels, n, vals, lossy=.15, at=None):
    rows = []
    for _ in range(n):
        loss = rng.choice([1, 1, .5]) if rng.random() < lossy else rng.choice([0, 0, .25, 'absent', None])
        rows.append(({l: rng.choice(vals[l]) for l in labels}, loss, {'anomaly': .5} if rng.random() < .1 else {}))
    return b.series(rows, at)


def config(rng, labels, model):
    all_ = rng.random() < .35
    target = list(labels) if all_ else rng.sample(labels, rng.randint(1, len(labels)))
    ctx = rng.random() < (.05 if all_ else .65)
    return dict(labels=list(labels), target=target, all=all_, ctx=ctx, w=model['w'], feats=model['feats'], norm=rng.random() < .6, limit=opt(rng.choice([1.0, 1.0, 1.0, .5, .25, 0, None])), leak=False)


def fit(rng, m, s, cfg, neurons):
    kw = {}
    if not cfg['all']:
        kw['target'] = cfg['target'][0] if len(cfg['target']) == 1 and rng.random() < .5 else list(cfg['target'])
    elif rng.random() < .3:
        kw['target'] = 'all'
    if cfg['ctx'] or rng.random() < .2:
        kw['with_context'] = cfg['ctx']
    if not cfg['norm'] or rng.random() < .3:
        kw['normalize'] = cfg['norm']
    if cfg['limit'] != [[1, 1]] or rng.random() < .3:
        kw['data_loss_limit'] = cfg['limit'][0][0] / cfg['limit'][0][1] if cfg['limit'] else None
    mins = rng.choice(['MSE', 'MAE', 'MAE', 'MSLE', 'MAPE'])
    if mins != 'MSE' or rng.random() < .3:
        kw['minimize_error_metric'] = mins
    epochs = rng.choice([30, 30, 5])
    if epochs != 30:
        kw['epochs'] = epochs
    before = seen(s)
    log()
    e, v = guarded(lambda: m.fit(s, **kw))
    g = [dict(X=[matrix(x) for x in r['X']], y=matrix(r['y']), trainings=r['trainings'], loss=r['loss'], epochs=r['epochs'], neurons=r['neurons'], fits=r['fits']) for r in log() if r['op'] == 'fit']
    return step('fit', err=e, before=before, after=seen(s), cfg=cfg, log=g, min=mins, epochs=epochs, neurons=neurons)


def asked():
    return [matrix(x) for r in log() if r['op'] == 'predict' for x in r['X']]


def following(b, s, n):
    last = s[-1]
    ts = b.times(n + 1, int(last.start.t if hasattr(last, 'start') else last.t))[1:]
    return [dict(t=t, e=e, hour=when(t, b.tz).hour) for t, e in ts]


def use(rng, m, b, s, cfg, vals, fine):
    """A use of the model. cfg: what it was fitted with (None: not fitted)."""
    op = rng.choice(['predict', 'forecast', 'apply', 'apply', 'evaluate'])
    before = seen(s)
    log()
    if op == 'evaluate':
        mets = rng.choice([[], ['MAE'], ['HAE'], ['MAE', 'HAE'], ['HAE', 'MSE'] if fine else ['HAE']])
        if not fine and not mets and rng.random() < .8:
            mets = ['MAE']
        e, r = guarded(lambda: m.evaluate(s, error_metrics=mets) if mets else m.evaluate(s))
        return step(op, err=e, before=before, after=seen(s), metrics=mets, res={k: num(v) for k, v in r.items()} if not e and r else DUMMY, asked=asked())
    context = [l for l in (cfg or {}).get('labels', []) if cfg['ctx'] and l not in cfg['target']]
    given = bool(context) != (rng.random() < .12)
    full = given and bool(context) and rng.random() < .3
    c = {}
    if given:
        c = {l: rng.choice(vals[l]) for l in (cfg['labels'] if full else context or ['a'])}
    kw = dict(context_data=dict(c)) if given else {}
    n = rng.choice([1, 1, 2]) if op == 'apply' else 1
    if op == 'apply' and (n > 1 or rng.random() < .3):
        kw['steps'] = n
    inplace = op == 'apply' and rng.random() < .35
    if inplace:
        kw['inplace'] = True
    nx = following(b, s, n)
    e, r = guarded(lambda: getattr(m, op)(s, **kw))
    if op == 'predict':
        out = {l: num(v) for l, v in r.items()} if not e and isinstance(r, dict) else DUMMY
    elif op == 'forecast':
        out = seen(r if isinstance(r, list) else [r]) if not e else []
    else:
        out = seen(r) if not e and r is not None else []
    return step(op, err=e, before=before, after=seen(s), given=given, full=full, c={l: num(v) for l, v in c.items()} or DUMMY, next=nx, asked=asked(), out=out, inplace=inplace)


def model(rng):
    from timeseria.models.forecasters import LSTMForecaster
    w = rng.choice([1, 2, 2, 3])
    feats = rng.choice([['values'], ['values'], ['values', 'diffs'], ['values', 'hours'], ['diffs'], ['values', 'diffs', 'hours'], ['hours', 'values'], ['diffs', 'nothing'] if rng.random() < .3 else ['values']])
    neurons = rng.choice([128, 16])
    kw = dict(window=w)
    if feats != ['values'] or rng.random() < .5:
        kw['features'] = list(feats)
    if neurons != 128:
        kw['neurons'] = neurons
    if w == 3 and rng.random() < .5:
        kw.pop('window')
    return LSTMForecaster(**kw), dict(w=w, feats=feats, neurons=neurons)


def rand_life(seed):
    rng = random.Random(seed)
    _lib()
    log()
    b = build(rng)
    labels = rng.choice([['a'], ['a', 'b'], ['a', 'b'], ['a', 'b', 'c']])
    vals = {l: rng.choice(VALUES) for l in labels}
    m, k = model(rng)
    fine = set(k['feats']) <= {'values'}
    steps, fitted = [], None
    if rng.random() < .1:
        steps.append(use(rng, m, b, series(rng, b, labels, 4, vals), None, vals, fine))
    for j in range(rng.choice([1, 1, 1, 2]) if rng.random() < .2 else 1):
        cfg = config(rng, labels, k)
        if fitted:
            cfg = dict(fitted, norm=cfg['norm'], limit=cfg['limit'])      # the same architecture
        n = k['w'] + rng.randint(0, 6)
        s = series(rng, b, labels, max(n, 2), vals, rng.choice([0, 0, .15, .4]))
        steps.append(fit(rng, m, s, cfg, k['neurons']))
        if not steps[-1]['err']:
            fitted = cfg
            if rng.random() < .2:
                import tempfile
                p = tempfile.mkdtemp(prefix='model-', dir=scratch())

                def again():
                    m.save(p + '/m')
                    return type(m).load(p + '/m')
                e, x = guarded(again)
                shutil.rmtree(p)
                steps.append(step('load', err=e))
                m = x if not e else m
        if not fitted:
            continue
        for _ in range(rng.randint(1, 3)):
            at = b.times(rng.randint(1, 9))[-1][0]
            s = series(rng, b, labels, rng.choice([max(2, k['w'] - 1)] + [k['w'] + x for x in (1, 1, 2, 4)]), vals, at=at)
            steps.append(use(rng, m, b, s, fitted, vals, fine))
            if not steps[-1]['err'] and steps[-1]['inplace'] and rng.random() < .3:
                for it in s:
                    it.data_indexes.pop('forecast', None)
                steps.append(use(rng, m, b, s, fitted, vals, False))
    if fine and rng.random() < .03:
        from timeseria.models.forecasters import LSTMForecaster
        m = LSTMForecaster(window=2)
        s = series(rng, b, labels, 18, vals, 0)
        log()
        e, v = guarded(lambda: m.cross_validate(s, rounds=2, fit_normalize=False))
        steps.append(step('cross', err=e, trainings=[r['trainings'] for r in log() if r['op'] == 'fit']))
    return dict(steps=steps, site='network', tag='network', seed=seed)


def rand_detector(seed):
    from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
    rng = random.Random(seed)
    _lib()
    b = build(rng)
    labels = rng.choice([['a'], ['a', 'b'], ['a', 'b'], ['a', 'b', 'c']])
    vals = {l: rng.choice(VALUES) for l in labels}
    w, feats = rng.choice([1, 2, 2, 3]), rng.choice([['values'], ['values'], ['values', 'diffs'], ['values', 'hours']])
    ctx = len(labels) > 1 and rng.random() < .6
    cfg = dict(labels=labels, target=labels, all=True, ctx=False, w=w, feats=feats, norm=rng.random() < .7, limit=[[1, 1]], leak=False)
    m = LSTMAnomalyDetector(window=w, features=feats) if rng.random() < .7 else LSTMAnomalyDetector(None, w, feats)
    steps = []
    for _ in range(1 if rng.random() < .8 else 2):
        s = series(rng, b, labels, w + rng.randint(6, 10), vals, rng.choice([0, .1]))
        before = seen(s)
        log()
        kw = {} if cfg['norm'] else dict(normalize=False)
        e, v = guarded(lambda: m.fit(s, error_metric='E', error_distribution='norm', with_context=ctx, **kw))
        g = log()
        fits = [dict(X=[matrix(x) for x in r['X']], y=matrix(r['y']), trainings=r['trainings']) for r in g if r['op'] == 'fit']
        kept = {l: [num(x) for x in q] for l, q in m.data['predicted_values'].items()} if not e else {'~': []}
        steps.append(step('detect', err=e, before=before, after=seen(s), cfg=dict(cfg, ctx=ctx, all=not ctx), log=fits, asked=[matrix(x) for r in g if r['op'] == 'predict' for x in r['X']], kept=kept))
    return dict(steps=steps, site='detector', tag='detector', seed=seed)


def replay_one(job):
    n, h = job
    rng = random.Random(n)
    _lib()
    log()
    b = build(rng)
    cfg = h['cfg']
    from timeseria.models.forecasters import LSTMForecaster
    m = LSTMForecaster(window=cfg['w'], features=list(cfg['feats']))
    q = lambda x: x[0] / x[1]
    s = b.series([({l: q(v) for l, v in it['x'].items()}, q(it['loss'][0]) if it['loss'] else None, {}) for it in h['s']])
    steps = [fit(rng, m, s, cfg, 128)]
    vals = {l: (0, 1, 2, 4) for l in cfg['labels']}
    if not steps[-1]['err']:
        steps.append(use(rng, m, b, s, cfg, vals, cfg['feats'] == ['values']))
    return dict(steps=steps, site='network', tag='network')


def check_S29(c):
    _lib()
    r = c.model('NetworkMC', env=dict(N='3'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(behs)
    behs = behs[:1200 if QUICK else 12000]
    c.validate('NetworkTrace', pmap(replay_one, list(enumerate(behs))), label='exported_behaviours')
    n = 1800 if QUICK else 20000
    c.validate('NetworkTrace', pmap(rand_life, [SEED * 1000003 + i for i in range(n)]))
    c.validate('NetworkTrace', pmap(rand_detector, [SEED * 1000033 + i for i in range(n // 6)]), label='detectors')
    c.assumptions += ['the network itself is replaced by a recording stand-in answering a fixed linear function (TensorFlow is not installed)']
