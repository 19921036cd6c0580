"""S11, S13, S14: operations on series against spec/Operations.tla."""
import random, datetime
from vlib import *
from c_container import _lib, KN, tzname, canon_unit

NAMES = ['anomaly', 'forecast', 'data_reconstructed', 'custom', 'data_loss']
NOV = dict(all=[], per={'~': [0, 1]})
BASE = dict(op='', inplace=False, normalize=True, diffs=False, c=dict(all=[[0, 1]], per={'~': [0, 1]}), offset=NOV, w=1, range=[[0, 1], [1, 1]], src=[],
            labels=[], label='', value=[0, 1], v=dict(all=[[1, 1]], per={'~': [0, 1]}), others=[])


def ticks(t, c):
    v = (t - c['base']) / c['tick']
    return int(v) if v == int(v) and abs(v) < 2**31 else -123456789


def observe(s, c, scale=1):
    """Any series (or view, or list of items) as the specification's."""
    items = []
    kinds, types = set(), set()
    for x in s:
        slot = hasattr(x, 'end')
        kinds.add(type(x).__name__)
        dat = x.data
        types.add(type(dat).__name__)
        pairs = dat.items() if isinstance(dat, dict) else [(str(j), v) for j, v in enumerate(dat)]
        ix = {'~': []}
        for n, v in x.data_indexes.items():
            ix[n] = opt(v)
        t = ticks((x.start if slot else x).t, c)
        z = tzname(x.tz) if not slot or tzname(x.tz) == tzname(x.start.tz) == tzname(x.end.tz) else 'mixed'
        items.append(dict(t=t, e=ticks(x.end.t, c) if slot else t, x={l: num(v * scale) if isinstance(v, (int, float)) and not isinstance(v, bool) else num(v) for l, v in pairs},
                          ix=ix, z=z, u=canon_unit(x.unit) if slot else ''))
    kind = kinds.pop() if len(kinds) == 1 else ''.join(sorted(kinds))
    return dict(kind={'DataTimePoint': 'point', 'DataTimeSlot': 'slot'}.get(kind, kind), ty=types.pop() if len(types) == 1 else 'mixed', items=items)


NONE = dict(kind='none', ty='', items=[])


def complexity(o):
    """Common denominator and span of the values."""
    d = 1
    for it in o['items']:
        for v in it['x'].values():
            if v[1] == 0:
                return None, None
            d = d * v[1] // math.gcd(d, v[1])
    vs = [v[0] * d // v[1] for it in o['items'] for v in it['x'].values()]
    return d, max(abs(v) for v in vs) if vs else 0


def rand_geometry(rng, n=None, kind=None):
    kind = kind or rng.choice(['point', 'point', 'slot'])
    g = dict(kind=kind, ty=rng.choice(['dict', 'dict', 'dict', 'list']), tick=rng.choice([1, 60, 60, 0.5, 900, 3600]), base=rng.choice([0, 0, 1553900400, 1572130800, 86400 * 17897]),
             tz=rng.choice(['UTC', 'UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata']), step=rng.choice([1, 1, 2, 3, 6]), variable=False, cal=None)
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    if kind == 'point' and rng.random() < .35:
        g['variable'] = True
    if kind == 'slot' and rng.random() < .35:
        g.update(cal=rng.choice(['1D', '1D', '1M', '1W', '1Y']), tick=1800, tz=rng.choice(['Europe/Rome', 'America/New_York', 'UTC', 'Asia/Kolkata', 'Australia/Sydney']))
        import pytz
        z = pytz.timezone(g['tz'])
        y, m, dd = rng.choice([(2019, 3, 29), (2019, 10, 25), (2019, 3, 9), (2019, 11, 1), (2019, 1, 31), (2019, 4, 5)])
        if g['cal'] in ('1M', '1Y'):
            dd = 1
        if g['cal'] == '1Y':
            m = 1
        if g['cal'] == '1W':
            x = datetime.date(y, m, dd)
            x -= datetime.timedelta(days=x.weekday())
            y, m, dd = x.year, x.month, x.day
        g['base'] = int(z.localize(datetime.datetime(y, m, dd)).timestamp())
    g['labels'] = rng.choice([['a'], ['a', 'b'], ['a', 'a_b', 'B'], ['value'], ['x', 'y', 'zz']]) if g['ty'] == 'dict' else [str(j) for j in range(rng.choice([1, 2, 3]))]
    g['n'] = n
    g['names'] = rng.sample(NAMES, rng.choice([0, 1, 1, 2]))
    return g


def build(rng, g, start=0, n=None, labels=None, names=None):
    d = _lib()
    T = KN['TimeUnit']
    s = d.TimeSeries()
    t = start
    labels = labels or g['labels']
    names = g['names'] if names is None else names
    prev = None
    vals = rng.choice([[-3, 0, 1, 2, 5, 7], [0, 1], [-1, 0.5, 2, 3.25], [4], list(range(-20, 21)), [0, 0, 0, 1]])
    for j in range(n or g['n']):
        v = [rng.choice(vals) for _ in labels]
        if rng.random() < .3:
            v = [float(x) for x in v]
        data = dict(zip(labels, v)) if g['ty'] == 'dict' else v
        ixs = {m: rng.choice([None, 0, 1, 0.5, 0.25, 2]) for m in names if rng.random() < .8}
        kw = dict(data=anyorder(data, 7 * len(s)))
        if ixs or rng.random() < .3:
            kw['data_indexes'] = ixs
        if g['kind'] == 'point':
            tz = g['tz'] if rng.random() < .93 else 'Asia/Tokyo'
            s.append(d.DataTimePoint(t=g['base'] + t * g['tick'], tz=tz, **kw))
            t += rng.choice([1, 1, 2, 3, 4, 6]) if g['variable'] else g['step']
        else:
            st = prev.end if prev is not None else d.TimePoint(t=g['base'] + t * g['tick'], tz=g['tz'])
            st = d.TimePoint(t=st.t, tz=g['tz'])
            u = g['cal'] or rng.choice(['%ds' % (g['step'] * g['tick'])] if g['step'] * g['tick'] >= 1 else [g['step'] * g['tick']])
            prev = d.DataTimeSlot(start=st, unit=T(u), **kw)
            s.append(prev)
    if g['cal'] and rng.random() < .2:
        s.change_tz(rng.choice(['Europe/Rome', 'America/New_York', 'Asia/Tokyo']))     # no longer at the boundaries of the unit
    return travelled(s)


def vector(rng, labels, vals, partial=True, list_keys=None):
    """A number for all labels, or a number per label (maybe not for all); returns the python argument and its encoding."""
    if rng.random() < .6:
        v = rng.choice(vals)
        return v, dict(all=[num(v)], per={'~': [0, 1]})
    ls = [l for l in labels if not partial or rng.random() < .8] or labels[:1]
    v = {l: rng.choice(vals) for l in ls}
    if rng.random() < .1:
        v['unknown'] = 3
    e = {l: num(x) for l, x in v.items()}
    e['~'] = [0, 1]
    return v, dict(all=[], per=e)


def one_op(rng, s, c, src, dn, span):
    """One operation on s: the recorded step, and the result to go on with."""
    from timeseria import operations as o
    labels = sorted(src['items'][0]['x']) if src['items'] else ['a']
    op = rng.choice(['diff', 'derivative', 'derivative', 'csum', 'integral', 'integral', 'mavg', 'normalize', 'rescale', 'offset', 'filter'])
    a = json.loads(json.dumps(BASE))
    a['op'] = op
    kw = {}
    pos = []
    unit = c['tick']
    scale = 1
    if op in ('derivative', 'integral', 'csum', 'normalize', 'rescale', 'offset', 'diff', 'mavg') and rng.random() < (.25 if op not in ('diff', 'mavg') else .05):
        a['inplace'] = kw['inplace'] = True
    if op == 'derivative':
        if rng.random() < .35:
            a['normalize'] = kw['normalize'] = False
        if rng.random() < .25:
            a['diffs'] = kw['diffs'] = True
        scale = unit if a['normalize'] else 1
    if op in ('csum', 'integral'):
        if op == 'integral' and rng.random() < .25:
            a['normalize'] = kw['normalize'] = False
        k = unit if op == 'integral' and a['normalize'] else 1
        scale = 1 / k
        if op == 'integral' and rng.random() < .4:
            v, e = vector(rng, labels, [0, 1, -3, 10], partial=rng.random() < .1)
            kw['c'] = {l: x * k for l, x in v.items()} if isinstance(v, dict) else v * k
            a['c'] = e
        if rng.random() < .35 and not (a['inplace'] and rng.random() < .7):
            v, e = vector(rng, labels, [0, 0, 1, -3, 10], partial=rng.random() < .1)
            kw['offset'] = {l: x * k for l, x in v.items()} if isinstance(v, dict) else v * k
            a['offset'] = e
    if op == 'mavg':
        a['w'] = rng.choice([1, 2, 2, 3, 4, len(src['items']), len(src['items']) + 1])
        if rng.random() < .05:
            a['w'] = 0
        pos = [a['w']]
    if op == 'normalize':
        if rng.random() < .5:
            rg = rng.choice([[0, 1], [-1, 1], [1, 3], [0, 10], [2, -2], [0.5, 1]])
            kw['range'] = rg
            a['range'] = [num(x) for x in rg]
        if rng.random() < .3:
            sr = {l: rng.choice([[0, 4], [-10, 10], [2, 3], [0, 1]]) for l in labels}
            kw['source_range'] = sr
            a['src'] = [{l: [num(x) for x in r] for l, r in sr.items()}]
    if op in ('rescale', 'offset'):
        v, e = vector(rng, labels, [0, 1, -1, 2, 0.5, -4, 10])
        a['v'] = e
        pos = [v]
    if op == 'filter':
        a['labels'] = pos = rng.sample(labels, rng.randrange(1, len(labels) + 1)) if rng.random() < .9 else ['nope']
    # keep the numbers recognisable
    step = max([it['e'] - it['t'] for it in src['items']] + [0])
    worst = {'derivative': dn * max(264, 2 * step), 'mavg': dn * a['w'] * 2, 'normalize': max(dn * 4 * (2 * span + 1), dn * 80), 'integral': dn * 4}.get(op, dn * 4)
    if worst > MAXDEN or span * 200 > 2**30:
        return None, None
    if rng.random() < .5 and type(s).__name__ == 'TimeSeries':
        call = lambda: getattr(s, op)(*pos, **kw)
    else:
        call = lambda: getattr(o, op)(s, *pos, **kw)
    e, r = guarded(call)
    bad_scale = e == '' and not a['inplace'] and r is None
    inner = observe_scaled(s, c, op, a, scale, labels) if a['inplace'] else NONE
    out = dict(err='', ser=NONE, x={'~': [0, 1]}) if e == '' else dict(err=e, ser=NONE, x={'~': [0, 1]})
    if e == '' and not a['inplace']:
        out['ser'] = observe(r, c, scale) if not bad_scale else NONE
    elif e == '' and r is not None:
        out['err'] = 'in-place result'
    st = dict(src=src, args=a, out=out, after=inner, cal=c['cal'] is not None)
    return st, (r if e == '' and not a['inplace'] and scale == 1 else None)


def observe_scaled(s, c, op, a, scale, labels):
    """After an in-place derivative or integral only the new labels (or all, in lists) are in the other unit."""
    o1, o2 = observe(s, c), observe(s, c, scale)
    post = {'derivative': '_derivative', 'integral': '_integral'}.get(op)
    if post and a['normalize'] and o1['ty'] == 'dict':
        for i1, i2 in zip(o1['items'], o2['items']):
            for l in i1['x']:
                if l.endswith(post) and l[:-len(post)] in labels:
                    i1['x'][l] = i2['x'][l]
        return o1
    return o2 if post and a['normalize'] else o1


def maybe_view(rng, s):
    """Sometimes a view on a part of it."""
    if len(s) > 2 and rng.random() < .2 and s.resolution != 'variable':     # (a view has the resolution of its series)
        i = rng.randrange(0, 2)
        j = rng.randrange(i + 1, len(s) + 1)
        return s.view(i, j)
    return s


def rand_ops(seed):
    rng = random.Random(seed)
    g = rand_geometry(rng)
    s = maybe_view(rng, build(rng, g))
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        src = observe(s, g)
        dn, span = complexity(src)
        if dn is None or dn > 4000 or span > 10**6 or (steps and any(it['t'] == -123456789 for it in src['items'])):
            break
        if not src['items']:
            break
        st, r = one_op(rng, s, g, src, dn, span)
        if st is None:
            break
        steps.append(st)
        if st['out']['err'] or st['args']['inplace']:
            break
        if r is not None and rng.random() < .7:
            s = r
    return dict(steps=steps, tag='operations', seed=seed) if steps else None


def warm_up(rng, s):
    """Operations that should leave nothing behind."""
    from timeseria import operations as o
    for _ in range(rng.choice([0, 1, 2])):
        f = rng.choice([lambda: s.resample('60s'), lambda: s.aggregate('120s'), lambda: s.aggregate('1h', operations=['min', 'avg']), lambda: s.mavg(2), lambda: s.derivative(),
                        lambda: s.normalize(), lambda: [x for x in s], lambda: s[0:1], lambda: o.merge(s, s), lambda: s.resample(600), lambda: s.aggregate('1D'), lambda: s.avg()])
        guarded(f)


def rand_scalar(seed):
    rng = random.Random(seed)
    g = rand_geometry(rng)
    full = build(rng, g)
    s = maybe_view(rng, full)
    from timeseria import operations as o
    src = observe(s, g)
    labels = sorted(src['items'][0]['x'])
    warm_up(rng, full)
    steps = []
    for _ in range(rng.choice([2, 4])):
        a = json.loads(json.dumps(BASE))
        a['op'] = op = rng.choice(['min', 'max', 'sum', 'avg', 'select'])
        if op == 'select':
            if type(s).__name__ != 'TimeSeries':
                continue
            a['label'] = l = rng.choice(labels) if rng.random() < .9 else 'nope'
            v = rng.choice([0, 1, 2, 4, 0.5, -1, -3])
            a['value'] = num(v)
            query = rng.choice(['%s=%s', '%s = %s', '"%s"=%s']) % (l, v)
            e, r = guarded(lambda: s.select(query) if rng.random() < .5 else o.select(s, query))
            st = dict(src=src, args=a, out=dict(err=e, ser=NONE if e or not r else observe(r, g), x={'~': [0, 1]}), after=NONE)
        else:
            a['label'] = l = '' if rng.random() < .5 else rng.choice(labels) if rng.random() < .9 else 'nope'
            way = rng.randrange(3)
            kw = dict(data_label=l) if l else {}
            e, r = guarded(lambda: getattr(s, op)(**kw) if way else getattr(o, op)(s, **kw))
            x = {'~': [9, 0]}
            if e == '':
                x = {k: num(v) for k, v in r.items()} if l == '' and isinstance(r, dict) else {l or '~': num(r)}
            st = dict(src=src, args=a, out=dict(err=e, ser=NONE, x=x), after=NONE)
        steps.append(st)
        if rng.random() < .3:
            warm_up(rng, full)
    return dict(steps=steps, tag='scalar', seed=seed) if steps else None


def rand_merge(seed):
    rng = random.Random(seed)
    from timeseria import operations as o
    g = rand_geometry(rng, n=rng.choice([2, 3, 4, 6, 9]))
    g['variable'] = g['variable'] and rng.random() < .2
    if rng.random() < .1:
        g['n'] = 1
    ser, obs = [], []
    unit = g['step'] if g['cal'] is None else {'1D': 48, '1W': 48 * 7, '1M': 0, '1Y': 0}[g['cal']]
    for q in range(rng.choice([2, 2, 2, 3, 4])):
        h = dict(g)
        r = rng.random()
        start = 0
        if g['cal'] is None:
            start = g['step'] * rng.choice([0, 0, 1, 2, g['n'] - 1])
            if r < .06:
                start += 1 if g['step'] > 1 else 100
            if r > .94:
                h['step'] = g['step'] * 2 if rng.random() < .5 else g['step'] + 1
            if g['kind'] == 'point' and rng.random() < .1:
                h['tz'] = 'Asia/Tokyo'
            if r < .03 and g['kind'] == 'point':
                h['variable'] = True
        elif rng.random() < .1 and g['cal'] == '1D' and q:
            h['tz'] = 'Africa/Lagos' if g['tz'] == 'Europe/Rome' else 'UTC'
        if g['ty'] == 'dict':
            h['labels'] = rng.choice([g['labels'], g['labels'], ['c'], g['labels'] + ['c'], ['c', 'd']])
        n = max(1, g['n'] + rng.choice([-2, -1, 0, 0, 1, 3]))
        if rng.random() < .02:
            n = 1
        names = rng.choice([g['names'], g['names'], rng.sample(NAMES, rng.choice([0, 1, 2]))])
        x = build(rng, h, start, n, names=names)
        if q and g['cal'] and rng.random() < .5 and len(ser[0]) > 1:     # calendar slots starting later
            k = rng.randrange(len(x))
            x = x[k:] if len(x) - k >= 1 else x
        ser.append(x)
    if rng.random() < .08:
        ser.append(ser[0])
    if any(len(x) == 0 for x in ser):
        return None
    ser = [maybe_view(rng, x) if rng.random() < .3 else x for x in ser]
    obs = [observe(x, g) for x in ser]
    a = json.loads(json.dumps(BASE))
    a['op'] = 'merge'
    a['others'] = obs[1:]
    if len(ser) == 2 and rng.random() < .4 and type(ser[0]).__name__ == 'TimeSeries':
        e, r = guarded(lambda: ser[0].merge(ser[1]))
    else:
        e, r = guarded(lambda: o.merge(*ser))
    st = dict(src=obs[0], args=a, out=dict(err=e, ser=NONE if e else observe(r, g), x={'~': [0, 1]}), after=NONE)
    # a slot series of another zone aligned by instants: whose zone the result has is not specified
    if e == '' and st['src']['kind'] == 'slot' and st['out']['ser']['items'] and len({it['z'] for ob in obs for it in ob['items']}) > 1:
        for it in st['out']['ser']['items']:
            it['z'] = st['src']['items'][0]['z']
    # points of mixed zones: the first item's zone is taken
    return dict(steps=[st], tag='merge', seed=seed)


def replay_one(job):
    """A history exported by TLC run on the real classes."""
    seed, kind, hist = job
    rng = random.Random(seed)
    tick = rng.choice([1, 60, 900])
    d = _lib()
    T = KN['TimeUnit']
    g = dict(base=0, tick=tick)
    s = d.TimeSeries()
    steps = []
    from timeseria import operations as o
    scale_of = {}
    for h in hist:
        if 'op' not in h:
            data = dict(a=h['a'], b=h['a'] ** 2 + h['t'])
            if kind == 'slot':
                s.append(d.DataTimeSlot(start=d.TimePoint(t=h['t'] * tick), unit=T('%ds' % (2 * tick)), data=data))
            else:
                s.append(d.DataTimePoint(t=h['t'] * tick, data=data))
            continue
        src = observe(s, g)
        a = dict(h, labels=list(h['labels']))
        op = a['op']
        kw = dict(inplace=True) if a['inplace'] else {}
        pos = []
        f = lambda r: r[0] / r[1] if r[1] != 1 else r[0]
        scale = 1
        if op == 'derivative':
            kw.update(normalize=a['normalize'], diffs=a['diffs'])
            scale = tick if a['normalize'] else 1
        if op in ('csum', 'integral'):
            k = tick if op == 'integral' else 1
            scale = 1 / k
            if a['offset']['all']:
                kw['offset'] = f(a['offset']['all'][0]) * k
            if op == 'integral':
                kw['c'] = f(a['c']['all'][0]) * k
        if op == 'mavg':
            pos = [a['w']]
        if op == 'normalize':
            kw['range'] = [f(x) for x in a['range']]
        if op in ('rescale', 'offset'):
            pos = [f(a['v']['all'][0])]
        if op == 'select':
            pos = ['%s=%s' % (a['label'], f(a['value']))]
            a['label'] = 'a'
        labels = sorted(src['items'][0]['x'])
        if complexity(src)[0] in (None, 0) or complexity(src)[0] > 70:
            break
        e, r = guarded(lambda: getattr(o, op)(s, *pos, **kw))
        after = observe_scaled(s, g, op, a, scale, labels) if a['inplace'] else NONE
        st = dict(src=src, args=a, out=dict(err=e, ser=NONE if e or a['inplace'] or r is None else observe(r, g, scale), x={'~': [0, 1]}), after=after, cal=False)
        steps.append(st)
        if e or op == 'select':
            break
        if not a['inplace']:
            s = r
        if scale != 1:
            if tick != 1:          # bring the numbers back to small ones
                new = [l + '_' + op for l in labels]
                s = s.rescale({l: scale for l in s.data_labels() if l in new or not a['inplace']})
    return dict(steps=steps, tag='operations') if steps else None


def _run(c, facet, gen):
    _lib()
    kinds = ['point', 'slot']
    rs = c.models_parallel([('OperationsMC', 'OperationsMC', dict(N='3' if QUICK else '4', KIND=k)) for k in kinds])
    if facet != 'merge':
        jobs = []
        for k, r in zip(kinds, rs):
            b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
            c.rng.shuffle(b)
            jobs += [(n, k, h) for n, h in enumerate(b[:1500 if QUICK else 20000])]
        c.validate('OperationsTrace', pmap(replay_one, jobs), env=dict(FACET=facet), label='exported_behaviours')
    n = (2500 if facet == 'ops' else 2000) if QUICK else 30000
    c.validate('OperationsTrace', pmap(gen, [SEED * 1000003 + i for i in range(n)]), env=dict(FACET=facet))
    c.assumptions += ['times are exactly representable; values are small rationals']


def check_S11(c):
    _run(c, 'ops', rand_ops)

def check_S13(c):
    _run(c, 'scalar', rand_scalar)

def check_S14(c):
    _run(c, 'merge', rand_merge)
