"""S07-S10: resampling and aggregation against spec/Transform.tla."""
import random, math, datetime
from zoneinfo import ZoneInfo
from vlib import *
from c_container import _lib, KN, tzname
from c_units import zone_table, vec_of, vec

UTC = datetime.timezone.utc
NAMES = ['anomaly', 'forecast', 'data_reconstructed', 'custom', 'quality']
D = 10**5


def q(x):
    return num(x, D, 1e-9)


def custom_first(series):
    out = None
    for item in series:
        if out is None:
            out = {l: item.data[l] for l in series.data_labels()}
    return out

def custom_last(series):
    for item in series:
        out = {l: item.data[l] for l in series.data_labels()}
    return out

def previous_class():
    '''An interpolator of the user's: the value stays the one of the last item.'''
    from timeseria.interpolators import Interpolator
    class Previous(Interpolator):
        def __init__(self, series):
            self.series = series
        def evaluate(self, at, prev_i, next_i):
            return {l: self.series[prev_i].data[l] for l in self.series.data_labels()}
    return Previous


def interpolator(ip):
    from timeseria import interpolators as m
    return {'linear': lambda: m.LinearInterpolator, 'uniform': lambda: m.UniformInterpolator, 'previous': previous_class}[ip]()


class Spread:
    __name__ = 'spread'
    def __call__(self, series):
        return {l: max(i.data[l] for i in series) - min(i.data[l] for i in series) for l in series.data_labels()}

custom_first.__name__ = 'first'
custom_last.__name__ = 'last'


def make_series(c):
    d = _lib()
    s = d.TimeSeries()
    for it in c['items']:
        ixs = {}
        for n, v in it['ix'].items():
            ixs[n] = v
        kw = {}
        if it['l'] != 'absent':
            kw['data_loss'] = it['l']
        if ixs:
            kw['data_indexes'] = ixs
        s.append(d.DataTimePoint(t=c['base'] + it['p'] * c['tick'], tz=c['tz'], data=anyorder(dict(it['x']), 7 * len(s) + it['p']), **kw))
    return travelled(s)


def observe_in(s, c):
    """The series as the specification's items."""
    items = []
    for p in s:
        t = (p.t - c['base']) / c['tick']
        if t != int(t):
            return None
        ixd = p.data_indexes
        items.append(dict(t=int(t), x=[q(p.data[l]) for l in c['labels']],
                          l=opt(ixd.get('data_loss'), q), ix=[opt(ixd.get(n), q) for n in c['names']]))
    return items


def ticks(t, c):
    v = (t - c['base']) / c['tick']
    return int(v) if v == int(v) and abs(v) < 2**31 else -123456789


def observe_out(r, c, st):
    items = []
    for x in r:
        if st['target'] == 'slots':
            s, e = ticks(x.start.t, c), ticks(x.end.t, c)
        else:
            m = ticks(x.t, c)
            s, e = m - c['ut'] // 2, m + c['ut'] // 2
        ixd = x.data_indexes
        items.append(dict(s=s, e=e, x=[q(x.data[l]) if l in x.data else [8, 0] for l in st['fieldnames']], l=q(ixd.get('data_loss')),
                          ix=[opt(ixd.get(n), q) for n in c['names']]))
    names = sorted(set.intersection(*[set(x.data_indexes) for x in r]) - {'data_loss'}) if len(r) else sorted(c['names'])
    extra = sorted(set.union(*[set(x.data_indexes) for x in r]) - {'data_loss'}) if len(r) else sorted(c['names'])
    if len(r) > 1:
        res = r.resolution
        if st['target'] == 'slots':
            unit = vec_of(r[0].unit) if all(vec_of(x.unit) == vec_of(r[0].unit) for x in r) else [-1] * 5
        else:
            try:
                unit = [0, 0, 0, 0, int(res.as_seconds()) if res.as_seconds() == int(res.as_seconds()) else -77]
            except Exception:
                unit = [-2] * 5
    else:
        unit = []
    tzs = {tzname(x.tz) for x in r} | {tzname(r.tz)} if len(r) else {c['tz']}
    return dict(err='', items=items, names=names if names == extra else names + ['+'] + extra,
                labels=sorted(r.data_labels()) if len(r) else sorted(st['fieldnames']), tz=tzs.pop() if len(tzs) == 1 else 'mixed', unit=unit)


def lcm(xs):
    m = 1
    for x in xs:
        m = m * x // math.gcd(m, x)
    return m


def rand_geometry(rng):
    """Ticks, base, zone, step and positions (multiples of 4 ticks), and the units that go with them."""
    kind = rng.choice(['physical'] * 3 + ['calendar'])
    g = {}
    if kind == 'physical':
        sc = rng.choice([60, 60, 600, 900, 3600, 1, 0.25, 30])          # seconds of 4 ticks
        step = 4 * rng.choice([1, 1, 2, 3])
        g.update(tick=sc / 4, tz=rng.choice(['UTC', 'UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata']))
        day = rng.choice([0, 17897, 17897, 18200, 18322])               # in days
        n = rng.randrange(2, 15)
        units = [m for m in ([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20] if sc >= 1 else [4, 8, 12, 20, 40]) if 86400 % (m * sc) == 0 and m * sc == int(m * sc)]
        u = rng.choice(units)
        g.update(ut=4 * u, us=int(u * sc))
        off = 4 * rng.randrange(0, 40)
    else:
        g.update(tick=450, ut=0, tz=rng.choice(['UTC', 'Europe/Rome', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Sydney']))
        cal = rng.choice(['D', 'D', 'D', 'W', 'M', 'M', 'Y'])
        g['cal'] = cal
        h = 8
        step = {'D': h * rng.choice([3, 4, 6, 2]), 'W': 24 * h * rng.choice([1, 1, 2]), 'M': 24 * h * rng.choice([2, 3, 5, 8]), 'Y': 24 * h * 30}[cal]
        n = {'D': rng.randrange(6, 30), 'W': rng.randrange(8, 24), 'M': rng.randrange(10, 26), 'Y': rng.randrange(14, 30)}[cal]
        day = rng.choice([17980, 17980, 18195, 18195, 17897, 17957, 17600])        # around daylight saving changes of 2019, and others
        day += rng.randrange(-3, 3) if cal != 'Y' else 0
        off = 4 * rng.randrange(0, 60)
    g['base'] = day * 86400
    pos = [off]
    irregular = rng.random() < .25
    for _ in range(n - 1):
        r = rng.random()
        if irregular and r < .5:
            pos.append(pos[-1] + 4 * rng.randrange(1, max(2, step // 2)))
        elif r < .75:
            pos.append(pos[-1] + step)
        else:
            pos.append(pos[-1] + step * rng.choice([2, 2, 3, 4, 4, 6] if kind == 'physical' else [2, 2, 3, 4, 6]))
    g['pos'] = pos
    g['step'] = step
    return g


def rand_case(seed):
    rng = random.Random(seed)
    while True:
        g = rand_geometry(rng)
        diffs = [b - a for a, b in zip(g['pos'], g['pos'][1:])]
        m = lcm([x // 4 for x in diffs]) * 4 if rng.random() < .8 else lcm(diffs)
        if m <= 4000:
            break
    labels = rng.choice([['a'], ['a'], ['value', 'b'], ['t_1', 'x', 'c']])
    names = sorted(rng.sample(NAMES, rng.choice([0, 1, 1, 2])))
    lossy = rng.random() < .4
    items = []
    const = rng.random() < .1
    for j, p in enumerate(g['pos']):
        x = {l: (m * rng.randrange(-4, 6) if not const else m) for l in labels}
        if rng.random() < .5:
            x = {l: float(v) for l, v in x.items()}
        if const:
            x = {l: items[0]['x'][l] if items else x[l] for l in labels}
        ix = {}
        for n in names:
            r = rng.random()
            if r < .15 and j > 0:
                continue
            ix[n] = None if r < .35 else rng.choice([0, 1, 1, 0.25, 0.5, 0.75, 2])
        l = 'absent' if not lossy else rng.choice([0, 0, None, 0.25, 0.5, 1, 1, 'absent'])
        items.append(dict(p=p, x=x, ix=ix, l=l))
    if names and all(n not in it['ix'] for n in names for it in items):
        names = []
    names = [n for n in names if any(n in it['ix'] for it in items)]
    c = dict(tick=g['tick'], base=g['base'], tz=g['tz'], labels=labels, names=names, items=items, ut=g['ut'], step=g['step'])
    target = 'slots' if 'cal' in g else rng.choice(['points', 'points', 'slots'])
    steps = []
    s = make_series(c)
    if rng.random() < .1:
        for _ in range(4):
            st = value_step(rng, s, c)
            if st:
                steps.append(st)
        return dict(steps=steps, tag='transform', seed=seed) if steps else None
    for _ in range(2 if target == 'points' and rng.random() < .4 else 1):
        st, r = one_step(rng, s, c, g, target, lossy)
        if st is None:
            break
        steps.append(st)
        if st['out']['err'] or target == 'slots' or len(r) < 3:
            break
        # chain: the resampled series is transformed again
        s = r
        lossy = True
        k = rng.choice([2, 3, 4])
        g = dict(g, ut=c['ut'] * k, us=g['us'] * k)
        if 86400 % g['us']:
            break
        c = dict(c, ut=g['ut'])
        target = rng.choice(['slots', 'points'])
    return dict(steps=steps, tag='transform', seed=seed) if steps else None


def value_step(rng, s, c):
    '''An interpolator asked directly for a value.'''
    ins = observe_in(s, c)
    if ins is None or len(ins) < 2:
        return None
    ip = rng.choice(['linear', 'uniform'])
    n = len(ins)
    how = rng.choice(['alone', 'alone', 'ends', 'ends', 'far', 'half'])
    i = rng.randrange(n - 1)
    j = i + 1 if how != 'far' else rng.randrange(i + 1, n)
    lo, hi = ins[i]['t'], ins[j]['t']
    r = rng.random()
    at = (lo + hi) // 2 if r < .4 else lo + (hi - lo) * rng.choice([1, 3]) // 4 if r < .6 else rng.choice([ins[0]['t'] - 1, ins[0]['t'] - 8, ins[-1]['t'] + 4, ins[-1]['t'], lo, hi])
    if ip == 'uniform' and how == 'alone' and any(x['t'] == at for x in ins):      # on an item: not a missing value
        at = ins[0]['t'] - 4 if r < .5 else ins[-1]['t']
    kw = {}
    if how in ('ends', 'far'):
        kw = dict(prev_i=i, next_i=j)
    elif how == 'half':
        kw = rng.choice([dict(prev_i=i), dict(next_i=j)])
    t = c['base'] + at * c['tick']
    st = dict(target='value', ip=ip, items=ins, at=at, ends=[i + 1, j + 1] if how in ('ends', 'far') else [i + 1] if how == 'half' else [])
    e, r = guarded(lambda: interpolator(ip)(s).evaluate(t, **kw))
    st['out'] = dict(err=e or '', x=[] if e else [q(r[l]) if l in r else [8, 0] for l in c['labels']] + ([[9, 0]] if len(r) != len(c['labels']) else []))
    return st


def used(rng, transformation, c):
    '''The transformation, possibly used already on another series.'''
    if rng.random() < .35:
        d = _lib()
        o = d.TimeSeries()
        h = rng.choice([2, 3, 5])
        t = c['base'] + 30
        for i in range(rng.randrange(4, 12)):
            kw = dict(data_loss=rng.choice([0, 1, 0.5])) if rng.random() < .3 else dict(data_indexes=dict(other=1)) if rng.random() < .3 else {}
            o.append(d.DataTimePoint(t=t, tz='Asia/Tokyo', data=dict(zz=i, yy=2 * i), **kw))
            t += c['step'] * c['tick'] * h * rng.choice([1, 1, 1, 1, 4])
        kw = {}
        if rng.random() < .4:
            kw['validity'] = c['step'] * c['tick'] * rng.choice([1, 4])
        if rng.random() < .3:
            kw['fill_with'] = -5
        guarded(lambda: transformation.process(o, **kw))
    return transformation


def one_step(rng, s, c, g, target, lossy, plain=False, span=None, ip=None):
    d = _lib()
    from timeseria.transformations import Resampler, Aggregator
    from timeseria import operations as o
    ins = observe_in(s, c)
    if ins is None:
        return None, None
    T = KN['TimeUnit']
    mh = False
    if 'cal' in g:
        unit = '1' + g['cal']
        uv = vec_of(T(unit))
    else:
        us = g['us']
        ways = ['%ds' % us]
        if us % 60 == 0 and us <= 3600:
            ways += ['%dm' % (us // 60)] * 2
        if us == 3600:
            ways += ['1h'] * 3
        if us % 3600 == 0 and us > 3600 and us < 86400:
            ways += ['%dh' % (us // 3600)]
        unit = rng.choice(ways)
        mh = unit.endswith('h') and unit != '1h'
        uv = [0, 0, 0, 0, us]
    arg = T(unit) if rng.random() < .5 else unit
    if isinstance(arg, str) and unit.endswith('s') and rng.random() < .3:
        arg = g.get('us', arg)
    ops = ['avg']
    if plain:
        ops = ['avg', 'min', 'max', 'sum'] if target == 'slots' else ['avg']
    elif target == 'slots':
        ops = rng.sample(['avg', 'min', 'max', 'sum', 'first', 'last', 'spread'], rng.choice([1, 2, 3, 4])) if rng.random() < .85 else ['avg']
    kw = {}
    if not plain and rng.random() < .25:
        kw['validity'] = rng.choice([4, 8, c['step'], c['step'], 2 * c['step'], c['step'] // 2 if c['step'] % 8 == 0 else 4])
        if 'cal' in g:
            kw['validity'] = rng.choice([c['step'], 2 * c['step'], c['step'] // 2])
    # (the fill value goes by the total loss: rounding errors of already lossy items are kept out)
    if not lossy and rng.random() < .35:
        kw['fill_with'] = rng.choice([0, 0, -999, 7, 0.5])
    if not plain and rng.random() < .08:
        kw['force_data_loss'] = rng.choice([0, 0.5, 1])
    # the span asked for (by epoch or by date, on whatever time zone)
    lo, hi = [], []
    if span is not None:
        lo, hi = list(span[0]), list(span[1])
    elif not plain and rng.random() < .3:
        a, z = c['items'][0]['p'], c['items'][-1]['p']
        def boundary():
            p = rng.randrange(a - c['ut'], z + 1) if rng.random() < .9 else rng.randrange(a - 3 * max(8, c['ut'], c['step']), z + 3 * max(8, c['ut'], c['step']))
            if rng.random() < .08:
                return p // 4 * 4
            if 'cal' in g:
                m = datetime.datetime.fromtimestamp(c['base'] + p * c['tick'], ZoneInfo(c['tz'])).replace(hour=0, minute=0, second=0, microsecond=0)
                m = m.replace(day=1) if g['cal'] in 'MY' else m - datetime.timedelta(days=m.weekday()) if g['cal'] == 'W' else m
                m = m.replace(month=1) if g['cal'] == 'Y' else m
                return ticks(m.timestamp(), c)
            ph = int(datetime.datetime.fromtimestamp(c['base'] + p * c['tick'], ZoneInfo(c['tz'])).utcoffset().total_seconds() / c['tick']) % c['ut'] if mh else 0
            return p - (p - ph) % c['ut']
        lo = [boundary()] if rng.random() < .7 else []
        hi = [boundary()] if rng.random() < .6 or not lo else []
    def when(p):
        t = c['base'] + p * c['tick']
        w = rng.choice(['epoch', 'epoch', 'int', 'dt', 'utc', 'zone'])
        if w == 'epoch':
            return float(t)
        if w == 'int' and t == int(t):
            return int(t)
        return datetime.datetime.fromtimestamp(t, {'dt': ZoneInfo(c['tz']), 'zone': ZoneInfo('Asia/Tokyo')}.get(w, UTC))
    if lo:
        kw['start'] = when(lo[0])
    if hi:
        kw['end'] = when(hi[0])
    valid = [kw['validity']] if 'validity' in kw else []
    if 'validity' in kw:
        kw['validity'] = kw['validity'] * c['tick']
    if ip is None:
        ip = rng.choice(['linear', 'linear', 'linear', 'uniform', 'uniform', 'previous']) if not plain else 'linear'
    ik = dict(interpolator_class=interpolator(ip)) if ip != 'linear' or rng.random() < .2 else {}
    custom = dict(first=custom_first, last=custom_last, spread=Spread())
    def run():
        if target == 'points':
            if not kw and rng.random() < .5:
                return s.resample(arg, **ik)
            return used(rng, Resampler(arg, **ik), c).process(s, **kw)
        f = [custom[x] if x in custom else x if rng.random() < .5 else getattr(o, x) for x in ops]
        if not kw and rng.random() < .5:
            return s.aggregate(arg, operations=f, **ik) if ops != ['avg'] or rng.random() < .5 else s.aggregate(arg, **ik)
        return used(rng, Aggregator(arg, f, **ik) if ops != ['avg'] or rng.random() < .5 else Aggregator(arg, **ik), c).process(s, **kw)
    fields = [(n + 1, op) for n in range(len(c['labels'])) for op in (ops if target == 'slots' else ['avg'])]
    fn = [c['labels'][n - 1] + ('_' + op if target == 'slots' else '') for n, op in fields]
    first = int(c['base']) - 3 * 366 * 86400
    st = dict(target=target, items=ins, valid=valid, fields=[dict(n=n, op=op) for n, op in fields], fieldnames=fn, outlabels=sorted(fn), nix=len(c['names']),
              names=sorted(c['names']), fill=[q(kw['fill_with'])] if 'fill_with' in kw else [], tz=c['tz'],
              g=dict(z=zone_table(c['tz'], max(first, -2**31 + 10), min(first + 6 * 366 * 86400, 2**31 - 10 * 86400)), u=uv, ut=0 if 'cal' in g else g['ut'],
                     tick=int(c['tick']) if c['tick'] == int(c['tick']) else 1, base=int(c['base']), mh=mh, lo=lo, hi=hi, ip=ip, force=[q(kw['force_data_loss'])] if 'force_data_loss' in kw else []))
    if mh and c['tick'] != int(c['tick']):
        st['g']['mh'] = False
        if c['tz'] not in ('UTC',):
            return None, None
    e, r = guarded(run)
    if e:
        st['out'] = dict(err=e, items=[], names=[], labels=[], tz='', unit=[])
    else:
        st['out'] = observe_out(r, c, st)
    return st, r


FLAVOURS = {1: (0, None, 'absent'), 2: (48, 0, 1), 3: (-24, 0.5, 0), 4: (48, 1, None)}


def replay_one(job):
    """A history exported by TLC, run on the real classes; what it gave is validated like any other trace."""
    seed, hist = job
    rng = random.Random(seed)
    tick = rng.choice([1, 15, 900])
    items = []
    for h in hist:
        if h['op'] == 'item':
            v, l, ix = FLAVOURS[h['f']]
            items.append(dict(p=h['t'], x=dict(a=v), l='absent' if l is None else l, ix={} if ix == 'absent' else dict(anomaly=ix)))
    names = ['anomaly'] if any(it['ix'] for it in items) else []
    c = dict(tick=tick, base=0, tz='UTC', labels=['a'], names=names, items=items, step=4)
    s = make_series(c)
    steps = []
    for h in hist:
        if h['op'] == 'item':
            continue
        c = dict(c, ut=h['u'])
        st, r = one_step(rng, s, c, dict(ut=h['u'], us=h['u'] * tick), h['op'], True, plain=True,
                         span=(h['lo'], h['hi']), ip=h['ip'])
        if st is None:
            break
        steps.append(st)
        if st['out']['err'] or len(r) < 2:
            break
        s = r
    return dict(steps=steps, tag='transform', hist=str(hist)) if steps else None


def _run(c, facet):
    _lib()
    r = c.model('TransformMC', env=dict(N='3' if QUICK else '4'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(behs)
    behs = behs[:2500 if QUICK else 30000]
    c.validate('TransformTrace', pmap(replay_one, list(enumerate(behs))), env=dict(FACET=facet), label='exported_behaviours')
    n = 1200 if QUICK else 12000
    c.validate('TransformTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(n)]), env=dict(FACET=facet))
    c.assumptions += ['times are exactly representable; data are dictionaries; the linear and the uniform interpolators, and a custom one']


def check_S07(c):
    _run(c, 'points')

def check_S08(c):
    _run(c, 'slots')

def check_S09(c):
    _run(c, 'loss')

def check_S10(c):
    _run(c, 'index')
