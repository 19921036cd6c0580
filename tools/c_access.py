"""S04, S05: access, slicing, views and iterators against spec/Access.tla."""
import random, datetime
from vlib import *
from c_container import _lib, canon_unit, tzname, rel, KN

NOX = dict(k='', t=0, e=0, u='', tz='', ty='', sh=[], dv=[], ix=[])


def project(x, sc):
    k = type(x).__name__
    slot = hasattr(x, 'end')
    start = x.start if slot else x
    o = dict(k=k, t=rel(start.coordinates[0], sc), e=rel(x.end.coordinates[0], sc) if slot else 0, u='', tz='', ty='', sh=[], dv=[], ix=[])
    if 'Time' in k:
        o['tz'] = tzname(x.tz)
        if slot:
            o['u'] = canon_unit(x.unit)
    if k.startswith('Data'):
        d = x.data
        o['ty'] = type(d).__name__
        o['sh'] = sorted(str(l) for l in d) if isinstance(d, dict) else ['#%d' % len(d)]
        o['dv'] = [num(d[l]) for l in sorted(d)] if isinstance(d, dict) else [num(v) for v in d]
        o['ix'] = sorted('%s=%s' % kv for kv in x.data_indexes.items())
    return o


def build(x, sc):
    d = _lib()
    t = sc[0] + x['t'] * sc[1]
    val = [n / m for n, m in x['dv']]
    kw = dict(data=anyorder(dict(zip(x['sh'], val)), 7 * x['t']) if x['ty'] == 'dict' else val)
    ixd = {}
    for s in x['ix']:
        a, b = s.split('=')
        ixd[a] = None if b == 'None' else float(b)
    kw['data_indexes'] = ixd
    if x['k'] == 'DataTimePoint':
        return d.DataTimePoint(t=t, tz=x['tz'], **kw)
    if x['k'] == 'DataPoint':
        return d.DataPoint(t, **kw)
    if x['k'] == 'DataTimeSlot':
        return d.DataTimeSlot(start=d.TimePoint(t=t, tz=x['tz']), unit=KN['TimeUnit']((x['e'] - x['t']) * sc[1]), **kw)
    raise ValueError(x['k'])


def items_of(lst, sc):
    return [project(x, sc) for x in lst]


def perform(w, op, sc, rng=None):
    """w: dict(base, views, its). Returns out dict."""
    d = _lib()
    o = op['op']
    time = type(w['base']).__name__ != 'Series'
    tgt = w['base'] if op['w'] == 0 or o in ('next', 'append') else w['views'][op['w'] - 1]
    out = dict(err='', ret=[], n=0, labels=[], res='', bres='', indep=True)
    how = rng.randrange(4) if rng else 0
    a = op['a'][0] if op['a'] else None
    b = op['b'][0] if op['b'] else None
    ts = lambda v: None if v is None else float(sc[0] + v * sc[1])
    dt = lambda v: None if v is None else datetime.datetime.fromtimestamp(sc[0] + v * sc[1], tz=KN['tzinfo'])
    if o == 'at':
        e, v = guarded((lambda: tgt.get(at_i=op['i'])) if how == 1 else (lambda: tgt[op['i']]))
        r = [v]
    elif o == 'att':
        t = op['i']
        fs = [lambda: tgt[ts(t)], lambda: tgt.get(at_t=ts(t)), lambda: tgt[dt(t)], lambda: tgt.get(at_dt=dt(t))]
        e, v = guarded(fs[how])
        r = [v]
    elif o == 'slice':
        e, v = guarded((lambda: tgt.slice(from_i=a, to_i=b)) if how == 1 and time else (lambda: tgt[a:b]))
        r = v
    elif o == 'slicet':
        fs = [lambda: tgt[ts(a):ts(b)], lambda: tgt.slice(from_t=ts(a), to_t=ts(b)), lambda: tgt[dt(a):dt(b)], lambda: tgt.slice(from_dt=dt(a), to_dt=dt(b))]
        if a is None and b is None:
            how = 1
        e, v = guarded(fs[how])
        r = v
    elif o == 'filter':
        e, v = guarded((lambda: tgt[op['ls'][0]]) if len(op['ls']) == 1 and how else (lambda: tgt.filter(*op['ls'])))
        r = v
    elif o == 'list':
        fs = [lambda: [x for x in tgt], lambda: list(tgt), lambda: tgt.contents(), lambda: [tgt[i] for i in range(len(tgt))]]
        e, v = guarded(fs[how])
        r = v
    elif o == 'head':
        e, v = guarded(tgt.head, op['i'])
        r = v
    elif o == 'tail':
        e, v = guarded(tgt.tail, op['i'])
        r = v
    elif o == 'dup':
        e, v = guarded((lambda: tgt.materialize()) if how and op['w'] else (lambda: tgt.duplicate()))
        r = v
    elif o == 'view':
        cls = type(w['views'][0]) if w['views'] else None
        e, v = guarded(tgt.view, a, b)
        if e == '':
            w['views'].append(v)
        r = []
    elif o == 'iter':
        e, v = guarded(iter, tgt)
        if e == '':
            w['its'].append(v)
        r = []
    elif o == 'next':
        END = object()
        e, v = guarded(lambda: next(w['its'][op['w'] - 1], END))
        r = [] if v is END else [v]
    elif o == 'append':
        e, v = guarded(w['base'].append, build(op['x'], sc))
        r = []
    elif o == 'look':
        e, v = guarded(lambda: (len(tgt), tgt.data_labels()))
        r = []
        if e == '':
            out['n'], out['labels'] = v[0], sorted(v[1] or [])
        if time:
            out['res'], out['bres'] = str(tgt.resolution), str(w['base'].resolution)
    out['err'] = e
    if e == '':
        e, v = guarded(items_of, r, sc)
        out['ret'] = v if e == '' else [NOX]
        if o == 'dup' and e == '':
            before = items_of(list.__iter__(w['base']), sc)
            for x in r:
                for l in (x.data if isinstance(x.data, dict) else range(len(x.data))):
                    x.data[l] = -12345
                x.data_indexes['zz'] = 1
            if len(r):
                guarded(r.append, x)
                guarded(r.change_tz, 'Asia/Tokyo') if time else None
            out['indep'] = items_of(list.__iter__(w['base']), sc) == before
    out['base'] = items_of(list.__iter__(w['base']), sc)
    return out


def new(items, sc):
    d = _lib()
    import pytz
    KN['tzinfo'] = pytz.UTC
    s = d.TimeSeries() if not items or 'Time' in items[0]['k'] else d.Series()
    for x in items:
        s.append(build(x, sc))
    return dict(base=s, views=[], its=[])


def replay_one(arg):
    items, beh = arg
    w = new(items, (0, 1))
    steps = []
    for h in beh:
        steps.append(dict(o=h['op'], out=perform(w, h['op'], (0, 1))))
        if (steps[-1]['out']['err'] == '') != h['ok']:
            break                 # what follows works on what should be there
    same = len(steps) == len(beh) and all((s['out']['err'] == '') == h['ok'] and (not h['ok'] or s['out']['ret'] == h['ret']) for s, h in zip(steps, beh))
    return same, dict(items=items, steps=steps, tag='access')


def rand_hist(arg):
    seed, facet = arg
    rng = random.Random(seed)
    _lib()
    kind = rng.choice(['DataTimePoint'] * 3 + ['DataTimeSlot'] * 3 + (['DataPoint'] if facet == 'access' else []))
    sc = rng.choice([(0, 1), (0, 60), (1553904000, 900), (0, .5), (-7200, 60)])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    tz = '' if kind == 'DataPoint' else rng.choice(['UTC', 'Europe/Rome'])
    sh = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c']])
    ty = 'list' if rng.random() < .1 else 'dict'
    t = rng.choice([0, 3, -2])
    u = rng.choice([1, 2, 5])
    irr = rng.random() < .5

    def item(t):
        return dict(k=kind, t=t, e=t + u if kind == 'DataTimeSlot' else 0, u='%ds' % (u * sc[1]) if kind == 'DataTimeSlot' else '', tz=tz, ty=ty,
                    sh=sh if ty == 'dict' else ['#%d' % len(sh)], dv=[[rng.randrange(-50, 50), 1] for _ in sh],
                    ix=sorted(rng.sample(['anomaly=0.5', 'data_loss=0.25', 'forecast=1.0', 'q=None'], rng.choice([0, 0, 1, 2]))))
    if kind == 'DataTimeSlot':
        num_, den = num(u * sc[1])
        ustr = '%d/%ds' % (num_, den) if den != 1 else '%ds' % num_
    items = []
    for _ in range(n):
        x = item(t)
        if kind == 'DataTimeSlot':
            x['u'] = ustr
        items.append(x)
        t += u if kind == 'DataTimeSlot' else (rng.choice([1, 2, 3]) if irr else u)
    w = new(items, sc)
    items = items_of(list.__iter__(w['base']), sc)
    steps = []
    times = [x['t'] for x in items] or [0]
    optt = lambda: rng.choice([[], [rng.choice(times)], [rng.choice(times) + rng.choice([0, 1, -1, u])], [times[0] - 3], [times[-1] + 10]])
    opti = lambda m: rng.choice([[], [rng.randrange(-m - 2, m + 3)], [rng.randrange(0, m + 1)]])
    for _ in range(rng.choice([6, 12, 20])):
        wv = rng.randrange(0, len(w['views']) + 1) if facet == 'view' else 0
        m = len(w['views'][wv - 1]) if wv else len(w['base'])
        op = dict(op='', w=wv, i=0, a=[], b=[], ls=[], x=NOX)
        choices = ['at', 'at', 'slice', 'slice', 'list', 'look', 'dup']
        if kind != 'DataPoint':
            choices += ['att', 'slicet', 'slicet', 'head', 'tail']
        choices += ['filter'] if ty == 'dict' else []
        if facet == 'view':
            choices += ['view'] * (8 if not w['views'] else 1) + (['iter', 'iter', 'next', 'next', 'next', 'next', 'append'] if w['views'] else [])
        o = op['op'] = rng.choice(choices)
        if o == 'at':
            op['i'] = rng.randrange(-m - 3, m + 3)
        elif o == 'att':
            op['i'] = rng.choice(times) + rng.choice([0, 0, 0, 1, -1])
        elif o in ('slice', 'view'):
            op['a'], op['b'] = opti(m), opti(m)
            if o == 'view' and rng.random() < .6:
                op['a'], op['b'] = [rng.randrange(0, m + 1)], [rng.randrange(0, m + 1)]
        elif o == 'slicet':
            op['a'], op['b'] = optt(), optt()
        elif o == 'filter':
            op['ls'] = rng.choice([[rng.choice(sh)], [sh[0]], sorted(rng.sample(sh, rng.randrange(1, len(sh) + 1))), ['zz']])
        elif o in ('head', 'tail'):
            op['i'] = rng.choice([1, 2, 5, 20])
        elif o == 'next':
            if not w['its']:
                continue
            op['w'] = rng.randrange(1, len(w['its']) + 1)
        elif o == 'append':
            x = item(t)
            x['u'] = ustr if kind == 'DataTimeSlot' else ''
            t += u
            op['w'] = 0
            op['x'] = project(build(x, sc), sc)
            times.append(x['t'])
        op_out = perform(w, op, sc, rng)
        steps.append(dict(o=op, out=op_out))
    return dict(items=items, steps=steps, tag='access', seed=seed)


def run(c, facet):
    _lib()
    n = '4' if facet == 'access' else '3'
    plan = [('AccessMC', cfg, dict(N=n, MAXOPS='3' if QUICK else '4')) for cfg in ('AccessPoints', 'AccessSlots')]
    for (m, cfg, env), r in zip(plan, c.models_parallel(plan)):
        got = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
        slot = cfg.endswith('Slots')
        items = [dict(k='DataTimeSlot' if slot else 'DataTimePoint', t=60 * t, e=60 * t + 60 if slot else 0, u='60s' if slot else '', tz='UTC', ty='dict',
                      sh=['a', 'b'], dv=[[t, 1], [10 * t, 1]], ix=[]) for t in range(1, int(n) + 1)]
        if QUICK:
            got = got[c.rng.randrange(2)::2]
        else:
            got = c.rng.sample(got, min(len(got), 60000))
        res = pmap(replay_one, [(items, b) for b in got])
        diff = [t for same, t in res if not same]
        c.cover['behaviours_replayed_' + cfg] = len(got)
        c.traces += len(got) - len(diff)
        if diff:
            c.validate('AccessTrace', diff[:400], env=dict(FACET=facet))
    k = 1500 if QUICK else 15000
    rnd = [t for t in pmap(rand_hist, [(SEED * 100003 + i, facet) for i in range(k)]) if t['steps']]
    c.validate('AccessTrace', rnd, env=dict(FACET=facet))
    c.assumptions += ['slicing with a step is not part of the interface considered', 'tail(0) is not considered']


def check_S04(c):
    run(c, 'access')


def check_S05(c):
    run(c, 'view')
