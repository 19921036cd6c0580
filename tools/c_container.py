"""S01, S02, S03: the series container against spec/Container.tla."""
import json, random
from vlib import *
import vlib

KN = {}

def _lib():
    if not KN:
        from timeseria import datastructures as d
        from timeseria.units import TimeUnit
        from timeseria.utilities import detect_sampling_interval
        KN.update(d=d, TimeUnit=TimeUnit, dsi=detect_sampling_interval)
    return KN['d']


# ------------------------------------------------------------------ building and projecting items

def tzname(tz):
    return str(tz) if tz is not None else ''


def canon_unit(u):
    """Physical units by their seconds, calendar ones by their components."""
    if isinstance(u, str):
        return u
    try:
        s = u.as_seconds()
        n, d = num(s)
        return '%d/%ds' % (n, d) if d != 1 else '%ds' % n
    except Exception:
        return str(u)


def rel(t, sc):
    v = (t - sc[0]) / sc[1]
    return int(v) if v == int(v) and abs(v) < 2**31 else -123456789


def build(spec, sc):
    d = _lib()
    k, t = spec['k'], sc[0] + spec['t'] * sc[1]
    kw = {}
    if k.startswith('Data'):
        v = spec['v']
        kw['data'] = anyorder({l: v for l in spec['sh']}, 7 * v) if spec['ty'] == 'dict' else [v] * int(spec['sh'][0][1:])
        kw['data_indexes'] = dict(spec.get('ixd', {}))
    tz = tze = spec['tz']
    if tz and spec.get('form') in ('zone', 'local'):          # the same zone, as an object or as the one carried by a local time
        import pytz, datetime
        tz = pytz.timezone(tz)
        if spec['form'] == 'local':
            tz, tze = [datetime.datetime.fromtimestamp(x, tz).tzinfo for x in (t, t + (spec.get('n') or 0) * sc[1])]
    if k in ('TimePoint', 'DataTimePoint'):
        return getattr(d, k)(t=t, tz=tz, **kw)
    if k in ('TimeSlot', 'DataTimeSlot'):
        if spec.get('how') == 'end':
            return getattr(d, k)(start=d.TimePoint(t=t, tz=tz), end=d.TimePoint(t=t + spec['n'] * sc[1], tz=tze), **kw)
        unit = spec['cal'] if spec.get('cal') else spec['n'] * sc[1]
        return getattr(d, k)(start=d.TimePoint(t=t, tz=tz), unit=KN['TimeUnit'](unit), **kw)
    if k == 'DataPoint':
        return d.DataPoint(t, **kw)
    if k == 'DataSlot':
        return d.DataSlot(start=d.Point(t), end=d.Point(t + spec['n'] * sc[1]), **kw)
    raise ValueError(k)


def project(x, sc):
    k = type(x).__name__
    slot = hasattr(x, 'end')
    start = x.start if slot else x
    o = dict(k=k, t=rel(start.coordinates[0], sc), e=rel(x.end.coordinates[0], sc) if slot else 0, u='', tz='', ty='', sh=[], v=0, ix=[])
    if 'Time' in k:
        o['tz'] = tzname(x.tz)
        if slot:
            o['u'] = canon_unit(x.unit)
            if tzname(x.end.tz) != o['tz'] or tzname(x.start.tz) != o['tz']:
                o['tz'] += '!' + tzname(x.start.tz) + '!' + tzname(x.end.tz)
    if k.startswith('Data'):
        dat = x.data
        o['ty'] = type(dat).__name__
        vals = list(dat.values()) if isinstance(dat, dict) else list(dat)
        o['sh'] = sorted(str(l) for l in dat) if isinstance(dat, dict) else ['#%d' % len(dat)]
        o['v'] = vals[0] if vals and all(w == vals[0] for w in vals) and isinstance(vals[0], int) else -999
        o['ix'] = sorted('%s=%s' % kv for kv in x.data_indexes.items())
    return o


def res_of(s, sc):
    if type(s).__name__ == 'Series':
        return []
    r = s.resolution
    if r is None:
        return []
    if isinstance(r, str):
        return [r]
    if len(s) and not hasattr(list.__getitem__(s, 0), 'end'):
        n, dd = num(r.as_seconds())
        v = Fraction(n, dd) / Fraction(sc[1]) if dd else None
        return ['#%d' % v if v is not None and v.denominator == 1 else '#?%s' % r]
    return [canon_unit(r)]


DUMMY = dict(k='', t=0, e=0, u='', tz='', ty='', sh=[], v=0, ix=[])


def observe(s, sc, err, ret=None, look=False):
    items = [project(x, sc) for x in list.__iter__(s)]
    o = dict(err=err, items=items, n=len(s), res=res_of(s, sc), tz=[], labels=[], si=[], guess=[], ret=ret or [])
    if type(s).__name__ != 'Series':
        z = s.tz
        o['tz'] = [] if z is None else [tzname(z)]
    if look and items:
        if items[0]['k'].startswith('Data'):
            e, v = guarded(s.data_labels)
            o['labels'] = (sorted(v) if e == '' else ['error ' + e])
        if items[0]['k'] in ('TimePoint', 'DataTimePoint') and type(s).__name__ != 'Series':
            if len(items) > 1:
                e, v = guarded(KN['dsi'], s, seconds=4)
                if e == '':
                    o['si'] = [rel(sc[0] + v, sc)]
                elif e == 'NonTermination':
                    o['err'] = e
            if s.resolution == 'variable':
                e, v = guarded(s.guess_resolution, seconds=4)
                if e == '':
                    o['guess'] = [rel(sc[0] + v.as_seconds(), sc)]
                elif e == 'NonTermination':
                    o['err'] = e
    return o


def perform(s, op, objs, sc):
    """Returns (series, err, ret)."""
    k = op['op']
    x = objs.get(id(op))
    i = op['i']
    ret = []
    if k == 'append':
        e, v = guarded(s.append, x)
    elif k == 'insert':
        e, v = guarded(s.insert, i, x)
    elif k == 'pop':
        e, v = guarded(s.pop) if i == 9999 else guarded(s.pop, i)
        if e == '':
            ret = [project(v, sc)]
    elif k == 'remove':
        e, v = guarded(s.remove, x)
    elif k == 'clear':
        e, v = guarded(s.clear)
    elif k == 'dup':
        e, v = guarded(s.duplicate)
        s = v if e == '' else s
    elif k == 'slice':
        e, v = guarded(lambda: s[i:op['j']])
        s = v if e == '' else s
    elif k == 'rename':
        e, v = guarded(s.rename_data_label, op['l'], op['m'])
    elif k == 'rmlabel':
        e, v = guarded(s.remove_data_label, op['l'])
    elif k == 'changetz':
        e, v = guarded(s.change_tz, op['l'])
    elif k == 'look':
        e = ''
    else:
        raise MachineryError(k)
    return s, e, ret


def new_series(cls, tz):
    d = _lib()
    return d.Series() if cls == 'Series' else (d.TimeSeries(tz=tz[0]) if tz else d.TimeSeries())


# ------------------------------------------------------------------ random histories

def rand_hist(seed):
    rng = random.Random(seed)
    d = _lib()
    flavour = rng.choice(['points'] * 5 + ['slots'] * 4 + ['dayslots', 'listpoints', 'bare', 'bareslots', 'gen', 'genslots'])
    sc = rng.choice([(0, 1), (1000000, 60), (0, 3600), (86400 * 365, 600), (0, 0.5), (1000, 0.0625), (1577836800, 1)])
    cls = 'Series' if flavour in ('gen', 'genslots') or (flavour in ('points', 'slots') and rng.random() < .12) else 'TimeSeries'
    tz0 = rng.choice(['UTC', 'UTC', 'Europe/Rome', 'America/New_York'])
    tzs = ['UTC', 'Europe/Rome', 'America/New_York', 'Europe/Berlin']
    if flavour == 'dayslots':
        sc = (0, 3600)
        tz0 = 'Europe/Rome'
    preset = [rng.choice([tz0, tz0, 'UTC'])] if cls == 'TimeSeries' and rng.random() < .15 else []
    if flavour in ('gen', 'genslots'):
        tz0 = ''
    labels = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c']])
    isslot = flavour in ('slots', 'dayslots', 'bareslots', 'genslots')
    kind = {'points': 'DataTimePoint', 'slots': 'DataTimeSlot', 'dayslots': 'DataTimeSlot', 'listpoints': 'DataTimePoint', 'bare': 'TimePoint',
            'bareslots': 'TimeSlot', 'gen': 'DataPoint', 'genslots': 'DataSlot'}[flavour]
    n = rng.choice([1, 2, 6]) if isslot else 0
    step = rng.choice([1, 2, 5])
    ln = rng.choice([1, 2, 3])
    vcount = [0]
    s = new_series(cls, preset)
    objs, steps = {}, []
    ops_run = []
    cal_start = 1553900400 // 3600 - rng.choice([0, 24])     # Europe/Rome midnight near the DST change of 2019-03-31

    def item(t, **kw):
        vcount[0] += 1
        sp = dict(k=kind, t=t, n=n, tz=tz0, ty='list' if flavour == 'listpoints' else 'dict', v=vcount[0],
                  sh=['#%d' % ln] if flavour == 'listpoints' else list(cur_labels()), how=rng.choice(['unit', 'end']) if flavour == 'slots' else 'unit')
        if flavour == 'bareslots':
            sp['how'] = 'end'
        if flavour == 'dayslots':
            sp['cal'] = '1D'
        if rng.random() < .3:
            sp['form'] = rng.choice(['zone', 'local'])
        if rng.random() < .2:
            sp['ixd'] = {rng.choice(['data_loss', 'anomaly', 'q']): rng.choice([0, 1, 0.5])}
        sp.update(kw)
        if sp['k'] in ('TimePoint', 'TimeSlot'):
            sp['ty'], sp['sh'], sp['v'] = '', [], 0
        return sp

    def cur():
        return [project(x, sc) for x in list.__iter__(s)]

    def cur_labels():
        c = list(list.__iter__(s))
        if c and kind.startswith('Data') and flavour != 'listpoints':
            return sorted(c[0].data)
        return labels

    irregular = rng.random() < .4
    coarse = flavour in ('points', 'listpoints', 'bare', 'slots', 'bareslots', 'genslots') and rng.random() < .2      # spacings of many ticks, off by one
    if coarse:
        step = rng.choice([240, 600, 1440])
        n = step if isslot else 0
    jitter = rng.choice([0, 1, 2]) if coarse else 0
    nops = rng.choice([8, 14, 25]) if rng.random() < .9 else 60
    manyvar = rng.random() < .04 and kind == 'DataTimePoint'
    if manyvar:
        nops = 32
        sc = (0, 60)
    grow = 0.0
    for q in range(nops):
        c = cur()
        last = c[-1] if c else None
        op = dict(op='append', i=0, j=0, l='', m='')
        sp = None
        r = rng.random()
        if manyvar and q < 26:
            r = 0.0
        nxt = (last['e'] if isslot else last['t'] + (step + (rng.choice([0] * 6 + [jitter, -jitter])) if coarse else step if not irregular else rng.choice([1, 2, 3, 5, step, step]))) if last else (cal_start if flavour == 'dayslots' else rng.choice([0, 3, 10]))
        if manyvar and last and q < 26:
            nxt = last['t'] + q * q + 1
        if r < .44 or not c:
            sp = item(nxt)
        elif r < .60:                                         # wrong in one way
            w = rng.choice(['order', 'same', 'labels', 'type', 'kind', 'tz', 'unit', 'gap', 'raw'])
            sp = item(nxt)
            if w == 'order':
                sp['t'] = rng.choice([c[0]['t'] - 1, c[-1]['t'] - 1, c[rng.randrange(len(c))]['t']])
            elif w == 'same':
                sp['t'] = last['t']
            elif w == 'labels' and kind.startswith('Data'):
                sp['sh'] = ['#%d' % (ln + 1)] if flavour == 'listpoints' else rng.choice([['a', 'd'], ['d'], ['a', 'b', 'c', 'd']])
            elif w == 'type' and kind.startswith('Data'):
                sp['ty'], sp['sh'] = ('dict', ['a']) if flavour == 'listpoints' else ('list', ['#%d' % len(labels)])
            elif w == 'kind':
                if kind == 'DataTimePoint':
                    sp = item(nxt, k=rng.choice(['TimePoint', 'DataTimeSlot']), n=1)
                elif kind == 'DataTimeSlot':
                    sp = item(nxt, k=rng.choice(['TimeSlot', 'DataTimePoint']), how='end', cal=None, n=n or 24)
                elif kind == 'TimePoint':
                    sp = item(nxt, k='TimeSlot', n=1, how='end')
                elif kind == 'TimeSlot':
                    sp = item(nxt, k='TimePoint')
                elif kind == 'DataPoint':
                    sp = item(nxt, k='DataSlot', n=1, tz='')
                else:
                    sp = item(nxt, k='DataPoint', tz='')
            elif w == 'tz' and tz0:
                sp['tz'] = rng.choice(tzs)
                if flavour == 'dayslots':
                    sp['how'], sp['cal'], sp['n'] = 'end', None, 24
            elif w == 'unit' and isslot:
                sp['n'], sp['cal'] = (n or 24) * 2, None
            elif w == 'gap':
                sp['t'] = nxt + (1 if isslot else 3)
        elif r < .70:
            op['op'] = 'insert'
            i = op['i'] = rng.choice([0, len(c), rng.randrange(0, len(c) + 1), -1 if len(c) > 1 else 0, rng.randrange(0, len(c) + 1), len(c) + 3])
            p = max(0, min(len(c), i if i >= 0 else len(c) + i))
            lo = c[p - 1]['t'] if p > 0 else c[0]['t'] - 6
            hi = c[p]['t'] if p < len(c) else last['t'] + 6
            if isslot:
                t = c[0]['t'] - (n or 24) if p == 0 else nxt
                t = t if rng.random() < .8 else t + 1
            else:
                t = rng.choice([(lo + hi) // 2, (lo + hi) // 2, lo, hi, hi + 1, lo - 1])
            sp = item(t)
            if flavour == 'dayslots' and p == 0:
                sp['how'], sp['cal'], sp['n'] = 'unit', '1D', 0
            if rng.random() < .25:
                w = rng.choice(['labels', 'kind', 'tz', 'unit'])
                if w == 'labels' and kind.startswith('Data') and flavour != 'listpoints':
                    sp['sh'] = ['a', 'd']
                elif w == 'kind' and kind == 'DataTimePoint':
                    sp = item(t, k='DataTimeSlot', n=1)
                elif w == 'tz' and tz0 and flavour != 'dayslots':
                    sp['tz'] = rng.choice(tzs)
                elif w == 'unit' and flavour == 'slots':
                    sp = item(c[0]['t'] - 2 * n, n=2 * n)
                    op['i'] = 0
        elif r < .80:
            op['op'] = 'pop'
            op['i'] = rng.choice([9999, 9999, 0, len(c) - 1, rng.randrange(len(c)), -1, len(c), -len(c)])
        elif r < .84 and kind.startswith('Data') and flavour != 'gen':
            op['op'] = 'remove'
            y = c[rng.randrange(len(c))]
            sp = item(y['t'])
            sp['v'], sp['sh'], sp['ty'] = y['v'], y['sh'], y['ty']
            if not y['ty']:
                continue
            if rng.random() < .2:
                sp['v'] = 777
        elif r < .86:
            op['op'] = 'clear'
        elif r < .88:
            op['op'] = 'dup'
        elif r < .92:
            op['op'] = 'slice'
            op['i'], op['j'] = rng.choice([0, 1, 2, -3]), rng.choice([len(c), len(c) - 1, 3, -1, 1])
        elif r < .94 and kind.startswith('Data'):
            op['op'] = 'rename'
            op['l'], op['m'] = rng.choice(cur_labels() + ['z']), rng.choice(['c', 'd', 'a', 'b'])
            if op['l'] == op['m']:
                op['l'] = 'z'
        elif r < .95 and kind.startswith('Data') and flavour != 'listpoints' and len(cur_labels()) > 1:
            op['op'] = 'rmlabel'
            op['l'] = rng.choice(cur_labels() + ['z'])
        elif r < .96 and tz0 and cls == 'TimeSeries' and flavour != 'dayslots':
            op['op'] = 'changetz'
            op['l'] = rng.choice(tzs)
        else:
            op['op'] = 'look'
        if sp is not None:
            try:
                x = build(sp, sc)
            except Exception:
                continue                                   # not a constructible item
            objs[id(op)] = x
        px = project(objs[id(op)], sc) if id(op) in objs else DUMMY
        op['x'] = px
        op['_sp'] = sp
        s, e, ret = perform(s, op, objs, sc)
        ops_run.append(op)
        steps.append(dict(o={a: b for a, b in op.items() if a != '_sp'}, out=observe(s, sc, e, ret, op['op'] == 'look')))
        if steps[-1]['out']['err'] == 'NonTermination':
            break
    # always finish with a look
    if steps and steps[-1]['o']['op'] != 'look' and steps[-1]['out']['err'] != 'NonTermination':
        op = dict(op='look', i=0, j=0, l='', m='', x=DUMMY, _sp=None)
        ops_run.append(op)
        steps.append(dict(o={a: b for a, b in op.items() if a != '_sp'}, out=observe(s, sc, '', None, True)))
    # the same history without the refused operations, on fresh objects
    twin = new_series(cls, preset)
    tobjs = {}
    for op, st in zip(ops_run, steps):
        if st['out']['err'] in ('', 'NonTermination'):
            if op['_sp'] is not None:
                tobjs[id(op)] = build(op['_sp'], sc)
            twin, e, ret = perform(twin, op, tobjs, sc)
            st['twin'] = observe(twin, sc, e, ret, op['op'] == 'look')
        else:
            st['twin'] = observe(twin, sc, st['out']['err'], None, op['op'] == 'look')
    return dict(cls=cls, tz=preset, steps=steps, tag='container', flavour=flavour, seed=seed)


# ------------------------------------------------------------------ replay of exported behaviours

def replay_one(beh):
    """Execute one behaviour of the specification; returns the recorded trace."""
    sc = (0, 1)
    s = new_series('TimeSeries', [])
    objs, steps = {}, []
    tw = new_series('TimeSeries', [])
    for h in beh:
        op = dict(h['op'])
        if op['op'] in ('append', 'insert', 'remove'):
            x = dict(op['x'])
            x['n'] = x['e'] - x['t']
            objs[id(op)] = build(x, sc)
        s, e, ret = perform(s, op, objs, sc)
        op['x'] = op['x'] if op['op'] in ('append', 'insert', 'remove') else DUMMY
        st = dict(o=op, out=observe(s, sc, e, ret, False))
        if e == '':
            if id(op) in objs:
                objs[id(op)] = build(dict(op['x'], n=op['x']['e'] - op['x']['t']), sc)
            tw, e2, ret2 = perform(tw, op, objs, sc)
            st['twin'] = observe(tw, sc, e2, ret2, False)
        else:
            st['twin'] = observe(tw, sc, e, None, False)
        steps.append(st)
    return dict(cls='TimeSeries', tz=[], steps=steps, tag='container', beh=True)


def expected_equal(beh, tr):
    for h, st in zip(beh, tr['steps']):
        o = st['out']
        if (o['err'] == '') != h['ok'] or o['items'] != h['items'] or o['res'] != h['res'] or o['tz'] != h['tz']:
            return False
    return True


def run(c, facet):
    _lib()
    depth = 3 if QUICK else 4
    behs = []
    plan = [('ContainerMC', cfg, dict(MAXOPS=str(depth if pre == 0 else depth - 1), PRE=str(pre)))
            for cfg in ('ContainerPoints', 'ContainerSlots') for pre in (0, 3)]
    for (m, cfg, env), r in zip(plan, c.models_parallel(plan)):
        got = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
        c.cover['behaviours_exported_%s_pre%s' % (cfg, env['PRE'])] = len(got)
        behs += got
    if QUICK:
        behs = behs[c.rng.randrange(3)::3] if facet == 'order' else behs[c.rng.randrange(6)::6]
    elif len(behs) > 250000:
        behs = c.rng.sample(behs, 250000)
    traces = pmap(replay_one, behs)
    diff = [t for b, t in zip(behs, traces) if not expected_equal(b, t)]
    c.cover['behaviours_replayed'] = len(behs)
    c.traces += len(behs) - len(diff)
    n = 1000 if QUICK else 12000
    rnd = pmap(rand_hist, [SEED * 1000003 + facet_seed(facet) + i for i in range(n)])
    rnd = [t for t in rnd if t and t['steps']]
    c.cover['refused_operations'] = sum(1 for t in rnd for s in t['steps'] if s['out']['err'])
    c.cover['operations'] = sum(len(t['steps']) for t in rnd)
    c.validate('ContainerTrace', diff[:400] + rnd, env=dict(FACET=facet))
    c.assumptions += ['items are built by the library constructors and projected through public attributes',
                      'timestamps exactly representable (integers and dyadic fractions), so spacings compare exactly']


def facet_seed(f):
    return {'order': 0, 'atomic': 500000, 'resolution': 700000}[f]


def check_S01(c):
    run(c, 'order')


def check_S02(c):
    run(c, 'atomic')
    import c_heap
    c_heap.refusals(c)


def check_S03(c):
    run(c, 'resolution')
