"""S27: points, slots and generic units as values, against spec/Items.tla."""
import random, datetime
from zoneinfo import ZoneInfo
from fractions import Fraction
from vlib import *
from c_container import _lib, KN, tzname

UTC = datetime.timezone.utc
ZONES = ['UTC', 'Europe/Rome', 'Asia/Tokyo', 'America/New_York', 'Asia/Kolkata', 'Australia/Sydney']
OFFSET = 'UTC+02:00'


def zone(rng, z):
    """A zone as one of the objects that stand for it."""
    import pytz
    if z == 'UTC':
        return rng.choice([pytz.UTC, UTC])
    if z == OFFSET:
        return datetime.timezone(datetime.timedelta(hours=2))
    return ZoneInfo(z)


def date_of(rng, t, z):
    import pytz
    if z == '':
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    if z not in ('UTC', OFFSET) and rng.random() < .5:
        return pytz.utc.localize(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).astimezone(pytz.timezone(z))
    return datetime.datetime.fromtimestamp(t, UTC).astimezone(zone(rng, z))


def val(rng, r):
    """A rational as a Python number."""
    f = Fraction(r[0], r[1])
    return int(f) if f.denominator == 1 and rng.random() < .6 else float(f)


def is_time(cls):
    return 'Time' in cls


class World:
    def __init__(self, rng, base):
        self.rng, self.base, self.pool, self.dicts = rng, base, [], []
        self.d = _lib()

    def data(self, a):
        if not a['data']:
            return {}
        d = a['data'][0]
        v = [val(self.rng, x) for x in d['v']]
        return dict(data=v if d['k'] == 'list' else dict(zip(d['l'], v)))

    def kw(self, a):
        kw = self.data(a)
        if a['ix']['k'] == 'none':
            kw['data_indexes'] = None
        elif a['ix']['k'] == 'list':
            kw['data_indexes'] = [1]
        elif a['ix']['k'] == 'dict':
            new = {x['n']: (val(self.rng, x['x'][0]) if x['x'] else None) for x in a['ix']['v']}
            same = [d for d in self.dicts if d[0] == new]
            if not same:
                same = [(new, dict(new))]
                self.dicts += same
            kw['data_indexes'] = same[0][1]                # the same dictionary is given to more items
        if a['loss']['k'] == 'set':
            kw['data_loss'] = val(self.rng, a['loss']['x'][0]) if a['loss']['x'] else None
        return kw

    def unit(self, u):
        from timeseria.units import Unit, TimeUnit
        if u['k'] == 'number':
            return val(self.rng, u['v'][0])
        v = val(self.rng, u['v'][0])
        if u['k'] == 'unit':
            return Unit(v)
        ways = [lambda: TimeUnit(v), lambda: TimeUnit('%ss' % v), lambda: TimeUnit(seconds=v), lambda: TimeUnit(value=v)]
        if v % 60 == 0:
            ways.append(lambda: TimeUnit('%dm' % (v // 60)))
        return self.rng.choice(ways)()

    def end(self, j):
        if j == -1:
            return self.rng.choice([5, 'x', datetime.datetime(2020, 1, 1, tzinfo=UTC), [1]])
        return self.pool[j - 1] if j else None

    def do(self, o):
        rng, a = self.rng, o['a']
        if o['op'] in ('point', 'slot'):
            cls = getattr(self.d, a['cls'])
            kw = self.kw(a)
            if a['tz']:
                kw['tz'] = a['tz'] if a['tz'] == 'Nowhere/Land' or rng.random() < .5 else zone(rng, a['tz'])
            time = [self.base + val(rng, x) for x in a['c']]
        if o['op'] == 'point':
            if a['form'] == 'args':
                item = cls(*time, **kw)
            elif a['form'] == 't':
                item = cls(t=time[0], **kw)
            elif a['form'] == 'dt':
                item = cls(dt=date_of(rng, time[0], a['z']), **kw)
            elif a['form'] == 'item':
                item = cls(self.pool[a['src'] - 1], **kw)
            elif a['form'] == 'bad':
                item = cls(rng.choice(['hi', None, [1], {}]), **kw)
            else:
                item = cls(**kw)
            self.pool.append(item)
        elif o['op'] == 'slot':
            if a['form'] == 'ends':
                pos = []
                if a['src']:
                    kw['start'] = self.end(a['src'])
            elif a['form'] == 't':
                kw['t'] = time[0]
            else:
                kw['dt'] = date_of(rng, time[0], a['z'])
            if a['end']:
                kw['end'] = self.end(a['end'])
            if a['unit']:
                kw['unit'] = self.unit(a['unit'][0])
            if rng.random() < .3 and 'start' in kw and 'end' in kw:
                item = cls(kw.pop('start'), kw.pop('end'), **kw)
            else:
                item = cls(**kw)
            self.pool.append(item)
        elif o['op'] == 'move':
            u = self.unit(o['unit'])
            p = self.pool[o['i'] - 1]
            item = (p + u if rng.random() < .7 or o['unit']['k'] == 'time' else u + p) if o['sign'] > 0 else p - u
            if item is p:
                raise Exception('same object')
            self.pool.append(item)
        elif o['op'] == 'zone':
            if o['z'] == 'Nowhere/Land' or rng.random() < .5:
                self.pool[o['i'] - 1].change_tz(o['z'])
            else:
                self.pool[o['i'] - 1].change_tz(zone(rng, o['z']))
        elif o['op'] == 'arith':
            import operator
            x, y = self.unit(o['x']), self.unit(o['y'])
            f = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, eq=operator.eq)[o['f']]
            r = f(x, y)
            o['res'] = num(r) if not isinstance(r, bool) and o['f'] != 'eq' else [int(r), 1] if isinstance(r, bool) and o['f'] == 'eq' else [7, 0]
            if num(x if o['x']['k'] == 'number' else x.value) != o['x']['v'][0] or num(y if o['y']['k'] == 'number' else y.value) != o['y']['v'][0]:
                o['res'] = [8, 0]      # the operands are changed
        elif o['op'] == 'index':
            self.pool[o['i'] - 1].data_indexes[o['n']] = val(rng, o['x'][0]) if o['x'] else None

    # ---- what each item says ------------------------------------------------------------------
    def rel(self, x):
        return num(x - self.base)

    def observe_item(self, it):
        cls = type(it).__name__
        time, slot = is_time(cls), 'Slot' in cls
        cs = lambda p: [self.rel(x) for x in p.coordinates]
        ob = dict(cls=cls, c=cs(it.start) if slot else cs(it), e=cs(it.end) if slot else [], tz=tzname(it.tz) if time else '',
                  t=[self.rel(it.t)] if time else [], dt=[], localok=True, length=[0, 1], unit=dict(k='', v=[]), endtz=[], data=[], labels=[], loss=[], ix=[])
        if time:
            dt = it.dt
            ob['dt'] = [self.rel((dt - datetime.datetime(1970, 1, 1, tzinfo=UTC)).total_seconds())]
            name = ob['tz']
            z = UTC if name == 'UTC' else datetime.timezone(datetime.timedelta(hours=2)) if name == OFFSET else ZoneInfo(name)
            ob['localok'] = dt.utcoffset() == datetime.datetime.fromtimestamp(it.t, z).utcoffset() and str(dt.tzinfo) == name
        if slot:
            ob['length'] = num(it.length)
            u = it.unit
            if time:
                ob['unit'] = dict(k='time', v=[num(u.as_seconds())])
                ob['endtz'] = [tzname(it.start.tz), tzname(it.end.tz)]
            else:
                ob['unit'] = dict(k='unit', v=[num(x) for x in (u.value if isinstance(u.value, list) else [u.value])])
        if hasattr(it, 'data'):
            d = it.data
            ls = sorted(d) if isinstance(d, dict) else [str(i) for i in range(len(d))]
            ob['data'] = [dict(k='dict' if isinstance(d, dict) else 'list', l=ls, v=[num(d[l] if isinstance(d, dict) else d[int(l)]) for l in ls])]
            ob['labels'] = list(it.data_labels())
            ob['loss'] = opt(it.data_loss)
            ob['ix'] = [dict(n=n, x=opt(v)) for n, v in sorted(it.data_indexes.items())]
        ob['text'] = all(isinstance(s, str) and len(s) > 5 for s in (str(it), repr(it)))
        from timeseria.units import Unit, TimeUnit
        ob['foreign'] = [rel(lambda: it == f) for f in (None, 5, 'x', [1], TimeUnit('1s'))] + [rel(lambda: f == it) for f in (None, 5, Unit(1), TimeUnit('1s'))] + [rel(lambda: not (it != f)) for f in (None, 5)]
        return ob

    def observe(self):
        p = self.pool
        return dict(obs=[self.observe_item(x) for x in p], eq=[[rel(lambda: a == b) for b in p] for a in p], ne=[[rel(lambda: a != b) for b in p] for a in p],
                    gt=[[rel(lambda: a > b) for b in p] for a in p], lt=[[rel(lambda: a < b) for b in p] for a in p])


def rel(f):
    try:
        r = f()
    except Exception:
        return -1
    return int(r) if r is True or r is False else -2


def run(rng, base, ops):
    w = World(rng, base)
    steps = []
    for o in ops:
        o = o(w) if callable(o) else o
        if o is None:
            continue
        e, _ = guarded(lambda: w.do(o))
        eo, ob = guarded(w.observe)
        if eo:
            ob = dict(obs=[], eq=[], ne=[], gt=[], lt=[], problem=eo)
        steps.append(dict(o, err=e or '', **ob))
        if eo:
            break
    return dict(steps=steps, tag='items')


BASES = [0, 0, 1546300800, 1553990400, 1572134400, -86400 * 365]


def replay_one(job):
    seed, hist = job
    rng = random.Random(seed)
    return run(rng, rng.choice(BASES), hist)


def rand_num(rng):
    return list(map(int, (lambda f: (f.numerator, f.denominator))(Fraction(rng.choice([rng.randrange(-20, 40), rng.randrange(0, 7200) * 60, Fraction(rng.randrange(0, 64), 8)])))))


def rand_op(rng, space=0):
    """space: the number of dimensions of histories without time (0: mostly times)."""
    def make(w):
        n = len(w.pool)
        pick = lambda: rng.randrange(1, n + 1)
        op = rng.choice(['point'] * 4 + ['arith'] + (['slot'] * 5 + ['move'] * 2 + ['zone', 'index', 'index'] if n else []))
        base = dict(op=op, i=0, unit=[], sign=0, z='', n='', x=[])
        tz = lambda p: rng.choice(ZONES) if rng.random() < p else 'Nowhere/Land' if rng.random() < .02 else ''
        data = ix = loss = None
        def carried(cls):
            has = 'Data' in cls if rng.random() < .97 or is_time(cls) and 'Data' not in cls else 'Data' not in cls
            if not has:
                return dict(data=[], ix=dict(k='absent', v=[]), loss=dict(k='absent', x=[]))
            k = rng.choice(['list', 'dict'])
            m = rng.choice([1, 1, 2, 3])
            l = [str(i) for i in range(m)] if k == 'list' else sorted(rng.sample(['a', 'b', 'x 1', '0'], m))
            small = lambda: rng.choice([[0, 1], [1, 1], [1, 2], [-3, 1]])
            r = rng.random()
            ix = dict(k='absent', v=[]) if r < .4 else dict(k='none', v=[]) if r < .5 else dict(k='list', v=[]) if r < .53 else \
                dict(k='dict', v=[dict(n=x, x=rng.choice([[], [[0, 1]], [[1, 1]], [[1, 2]]])) for x in sorted(rng.sample(['anomaly', 'data_loss', 'q'], rng.choice([0, 1, 2])))])
            return dict(data=[dict(k=k, l=l, v=[small() for _ in l])], ix=ix,
                        loss=dict(k='absent', x=[]) if rng.random() < .5 else dict(k='set', x=rng.choice([[], [[0, 1]], [[1, 1]], [[3, 4]]])))
        u = lambda: dict(k=rng.choice(['unit', 'time', 'time', 'time', 'number'] if rng.random() < .3 else ['time', 'unit']), v=[rng.choice([[1, 1], [60, 1], [3600, 1], [5, 2], [86400, 1]])])
        if op == 'point':
            cls = rng.choice(['Point', 'TimePoint', 'TimePoint', 'DataPoint', 'DataTimePoint', 'DataTimePoint'] if not space else ['Point', 'Point', 'DataPoint'])
            form = rng.choice(['args', 't', 'dt', 'dt', 'item']) if is_time(cls) else 'args'
            if rng.random() < .04:
                form = rng.choice(['none', 'bad', 'args', 't', 'dt'])
            if form == 'item' and not n:
                form = 't'
            m = 1 if is_time(cls) and rng.random() < .97 or form in ('t', 'dt') else rng.choice([1, 1, 1, 2, 3])
            if space and form == 'args':
                m = space
            return dict(base, a=dict(cls=cls, form=form, c=[[rng.randrange(0, 3), 1] if space else rand_num(rng) for _ in range(m)], z=(rng.choice(ZONES + [OFFSET]) if rng.random() < .95 else '') if form == 'dt' else '', src=pick() if n else 0,
                                     tz=tz(.3) if is_time(cls) or rng.random() < .05 else '', end=0, unit=[], **carried(cls)))
        if op == 'slot':
            cls = rng.choice(['Slot', 'TimeSlot', 'TimeSlot', 'DataSlot', 'DataTimeSlot', 'DataTimeSlot'] if not space else ['Slot', 'DataSlot'])
            plain = [i + 1 for i, x in enumerate(w.pool) if not hasattr(x, 'data')] + [0]
            want = [i for i in plain if i and is_time(type(w.pool[i - 1]).__name__) == is_time(cls) and 'Slot' not in type(w.pool[i - 1]).__name__] or plain
            form = rng.choice(['ends', 'ends', 'ends', 't', 'dt']) if is_time(cls) else 'ends'
            src = rng.choice(want) if rng.random() < .9 else rng.choice(plain + [-1])
            end = rng.choice(want) if rng.random() < .6 else 0 if rng.random() < .9 else rng.choice(plain + [-1])
            unit = [u()] if end == 0 and rng.random() < .95 or rng.random() < .1 else []
            if not is_time(cls) and unit and unit[0]['k'] == 'time':
                unit[0]['k'] = 'unit'
            c = [rand_num(rng)]
            if form != 'ends':
                src = 0
            # (slots ending before they start are not refused, nor meant)
            a, b = w.pool[src - 1] if src > 0 else None, w.pool[end - 1] if end > 0 else None
            sc = [w.base + c[0][0] / c[0][1]] if form != 'ends' else getattr(a, 'coordinates', None)
            if sc and b is not None and len(sc) == len(getattr(b, 'coordinates', ())) and any(x > y for x, y in zip(sc, b.coordinates)):
                if form != 'ends' or is_time(cls) != is_time(type(b).__name__) or is_time(cls) != is_time(type(a).__name__):
                    return None
                src, end = end, src
                if any(x < y for x, y in zip(sc, b.coordinates)):
                    return None
            return dict(base, a=dict(cls=cls, form=form, c=c if form != 'ends' else [], z=(rng.choice(ZONES + [OFFSET]) if rng.random() < .95 else '') if form == 'dt' else '', src=src, end=end,
                                     tz=tz(.4) if form != 'ends' else '', unit=unit, **carried(cls)))
        if op == 'arith':
            ks = rng.choice([('unit', 'unit'), ('unit', 'number'), ('number', 'unit')])
            v = lambda: rng.choice([[0, 1], [1, 1], [2, 1], [-3, 1], [5, 2], [-1, 4], [60, 1], [rng.randrange(-50, 50), 1]])
            return dict(base, a=dict(cls=''), f=rng.choice(['add', 'sub', 'mul', 'div', 'eq']), x=dict(k=ks[0], v=[v()]), y=dict(k=ks[1], v=[v()]), res=[0, 1])
        if op == 'move':
            # (offsets have no name to find them by; times of any unit are those of the calendar)
            uu = u()
            if uu['k'] == 'number':
                return None
            i = pick()
            return dict(base, a=dict(cls=''), i=i, unit=uu, sign=rng.choice([1, -1]))
        if op == 'zone':
            # (points that are the ends of slots would change under them)
            i = pick()
            it = w.pool[i - 1]
            if any(getattr(s, 'start', None) is it or getattr(s, 'end', None) is it for s in w.pool):
                return None
            return dict(base, a=dict(cls=''), i=i, z=rng.choice(ZONES) if rng.random() < .95 else 'Nowhere/Land')
        return dict(base, a=dict(cls=''), i=pick(), n=rng.choice(['anomaly', 'q', 'data_loss']), x=rng.choice([[], [[1, 1]], [[1, 2]]]))
    return make


def rand_case(seed):
    rng = random.Random(seed)
    space = rng.choice([0, 0, 0, 0, 2, 2, 3, 1])
    return run(rng, rng.choice(BASES) if not space else 0, [rand_op(rng, space) for _ in range(rng.randrange(4, 14))])


def check_S27(c):
    _lib()
    r = c.model('ItemsMC', env=dict(N='2' if QUICK else '2'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(behs)
    behs = behs[:4000 if QUICK else 40000]
    c.validate('ItemsTrace', pmap(replay_one, list(enumerate(behs))), label='exported_behaviours')
    n = 1500 if QUICK else 15000
    c.validate('ItemsTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(n)]))
    c.assumptions += ['coordinates and times are exactly representable numbers; the points that slots are made of carry no data and do not change afterwards; slots end after they start']
