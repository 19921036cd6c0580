"""S31: what is printed about series and items, against spec/Text.tla."""
import ast, contextlib, datetime, hashlib, io, random, re
from zoneinfo import ZoneInfo
from vlib import *
from c_container import _lib, KN

ZONES = ['UTC', 'Europe/Rome', 'Asia/Kolkata', 'America/New_York', 'Australia/Lord_Howe']
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
BAD = -999999999
LONE = dict(gap=False, t=BAD, d=0, o=0, e=0, ed=0, p=0, x=[], loss=[])
GAP = dict(gap=True, t=0, d=0, o=0, e=0, ed=0, p=0, x=[], loss=[])
NORES = dict(k='', v=0, c='')
NOWHERE = dict(t=0, d=0, o=0)


class World:
    def __init__(self, rng, kind, cls, base, unit=None, labels=('a',), lists=False):
        self.rng, self.kind, self.cls, self.base, self.unit, self.labels, self.lists = rng, kind, cls, base, unit, labels, lists
        self.d = _lib()
        self.s = (self.d.Series if kind == 'elements' else self.d.TimeSeries)()

    # ---- instants are in quarters of a second from the base
    def tick(self, x):
        q = (float(x) - self.base) * 4
        return int(q) if q == int(q) and abs(q) < INTMAX else BAD

    def dtick(self, dt):
        if dt.tzinfo is None:
            return BAD, BAD
        d = dt - EPOCH
        return self.tick(d.days * 86400 + d.seconds + d.microseconds / 1e6), int(dt.utcoffset().total_seconds())

    def offset(self, q, zone):
        return 0 if self.kind == 'elements' else int(datetime.datetime.fromtimestamp(self.base + q / 4, UTC).astimezone(ZoneInfo(zone)).utcoffset().total_seconds())

    # ---- what is read
    def data(self, text):
        try:
            v = ast.literal_eval(text)
        except Exception:
            return [['?', 0, 0]]
        return enc(v)

    def row(self, text):
        nn = r'(-?\d+(?:\.\d+)?)'
        dd = r'\((\d{4}-\d\d-\d\d [^)]*)\)'
        loss = r' and data_loss="?([^"]*?)"?'
        if self.kind == 'points':
            m = re.fullmatch(r'Time point @ %s %s(?: with data "(.*?)"(?:%s)?)?' % (nn, dd, loss), text, re.S)
            g = m and [m[1], m[2], None, None, m[3], m[4]]
        elif self.kind == 'slots':
            m = re.fullmatch(r'Time slot @ \[%s,%s\] \(\[([^,\]]*),([^,\]]*)\]\)(?: with data=(.*?)(?:%s)?)?' % (nn, nn, loss), text, re.S)
            g = m and [m[1], m[3], m[2], m[4], m[5], m[6]]
        else:
            m = re.fullmatch(r'Point @ %s(?: with data "(.*?)"(?:%s)?)?' % (nn, loss), text, re.S)
            g = m and [m[1], None, None, None, m[2], m[3]]
            m = m or re.fullmatch(r'Slot @ \[%s,%s\](?: with data "(.*?)"(?:%s)?)?' % (nn, nn, loss), text, re.S)
            g = g or m and [m[1], None, m[2], None, m[3], m[4]]
        if not m:
            return dict(LONE)
        try:
            r = dict(gap=False, t=self.tick(g[0]), x=self.data(g[4]) if g[4] is not None else [], loss=[] if g[5] is None else [num(float(g[5]))])
            r['d'], r['o'] = self.dtick(datetime.datetime.fromisoformat(g[1])) if g[1] is not None else (r['t'], 0)
            r['e'] = self.tick(g[2]) if g[2] is not None else r['t']
            r['ed'], r['p'] = self.dtick(datetime.datetime.fromisoformat(g[3])) if g[3] is not None else (r['e'], r['o'])
            return r
        except ValueError:
            return dict(LONE)

    def res(self, text):
        if text == 'undefined resolution':
            return dict(k='undefined', v=0, c='')
        m = re.fullmatch(r'variable resolution(?: \(~(.*)\))?', text)
        if m:
            return dict(k='variable', v=self.duration(m[1])['v'] if m[1] else 0, c='')
        m = re.fullmatch(r'(.*) resolution', text)
        return self.duration(m[1]) if m else dict(k='?', v=0, c=text)

    def duration(self, text):
        if re.fullmatch(r'(\d+[DWMY]_?)+', text):
            return dict(k='calendar', v=0, c=text)
        m = re.fullmatch(r'(?:(\d+)h_?)?(?:(\d+)m_?)?(?:(\d+(?:\.\d+)?)s)?', text)
        if not m or not text:
            return dict(k='?', v=0, c=text)
        q = 4 * (int(m[1] or 0) * 3600 + int(m[2] or 0) * 60 + float(m[3] or 0))
        return dict(k='seconds', v=int(q), c='') if q == int(q) else dict(k='?', v=0, c=text)

    def head(self, text):
        """-> (positions of a view, what is told of the series)"""
        m = re.match(r'View from element #(\d+) to element #(\d+) of: ', text)
        view = [int(m[1]), int(m[2])] if m else []
        text = text[m.end():] if m else text
        at = r'@ (-?\d+(?:\.\d+)?) \(([^)]*)\)'
        def instant(t, dt):
            d, o = self.dtick(datetime.datetime.fromisoformat(dt))
            return dict(t=self.tick(t), d=d, o=o)
        bad = dict(kind='?', n=0, res=dict(k='', v=0, c=text[:80]), first=NOWHERE, last=NOWHERE)
        try:
            if text == 'Empty time series':
                return view, dict(kind='empty', n=0, res=NORES, first=NOWHERE, last=NOWHERE)
            m = re.fullmatch(r'Series of #(\d+) elements', text)
            if m:
                return view, dict(kind='elements', n=int(m[1]), res=NORES, first=NOWHERE, last=NOWHERE)
            m = re.fullmatch(r'Time series of #(\d+) points at (.*), from point %s to point %s' % (at, at), text)
            if m:
                return view, dict(kind='points', n=int(m[1]), res=self.res(m[2]), first=instant(m[3], m[4]), last=instant(m[5], m[6]))
            m = re.fullmatch(r'Time series of #(\d+) slots of (.*), from slot starting %s to slot starting %s' % (at, at), text)
            if m:
                return view, dict(kind='slots', n=int(m[1]), res=self.duration(m[2]), first=instant(m[3], m[4]), last=instant(m[5], m[6]))
        except ValueError:
            pass
        return view, bad

    def listing(self, text):
        m = re.fullmatch(r'(.*?):\n\n\[(.*)\]', text, re.S)
        if not m:
            return [], self.head('')[1], [dict(LONE)]
        view, head = self.head(m[1])
        return view, head, [dict(GAP) if x.strip() == '...' else self.row(x.strip()) for x in re.split(r',?\n', m[2]) if x.strip()]

    def now(self):
        """The items as they are."""
        out = []
        for x in list.__iter__(self.s):
            data = getattr(x, 'data', None)
            loss = getattr(x, 'data_loss', None)
            r = dict(gap=False, x=[] if data is None else enc(data), loss=[] if loss is None else [num(loss)])
            a, b = (x.start, x.end) if hasattr(x, 'start') else (x, x)
            r['t'], r['e'] = self.tick(a.coordinates[0]), self.tick(b.coordinates[0])
            r['d'], r['o'] = self.dtick(a.dt) if self.kind != 'elements' else (r['t'], 0)
            r['ed'], r['p'] = self.dtick(b.dt) if self.kind != 'elements' else (r['e'], 0)
            out.append(r)
        return out

    # ---- the steps
    def make(self, q, e, zone):
        rng, d = self.rng, self.d
        x, kw = [], {}
        loss = []
        if 'Data' in self.cls:
            vs = [rng.choice([rng.randrange(-9, 10), rng.randrange(-9, 10) + .5, 1000000]) for _ in self.labels]
            kw['data'] = vs if self.lists else anyorder(dict(zip(self.labels, vs)), q)
            x = enc(kw['data'])
            if rng.random() < .5:
                v = rng.choice([0, .25, 1])
                kw['data_loss'] = v
                loss = [num(v)]
            elif rng.random() < .3:
                kw['data_indexes'] = {'data_loss': None, 'anomaly': .5}
        t = self.base + q / 4
        t = int(t) if t == int(t) and rng.random() < .7 else t
        tend = self.base + e / 4
        if self.kind == 'points':
            it = getattr(d, self.cls)(t=t, tz=zone, **kw)
        elif self.kind == 'slots':
            if rng.random() < .3 and self.unit[2] is None:
                it = getattr(d, self.cls)(start=d.TimePoint(t=t, tz=zone), end=d.TimePoint(t=tend, tz=zone), unit=KN['TimeUnit'](self.unit[0]), **kw)
            else:
                it = getattr(d, self.cls)(start=d.TimePoint(t=t, tz=zone), unit=KN['TimeUnit'](self.unit[0]), **kw)
        elif 'Slot' in self.cls:
            it = getattr(d, self.cls)(start=d.Point(t), end=d.Point(tend), **kw)
        else:
            it = getattr(d, self.cls)(t, **kw)
        return it, dict(t=q, e=e, o=self.offset(q, zone), p=self.offset(e, zone), x=x, loss=loss)

    def append(self, q, e, zone):
        it, m = self.make(q, e, zone)
        err, _ = guarded(self.s.append, it)
        return dict(op='append', it=m, err=err, site='append')

    def pop(self, j):
        err, _ = guarded(self.s.pop, j)
        return dict(op='pop', i=j + 1, err=err, site='pop')

    def alter(self, j, m):
        """Other data and data loss for an item, in place."""
        rng, x = self.rng, list.__getitem__(self.s, j)
        vs = [rng.choice([rng.randrange(-9, 10), .5]) for _ in self.labels]
        loss = rng.choice([None, 0, .5])
        def run():
            for l, v in zip(range(len(vs)) if self.lists else self.labels, vs):
                x.data[l] = v
            x.data_indexes['data_loss'] = loss
        err, _ = guarded(run)
        return dict(op='set', i=j + 1, it=dict(m, x=enc(x.data), loss=[] if loss is None else [num(loss)]), err=err, site='set')

    def retz(self, zone, items):
        err, _ = guarded(self.s.change_tz, zone)
        return dict(op='tz', os=[[self.offset(m['t'], zone), self.offset(m['e'], zone)] for m in items], err=err, site='tz')

    def show(self, part=None, limit='default', listed=True):
        tgt = self.s
        out = dict(op='print', err='', view=[], part=list(part) if part else [], head=dict(kind='', n=0, res=NORES, first=NOWHERE, last=NOWHERE), listed=listed, rows=[],
                   limit=[10] if limit == 'default' else [] if not limit else [limit], forms=[], after=[], site='print')
        def run():
            t = tgt.view(*part) if part else tgt
            if not listed:
                return str(t), repr(t), '%s' % t, None
            kw = {} if limit == 'default' else dict(limit=limit)
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                r = t.inspect(**kw)
            return t.summary(newlines=True, **kw), t.summary(**kw), f.getvalue(), str(t)
        out['err'], r = guarded(run)
        if not out['err']:
            h = lambda x: hashlib.md5(re.sub(r'\s+', ' ', x).strip().encode()).hexdigest()
            if listed:
                out['view'], out['head'], out['rows'] = self.listing(r[0])
                one = '\n' not in r[1] and r[1].replace('...,', '...')
                out['forms'] = [h(r[0]), h(one) if one else 'lines', h(r[2])]
                if r[0].split(':\n\n')[0] != r[3]:
                    out['forms'].append('text')
            else:
                out['view'], out['head'] = self.head(r[0])
                out['forms'] = [h(x) for x in r[:3]]
        out['after'] = self.now()
        return out

    def item(self, j):
        err, r = guarded(lambda: (str(self.s[j]), repr(self.s[j])))
        return dict(op='item', i=j + 1, rows=[] if err else [self.row(x) for x in sorted(set(r))], err=err, site='item')


def enc(data):
    ps = sorted(data.items()) if isinstance(data, dict) else enumerate(data)
    return [[str(l) if isinstance(data, dict) else '#%d' % l] + num(v) for l, v in ps]


def world(rng, kind, step=None):
    labels = tuple(rng.choice([['a'], ['a', 'b'], ['value 3', "it's"], ['z', 'a, b', 'm']]))
    base = rng.choice([0, 1553990400, 1553994000, 1572130800, -3600])
    if kind == 'points':
        return World(rng, kind, rng.choice(['DataTimePoint', 'DataTimePoint', 'TimePoint']), base, labels=labels, lists=rng.random() < .2)
    if kind == 'slots':
        if step is None and rng.random() < .3:
            unit = (*rng.choice([('1D', 'D', 1), ('1M', 'M', 1), ('1Y', 'Y', 1), ('2D', 'D', 2)]),)
        else:
            u = rng.choice([60, '1h', 3600, 86400, '15m', .25, 90.5]) if step is None else step / 4
            q = {'1h': 14400, '15m': 3600}.get(u) or int(u * 4)
            unit = (u, q, None)
        return World(rng, kind, rng.choice(['DataTimeSlot', 'DataTimeSlot', 'TimeSlot']), base, unit=unit, labels=labels, lists=rng.random() < .2)
    return World(rng, kind, rng.choice(['DataPoint', 'DataSlot', 'Point', 'Slot']), rng.choice([0, -5]), unit=None, labels=labels, lists=rng.random() < .2)


def following(w, q, zone):
    """The end of a slot starting at q, on the calendar of the zone if its unit is of it."""
    if w.kind == 'points' or w.cls in ('Point', 'DataPoint'):
        return q
    if w.kind == 'elements':
        return q + w.unit
    if w.unit[2] is None:
        return q + w.unit[1]
    z = ZoneInfo(zone)
    l = datetime.datetime.fromtimestamp(w.base + q // 4, UTC).astimezone(z).replace(tzinfo=None)
    n = w.unit[2]
    if w.unit[1] == 'D':
        l += datetime.timedelta(days=n)
    elif w.unit[1] == 'M':
        l = l.replace(year=l.year + l.month // 12, month=l.month % 12 + 1)
    else:
        l = l.replace(year=l.year + 1)
    return int((l.replace(tzinfo=z).astimezone(UTC) - EPOCH).total_seconds() - w.base) * 4


def described(w):
    if w.kind != 'slots':
        return NORES
    return dict(k='calendar', v=0, c=w.unit[0]) if w.unit[2] is not None else dict(k='seconds', v=w.unit[1], c='')


def rand_case(seed):
    rng = random.Random(seed)
    kind = rng.choice(['points'] * 3 + ['slots'] * 2 + ['elements'])
    w = world(rng, kind)
    zone = rng.choice(ZONES)
    if kind == 'elements':
        w.unit = rng.choice([4, 2, 240])
    calendar = kind == 'slots' and w.unit[2] is not None
    mixed = kind == 'points' and rng.random() < .15
    q = 0
    if calendar:
        # from a midnight of the zone, at the start of a year
        z = ZoneInfo(zone)
        t0 = int((datetime.datetime(rng.choice([2019, 2020]), 1, 1, tzinfo=z).astimezone(UTC) - EPOCH).total_seconds())
        w.base = t0
    sp = rng.choice([1, 4, 240, 14400, 2400, 5400 * 4])
    irr = rng.choice([0, 0, .2, .6])
    steps, items, pos = [], [], q
    for _ in range(rng.choice([3, 8, 15, 25])):
        r = rng.random()
        if r < .5 or not items:
            for _ in range(rng.choice([1, 1, 2, 4, 9])):
                zn = rng.choice(ZONES) if mixed else zone
                if pos > 1900000000:
                    break
                e = following(w, pos, zn)
                steps.append(w.append(pos, e, zn))
                if steps[-1]['err']:
                    return dict(kind=kind, unit=described(w), steps=steps, tag='text')
                items.append(steps[-1]['it'])
                if e != pos:
                    pos = e
                else:
                    pos += sp if rng.random() >= irr else rng.choice([1, 2, 3, 5]) * sp + rng.choice([0, 0, 1])
        elif r < .6 and len(items) > (1 if kind == 'slots' else 0):
            j = rng.choice([0, len(items) - 1] + ([rng.randrange(len(items))] if kind != 'slots' and 'Slot' not in w.cls else []))
            steps.append(w.pop(j))
            if j == len(items) - 1 and j > 0:
                pos = items[j]['t'] if w.kind == 'slots' or 'Slot' in w.cls else pos
            items.pop(j)
        elif r < .66 and items and 'Data' in w.cls:
            j = rng.randrange(len(items))
            steps.append(w.alter(j, items[j]))
            items[j] = steps[-1]['it']
        elif r < .7 and items and kind != 'elements' and not calendar:
            zone = rng.choice(ZONES)
            mixed = False
            steps.append(w.retz(zone, items))
            items = [dict(m, o=o, p=p) for m, (o, p) in zip(items, steps[-1]['os'])]
        elif r < .76 and items:
            steps.append(w.item(rng.randrange(len(items))))
        else:
            part = None
            if kind != 'elements' and len(items) > 0 and rng.random() < .3:
                a = rng.randrange(len(items))
                part = (a, rng.randrange(a + 1, len(items) + 1))
            n = len(items)
            steps.append(w.show(part, rng.choice(['default', 'default', None, 0, 1, 2, 3, 4, n, max(1, n - 1), n + 1, 7, 100]), rng.random() < .8))
    steps.append(w.show(None, rng.choice(['default', None, 3]), True))
    return dict(kind=kind, unit=described(w), steps=steps, tag='text')


def replay_one(job):
    seed, h = job
    rng = random.Random(seed)
    ts = h['t']
    step = ts[1] - ts[0] if len(ts) > 1 else 1
    kind = rng.choice(['points', 'elements'] + (['slots'] if all(b - a == step for a, b in zip(ts, ts[1:])) else []))
    w = world(rng, kind, step=4 * step)
    w.cls = 'DataPoint' if kind == 'elements' else w.cls
    steps = [w.append(4 * t, following(w, 4 * t, 'UTC'), 'UTC') for t in ts]
    steps.append(w.show(None, h['limit'][0] if h['limit'] else None))
    return dict(kind=kind, unit=described(w), steps=steps, tag='text')


def check_S31(c):
    _lib()
    r = c.model('TextMC', env=dict(N='6' if QUICK else '8'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.cover['behaviours_exported'] = len(behs)
    c.rng.shuffle(behs)
    behs = behs[:2500 if QUICK else 30000]
    c.validate('TextTrace', pmap(replay_one, list(enumerate(behs))), label='exported_behaviours')
    n = 1500 if QUICK else 15000
    c.validate('TextTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(n)]))
    c.assumptions += ['instants in quarters of a second; numerical data']
