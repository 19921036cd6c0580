"""S15 (files), S16 (CSV) and S17 (conversions)."""
import json, os, random, shutil, tempfile, datetime, zoneinfo, pytz
from vlib import *

DAY = 86400


def _lib():
    import timeseria.datastructures as d
    return d


# -- series and what they hold ------------------------------------------------------------------------------

LABELS = ['a', 'b', 'value', 'timestamp', 'epoch', 'time', 'date', '1', '10', '2', '#x', 'temp [°C]', 'température', 'nan', 'N.D.', 'null', 'x-y', 'a b', "o'clock"]
ODD = ['a,b', '"q"', ' lead', 'two  spaces', '__hidden', 'a\tb']
INDEXES = ['data_loss', 'anomaly', 'data_reconstructed', 'forecast', 'my_index']
VALUES = [0, 1, -3, .5, 1e-9, 123456789.125, 1e17, -2.0000000000000004, .1, 1 / 3]
LOCAL = ['2023-01-01', '2023-03-25', '2023-10-28', '2024-02-27', '2019-12-30', '1969-12-30', '2023-06-01']
ZONES = ['UTC', 'UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Europe/London']
UNITS = ['1D', '1D', '2D', '1W', '1M', '3M', '1Y', '1h', '6h', '15m', '90s', '10s']


def local(day, tz, h=0):
    return int(datetime.datetime.fromisoformat(day).replace(hour=h, tzinfo=zoneinfo.ZoneInfo(tz)).timestamp())


def boundary(t, unit, tz, k=1):
    """The k-th boundary after t, computed independently of the library."""
    n, u = int(unit[:-1]) * k, unit[-1]
    if u in 'hms':
        return t + n * {'h': 3600, 'm': 60, 's': 1}[u]
    x = datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(tz)).replace(tzinfo=None)
    if u in 'DW':
        x += datetime.timedelta(days=n * (7 if u == 'W' else 1))
    else:
        m = x.month - 1 + n * (12 if u == 'Y' else 1)
        x = x.replace(year=x.year + m // 12, month=m % 12 + 1)
    x = x.replace(tzinfo=zoneinfo.ZoneInfo(tz))
    if x.utcoffset() != x.replace(fold=1).utcoffset():
        raise ValueError('ambiguous or nonexistent')
    x = x.timestamp()
    return int(x) if x == int(x) else x


def make(rng, n=None, kinds=('point', 'point', 'slot'), labels=None, listed=False, units=UNITS, zones=ZONES, indexed=.5, cls=None, mixed=0):
    d = _lib()
    from timeseria.units import TimeUnit
    kind, tz, n = rng.choice(kinds), rng.choice(zones), n or rng.choice([1, 2, 2, 3, 4, 5, 8, 13])
    labels = labels or rng.sample(LABELS, rng.choice([1, 1, 2, 3]))
    ixs = rng.sample(INDEXES, rng.choice([1, 1, 2, 3])) if rng.random() < indexed else []
    partial = rng.random() < .3
    unit = rng.choice(units)
    t = local(rng.choice(LOCAL if unit[-1] not in 'MY' else LOCAL[:1] + LOCAL[-1:]), tz, 0)
    offset = pytz.FixedOffset(rng.choice([60, -90, 330])) if kind == 'offset' else None
    kind = 'point' if offset else kind
    if kind == 'point':
        t += rng.choice([0, 0, 3600, 5400, .25, .001])
        step = rng.choice([60, 600, 3600, DAY, None, None])
    s = (cls or d.TimeSeries)()
    for _ in range(n):
        data = [rng.choice(VALUES) for _ in labels] if listed else {l: rng.choice(VALUES) for l in labels}
        ix = {i: rng.choice([0, 1, .5, .125, None]) for i in ixs if not partial or rng.random() < .7}
        kw = {}
        if 'data_loss' in ix and rng.random() < .5:
            kw['data_loss'] = ix.pop('data_loss')
        if ix:
            kw['data_indexes'] = ix
        if kind == 'point':
            s.append(d.DataTimePoint(t=t, tz=offset or (rng.choice(zones) if mixed else tz), data=anyorder(data, 7 * len(s)), **kw))
            t += step or rng.choice([60, 600, 3600, .5, .015625, 1234567])
        else:
            s.append(d.DataTimeSlot(start=d.TimePoint(t=t, tz=tz), unit=TimeUnit(unit), data=anyorder(data, 7 * len(s)), **kw))
            t = boundary(t, unit, tz)
    if kind == 'point' and not offset and rng.random() < .15:
        s.change_tz(rng.choice(zones))
    return travelled(s)


def values(data):
    return {str(k): repr(float(v)) for k, v in (enumerate(data) if isinstance(data, (list, tuple)) else data.items())}


def spans(it):
    return repr((float(it.start.t), float(it.end.t))) if hasattr(it, 'start') else repr(float(it.t))


def content(s):
    """All there is to know of a series, undefined indexes being the same as none."""
    if s is None:
        return dict(kind='None', zone='', res='', cls='', items=[])
    if not len(s) or not hasattr(s[0], 'data'):
        return dict(kind='nothing', zone='', res='', cls='', items=[])
    return dict(kind='slots' if hasattr(s[0], 'start') else 'points', zone=str(s.tz), res=str(s.resolution), cls=type(s).__name__ + '/' + type(s[0].data).__name__,
                items=[dict(t=spans(it), x=values(it.data), ix=dict({'~': ''}, **{str(k): repr(float(v)) for k, v in it.data_indexes.items() if v is not None})) for it in s])


NOTHING = dict(kind='nothing', zone='', res='', cls='', items=[])
FOREIGN = dict(kind='foreign', zone='', res='', cls='', items=[])


# -- files --------------------------------------------------------------------------------------------------

class Files:
    def __init__(self, foreign):
        self.dir = tempfile.mkdtemp(prefix='files-', dir=scratch())
        self.names = {f: os.path.join(self.dir, f + '.csv') for f in ('f', 'g')}
        for f in foreign:
            with open(self.names[f], 'w') as o:
                o.write(random.Random(str(sorted(foreign))).choice(['epoch,a\n0,1\n60,2\n', 'epoch,a\n0,1\n60,2\n', 'timestamp,b\n1970-01-01T00:00:00Z,1\n1970-01-01T00:01:00Z,2\n',
                                                                    'x,y\n1970-01-01T00:00:00+00:00,1\n1970-01-01T00:01:00+00:00,2\n']))
        self.seen = self.bytes()
        # storages used over and over again for the same files
        from timeseria.storages import CSVFileStorage
        self.stores = {f: CSVFileStorage(p) for f, p in self.names.items()}

    def bytes(self):
        return {f: open(p, 'rb').read() if os.path.exists(p) else None for f, p in self.names.items()}

    def close(self):
        shutil.rmtree(self.dir)

    def step(self, st, cls):
        now = self.bytes()
        st['touched'] = {f: now[f] != self.seen[f] for f in now}
        self.seen = now
        st['loads'] = {}
        for f, p in self.names.items():
            e, r = guarded(lambda: cls.load(p))
            st['loads'][f] = [] if e else [content(r)]
        st['kept'] = {}
        from timeseria.storages import CSVFileStorage
        for f, p in self.names.items():
            (e1, r1), (e2, r2) = guarded(self.stores[f].get), guarded(CSVFileStorage(p).get)
            st['kept'][f] = (bool(e1), [] if e1 else content(r1)) == (bool(e2), [] if e2 else content(r2))
        left = self.bytes()
        st['touched'] = {f: st['touched'][f] or left[f] != now[f] for f in now}
        return st


def save(fs, f, s, over, cls, rng):
    before = content(s)
    kw = dict(overwrite=over) if over or rng.random() < .3 else {}
    how = rng.choice(['save'] * 5 + ['to_csv', 'kept', 'kept'])
    e, r = guarded(lambda: fs.stores[f].put(s, **kw) if how == 'kept' else getattr(s, how)(fs.names[f], **kw))
    return fs.step(dict(op='save', f=f, c=before, over=over, err=e, changed=content(s) != before), cls)


def load(fs, f, cls):
    e, r = guarded(lambda: cls.load(fs.names[f]))
    return fs.step(dict(op='load', f=f, c=NOTHING, over=False, err=e, changed=False), cls)


def subclass():
    d = _lib()

    class MySeries(d.TimeSeries):
        pass
    return MySeries


def unstorable(rng):
    d = _lib()
    return rng.choice([d.TimeSeries(), d.TimeSeries(d.TimePoint(t=0), d.TimePoint(t=60)), d.TimeSeries(d.TimePoint(t=0))])


def replay_files(job):
    n, h = job
    rng = random.Random(n)
    d = _lib()
    cls = subclass() if rng.random() < .1 else d.TimeSeries
    start = h[0]
    fs = Files([f for f, b in (('f', start['c'] == 'yes'), ('g', start['over'])) if b])
    S = dict(A=make(rng, cls=cls), B=make(rng, cls=cls), none=unstorable(rng))
    try:
        steps = [save(fs, x['f'], S[x['c']], x['over'], cls, rng) if x['op'] == 'save' else load(fs, x['f'], cls) for x in h[1:]]
    finally:
        fs.close()
    return dict(start={f: [FOREIGN] if b else [] for f, b in (('f', start['c'] == 'yes'), ('g', start['over']))}, steps=steps, site='exported', tag='exported')


def rand_files(seed):
    rng = random.Random(seed)
    d = _lib()
    cls = subclass() if rng.random() < .1 else d.TimeSeries
    site = 'random'
    foreign = [f for f in ('f', 'g') if rng.random() < .15]
    fs = Files(foreign)
    steps = []
    kw = {}
    z = rng.random()
    if z < .06:
        site, kw = 'labels that fields cannot carry', dict(labels=[rng.choice(ODD)] + rng.sample(['a', 'b'], rng.randint(0, 1)))
    elif z < .12:
        site, kw = 'list data', dict(listed=True)
    elif z < .16:
        kw = dict(mixed=1)
    elif z < .2:
        site, kw = 'offset as zone', dict(kinds=['offset'])
    try:
        for _ in range(rng.randint(1, 5)):
            f = rng.choice('fg')
            if rng.random() < .75:
                s = make(rng, cls=cls, **kw) if rng.random() < .9 else unstorable(rng)
                if rng.random() < .15 and len(s) > 2 and s.resolution != 'variable':
                    s = s[0:len(s) - 1] if rng.random() < .5 else s.view(1, len(s))
                    if cls is d.TimeSeries and not isinstance(s, d.TimeSeriesView):
                        pass
                steps.append(save(fs, f, s, rng.random() < .5, cls, rng))
                if isinstance(s, d.TimeSeriesView):
                    steps[-1]['c']['cls'] = steps[-1]['c']['cls'].replace('TimeSeriesView', cls.__name__)
                elif steps[-1]['c']['cls']:
                    steps[-1]['c']['cls'] = cls.__name__ + steps[-1]['c']['cls'][steps[-1]['c']['cls'].index('/'):]
            else:
                steps.append(load(fs, f, cls))
    finally:
        fs.close()
    return dict(start={f: [FOREIGN] if f in foreign else [] for f in ('f', 'g')}, steps=steps, site=site, tag=site, seed=seed)


def check_S15(c):
    _lib()
    r = c.model('FilesMC', env=dict(N='3' if QUICK else '4'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('FilesTrace', pmap(replay_files, list(enumerate(b[:1500 if QUICK else 30000]))), label='exported_behaviours')
    c.validate('FilesTrace', pmap(rand_files, [SEED * 1000003 + i for i in range(1200 if QUICK else 20000)]))
    c.assumptions += ['numbers are finite', 'no failure of the file system itself']


# -- CSV files ----------------------------------------------------------------------------------------------

BAD = ['', 'abc', 'nan', 'N.A.', 'null', 'nd', 'undef', '-', '1.2.3', 'NaN']
NAMES = ['a', 'b', 'c', 'temp', 'Wind speed', 'x-1', '7', 'value', 'nan', 'time of flight', 'o2', 'N.D.', 'date2']


def chain(t, unit, tz, upto):
    out, k = [t], 1
    while out[-1] < upto and len(out) < 400:
        out.append(boundary(t, unit, tz, k))
        k += 1
    return out


class Csv:
    """A CSV file, as text and as the specification sees it."""

    def __init__(self, rng, times, kinds, tz, unit, **o):
        # times: one per row (None for a bad one)
        self.rng, self.tz, self.unit = rng, tz, unit
        self.header, self.rows, self.tcols, self.style = o['header'], o['rows'], o['tcols'], o['style']
        allt = set(t for t in times if t is not None)
        if unit and allt:
            top = max(allt)
            for t in list(allt):
                allt.update(x for x in chain(t, unit, tz, top) if x <= top)
        self.codes = {t: j + 1 for j, t in enumerate(sorted(allt))}
        self.next = [self.codes.get(boundary(t, unit, tz), 0) if unit else 0 for t in sorted(allt)]

    def spec(self):
        return dict(header=self.header, rows=[dict(ts=[] if r['t'] is None else [self.codes[r['t']]], cells=[[] if x is None else [num(x)] for x in r['x']]) for r in self.rows])


def stamp(rng, style, t, tz, fmt):
    """The texts of a timestamp in the columns the time is in."""
    if t is None:
        bad = rng.choice(['', ' #7', 'xxx', 'nan', '2023-13-45T99:00:00Z', 'N.A.', '--'])
        return [bad] if style != 'date+time' else rng.choice([[bad, '10:00:00'], ['2023-01-01', bad], [bad, bad]])
    z = datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(tz))
    if style == 'epoch':
        return [rng.choice([str(t), repr(float(t)), '%.3f' % t]) if t == int(t) else repr(t)]
    if style == 'iso':
        z = rng.choice([z, z.astimezone(datetime.timezone.utc), z.astimezone(zoneinfo.ZoneInfo('Asia/Kolkata'))])
        x = z.isoformat(sep=rng.choice('TT '))
        return [x.replace('+00:00', rng.choice(['Z', '+00:00']))]
    if style == 'naive':
        return [z.replace(tzinfo=None).isoformat(sep=rng.choice('T '))]
    if style == 'custom':
        return [z.strftime(fmt)]
    if style == 'date':
        return [z.strftime('%d/%m/%Y')]
    return [z.strftime('%Y-%m-%d'), z.strftime('%H:%M:%S')]


def cell(rng, x, sep, headed=True):
    if x is None:
        return rng.choice(BAD)
    text = rng.choice([repr(x), repr(float(x)), '%e' % x if float('%e' % x) == x else repr(x)])
    if rng.random() < .1:
        text = ' ' + text
    if rng.random() < .05:
        text = text + ' '
    if sep != ',' and headed and rng.random() < .2:
        text = text.replace('.', ',')
    if rng.random() < .1:
        text = rng.choice('"\'') + text
        text += text[0]
    return text


def write_csv(rng, path, f, sep, comments, fmt, encoding='utf-8'):
    out = []

    def noise():
        while rng.random() < .12:
            out.append(rng.choice([rng.choice(comments) + ' a comment' + sep + ' with a separator', '', '   ', 'lonely', rng.choice(comments)]))
    noise()
    width = len(f.header) or len(f.rows[0]['x'])
    if f.header:
        names = list(f.header)
        out.append(sep.join(n if n == '' or rng.random() < .8 else rng.choice([' ' + n, '"%s"' % n, "'%s'" % n, n + ' ']) for n in names))
        noise()
    for r in f.rows:
        ts = stamp(rng, f.style, r['t'], f.tz, fmt)
        texts = [cell(rng, x, sep, bool(f.header)) for x in r['x']]
        for p, s in zip(f.tcols, ts):
            if p <= len(texts):
                texts[p - 1] = s if rng.random() < .9 else '"%s"' % s
        line = sep.join(texts)
        out.append(line)
        noise()
    with open(path, 'wb') as o:
        o.write((rng.choice(['\n', '\n', '\r\n']).join(out) + rng.choice(['\n', ''])).encode(encoding))


def read_csv(st, path, get, o, f):
    before = open(path, 'rb').read()
    e, s = guarded(lambda: st.get(**get))
    items, kind, listed, zone, unit = [], '', '', '', ''
    if not e:
        kind = 'slots' if hasattr(s[0], 'start') else 'points'
        listed = 'list' if isinstance(s[0].data, list) else 'dict' if isinstance(s[0].data, dict) else 'other'
        zone = ','.join(sorted(set([str(i.tz) for i in s] + [str(s.tz)])))
        if kind == 'slots':
            unit = same_unit(s.resolution)
        for it in s:
            t = it.start.t if kind == 'slots' else it.t
            if kind == 'slots' and f.unit and it.end.t != boundary(it.start.t, f.unit, f.tz):
                t = None
            x = dict(enumerate(it.data)) if listed == 'list' else it.data
            items.append(dict(t=f.codes.get(t, 0) if t is not None else -1, x=dict({'~': [0, 1]}, **{str(k): num(v) for k, v in x.items()}),
                              ix=dict({'~': [0, 1]}, **{k: num(v) for k, v in it.data_indexes.items() if v is not None})))
    return dict(o=o, err=e, items=items, kind=kind, listed=listed, zone=zone, unit=unit, filechanged=open(path, 'rb').read() != before)


def run_csv(rng, f, sep, opts, gets, site, tag):
    """Read the file one or more times with a storage; gets are the arguments and what they mean for the specification."""
    from timeseria.storages import CSVFileStorage
    path = os.path.join(scratch(), 'c%d-%d.csv' % (os.getpid(), rng.randrange(10**9)))
    try:
        write_csv(rng, path, f, sep, opts.get('comment_chars', ['#', ';'] if sep != ';' else ['#']), opts.get('timestamp_format', ''))
        if sep == ';' and 'comment_chars' not in opts:
            pass
        e, st = guarded(lambda: CSVFileStorage(path, **opts))
        if e:
            return dict(f=f.spec(), steps=[dict(o=o, err=e, items=[], kind='', listed='', zone='', unit='', filechanged=False) for _, o in gets], site=site, tag=tag)
        return dict(f=f.spec(), steps=[read_csv(st, path, g, o, f) for g, o in gets], site=site, tag=tag)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def pick_times(rng, tz, unit, n, plan):
    """The times of the rows, in the order of the file."""
    z = rng.random()
    if plan == 'auto':                                # consecutive, one hole at most, not the first
        t = local(rng.choice(['2023-01-01', '2024-01-01', '2020-01-01']), tz)
        ts = [boundary(t, unit, tz, k) if k else t for k in range(n + 1)]
        if n > 3 and rng.random() < .6:
            ts.pop(rng.randint(3, n - 1))
        return ts[:n]
    t = local(rng.choice(LOCAL if unit and unit[-1] not in 'MY' else ['2003-01-01', '2010-06-01', '2016-02-01']), tz)
    if unit:
        ts, k = [], 0
        for _ in range(n):
            ts.append(boundary(t, unit, tz, k) if k else t)
            k += rng.choice([1, 1, 1, 2, 4]) if unit[-1] not in 'MY' or k < 10 else 1
    else:
        step = rng.choice([60, 600, 3600, None])
        ts = [t]
        for _ in range(n - 1):
            ts.append(ts[-1] + (step or rng.choice([1, 60, 450, 5400])))
    if rng.random() < .3:                             # disordered, repeated, off the boundaries
        for _ in range(rng.randint(1, 2)):
            j = rng.randrange(len(ts))
            w = rng.random()
            if w < .35:
                ts.insert(j, rng.choice(ts))
            elif w < .7:
                x = ts.pop(j)
                ts.insert(rng.randrange(len(ts) + 1), x)
            elif unit and unit[-1] not in 'MYDW':
                ts.insert(j, ts[j] - rng.choice([1, 5]))
    return ts


def rand_csv(seed):
    rng = random.Random(seed)
    tz = rng.choice(ZONES)
    plan = rng.choice(['points', 'points', 'slots', 'slots', 'auto', 'physical'])
    unit = dict(points=None, slots=rng.choice(UNITS), auto=rng.choice(['1D', '1M', '1Y']), physical=rng.choice(['1h', '30m', '15m', '10m', '5m', '1m', '90s', '2h']))[plan]
    n = rng.choice([1, 2, 3, 4, 5, 8]) if plan in ('points', 'slots') else rng.choice([4, 5, 8, 10])
    times = pick_times(rng, tz, unit, n, 'auto' if plan in ('auto', 'physical') else plan)
    calendar = unit and unit[-1] in 'DWMY'
    style = rng.choice(['epoch', 'epoch', 'iso', 'naive', 'custom', 'date+time'] + (['date'] if calendar else []))
    if plan == 'points' and style in ('epoch', 'iso', 'naive') and rng.random() < .4:      # fractions of seconds
        times = [times[0] + (t - times[0]) / 8 + rng.choice([0, .5]) * (t > times[0] and style == 'epoch') for t in times]
    headed = rng.random() < .75 or style not in ('epoch', 'iso', 'naive')
    ndata = rng.choice([1, 2, 2, 3])
    ncols = ndata + (2 if style == 'date+time' else 1)
    tcols = sorted(rng.sample(range(1, ncols + 1), 2)) if style == 'date+time' else [1 if rng.random() < .7 else rng.randint(1, ncols)]
    sep = rng.choice([',', ',', ',', '\t', ';', '|'])
    fmt = rng.choice(['%Y-%m-%d %H:%M:%S', '%d/%m/%Y %H:%M:%S', '%Y%m%dT%H%M%S'])
    # -- the columns
    hidden, header = {}, []
    opts = dict(tz=tz)
    if headed:
        header = rng.sample(NAMES, ncols)
        for p in range(1, ncols + 1):
            if p not in tcols and ndata > 1 and rng.random() < .2 and len(hidden) < ndata - 1:
                header[p - 1] = '__' + rng.choice(INDEXES)
                hidden[header[p - 1]] = header[p - 1][2:]
            elif p not in tcols and ndata > 1 and rng.random() < .06 and all(header):
                header[p - 1] = ''
        if len(set(header)) < len(header):
            header, hidden = rng.sample(NAMES, ncols), {}
        if style in ('epoch', 'iso', 'naive', 'custom') and rng.random() < .4:
            header[tcols[0] - 1] = rng.choice(['timestamp', 'epoch'])
        elif tcols[0] == 1 and rng.random() < .1 and len(header) > 1:
            header[0] = ''
        if all(h in ('', '7', 'nan', 'N.D.') for h in header):
            header[[p for p in range(ncols) if p + 1 not in tcols][0]] = 'speed'
    auto = not headed and tcols == [1] or headed and style not in ('date+time', 'date') and (header[tcols[0] - 1] in ('timestamp', 'epoch') or tcols == [1])
    if style == 'date+time':
        d, t = tcols
        opts.update(date_column=header[d - 1] if rng.random() < .6 else d - 1, time_column=header[t - 1] if rng.random() < .6 else t - 1, date_format='%Y-%m-%d', time_format='%H:%M:%S')
    elif style == 'date':
        opts.update(date_column=header[tcols[0] - 1] if rng.random() < .6 else tcols[0] - 1, date_format='%d/%m/%Y')
    else:
        if not auto or rng.random() < .4:
            opts['timestamp_column'] = header[tcols[0] - 1] if headed and rng.random() < .7 else tcols[0] - 1
        if style == 'custom':
            opts['timestamp_format'] = fmt
        elif rng.random() < .3:
            opts['timestamp_format'] = dict(epoch='epoch', iso='iso8601', naive='iso8601')[style]
    if any(isinstance(v, str) and v == '' for k, v in opts.items() if k.endswith('column')):
        for k in [k for k in opts if k.endswith('_column')]:
            opts[k] = header.index(opts[k]) if isinstance(opts[k], str) else opts[k]
    # -- the rows
    rows = []
    good = rng.random() < .6
    for t in times:
        x = [None if p in tcols else rng.choice([0, 1, -2, 3.5, .25, 100, -.125, 12]) for p in range(1, ncols + 1)]
        r = dict(t=t, x=x)
        if rows or headed:
            if not good or hidden:
                for p in range(ncols):
                    if p + 1 not in tcols and rng.random() < (.3 if header and header[p] in hidden else 0 if good else .06):
                        x[p] = None
            if not good and rng.random() < .08 and plan not in ('auto', 'physical'):
                r['t'] = None
            if not good and rng.random() < .08 and ncols > 2:
                r['x'] = x[:rng.randint(2, ncols - 1)]
                if any(p > len(r['x']) for p in tcols):
                    r['t'] = None
            if rng.random() < .05:
                x.append(7)
        rows.append(r)
    listed = rng.random() < .3                              # whether the data may be asked for as lists
    if plan in ('auto', 'physical'):                        # the kind is told from the times of the good rows
        for r in rows:
            r['x'] = [1 if v is None and p + 1 not in tcols and (listed or not (header and header[p] in hidden)) else v for p, v in enumerate(r['x'])]
            r['x'] += [1] * (ncols - len(r['x']))
            r['t'] = times[rows.index(r)] if r['t'] is None else r['t']
    # the columns which are not read may hold anything
    f = Csv(rng, [r['t'] for r in rows], None, tz, unit, header=header, rows=rows, tcols=tcols, style=style)
    if all(r['t'] is None for r in rows):
        return None
    # -- the options
    skip, sort = rng.random() < .5, rng.random() < .35
    opts.update(skip_errors=skip, sort=sort)
    if skip and rng.random() < .5:
        opts['silence_errors'] = True
    if sep != ',':
        opts['separator'] = sep
    if sep == ';' or rng.random() < .1:
        opts['comment_chars'] = rng.choice([['#'], ['!', '#'], ['%']])
    enc = rng.random()
    if enc < .3:
        opts['encoding'] = 'utf-8'
    if rng.random() < .12:
        opts['tz'], ftz = rng.choice(ZONES) if style in ('epoch', 'iso') else tz, tz
    else:
        ftz = None
    form = rng.choice(['auto', 'auto', 'auto', 'list', 'dict' if headed else 'auto'])
    if form == 'list' and plan in ('auto', 'physical') and hidden and not listed:
        form = 'dict'
    if form != 'auto':
        opts['data_type'] = dict(list=list, dict=dict)[form]
    kind = 'points' if plan == 'points' else rng.choice(['points', 'slots', 'slots']) if plan == 'slots' else 'auto'
    gets = []
    fixed = rng.random()
    datacols = [p for p in range(1, ncols + 1) if p not in tcols and (not header or header[p - 1])]

    def select():
        if rng.random() < .55 or not datacols:
            return 'all', [], [], None
        if headed and rng.random() < .6 or form == 'dict' or plan in ('auto', 'physical') and hidden and not listed:
            pos = rng.sample(datacols, rng.randint(1, len(datacols)))
            names = [header[p - 1] for p in pos]
            if rng.random() < .06:
                names[0] = 'missing'
            if all(m in hidden for m in names):
                return 'all', [], [], None
            return 'names', names, [], names
        pos = rng.sample(datacols, rng.randint(1, len(datacols)))
        return 'positions', [], pos, [p - 1 for p in pos]
    base = select() if rng.random() < .3 else None
    if base and base[3] is not None:
        opts['data_labels'] = base[3]
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = {}
        sel, names, pos, arg = base or select()
        if base and rng.random() < .3 and base[0] == 'all':
            sel, names, pos, arg = select()
        if not base or base[0] == 'all':
            if arg is not None:
                g['filter_data_labels'] = arg
        elif rng.random() < .3:
            sel, names, pos, arg = select()
            if arg is None:
                sel, names, pos, arg = base
            else:
                g['filter_data_labels'] = arg
        limit = []
        if rng.random() < .25:
            limit = [rng.randint(1, 6) if kind != 'auto' else 10]
            g['limit'] = limit[0]
        slots = kind == 'slots' or plan == 'auto'
        if kind == 'points':
            g['force_points'] = True
        elif kind == 'slots':
            g.update(force_slots=True, force_slot_unit=unit)
        elif plan == 'physical':
            slots = rng.random() < .5
            if slots:
                g['force_slots'] = True
                if not unit[:-1] in ('90', '2') and rng.random() < .5:
                    g['force_slot_unit'] = unit
        elif plan == 'auto' and rng.random() < .25:
            slots = rng.random() < .5
            g['force_slots' if slots else 'force_points'] = True
        if ftz:
            g['force_tz'] = ftz
        gets.append((g, dict(tcols=tcols, sel=sel, names=names, positions=pos, form=form, hidden=dict({'~': ''}, **hidden), limit=limit, skip=skip, sort=sort, slots=slots, next=f.next, zone=ftz or opts['tz'], unit=expected_unit(unit))))
    site = plan + ('/headed' if headed else '/bare')
    tr = run_csv(rng, f, sep, opts, gets, site, site)
    tr['seed'] = seed
    return tr


def same_unit(u):
    if str(u)[-1] in 'hms' and '_' not in str(u):
        return '%d seconds' % (int(str(u)[:-1]) * {'h': 3600, 'm': 60, 's': 1}[str(u)[-1]])
    return str(u)


def expected_unit(unit):
    from timeseria.units import TimeUnit
    return same_unit(TimeUnit(unit)) if unit else ''


def replay_csv(job):
    n, b = job
    rng = random.Random(n)
    tz = rng.choice(ZONES)
    unit = rng.choice(['1h', '1D', '15m', '1M'])
    t = local('2023-03-01', tz)
    # the times of the specification: 1, 2, 4, 5 are boundaries, 3 is not
    real = {1: t, 2: boundary(t, unit, tz), 4: boundary(t, unit, tz, 2), 5: boundary(t, unit, tz, 3)}
    real[3] = real[2] + (60 if unit[-1] in 'hm' else DAY if unit == '1M' else 3600)
    style = rng.choice(['epoch', 'iso', 'naive'])
    rows = [dict(t=real[r['ts'][0]] if r['ts'] else None, x=[None if not x else x[0] for x in r['cells']]) for r in b['rows']]
    header = ['__i' if h == 'c' and b['hide'] else h for h in b['header']]
    f = Csv(rng, [1], None, tz, unit, header=header, rows=rows, tcols=[1], style=style)
    f.codes = {v: k for k, v in real.items()}
    f.next = [2, 4, 0, 5, 0]
    o = dict(tcols=[1], sel=b['sel'], names=b['names'], positions=b['positions'], form='auto', hidden={'~': '', '__i': 'i'} if b['hide'] else {'~': ''}, limit=b['limit'], skip=b['skip'], sort=b['sort'], slots=b['slots'], next=f.next, zone=tz, unit=expected_unit(unit))
    opts = dict(tz=tz, skip_errors=b['skip'], silence_errors=True, sort=b['sort'])
    if b['sel'] == 'names':
        opts['data_labels'] = b['names']
    if b['sel'] == 'positions':
        opts['data_labels'] = [p - 1 for p in b['positions']]
    g = dict(force_slots=True, force_slot_unit=unit) if b['slots'] else dict(force_points=True)
    if b['limit']:
        g['limit'] = b['limit'][0]
    return run_csv(rng, f, ',', opts, [(g, o)], 'exported', 'exported')


def check_S16(c):
    _lib()
    r = c.model('CsvMC', env=dict(N='2' if QUICK else '3'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('CsvTrace', pmap(replay_csv, list(enumerate(b[:4000 if QUICK else 60000]))), label='exported_behaviours')
    c.validate('CsvTrace', [t for t in pmap(rand_csv, [SEED * 1000003 + i for i in range(6000 if QUICK else 100000)]) if t])
    c.assumptions += ['numbers are finite, labels are not repeated', 'local times are neither ambiguous nor nonexistent']


# -- conversions --------------------------------------------------------------------------------------------

def frequency(ts, tz):
    """The unit one can see in the times of a frame (and if it is a calendar one): pandas' rules, for the times used here."""
    if len(ts) < 3 or tz == 'mixed' or any(b <= a for a, b in zip(ts, ts[1:])):
        return '', False
    loc = [datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(tz)).replace(tzinfo=None) for t in ts]
    us = [round((b - a) / datetime.timedelta(microseconds=1)) for a, b in zip(loc, loc[1:])]
    if min(us) <= 0:
        return '', False
    if min(us) % (DAY * 10**6) == 0:
        if all(x.day == 1 for x in loc) or all((x + datetime.timedelta(days=1)).day == 1 for x in loc):
            m = set((b.year - a.year) * 12 + b.month - a.month for a, b in zip(loc, loc[1:]))
            if len(m) == 1:
                m = m.pop()
                return ('%dY' % (m // 12), True) if m % 12 == 0 else ('', False) if m % 3 == 0 else ('%dM' % m, True)
        if len(set(us)) > 1:
            return '', False
        d = us[0] // (DAY * 10**6)
        return ('%dW' % (d // 7), False) if d % 7 == 0 else ('%dD' % d, True)
    if len(set(b - a for a, b in zip(ts, ts[1:]))) > 1 or (ts[1] - ts[0]) % 1:
        return '', False
    return '%ds' % (ts[1] - ts[0]), False


class Times:
    def __init__(self, ts, units, zones):
        allt = set(ts)
        for z in zones:
            for u in units:
                if u and z != 'mixed':
                    allt.update(boundary(t, u, z) for t in ts)
        self.order = sorted(allt)
        self.codes = {t: j + 1 for j, t in enumerate(self.order)}

    def after(self, unit, tz):
        def end(t):
            try:
                return self.codes.get(boundary(t, unit, tz), 0)
            except ValueError:               # none: it is the end of something, not an item
                return 0
        return [end(t) for t in self.order] if unit and tz != 'mixed' else [0 for t in self.order]

    def __call__(self, t):
        return self.codes.get(t, -1)


def zone_of(zs):
    zs = set(str(z) for z in zs)
    return zs.pop() if len(zs) == 1 else 'mixed' if zs else ''


def form_of(x):
    return 'list' if isinstance(x, list) else 'dict' if isinstance(x, dict) else 'bare'


def values_of(x):
    return dict({'~': ''}, **values(x if form_of(x) != 'bare' else {'value': x}))


def loss_of(x):
    return [] if x is None or x != x else [repr(float(x))]


def see_series(s, T):
    if not len(s):
        return dict(kind='points', unit='', zone='UTC', cls='dict', items=[])
    slots = hasattr(s[0], 'start')
    return dict(kind='slots' if slots else 'points', unit=same_unit(s.resolution) if slots else '', zone=zone_of(i.tz for i in s), cls=form_of(s[0].data),
                items=[dict(t=T(i.start.t if slots else i.t), e=T(i.end.t) if slots else 0, x=values_of(i.data), l=loss_of(i.data_loss)) for i in s])


def exact(x):
    """Seconds of a datetime, exactly."""
    d = x - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    return d.days * DAY + d.seconds + d.microseconds / 10**6


def see_carrier(form, c, T):
    if form == 'df':
        columns = [str(x) for x in c.columns]
        return dict(form='df', zone=zone_of(x.tzinfo for x in c.index), columns=columns,
                    entries=[dict(t=T(exact(ix)), x=dict({'~': ''}, **{k: repr(float(v)) for k, v in zip(columns, row) if k != 'data_loss'}), cls='dict', l=loss_of(dict(zip(columns, row)).get('data_loss'))) for ix, row in zip(c.index, c.values.tolist())])
    if form == 'json':
        c = json.loads(c)
        keys = [exact(datetime.datetime.fromisoformat(k.replace('Z', '+00:00'))) for k in c]
        zone = ''
    else:
        keys, zone = [exact(k) for k in c], zone_of(k.tzinfo for k in c)
    return dict(form=form, zone=zone, columns=[], entries=[dict(t=T(t), x=values_of(x), cls=form_of(x), l=[]) for t, x in zip(keys, c.values())])


NOSERIES = dict(kind='', unit='', zone='', cls='', items=[])
NOCARRIER = dict(form='', zone='', columns=[], entries=[])


def conv_step(cur, op, T, asked='auto', unit='', carrier=None, rng=None):
    """One conversion of the real object cur (form, object, zone, times)."""
    from timeseria.units import TimeUnit
    d = _lib()
    form, obj, zone, ts = cur
    st = dict(op=op, asked=asked, unit=same_unit(unit) if unit else '', after=[], freq=dict(unit='', calendar=False), err='', series=NOSERIES, carrier=NOCARRIER, changed=False)
    if op == 'carrier':
        st['carrier'] = carrier
        return st, cur
    if op == 'from':
        before = repr(obj)
        u = unit
        z = 'UTC' if form == 'json' or zone == '' else zone
        if form == 'df':
            f, cal = frequency(ts, z)
            arg = dict(auto={}, points=dict(item_type=d.DataTimePoint), slots=dict(item_type=d.DataTimeSlot))[asked]
            if not arg and rng.random() < .2:
                arg = dict(item_type='auto')
            u = f if asked == 'slots' or asked == 'auto' and cal else ''
            e, s = guarded(lambda: d.TimeSeries.from_df(obj, **arg))
        else:
            arg = dict(slot_unit=unit if rng.random() < .5 else TimeUnit(unit)) if unit else {}
            e, s = guarded(lambda: (d.TimeSeries.from_dict if form == 'dict' else d.TimeSeries.from_json)(obj, **arg))
        st.update(after=T.after(u, z), err=e, changed=repr(obj) != before)
        if not e:
            st['series'] = see_series(s, T)
        return st, ('series', s, z, ts)
    before = content(obj)
    e, c = guarded(lambda: getattr(obj, 'to_' + op)())
    st['err'] = e
    if not e:
        st['carrier'] = see_carrier(op, c, T)
    if op == 'df':
        f, cal = frequency(ts, zone)
        st['freq'] = dict(unit=same_unit(f) if f else '', calendar=cal)
    st['changed'] = content(obj) != before
    return st, (op, c, zone if op != 'json' else '', ts)


def run_conv(rng, s, plan, site, units=()):
    slots = hasattr(s[0], 'start')
    ts = [i.start.t if slots else i.t for i in s]
    zone = zone_of(i.tz for i in s)
    unit = str(s[0].unit) if slots else ''
    U = set(units) | {unit} | {frequency(ts, z)[0] for z in (zone, 'UTC')}
    T = Times(ts, U, {zone, 'UTC'})
    cur = ('series', s, zone, ts)
    steps = []
    start = see_series(s, T)
    for op, asked, u in plan:
        if (cur[0] == 'series') != (op != 'from'):
            break
        if cur[0] != 'df' and op == 'from':
            asked = 'auto'
        if cur[0] == 'df':
            u = ''
        st, cur = conv_step(cur, op, T, asked, u, rng=rng)
        steps.append(st)
        if st['err']:
            break
    return dict(start=start, steps=steps, site=site, tag=site)


def rand_conv(seed):
    rng = random.Random(seed)
    if rng.random() < .35:
        return hand_conv(rng, seed)
    labels = rng.sample([x for x in LABELS + ODD if x != 'data_loss'], rng.choice([1, 1, 2, 3]))
    s = make(rng, listed=rng.random() < .25, labels=labels, mixed=rng.random() < .1)
    if not hasattr(s[0], 'start') and any(i.t * 64 != int(i.t * 64) for i in s):
        return None
    unit = str(s[0].unit) if hasattr(s[0], 'start') else ''
    plan = []
    for _ in range(rng.randint(1, 3)):
        plan.append((rng.choice(['dict', 'json', 'df']), '', ''))
        plan.append(('from', rng.choice(['auto', 'auto', 'points', 'slots']), rng.choice([unit, unit, unit, '', '1h']) if unit else rng.choice(['', '', '', '1h', '60s'])))
    try:
        tr = run_conv(rng, s, plan, 'random', ['1h', '60s'])
    except ValueError:                       # months from a day not all of them have, as JSON loses the zone
        return None
    tr['seed'] = seed
    return tr


def hand_conv(rng, seed):
    """Carriers which do not come from a series."""
    import pandas
    d = _lib()
    form = rng.choice(['dict', 'dict', 'json', 'df'])
    zone = rng.choice(ZONES + ['', '']) if form != 'json' else ''
    z = zone or 'UTC'
    unit = rng.choice(['', '', '1h', '15m', '1D', '1M', '1Y', '2D'])
    t = local('2023-03-01' if unit[-1:] not in ('Y',) else '2021-01-01', z)
    n = rng.choice([1, 2, 3, 4, 6])
    ts = [boundary(t, unit, z, k) if k else t for k in range(n)] if unit else [t + k * rng.choice([60, 60, 100]) + rng.choice([0, 0, .25]) for k in range(n)]
    x = rng.random()
    if x < .12 and n > 1:
        rng.shuffle(ts)
    elif x < .2 and n > 2:
        ts.pop(rng.randrange(1, n - 1))
    elif x < .26 and form == 'df':
        ts.append(ts[-1])
    how = rng.choice(['dict', 'dict', 'list', 'bare'] if form != 'df' else ['dict'])
    labels = rng.sample(['a', 'b', 'c'], rng.randint(1, 3))
    rows = []
    for _ in ts:
        rows.append({l: rng.choice(VALUES) for l in labels} if how == 'dict' else [rng.choice(VALUES) for _ in labels] if how == 'list' else rng.choice(VALUES))
    if rng.random() < .06 and how == 'dict' and len(rows) > 1 and form != 'df':
        rows[-1] = dict(z=1)
    if how == 'bare' and rng.random() < .1:
        rows[0] = dict(value=rows[0])
    aware = [datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(z)) for t in ts]
    losses = [[] for _ in ts]
    if form == 'df':
        cols = labels
        data = [[r[l] for l in labels] for r in rows]
        if rng.random() < .3:
            losses = [rng.choice([[], ['0.5'], ['0.0']]) for _ in ts]
            cols = labels + ['data_loss']
            data = [r + [float(l[0]) if l else None] for r, l in zip(data, losses)]
        index = pandas.DatetimeIndex([a.astimezone(datetime.timezone.utc).replace(tzinfo=None) for a in aware])
        if zone:
            index = index.tz_localize('UTC').tz_convert(zone)
        obj = pandas.DataFrame(data, index=index, columns=cols)
    else:
        import pytz
        keys = []
        for a, t in zip(aware, ts):
            if zone:
                keys.append(a.astimezone(pytz.timezone(zone)))
            else:
                y = rng.choice(['float', 'str', 'iso', 'epoch'])
                keys.append(dict(float=float(t), str=str(t), iso=a.isoformat(), epoch=int(t) if t == int(t) else t)[y])
                if y in ('float', 'epoch') and form == 'json':
                    keys[-1] = str(keys[-1])
                if y == 'iso' and a.microsecond:
                    keys[-1] = float(t) if form == 'dict' else str(t)
        obj = dict(zip(keys, [r.copy() if hasattr(r, 'copy') else r for r in rows]))
        if len(obj) != len(ts):
            return None
        if form == 'json':
            obj = json.dumps(obj)
    asked = rng.choice(['auto', 'auto', 'points', 'slots']) if form == 'df' else 'auto'
    u = (unit if rng.random() < .8 else '1h') if unit and form != 'df' and rng.random() < .7 else ''
    f = frequency(ts, z)
    try:
        T = Times(ts, {u, f[0], '1h', unit}, {z, 'UTC'})
    except ValueError:
        return None
    carrier = dict(form=form, zone=zone if form != 'json' else '', columns=[], entries=[dict(t=T(t), x=values_of(r), cls=form_of(r), l=l) for t, r, l in zip(ts, rows, losses)],
                   freq=dict(unit=same_unit(f[0]) if f[0] else '', calendar=f[1]) if form == 'df' else dict(unit='', calendar=False))
    cur = (form, obj, carrier['zone'], ts)
    st0, cur = conv_step(cur, 'carrier', T, carrier=carrier)
    st1, cur = conv_step(cur, 'from', T, asked, u, rng=rng)
    steps = [st0, st1]
    if not st1['err'] and rng.random() < .5:
        st2, cur = conv_step(cur, rng.choice(['dict', 'json', 'df']), T)
        steps.append(st2)
    return dict(start=NOSERIES, steps=steps, site='made by hand', tag='made by hand', seed=seed)


def replay_conv(job):
    from timeseria.units import TimeUnit
    d = _lib()
    n, b = job
    rng = random.Random(n)
    tz = 'UTC' if b['zone'] == 'UTC' else 'Europe/Rome'
    t = [datetime.datetime(2023, 10, x, 22, tzinfo=datetime.timezone.utc).timestamp() for x in (26, 27, 28, 29)]
    s = d.TimeSeries()
    for j, k in enumerate(b['ts']):
        data = {'a': j + 1, 'b': 7.0} if b['cls'] == 'dict' else [j + 1, 7.0]
        kw = dict(data_loss=.5) if b['lossy'] else {}
        s.append(d.DataTimePoint(t=t[k - 1], tz=tz, data=data, **kw) if b['kind'] == 'points' else d.DataTimeSlot(start=d.TimePoint(t=t[k - 1], tz=tz), unit=TimeUnit('1D'), data=data, **kw))
    s = travelled(s)
    return run_conv(rng, s, [(x['op'], x['asked'], '1D' if x['unit'] else '') for x in b['ops']], 'exported', ['1D'])


def check_S17(c):
    _lib()
    r = c.model('ConvertMC', env=dict(N='4' if QUICK else '6'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('ConvertTrace', pmap(replay_conv, list(enumerate(b[:1600 if QUICK else 20000]))), label='exported_behaviours')
    c.validate('ConvertTrace', [t for t in pmap(rand_conv, [SEED * 1000003 + i for i in range(3500 if QUICK else 60000)]) if t])
    c.assumptions += ['JSON texts carry instants, not zones', 'times are exact in binary', 'no data label is named data_loss']
