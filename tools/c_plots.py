"""S26 (plots) against spec/Plot.tla: the page of a plot is read back as rows, columns, range and mark."""
import json, os, random, re, ast, calendar, datetime, zoneinfo
from vlib import *
from c_predict import build, Build

LIMIT = 40          # series longer than this are aggregated (the threshold of the library is configurable)


def _lib():
    os.environ['AGGREGATE_THRESHOLD'] = str(LIMIT)
    import timeseria.datastructures as d
    import timeseria.plots
    return d


ROW = re.compile(r'\[new Date\(Date\.UTC\(([^)]*)\)\)((?:\s*,\s*(?:\[[^\]]*\]|[^,\[\]]+))*)\]')
CELL = re.compile(r',\s*(\[[^\]]*\]|[^,\[\]]+)')


def number(x):
    x = x.strip()
    return [] if x in ('null', '') else [num(float(x))]


def cell(x):
    if x.startswith('['):
        return [v for p in x[1:-1].split(',') for v in number(p)]
    return number(x)


def read(html, base):
    """The rows, columns, bars, visible range, mark and time zone of a plot."""
    js = html[html.index('new Dygraph('):]
    head = js.index('labels:')
    columns = [str(c) for c in ast.literal_eval(re.search(r'labels:\s*(\[.*?\])\s*,\s*\n', js[head:], re.S).group(1))]
    rows, ragged = [], columns[:1] != ['Timestamp']
    columns = columns[1:]
    for m in ROW.finditer(js[:head]):
        f = [float(v) for v in m.group(1).split(',')]
        t = calendar.timegm((int(f[0]), int(f[1]) + 1, int(f[2]), int(f[3]), int(f[4]), int(f[5]))) + (f[6] / 1000 if len(f) > 6 else 0)
        cells = [cell(c.strip()) for c in CELL.findall(m.group(2))]
        ragged = ragged or len(cells) != len(columns)
        rows.append(dict(t=ticks(t, base), c=dict(dict(zip(columns, cells)), **{'~': []})))
    r = re.search(r'valueRange:\s*\[([^,\]]+),([^,\]]+)\]', js[head:])
    marks = re.findall(r'toDomCoords\(([^,]+),', js)
    shown = re.search(r"data\.xHTML\s*\+\s*' \(([^)]*)\)", html)
    return dict(out=rows, columns=columns, ragged=ragged, bars=bool(re.search(r'^[^/]*customBars:\s*true', js[js.rindex('animatedZooms'):] if 'animatedZooms' in js else js, re.M)),
                range=[num(float(r.group(1))), num(float(r.group(2)))] if r else [], mark=[ticks(float(v) / 1000, base) for v in marks], tzshown=shown.group(1) if shown else '')


def ticks(t, base):
    x = (t - base) * 8
    return int(x) if x == int(x) and abs(x) < 2**31 else -99


def items(s, base):
    out = []
    for it in s:
        slot = hasattr(it, 'start')
        t, e = (it.start.t, it.end.t) if slot else (it.t, it.t)
        x = it.data.items() if isinstance(it.data, dict) else enumerate(it.data)
        out.append(dict(t=ticks(t, base), e=ticks(e, base), x={str(l): num(v) for l, v in x}, ix=dict({str(n): opt(v) for n, v in it.data_indexes.items()}, **{'~': []})))
    return out


def offsets(tz, first, last, base):
    z = zoneinfo.ZoneInfo(tz)
    off = lambda t: int(datetime.datetime.fromtimestamp(t, z).utcoffset().total_seconds())
    t, end = int(first) // 900 * 900 - 900, int(last) + 1800
    out = [[ticks(t, base), off(t) * 8]]
    while t < end:
        t += 900
        if off(t) * 8 != out[-1][1]:
            out.append([ticks(t, base), off(t) * 8])
    return out


def plot_lines(s):
    """With Matplotlib: the lines of the figure."""
    first = s[0].start.t if hasattr(s[0], 'start') else s[0].t
    base = int(first) // 86400 * 86400
    from matplotlib import pyplot
    listed = not isinstance(s[0].data, dict)
    before = items(s, base)
    def go():
        pyplot.close('all')
        s.plot(engine='mp')
        out = []
        for l in pyplot.gca().lines:
            out.append(dict(x=[ticks(x.timestamp(), base) for x in l.get_xdata()], y=[[] if y != y else [num(y)] for y in map(float, l.get_ydata())]))
        pyplot.close('all')
        return out
    e, r = guarded(go)
    return dict(site='matplotlib', err=e, lines=r if not e else [], before=before, after=items(s, base),
                labels=[str(l) for l in (range(len(s[0].data)) if listed else s[0].data)], indexes=['data_loss'] if any(it.data_loss is not None for it in s) else [])


def plot(s, rng, tz, site, force=None):
    first = s[0].start.t if hasattr(s[0], 'start') else s[0].t
    last = s[len(s) - 1].end.t if hasattr(s[0], 'start') else s[len(s) - 1].t
    base = int(first) // 86400 * 86400
    listed = not isinstance(s[0].data, dict)
    every = [str(l) for l in (range(len(s[0].data)) if listed else s[0].data)]
    present = sorted({str(n) for it in s for n in it.data_indexes})
    before = items(s, base)
    labels, indexes, ordered = sorted(every), present, False
    kw = dict(html=True)
    if rng.random() < .4:
        labels = rng.sample(every, rng.randint(1, len(every)))
        kw['data_labels'] = list(labels)
    if rng.random() < .5:
        indexes = rng.sample(present, rng.randint(0, len(present)))
        kw['data_indexes'] = list(indexes) if indexes or rng.random() < .5 else None
        ordered = 'data_labels' in kw
    full = rng.random() < .4
    if full:
        kw['full_precision'] = True
    by, aggregate = 0, 'auto'
    if force or rng.random() < .5:
        by = force or rng.choice([1, 2, 3, 4, 5, 7, 10, 60])
        kw['aggregate_by'] = by
    if not force and rng.random() < .3:
        aggregate = rng.choice(['no', 'yes'])
        kw['aggregate'] = aggregate == 'yes'
    marked, skip = [], False
    if rng.random() < .4:
        z = zoneinfo.ZoneInfo(rng.choice([tz, tz, 'UTC', 'America/New_York', 'Asia/Kolkata']))
        q = sorted([rng.randint(int(first), int(last)) for _ in range(2)])
        kw['mark'] = [datetime.datetime.fromtimestamp(t, z) for t in q]
        if rng.random() < .5:
            kw['mark'] = tuple(kw['mark'])
        marked = [ticks(t, base) for t in q]
    if rng.random() < .15:
        kw['value_range'], skip = [-1000, 1000], True
    if rng.random() < .15:
        kw['height'], skip = 50, True
    for k, v in (('title', 'A title'), ('mini_plot', False), ('mark_title', 'here'), ('color', 'rgb(1,2,3)')):
        if rng.random() < .15:
            kw[k] = v
    minimal = rng.random() < .1
    if minimal:
        kw['minimal_legend'] = True
    save = rng.random() < .2

    def go():
        if not save:
            return s.plot(**kw)
        path = os.path.join(scratch(), 'plot-%d-%d.html' % (os.getpid(), rng.randrange(10**9)))
        s.plot(save_to=path, **{k: v for k, v in kw.items() if k != 'html'})
        with open(path) as f:
            page = f.read()
        os.remove(path)
        return page[page.rindex('<script>'):]
    e, page = guarded(go)
    got = dict(out=[], columns=[], ragged=False, bars=False, range=[], mark=[], tzshown='')
    if not e:
        try:
            got = read(page, base)
        except Exception as x:
            e = 'unreadable: ' + repr(x)[:80]
    if skip:
        got['range'] = []
    if minimal:
        got['tzshown'] = tz
    return dict(got, before=before, after=items(s, base), offs=offsets(tz, first, last, base), limit=LIMIT, aggregate=aggregate, by=by, labels=labels, indexes=indexes, ordered=ordered, listed=listed, full=full,
                marked=marked, tz=tz, err=e, site=site)


NAMES = [['a'], ['a', 'b'], ['a', 'b'], None, None, ['temp,in', 'temp,out'], ['a b', 'c-d', 'e'], ['x']]


def rand_rows(rng, n, labels):
    vals = rng.choice([(0, 1, 2, 3, 5, 8, -4), (-5,), (7,), (.125, 2.5, -.375), (0,), (1e2, -1e2, .25)])
    names = rng.sample(['data_loss', 'data_reconstructed', 'forecast', 'anomaly', 'own'], rng.randint(0, 3))
    rows = []
    for _ in range(n):
        x = [rng.choice(vals) for _ in range(2 if labels is None else len(labels))]
        ix = {k: rng.choice([0, 1, .5, .25, None, .0625]) for k in names if k in ('data_loss',) or rng.random() < .8}
        rows.append((x if labels is None else dict(zip(labels, x)), ix))
    return rows


def rand_plot(seed):
    d = _lib()
    rng = random.Random(seed)
    b = build(rng, dst_ok=rng.random() < .3)
    labels = rng.choice(NAMES)
    n = rng.choice([1, 2, 3, 5, 10, 30, LIMIT - 1, LIMIT, LIMIT + 1, 70, 130]) if rng.random() < .95 else rng.choice([9 * LIMIT, 10 * LIMIT - 1, 10 * LIMIT, 10 * LIMIT + 5])
    frac = rng.choice([0, 0, .25, .5]) if b.kind == 'point' else 0
    s = d.TimeSeries()
    mixed = b.kind == 'point' and rng.random() < .15
    from timeseria.units import TimeUnit
    from c_predict import unit_name
    u = TimeUnit(unit_name(b.unit))
    if b.kind == 'point' and rng.random() < .3:
        times, t, spread = [], b.start, rng.random() < .3
        for _ in range(n):
            times.append((t, t))
            t += rng.choice([60, 60, 61, 600, 3601]) if not spread else len(times) ** 2 + 7
    else:
        times = b.times(n)
    zones = set()
    for (t, e), (x, ix) in zip(times, rand_rows(rng, n, labels)):
        z = rng.choice([b.tz, 'Europe/London', 'America/New_York']) if mixed else b.tz
        zones.add(z)
        if b.kind == 'slot':
            s.append(d.DataTimeSlot(start=d.TimePoint(t=t, tz=z), unit=u, data=anyorder(x, 7 * len(s)), data_indexes=ix))
        else:
            s.append(d.DataTimePoint(t=t + frac, tz=z, data=anyorder(x, 7 * len(s)), data_indexes=ix))
    tz = b.tz if len(zones) < 2 else 'UTC'
    if len(zones) == 1:
        tz = zones.pop()
    site = 'mixed' if mixed else 'plot'
    if rng.random() < .15 and not mixed and b.unit[0] != 'cal':
        tz = rng.choice(['Asia/Tokyo', 'UTC', 'America/New_York'])
        s.change_tz(tz)
        site = 'changed-zone'
    s = travelled(s)
    steps = []
    for _ in range(3):
        if rng.random() < .06 and not mixed:
            steps.append(plot_lines(s))
        elif rng.random() < .15 and len(s) > 4 and not mixed:
            f = rng.randint(0, len(s) - 2)
            steps.append(plot(s.view(f, rng.randint(f + 1, len(s))), rng, tz, 'view'))
        else:
            steps.append(plot(s, rng, tz, site))
    return dict(steps=steps, tag='plot', seed=seed)


def replay_plot(job):
    n, b = job
    d = _lib()
    rng = random.Random(n)
    s = d.TimeSeries()
    t0, tz = rng.choice([(1679790600, 'Europe/Rome'), (1698537600 - 900, 'Europe/Rome'), (1600000200, 'UTC'), (1667368800 - 900, 'America/New_York')])
    step = rng.choice([60, 900, 3600])
    for j, (v, x) in enumerate(zip(b['v'], b['ix'])):
        kw = dict(data_indexes={'loss': x[0][0] / x[0][1]} if x else rng.choice([{}, {'loss': None}]))
        t = t0 + j * step
        s.append(d.DataTimePoint(t=t, tz=tz, data={'a': v[0] / v[1]}, **kw))
    return dict(steps=[plot(s, rng, tz, 'exported', b['k'])], tag='plot')


def check_S26(c):
    _lib()
    r = c.model('PlotMC', env=dict(N='4' if QUICK else '5'))
    b = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(b)
    c.validate('PlotTrace', pmap(replay_plot, list(enumerate(b[:800 if QUICK else 15000]))), label='exported_behaviours')
    c.validate('PlotTrace', pmap(rand_plot, [SEED * 1000003 + i for i in range(700 if QUICK else 12000)]))
    c.assumptions += ['the page of a plot is read for its rows, columns, visible range, mark and time zone; what a browser makes of it is not', 'at least one item and one label are plotted']
