"""S06: time units, calendar and time zones against spec/Calendar.tla."""
import random, datetime, bisect
from vlib import *
from c_container import _lib, KN, tzname

ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Sydney', 'America/Sao_Paulo', 'Asia/Kathmandu', 'Europe/London', 'Pacific/Auckland']


def zone_table(name, lo, hi):
    import pytz
    tz = pytz.timezone(name)
    if not hasattr(tz, '_utc_transition_times'):
        return [[lo, int(tz.utcoffset(datetime.datetime(2020, 1, 1)).total_seconds())]]
    tt = [int((x - datetime.datetime(1970, 1, 1)).total_seconds()) for x in tz._utc_transition_times]
    off = [int(i[0].total_seconds()) for i in tz._transition_info]
    j = max(0, bisect.bisect_right(tt, lo) - 1)
    res = [[lo, off[j]]]
    for a, o in zip(tt[j + 1:], off[j + 1:]):
        if a > hi:
            break
        res.append([a, o])
    return res


def mkunit(rng, comp):
    """comp: dict of components; built in one of the equivalent ways."""
    T = KN['TimeUnit']
    names = dict(years='Y', months='M', weeks='W', days='D', hours='h', minutes='m', seconds='s')
    ways = ['kwargs', 'string']
    if set(comp) == {'seconds'}:
        ways.append('number')
    w = rng.choice(ways)
    if w == 'kwargs':
        return T(**comp)
    if w == 'number':
        return T(comp['seconds'])
    return T('_'.join('%s%s' % (comp[n], names[n]) for n in names if n in comp))


def vec(comp, sc=1):
    s = (comp.get('hours', 0) * 3600 + comp.get('minutes', 0) * 60 + comp.get('seconds', 0)) / sc
    return [comp.get('years', 0), comp.get('months', 0), comp.get('weeks', 0), comp.get('days', 0), int(s) if s == int(s) else -77]


def vec_of(u, sc=1):
    return vec(dict(years=u.years, months=u.months, weeks=u.weeks, days=u.days, hours=u.hours, minutes=u.minutes, seconds=u.seconds), sc)


def fields(dt):
    return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second]


def epoch(dt):
    return (dt - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds()


def rand_case(seed):
    rng = random.Random(seed)
    d = _lib()
    import pytz
    sc = rng.choice([1, 1, 1, 1, 0.5, 0.0625])
    year = rng.choice([1975, 1999, 2000, 2011, 2016, 2018, 2019, 2019, 2020, 2023, 2024, 2030])
    base = int(datetime.datetime(year, 1, 1, tzinfo=datetime.timezone.utc).timestamp())
    zs = rng.sample(ZONES, 3)
    zones = [dict(name=z, tab=zone_table(z, base - 5 * 366 * 86400, min(base + 6 * 366 * 86400, 2**31 - 10 * 86400))) for z in zs]
    steps = []
    for _ in range(rng.choice([10, 20])):
        zi = rng.randrange(3)
        name, tab = zones[zi]['name'], zones[zi]['tab']
        tz = pytz.timezone(name)
        r = rng.random()
        if sc != 1:
            t = rng.randrange(-1000, 1000)
        elif r < .4 and len(tab) > 1:
            near = [x for x in tab[1:] if abs(x[0] - base) < 2 * 366 * 86400] or tab[1:2]
            t = rng.choice(near)[0] + rng.choice([-86400, -43200, -3600, -1800, -1, 0, 1, 1800, 3600, 5400, 7200, 86400]) + rng.choice([0, 0, 0, 86400 * 6, -86400 * 7])
        elif r < .7:
            dd = datetime.datetime(year, rng.choice([1, 2, 2, 3, 10, 12]), rng.choice([1, 28, 28, 15, 30, 31]) if False else rng.choice([1, 15, 28]), 0, 0)
            dd += datetime.timedelta(days=rng.choice([0, 0, 1, 2, 3]), hours=rng.choice([0, 0, 12, 23]), minutes=rng.choice([0, 0, 30, 59]))
            try:
                t = int(epoch(tz.localize(dd, is_dst=None))) if name != 'UTC' else int(epoch(dd.replace(tzinfo=pytz.UTC)))
            except Exception:
                t = base
        else:
            t = base + rng.randrange(-366 * 86400, 366 * 86400)
        def comp(simple=True):
            k = rng.choice(['years', 'months', 'months', 'weeks', 'days', 'days', 'days', 'hours', 'hours', 'minutes', 'seconds']) if sc == 1 else 'seconds'
            n = {'years': [1, 1, 2], 'months': [1, 1, 2, 12, 13, 24, 7], 'weeks': [1, 1, 2], 'days': [1, 1, 1, 2, 7, 30], 'hours': [1, 1, 2, 6, 12, 24, 23],
                 'minutes': [1, 10, 15, 30, 60, 90, 120], 'seconds': [1, 15, 30, 60, 900, 3600, 86400, 7200]}[k]
            n = rng.choice(n)
            if sc != 1:
                n = rng.choice([1, 2, 3, 5, 16, 40]) * sc
                n = int(n) if n == int(n) else n
            c = {k: n}
            if rng.random() < .06 and sc == 1 and not simple:
                c[rng.choice(['days', 'hours', 'minutes'])] = rng.choice([1, 3])
            return c
        op = rng.choice(['shift', 'shift', 'slot', 'slot', 'floor', 'floor', 'ceil', 'round', 'at', 'retz', 'retz', 'eq', 'sum', 'length', 'unshift', 'pair', 'unit'])
        if sc != 1 and op in ('floor', 'ceil', 'round', 'at', 'retz', 'length'):
            op = 'shift'
        c = comp(op not in ('shift', 'slot', 'eq', 'sum'))
        if op in ('floor', 'ceil', 'round'):
            for q in ('years', 'months', 'weeks', 'days'):
                if q in c and rng.random() < .9:
                    c[q] = 1
            if c.get('weeks', 1) != 1:
                c['weeks'] = 1
        st = dict(op=op, z=zi + 1, z2=zi + 1, t=t, ts=[], u=vec(c, sc), v=[0] * 5, mh=c.get('hours', 0) > 1 or c.get('minutes', 0) > 60, comp=len(c) > 1)
        out = dict(err='', r=[], z=[], civil=[])
        how = rng.randrange(4)
        T = t * sc
        tp = lambda: d.TimePoint(t=T, tz=name)
        dt = lambda: datetime.datetime.fromtimestamp(T, tz)
        rl = lambda x: int(x / sc) if x / sc == int(x / sc) else -123456789
        def run():
            u = mkunit(rng, c)
            if op in ('shift', 'unshift'):
                sg = 1 if op == 'shift' else -1
                if how == 0:
                    x = dt() + u if sg == 1 else dt() - u
                    return [rl(epoch(x))], [tzname(x.tzinfo)], []
                if how == 1:
                    x = u.shift(dt(), sg)
                    return [rl(epoch(x))], [tzname(x.tzinfo)], []
                if how == 2 and vec(c)[:4] == [0] * 4:
                    x = T + u if sg == 1 else T - u
                    return [rl(x)], [], []
                p = tp()
                x = p + u if sg == 1 else p - u
                return [rl(x.t)] if p.t == T else ['input altered'], [tzname(x.tz)], []
            if op == 'slot':
                cls = rng.choice([d.TimeSlot, d.DataTimeSlot])
                kw = dict(data={'a': 1}) if cls is d.DataTimeSlot else {}
                s = cls(start=tp(), unit=u, **kw) if how < 2 else cls(t=T, tz=name, unit=u, **kw) if how == 2 else cls(dt=dt(), tz=name, unit=u, **kw)
                ok = s.unit == u and s.t == s.start.t and abs(s.length - (s.end.t - s.start.t)) < 1e-6
                return [rl(s.start.t), rl(s.end.t)] if ok else ['unit or length'], [tzname(s.start.tz), tzname(s.end.tz), tzname(s.tz)], []
            if op == 'pair':
                cls = rng.choice([d.TimeSlot, d.DataTimeSlot])
                kw = dict(data={'a': 1}) if cls is d.DataTimeSlot else {}
                s = cls(start=tp(), end=d.TimePoint(t=T + sum(st['u'][4:]) * sc, tz=name), **kw)
                return [rl(s.start.t), rl(s.end.t), vec_of(s.unit, sc)[4]], [tzname(s.start.tz), tzname(s.end.tz), tzname(s.tz)], []
            if op in ('floor', 'ceil', 'round'):
                f = dict(floor=u.floor, ceil=u.ceil, round=u.round)[op]
                x = f(dt())
                return [rl(epoch(x))], [tzname(x.tzinfo)], []
            if op == 'length':
                return [rl(u.as_seconds(dt()))], [], []
            if op == 'at':
                p = tp() if how < 2 else d.DataTimePoint(dt=dt(), data=[1]) if how == 2 else d.TimePoint(dt=dt(), tz=name)
                return fields(p.dt) if p.t == T and p.dt.utcoffset() == dt().utcoffset() else ['instant'], [tzname(p.tz)], []
            if op == 'unit':
                return vec_of(u if how < 2 else KN['TimeUnit'](str(u)), sc), [], []
            if op == 'eq':
                return [1 if u == mkunit(rng, c2) else 0], [], []
            if op == 'sum':
                x = u + mkunit(rng, c2)
                return vec_of(x, sc), [], []
            if op == 'retz':
                n2 = zones[st['z2'] - 1]['name']
                if how == 0:
                    p = tp(); p.change_tz(n2); its = [p]
                elif how == 1:
                    p = d.TimeSlot(start=tp(), end=d.TimePoint(t=T + 3600, tz=name))
                    p.change_tz(n2)
                    its = [p.start, p.end]
                else:
                    s = d.TimeSeries()
                    for j in range(3):
                        s.append(d.DataTimePoint(t=T + 3600 * j, tz=name, data=[j]) if how == 2 else d.DataTimeSlot(start=d.TimePoint(t=T + 3600 * j, tz=name), end=d.TimePoint(t=T + 3600 * j + 3600, tz=name), data=[j]))
                    if rng.random() < .5:
                        s2 = s.as_tz(n2)
                        its0 = [x.start if how == 3 else x for x in s]
                        if any(tzname(x.tz) != name for x in its0) or tzname(s.tz) != name:
                            return ['original series changed'], [], []
                        s = s2
                    else:
                        s.change_tz(n2)
                    if tzname(s.tz) != n2:
                        return ['series time zone'], [], []
                    its = [x.start if how == 3 else x for x in s] + ([s[-1].end] if how == 3 else [])
                return [rl(x.t) for x in its], [tzname(x.tz) for x in its], [fields(x.dt) for x in its]
        if op in ('eq', 'sum'):
            c2 = comp(False)
            if rng.random() < .3:
                c2 = rng.choice([{'hours': 24}, {'days': 1}, {'minutes': 60}, {'seconds': 3600}, {'hours': 1}, {'weeks': 1}, {'days': 7}, dict(c)]) if sc == 1 else dict(c)
            st['v'] = vec(c2, sc)
        if op == 'pair':
            if st['u'][4] <= 0:
                st['u'] = [0, 0, 0, 0, 3600]
            st['u'] = [0, 0, 0, 0, st['u'][4]]
        if op == 'retz':
            st['z2'] = rng.randrange(3) + 1
            st['ts'] = [t] if how == 0 else [t, t + 3600] if how == 1 else [t + 3600 * j for j in range(3 if how == 2 else 4)]
        e, v = guarded(run)
        out['err'] = e
        if e == '':
            out['r'], out['z'], out['civil'] = v
        st['out'] = out
        steps.append(st)
    return dict(zones=zones, steps=steps, tag='calendar', seed=seed)


ZN = dict(r='Europe/Rome', n='America/New_York', k='Asia/Kolkata')
UN = dict(y='1Y', mo='1M', w='1W', d='1D', h='1h', d24='24h')


def replay_one(beh):
    """A point moved by units; and the same chain as slots when only shifting."""
    d = _lib()
    import pytz
    name = ZN[beh[0]['z']]
    tz = pytz.timezone(name)
    p = d.TimePoint(t=beh[0]['t'], tz=name)
    log = []
    for h in beh[1:]:
        u = KN['TimeUnit']('86400s' if h['u'] == 'd24' else UN[h['u']])
        f = (lambda: p + u) if h['op'] == 'shift' else (lambda: d.TimePoint(dt=u.floor(p.dt))) if h['op'] == 'floor' else (lambda: d.TimePoint(dt=u.ceil(p.dt)))
        e, v = guarded(f)
        if h['op'] == 'shift':
            e2, s = guarded(lambda: d.DataTimeSlot(start=p, unit=u, data=[0]))
            if (e == '') != (e2 == '') or (e == '' and (s.end.t != v.t or tzname(s.end.tz) != name)):
                return False, log + [[h['op'], h['u'], 'slot end', str(e2)]]
        if (e == '') != h['ok']:
            return False, log + [[h['op'], h['u'], 'refused' if e else 'accepted', h['t']]]
        if e == '':
            p = v
            if p.t != h['t'] or tzname(p.tz) != name:
                return False, log + [[h['op'], h['u'], 'reached', p.t, tzname(p.tz), 'expected', h['t']]]
        log.append([h['op'], h['u'], h['t']])
    return True, None


def check_S06(c):
    _lib()
    r = c.model('CalendarMC', env=dict(MAXOPS='2' if QUICK else '3'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    if len(behs) > 60000:
        behs = c.rng.sample(behs, 60000)
    for b, (ok, log) in zip(behs, pmap(replay_one, behs)):
        if not ok:
            c.fail('exported-behaviour', str(log[-1][0]), dict(start=b[0], steps=log, behaviour=b), module='CalendarMC', step=len(log))
    c.cover['behaviours_replayed'] = len(behs)
    c.traces += len(behs)
    c.validate('CalendarTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(1500 if QUICK else 15000)]))
    c.assumptions += ['the time zone database (pytz) is taken as given; calendar arithmetic itself comes from the propertime dependency, pinned in the environment',
                      'boundaries of multi-hour physical units are anchored as that dependency does']
