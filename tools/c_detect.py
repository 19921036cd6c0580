"""S28: detection of sampling intervals and periodicities, against spec/Detect.tla."""
import random, math
from vlib import *
from c_container import _lib, KN


def observe_interval(s, t):
    from timeseria.utilities import detect_sampling_interval as dsi
    def run():
        v = dsi(s)
        w, conf = dsi(s, confidence=True)
        guess = []
        if s.resolution == 'variable':
            g = s.guess_resolution(confidence=True)
            guess = [num(s.guess_resolution().as_seconds()), num(g['confidence'])]
            if num(g['value'].as_seconds()) != guess[0]:
                guess = [[9, 0], [9, 0]]
        return num(v) if num(v) == num(w) else [9, 0], num(conf), guess
    e, r = guarded(run)
    return dict(op='interval', t=list(t), err=e or '', v=r[0] if not e else [0, 1], conf=r[1] if not e else [0, 1], guess=r[2] if not e else [])


def point(d, base, q, i, carry):
    return d.DataTimePoint(t=base + q / 4, data={'a': i}) if carry else d.TimePoint(t=base + q / 4)


def interval_case(rng, diffs):
    d = _lib()
    base = rng.choice([0, 1546300800, -1000])
    carry = rng.random() < .5
    t = [0]
    for x in diffs:
        t.append(t[-1] + x)
    if len(set(diffs)) == 1 and rng.random() < .4:
        unit = KN['TimeUnit'](diffs[0] / 4)
        s = d.TimeSeries()
        for i, q in enumerate(t):
            s.append(d.DataTimeSlot(start=d.TimePoint(t=base + q / 4), unit=unit, data={'a': i}))
        return [observe_interval(s, t)]
    s = d.TimeSeries()
    at = sorted(rng.sample(range(2, len(t) + 1), min(len(t) - 1, rng.choice([1, 1, 2, 3]))) + [len(t)])
    steps = []
    for i, q in enumerate(t):
        s.append(point(d, base, q, i, carry))
        if i + 1 in at:
            steps.append(observe_interval(s, t[:i + 1]))
    # and after taking some away again
    while len(t) > 3 and rng.random() < .3:
        j = rng.choice([0, len(t) - 1])
        s.pop(j)
        t.pop(j)
        steps.append(observe_interval(s, [x - t[0] for x in t]))
    return steps


def signal(rng, n, sp):
    off = rng.choice([1, -1]) * sp[0] / 2
    ph = [rng.choice([0, math.pi / 2, rng.random() * 6]) for _ in sp]
    scale = rng.choice([1, 1, .01, 1000])
    return [scale * (off + sum(a * math.cos(2 * math.pi * k * i / n + ph[k]) for k, a in enumerate(sp) if k and a)) for i in range(n)]


def period_case(rng, n, sps):
    d = _lib()
    from timeseria.utilities import detect_periodicity
    from timeseria.models import PeriodicAverageForecaster, PeriodicAverageReconstructor
    ls = ['a', 'b', 'value 3'][:len(sps)]
    data = {l: signal(rng, n, sp) for l, sp in zip(ls, sps)}
    step = rng.choice([1, 600, 3600])
    slots = rng.random() < .4
    s = d.TimeSeries()
    for i in range(n):
        v = {l: data[l][i] for l in ls}
        if slots:
            s.append(d.DataTimeSlot(start=d.TimePoint(t=i * step), unit=KN['TimeUnit'](step), data=v, data_loss=0))
        else:
            s.append(d.DataTimePoint(t=i * step, data=v, data_loss=0))
    s = travelled(s)
    how = rng.choice(['call', 'call', 'forecaster', 'reconstructor']) if len(ls) == 1 else 'forecaster'
    def run():
        if how == 'call':
            return [detect_periodicity(s)]
        if how == 'forecaster':
            m = PeriodicAverageForecaster()
            m.fit(s)
            return [m.data['periodicities'][l] for l in ls]
        m = PeriodicAverageReconstructor()
        m.fit(s)
        return [m.data['periodicity']]
    e, r = guarded(run)
    ok = not e and all(type(x) is int for x in r)
    return [dict(op='period', n=n, sp=[list(sp) for sp in sps], err=e or '', p=r if ok else [-1 for _ in sps], how=how)]


def rand_spectrum(rng, n):
    mid = round(n / 2)
    sp = [0] * mid
    ks = rng.sample(range(1, mid), min(mid - 1, rng.choice([1, 1, 2, 2, 3, 4, 5])))
    near = False
    if rng.random() < .6 and mid > 40:
        near = rng.random() < .7
        k = rng.randrange(1, 11)
        ks = [k, rng.randrange(min(10 * k, mid - 2), min(mid, 10 * k + 12))] + rng.sample(range(1, mid), rng.choice([0, 1, 2]))
        ks = list(dict.fromkeys(ks))
    top = rng.randrange(20, 120)
    amps = rng.sample(range(1, 120), len(ks)) if rng.random() < .5 else [top - j for j in range(min(2, len(ks)))] + rng.sample(range(1, max(2, top // 2) + 5), max(0, len(ks) - 2))
    if near and len(ks) > 2:
        # around where the slow component is not passed over any more
        low = rng.randrange(1, 60)
        step = rng.randrange(2, 20)
        amps = [low + 4 * step + rng.choice([-2, -1, 1, 2]), low + 3 * step, low] + rng.sample(range(1, low + 1), min(low, len(ks) - 3))
    if len(amps) < len(ks) or len(set(amps)) < len(ks):
        return rand_spectrum(rng, n)
    for k, a in zip(ks, amps):
        sp[k] = a
    sp[0] = rng.choice([0, 0, 3, 500])
    if sp[0] in sp[1:]:
        sp[0] = 0
    return sp


def rand_case(seed):
    rng = random.Random(seed)
    if rng.random() < .5:
        n = rng.choice([rng.randrange(1, 12), rng.randrange(15, 70)])
        kind = rng.choice(['regular', 'few', 'spread', 'near', 'clusters', 'clusters'])
        if kind == 'regular':
            diffs = [rng.choice([4, 240, 2400])] * n
        elif kind == 'few':
            vs = [rng.choice([2, 4, 8, 240, 244, 3600]) for _ in range(3)]
            diffs = [rng.choice(vs) for _ in range(n)]
        elif kind == 'clusters':
            # (nearly) all different, but rounding to few seconds, some of them more often than the different ones tell
            n = rng.randrange(42, 75)
            diffs = []
            for m in rng.sample(range(2, 60), 40):
                diffs += rng.sample([4 * m - 1, 4 * m, 4 * m + 1], rng.choice([1, 2, 2, 3]))
            diffs = diffs[:n]
            for _ in range(1 if n < 62 else rng.choice([1, 2])):
                diffs[rng.randrange(len(diffs))] = rng.choice(diffs)
            rng.shuffle(diffs)
        elif kind == 'near':
            diffs = [240 + rng.randrange(-3, 4) for _ in range(n)]
        else:
            diffs = rng.sample(range(1, 4 * n + 4), n)
            for _ in range(rng.choice([0, 0, 1, 2])):
                diffs[rng.randrange(n)] = rng.choice(diffs)
        return dict(steps=interval_case(rng, diffs), tag='interval')
    n = rng.choice([rng.randrange(12, 60), rng.randrange(60, 300), 24 * rng.randrange(2, 12)])
    return dict(steps=period_case(rng, n, [rand_spectrum(rng, n) for _ in range(rng.choice([1, 1, 1, 2, 3]))]), tag='period')


def replay_one(job):
    seed, h = job
    rng = random.Random(seed)
    if h['op'] == 'interval':
        return dict(steps=interval_case(rng, [b - a for a, b in zip(h['t'], h['t'][1:])]), tag='interval')
    return dict(steps=period_case(rng, h['n'], [h['sp']]), tag='period')


def check_S28(c):
    _lib()
    r = c.model('DetectMC', env=dict(N='5' if QUICK else '6'))
    behs = [json.loads(p[3:]) for p in r['prints'] if p.startswith('BEH')]
    c.rng.shuffle(behs)
    behs = behs[:3000 if QUICK else 40000]
    c.validate('DetectTrace', pmap(replay_one, list(enumerate(behs))), label='exported_behaviours')
    n = 1200 if QUICK else 12000
    c.validate('DetectTrace', pmap(rand_case, [SEED * 1000003 + i for i in range(n)]))
    c.assumptions += ['instants in quarters of a second; signals are sums of whole-cycle components of different strengths (the Fourier transform itself is SciPy\'s)']
