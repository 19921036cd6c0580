"""Common machinery: running TLC on the specification, recording real executions,
validating them against the specification, verdicts, known findings and evidence."""

import os, sys, re, json, time, math, random, shutil, signal, subprocess, tempfile, traceback
import multiprocessing
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'
MAXDEN = 20000
INTMAX = 2**31 - 1


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------------------
#  Encoding of observations (TLC has 32 bit integers, no reals, no null)
# ---------------------------------------------------------------------------

def num(x, maxden=MAXDEN, tol=1e-9):
    """A number as a reduced rational <<n,d>>; <<code,0>> when it is not one (never equal to a rational)."""
    if isinstance(x, bool):
        return [7, 0]
    try:
        f = float(x)
    except Exception:
        return [6, 0]
    if math.isnan(f):
        return [5, 0]
    if math.isinf(f):
        return [4, 0]
    fr = Fraction(f).limit_denominator(maxden)
    if abs(float(fr) - f) > tol * max(1.0, abs(f)):
        return [3, 0]
    if abs(fr.numerator) > INTMAX:
        return [2, 0]
    return [fr.numerator, fr.denominator]


def opt(x, enc=num):
    """An optional value as a sequence of zero or one elements."""
    return [] if x is None else [enc(x)]


def err_name(e):
    return type(e).__name__


# ---------------------------------------------------------------------------
#  Scratch space
# ---------------------------------------------------------------------------

_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---------------------------------------------------------------------------
#  Guarded execution of the real code
# ---------------------------------------------------------------------------

def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(fn, *args, seconds=20, **kwargs):
    """Run fn; returns (outcome, value): outcome '' when it returned, else the exception name."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return '', fn(*args, **kwargs)
    except CaseTimeout:
        return 'NonTermination', None
    except RecursionError as e:
        return 'RecursionError', e
    except MemoryError as e:
        return 'MemoryError', e
    except Exception as e:
        return err_name(e), e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def silently(fn, *args, **kwargs):
    """Run fn with nothing printed."""
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


def _quiet():
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def _pool_init():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    _quiet()


def _call(job):
    fn, arg = job
    try:
        return ('ok', fn(arg))
    except CaseTimeout:
        return ('ok', None)
    except BaseException as e:
        # what the library raised where nothing was expected, or gave something that the driver cannot even observe
        site = raised_in_library(e) or ('the driver' if isinstance(e, Exception) and not isinstance(e, (MemoryError, OSError, MachineryError)) else '')
        return ('raised', dict(error=err_name(e), site=site, case=repr(arg)[:2000], traceback=traceback.format_exc()[-3000:])) if site else ('exc', traceback.format_exc())


RAISED = []      # what the library raised where it was used outside what a case observes (e.g. while building what it works on)


def raised_in_library(e):
    """The function of the library which raised the exception, if it was one."""
    names = [f.name for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(os.path.join(REPO, 'timeseria')) + os.sep)]
    return names[-1] if names else ''


def pmap(fn, args, procs=8):
    """Map over a process pool (fork); an exception in fn is a machinery error."""
    args = list(args)
    if not args:
        return []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(args)), initializer=_pool_init) as pool:
        res = pool.map(_call, [(fn, a) for a in args], chunksize=max(1, min(50, len(args) // (procs * 4) or 1)))
    out = []
    for kind, val in res:
        if kind == 'exc':
            raise MachineryError('driver failed:\n' + val)
        if kind == 'raised':
            RAISED.append(val)
            val = None
        out.append(val)
    return out


# ---------------------------------------------------------------------------
#  TLC
# ---------------------------------------------------------------------------

def tlc(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap='6g'):
    """Run TLC; returns dict(ok, states, distinct, prints, out, error)."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-config',
           os.path.join(SPEC, (cfg or module) + '.cfg'), '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
           '-metadir', meta] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on ' + module)
    out = p.stdout.decode('utf-8', 'replace')
    out = re.sub(r'(?m)^(Parsing file|Semantic processing|Linting of) .*\n', '', out)
    shutil.rmtree(meta, ignore_errors=True)
    prints = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            prints.append(json.loads(line)[2:])
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    prints.sort()      # the order depends on the schedule of the workers
    return dict(ok='No error has been found' in out, states=dist, transitions=gen, prints=prints, out=out, rc=p.returncode)


# ---------------------------------------------------------------------------
#  A check
# ---------------------------------------------------------------------------

class Check:

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.violations = []       # dicts: clauses, tag, trace...
        self.cover = {}
        self.assumptions = []
        self.models = []
        self.rng = random.Random(SEED * 7919 + sum(ord(c) * 31 ** i for i, c in enumerate(pid)))

    # -- exhaustive model checking ------------------------------------------------
    def model(self, module, cfg=None, env=None, workers=8, args=(), timeout=800, expect=None):
        r = tlc(module, cfg, env, workers=workers, args=args, timeout=timeout)
        if not r['ok']:
            raise MachineryError('the specification %s/%s itself fails TLC:\n%s' % (module, cfg or module, r['out'][-6000:]))
        self.states += r['states']
        self.transitions += r['transitions']
        self.models.append(dict(module=module, config=cfg or module, distinct_states=r['states'], generated=r['transitions']))
        return r

    def models_parallel(self, specs):
        """specs: list of (module, cfg, env); run concurrently, results in order."""
        from concurrent.futures import ThreadPoolExecutor
        scratch()
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda a: self.model(a[0], a[1], env=a[2], workers=2), specs))

    # -- trace validation -------------------------------------------------------------
    def validate(self, module, traces, cfg=None, timeout=800, label=None, env=None):
        """traces: list of dicts with 'steps' (list) plus whatever the module reads. 'tag' identifies the site (known findings)."""
        traces = [t for t in traces if t is not None]
        if not traces:
            raise MachineryError('no traces recorded for ' + module)
        self._validate(module, traces, cfg, timeout, env or {})
        self.traces += len(traces)
        self.steps += sum(len(t['steps']) for t in traces)
        if len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append(json.loads(json.dumps(dict(module=module, trace=t), default=str)[:4000] if len(json.dumps(t, default=str)) < 3900 else json.dumps(dict(module=module, trace=str(t)[:1500]))))
        key = label or module
        self.cover['traces_' + key] = self.cover.get('traces_' + key, 0) + len(traces)

    def _validate(self, module, traces, cfg, timeout, env):
        path = os.path.join(scratch(), 'trace-%s-%d.ndjson' % (module, len(os.listdir(scratch()))))
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps({k: v for k, v in t.items() if not k.startswith('_')}) + '\n')
        e = {'TRACE': path}
        e.update(env)
        r = tlc(module, cfg, e, timeout=timeout)
        os.remove(path)
        if not r['ok']:
            # an observation the specification cannot even be evaluated on: isolate it
            if len(traces) == 1:
                t = traces[0]
                m = re.search(r'(Error:.*?)(\n\d+ states|\Z)', r['out'], re.S)
                if 'java.lang.OutOfMemoryError' in r['out'] or 'Parsing or semantic analysis failed' in r['out'] or 'Error:' not in r['out']:
                    raise MachineryError('TLC failed on %s:\n%s' % (module, r['out'][-4000:]))
                self.add(dict(clauses=['uninterpretable-observation'], tag=t.get('tag', ''), module=module, step=0, trace=t, detail=(m.group(1) if m else r['out'])[:1500]))
                return
            if getattr(self, '_bisect', 0) > 40:
                raise MachineryError('TLC failed on %s:\n%s' % (module, r['out'][-4000:]))
            self._bisect = getattr(self, '_bisect', 0) + 1
            h = len(traces) // 2
            self._validate(module, traces[:h], cfg, timeout, env)
            if not [v for v in self.violations if v['clauses'] == ['uninterpretable-observation']]:
                self._validate(module, traces[h:], cfg, timeout, env)
            return
        bad = {}
        for p in r['prints']:
            if p.startswith('BAD'):
                b = json.loads(p[3:])
                bad[(b['k'], b['i'])] = b
        expected = 0
        ended = {k: i for (k, i) in bad}
        for n, t in enumerate(traces, 1):
            expected += (ended[n] + 1) if n in ended else len(t['steps']) + 1
        if r['states'] != expected:
            raise MachineryError('%s: TLC visited %d states, expected %d (trace not fully consumed)' % (module, r['states'], expected))
        self.states += r['states']
        self.transitions += r['transitions']
        for (k, i), b in sorted(bad.items()):
            t = traces[k - 1]
            if not b['bad']:
                continue              # diverged on a clause that another property decides
            self.add(dict(clauses=sorted(b['bad']), tag=b.get('site') or t.get('tag', ''), module=module, step=i, expected=b.get('exp'), trace=t))

    def add(self, v):
        self.violations.append(v)

    def fail(self, clause, tag, detail, **kw):
        """A divergence found while replaying a behaviour of the specification."""
        self.add(dict(clauses=[clause], tag=tag, module=kw.pop('module', 'replay'), step=kw.pop('step', 0), trace=detail, **kw))

    # -- verdict ----------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        outdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(outdir, exist_ok=True)
        for f in os.listdir(outdir):
            if f.startswith(self.pid + '-'):
                os.remove(os.path.join(outdir, f))
        for x in RAISED:
            self.add(dict(clauses=['raised'], tag='%s in %s' % (x['error'], x['site']), module='driver', step=0, trace=x))
        seen_known = {}
        fresh = []
        for v in self.violations:
            k = match_known(known, v)
            if k is not None:
                seen_known.setdefault(k['key'], k)
            else:
                fresh.append(v)
        for k in known:      # every listed finding is announced, found again in this run or not
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        groups = {}
        for v in fresh:
            groups.setdefault((v['module'], tuple(v['clauses']), v['tag']), []).append(v)
        n = 0
        for (module, clauses, tag), vs in sorted(groups.items(), key=lambda x: str(x[0])):
            n += 1
            if n > 12:
                break
            vs.sort(key=lambda v: len(json.dumps(v, default=str)))
            path = os.path.join(outdir, '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, occurrences=len(vs), first=vs[0]), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  clause(s): %s  site: %s  (%d occurrence(s), model %s, step %s)' % (', '.join(clauses), tag, len(vs), module, vs[0]['step']))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   steps_validated=self.steps, samples=self.samples[:3] or ['(none)'], models=self.models)
        cov.update(self.cover)
        ev = dict(property=self.pid, tier='quick' if QUICK else 'thorough', seed=SEED, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            print('%s: %d violation(s) over %d traces / %d states in %.1fs' % (self.pid, len(fresh), self.traces, self.states, time.time() - self.t0))
            return 1
        print('%s: held on everything explored: %d traces (%d steps) validated, %d states, %.1fs' % (self.pid, self.traces, self.steps, self.states, time.time() - self.t0))
        return 0


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    res.append(d)
    return res


def match_known(known, v):
    for k in known:
        if v['tag'] == k['tag'] and set(v['clauses']) <= set(k['clauses']):
            return k
    return None


def anyorder(data, k):
    """The data of item k, its labels in one of the possible orders (which must not matter)."""
    if not isinstance(data, dict) or len(data) < 2:
        return data
    ls = list(data)
    j = int(k) // 7 % 3
    ls = ls if j == 0 else ls[::-1] if j == 1 else ls[1:] + ls[:1]
    return {l: data[l] for l in ls}


def same_items(s, r):
    """Whether two series are made of the same things (used by the drivers only to choose a series, never to decide a property)."""
    def form(x):
        return [(type(i).__name__, i.start.t, i.end.t, str(i.tz), str(i.unit)) + data(i) if hasattr(i, 'start') else (type(i).__name__, i.t, str(i.tz)) + data(i) for i in x]
    def data(i):
        return (repr(sorted(i.data.items())) if isinstance(i.data, dict) else repr(i.data), repr(sorted(i.data_indexes.items())))
    return type(s) is type(r) and form(s) == form(r) and str(s.tz) == str(r.tz) and str(s.resolution) == str(r.resolution)


ROUTES = {}


def travelled(s):
    """The same series, by another way: its items were added in another order or other items were there before, it is a part of a longer one, it has
    been used already, and so on. What it is asked next must not depend on that. The way is chosen by what the series is made of."""
    import timeseria.datastructures as d
    import copy, zlib
    if type(s) is not d.TimeSeries or len(s) < 1:
        return s
    first, last = s[0], s[len(s) - 1]
    slots = isinstance(first, d.DataTimeSlot)
    if not slots and not isinstance(first, d.DataTimePoint):
        return s
    rng = random.Random(zlib.crc32(repr((len(s), first.data if not isinstance(first.data, dict) else sorted(first.data.items()), last.data_indexes, (last.start if slots else last).t)).encode()) + SEED)
    if rng.random() < (.55 if len(s) < 60 else .85):
        return s
    cp = copy.deepcopy
    gap = 60 if slots or len(s) < 2 else s[1].t - s[0].t

    span = (last.end.t - first.start.t) if slots else last.t - first.t
    unit = max(1, int(gap), int(span / 40))

    def like(item, start, end=None):
        kw = dict(data=cp(item.data), data_indexes=cp(item.data_indexes))
        if slots:
            return d.DataTimeSlot(start=d.TimePoint(t=start, tz=item.tz), end=d.TimePoint(t=end, tz=item.tz), unit=cp(item.unit), **kw)
        return d.DataTimePoint(t=start, tz=item.tz, **kw)

    def after():
        if slots:
            return d.DataTimeSlot(start=d.TimePoint(t=last.end.t, tz=last.tz), unit=cp(last.unit), data=cp(last.data), data_indexes=cp(last.data_indexes))
        return like(last, last.t + gap)

    def before():
        if slots:
            st = first.start - first.unit
            return d.DataTimeSlot(start=st, unit=cp(first.unit), data=cp(first.data), data_indexes=cp(first.data_indexes))
        return like(first, first.t - gap)

    def of(items):
        r = d.TimeSeries()
        for i in items:
            r.append(cp(i))
        return r

    def use(r):
        from timeseria import operations as o
        asks = [lambda: r.guess_resolution(), lambda: r.guess_resolution(confidence=True), lambda: str(r), lambda: repr(r), lambda: r.summary(), lambda: r.avg(), lambda: r.resample(unit),
                lambda: r.aggregate(unit), lambda: r.derivative(), lambda: r.diff(), lambda: r.mavg(2), lambda: o.merge(r, r), lambda: r.to_df(), lambda: r.to_json(), lambda: [x for x in r],
                lambda: r.data_labels(), lambda: r.aggregate(2 * unit), lambda: r.view(0, 1).avg(), lambda: r[0:1], lambda: r.select('zzq=1'), lambda: r.tz,
                lambda: r.resolution, lambda: r.normalize(), lambda: r.duplicate(), lambda: r.head(2), lambda: r.tail(2), lambda: r.contents(), lambda: r.item_type, lambda: r.as_tz('Asia/Tokyo')]
        for f in rng.sample(asks, 3):
            guarded(f, seconds=2)
        return r

    def popped():
        r = of(s)
        r.append(after())
        use(r)
        r.pop()
        return r

    def popped_first():
        r = of([before()] + list(s))
        use(r)
        r.pop(0)
        return r

    def inserted():
        k = rng.randrange(len(s))
        if slots and k and k < len(s) - 1:
            k = 0
        r = of([x for j, x in enumerate(s) if j != k])
        use(r)
        if k == len(s) - 1:
            r.append(cp(s[k]))
        else:
            r.insert(k, cp(s[k]))
        return r

    def part():
        r = use(of([before()] + list(s) + [after()]))
        return r[1:len(s) + 1]

    def part_seen():
        r = use(of([before()] + list(s) + [after()]))
        v = r.view(1, len(s) + 1)
        return of(v)

    def refused():
        r = of(s)
        bad = [lambda: r.append(before()), lambda: r.append(like(last, last.t)), lambda: r.insert(0, after()), lambda: r.append(3), lambda: r.pop(10**6), lambda: r.remove(before()),
               lambda: r.append(d.TimePoint(t=last.t + 1)) if not slots else r.append(like(last, last.start.t, last.end.t))]
        for f in rng.sample(bad, 3):
            guarded(f)
        return r

    def grown():
        r = d.TimeSeries()
        for i in s:
            if len(r) and rng.random() < .6:
                use(r)
            r.append(cp(i))
        return r

    def fewer_labels():
        if not isinstance(first.data, dict):
            return s
        r = d.TimeSeries()
        for i in s:
            kw = dict(data=dict(cp(i.data), zzq=5), data_indexes=cp(i.data_indexes))
            r.append(d.DataTimeSlot(start=d.TimePoint(t=i.start.t, tz=i.tz), unit=cp(i.unit), **kw) if slots else d.DataTimePoint(t=i.t, tz=i.tz, **kw))
        use(r)
        if rng.random() < .5:
            r.remove_data_label('zzq')
            return r
        return r.filter(*[l for l in first.data])

    def renamed():
        if not isinstance(first.data, dict):
            return s
        r = of(s)
        l = rng.choice(list(first.data))
        r.rename_data_label(l, 'zzq')
        use(r)
        r.rename_data_label('zzq', l)
        return r

    def zoned():
        r = of(s)
        if slots or any(str(x.tz) != str(first.tz) for x in s):
            return s
        r.change_tz('Asia/Tokyo')
        use(r)
        r.change_tz(str(first.tz))
        return r

    def whole():
        r = use(of(s))
        return r.view(0, len(r)).duplicate()

    def emptied():
        r = use(of(list(s)[::-1][:1]))
        r.clear()
        for i in s:
            r.append(cp(i))
        return r

    ways = dict(popped=popped, popped_first=popped_first, inserted=inserted, part=part, refused=refused, grown=grown, fewer_labels=fewer_labels, renamed=renamed, zoned=zoned,
                duplicate=lambda: use(of(s)).duplicate(), copied=lambda: cp(use(s)), used=lambda: use(of(s)), emptied=emptied, part_seen=part_seen)

    name = rng.choice(sorted(ways))
    try:
        r = ways[name]()
        ok = same_items(s, r)
    except Exception:
        r, ok = s, False
    ROUTES[name + ('' if ok else ' -')] = ROUTES.get(name + ('' if ok else ' -'), 0) + 1
    return r if ok else s
