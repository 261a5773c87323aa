"""Shared machinery of the checks: build the working tree, run drivers against
it, run TLC, judge, write evidence, print the verdict."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class MachineryError(Exception):
    pass


def clean_env(**kw):
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'JAVA_HOME')}
    e.update(HOME='/root', LANG='C.UTF-8',
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             SETUPTOOLS_SCM_PRETEND_VERSION='3.0.2', PIP_NO_INDEX='1',
             OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
    e.update(kw)
    return e


# ---------------------------------------------------------------- build
def _tree_files():
    out = []
    for base in ('aipy', 'scripts'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', ))
            for f in sorted(fs):
                if f.endswith(('.so', '.pyc', '.o')):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    for f in ('setup.py', 'pyproject.toml', 'VERSION', 'README.md', 'setup.cfg', 'MANIFEST.in'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def _rmtree_under_cache(p):
    p = os.path.abspath(p)
    assert p.startswith(CACHE + os.sep)
    shutil.rmtree(p, ignore_errors=True)


def build():
    """Build the working tree of /repo in a private copy; returns its path.
    The copy is keyed by the contents of everything copied."""
    os.makedirs(CACHE, exist_ok=True)
    files = _tree_files()
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    key = h.hexdigest()[:20]
    dst = os.path.join(CACHE, 'build-' + key)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, '.ok')):
            os.utime(dst)
            return dst
        old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('build-')),
                     key=os.path.getmtime)
        for d in old[:-6]:
            _rmtree_under_cache(d)
        _rmtree_under_cache(dst)
        for f in files:
            t = os.path.join(dst, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), t)
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '6'],
                           cwd=dst, env=clean_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            _rmtree_under_cache(dst)
            raise MachineryError('build failed:\n' + r.stdout[-4000:])
        shutil.rmtree(os.path.join(dst, 'build'), ignore_errors=True)
        open(os.path.join(dst, '.ok'), 'w').close()
        return dst


# ---------------------------------------------------------------- drivers
class Scratch:
    """A scratch directory of this check, removed at the end."""
    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix='verif-%s-' % tag, dir='/tmp')

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run_shards(bld, name, mode, num, scratch, shards, timeout=600, tag='', extra=()):
    """The same driver several times side by side, with seeds of their own."""
    from concurrent.futures import ThreadPoolExecutor
    shards = max(1, min(shards, num))
    sizes = [num // shards + (k < num % shards) for k in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        fs = [ex.submit(run_driver, bld, name, ['--mode', mode, '--n', str(sizes[k])] + list(extra), scratch, timeout,
                        tag + ('-%d' % k if k else ''), SEED + 1000 * k) for k in range(shards)]
        return [t for f in fs for t in f.result()]


def run_driver(bld, name, args, scratch, timeout=600, tag='', seed=SEED):
    """Run drv/<name>.py against the build.  The driver appends JSON lines to
    its output file: {"t":"start",...}, {"t":"ev",...}, {"t":"end"}.  A crash
    or a hang of the real code leaves an unfinished trace; it is closed here
    with an event {"op":"crash"|"hang"}, which no specification allows.
    Restarts the driver at the trace after the one that died."""
    out = os.path.join(scratch, 'trace-%s%s.ndjson' % (name, tag))
    open(out, 'w').close()
    wd = os.path.join(scratch, 'wd-%s%s' % (name, tag))
    os.makedirs(wd, exist_ok=True)
    skip = 0
    deaths = 0
    t_end = time.time() + timeout
    while True:
        env = clean_env(PYTHONPATH=bld + ':' + os.path.join(VERIF, 'harness'),
                        VERIF_SEED=str(seed), VERIF_TIER=TIER, VERIF_BUILD=bld)
        cmd = [PY, '-W', 'ignore', '-X', 'faulthandler', '-m', 'drv.' + name, '--out', out, '--skip', str(skip), '--wd', wd]
        cmd += list(args)
        err = open(os.path.join(scratch, 'err-%s%s' % (name, tag)), 'w+')
        p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=err, stderr=err)
        died = None
        last = -1
        last_t = time.time()
        while True:
            try:
                rc = p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                sz = os.path.getsize(out)
                if sz != last:
                    last, last_t = sz, time.time()
                # no event for 60 s: the operation in progress does not return
                if time.time() - last_t > 60 or time.time() > t_end:
                    died = 'hang' if time.time() - last_t > 45 else 'slow'
                    p.kill()
                    rc = p.wait()
                    break
        traces = read_traces(out)
        if died is None and rc == 0:
            return traces
        err.seek(0)
        tail = err.read()[-3000:]
        if died == 'slow':
            raise MachineryError('driver %s ran out of time\n%s' % (name, tail))
        if died is None and rc == 3:
            raise MachineryError('driver %s: %s' % (name, tail))
        if died is None and rc > 0 and not traces:
            raise MachineryError('driver %s rc=%s: %s' % (name, rc, tail))
        if not traces or traces[-1].get('done'):
            raise MachineryError('driver %s died outside a trace rc=%s: %s' % (name, rc, tail))
        with open(out, 'a') as f:
            f.write('\n' + json.dumps({'t': 'ev', 'e': {'op': 'died', 'how': died or ('signal %d' % -rc if rc < 0 else 'exit %d' % rc),
                                                 'during': traces[-1].get('pending', '?'), 'tail': tail[-600:]}}) + '\n')
            f.write(json.dumps({'t': 'end'}) + '\n')
        skip = len(read_traces(out))
        deaths += 1
        if deaths >= 4:
            return read_traces(out)


def read_traces(out):
    traces = []
    with open(out) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue        # a line cut short by a crash
            if r['t'] == 'start':
                traces.append({'meta': r.get('meta', {}), 'ev': [], 'done': False})
            elif r['t'] == 'pend':
                traces[-1]['pending'] = r.get('e', '?')
            elif r['t'] == 'ev':
                traces[-1]['ev'].append(r['e'])
            elif r['t'] == 'end':
                traces[-1]['done'] = True
    return traces


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


def tlc(spec, cfg, scratch, workers=4, env=None, timeout=600, extra=(), heap='4g', simulate=None):
    """Run TLC on specs/<spec>.tla with specs/<cfg>.cfg."""
    md = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC',
           '-metadir', md, '-workers', str(workers), '-config', cfg + '.cfg', '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', simulate[0]] + list(simulate[1:])
    cmd += list(extra) + [spec + '.tla']
    e = clean_env(**(env or {}))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s/%s' % (spec, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    R = TLCResult()
    R.out = r.stdout
    R.rc = r.returncode
    R.wall = time.time() - t0
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    R.states = int(m[-1][1].replace(',', '')) if m else 0
    R.transitions = int(m[-1][0].replace(',', '')) if m else 0
    if not m:
        m = re.findall(r'The number of states generated: ([\d,]+)', r.stdout)
        if m:
            R.states = R.transitions = int(m[-1].replace(',', ''))
    R.ok = (r.returncode == 0)
    return R


def model_check(spec, cfg, scratch, **kw):
    """Exhaustive check of the design: any failure here is an error of the
    specification, not of the code."""
    R = tlc(spec, cfg, scratch, **kw)
    if not R.ok:
        raise MachineryError('model check %s/%s failed:\n%s' % (spec, cfg, R.out[-6000:]))
    return R


def gen_behaviours(spec, cfg, scratch, num, depth, seed=None, timeout=300, env=None, heap='2g'):
    """Behaviours (operation sequences) from TLC's simulator: the generator
    prints lines  "@@BEH json"."""
    R = tlc(spec, cfg, scratch, workers=1, timeout=timeout, env=env, heap=heap,
            simulate=['num=%d' % num, '-depth', str(depth), '-seed', str(seed or SEED)])
    if R.rc != 0:
        raise MachineryError('generation %s/%s failed:\n%s' % (spec, cfg, R.out[-6000:]))
    return R, parse_printed(R.out, 'BEH')


def parse_printed(out, tag):
    """Values printed with PrintT("@@TAG " \\o ToJson(x))."""
    res = []
    pat = '"@@%s ' % tag
    for line in out.splitlines():
        if line.startswith(pat) and line.endswith('"'):
            s = line[len(pat):-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s))
    return res


def validate(spec, cfg, traces, scratch, timeout=600, heap='6g', chunk=None, env=None, workers=None):
    """Check recorded traces against a trace specification.  The trace spec
    consumes every event; on an event that the specification does not allow it
    prints @@REJECT json with trace number, position, clause and expected
    values, and goes on with the next trace.  Returns (rejections, stats)."""
    from concurrent.futures import ThreadPoolExecutor
    n = len(traces)
    nproc = workers or 4
    if chunk is None:
        chunk = max(1, -(-n // nproc))
    parts = [(i, traces[i:i + chunk]) for i in range(0, n, chunk)]

    def one(part):
        base, trs = part
        f = os.path.join(scratch, 'tv-%s-%s-%d.json' % (spec, cfg, base))
        with open(f, 'w') as fh:
            json.dump([t['ev'] for t in trs], fh)
        e = dict(env or {})
        e['TRACES'] = f
        R = tlc(spec, cfg, scratch, workers=1, env=e, timeout=timeout, heap=heap)
        if R.rc != 0:
            raise MachineryError('trace validation %s failed:\n%s' % (spec, R.out[-6000:]))
        m = parse_printed(R.out, 'VALIDATED')
        if not m or m[-1]['n'] != len(trs):
            raise MachineryError('trace validation %s incomplete:\n%s' % (spec, R.out[-6000:]))
        rej = parse_printed(R.out, 'REJECT')
        for r in rej:
            r['tr'] = r['tr'] + base      # 1-based in chunk -> 1-based overall
        os.unlink(f)
        return R, rej
    rej, st, tx, ev = [], 0, 0, 0
    with ThreadPoolExecutor(nproc) as ex:
        for R, r in ex.map(one, parts):
            rej += r
            st += R.states
            tx += R.transitions
    return rej, dict(states=st, transitions=tx, events=sum(len(t['ev']) for t in traces))


# ---------------------------------------------------------------- known findings
def known_findings():
    """known_findings.jsonl lines: {"kind":"known","property":..,"key":..,"what":..}
    or {"kind":"fixed",...} (which suppress nothing)."""
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return [k for k in out if k.get('kind') == 'known']


class Check:
    """One run of the check of one property."""
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.viol = []
        self.known = []
        self.mc = {}

    def add_mc(self, name, R):
        self.cov['states'] += R.states
        self.cov['transitions'] += R.transitions
        self.mc[name] = dict(states=R.states, transitions=R.transitions, wall_s=round(R.wall, 2))

    def add_traces(self, traces, rej, stats, label='', known_key=None):
        self.cov['states'] += stats['states']
        self.cov['transitions'] += stats['transitions']
        self.cov['traces_validated_against_impl'] += len(traces)
        self.cov['events_validated'] = self.cov.get('events_validated', 0) + stats['events']
        ops = self.cov.setdefault('operations_replayed', {})
        for t in traces:
            for e in t['ev']:
                ops[e.get('op', '?')] = ops.get(e.get('op', '?'), 0) + 1
        for t in traces[:2]:
            self.cov['samples'].append({'label': label, 'meta': t['meta'], 'events': json.loads(_short(t['ev'][:6]))})
        kf = [k for k in known_findings() if k['property'] == self.pid]
        for r in rej:
            t = traces[r['tr'] - 1]
            key = (known_key(t, r) if known_key else None)
            hit = [k for k in kf if key is not None and k['key'] == key]
            if hit:
                self.known.append((hit[0], r))
            else:
                self.viol.append(dict(label=label, rej=r, trace=t))

    def direct_violation(self, what, detail):
        self.viol.append(dict(label=what, rej=detail, trace={'ev': [], 'meta': {}}))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov['model_checks'] = self.mc
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, r in self.known:
            if k['key'] not in seen:
                seen.add(k['key'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.viol:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            v = self.viol[0]
            path = os.path.join(rd, '%s-%d.json' % (self.pid, os.getpid()))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, violations=[
                    dict(label=x['label'], rejected=x['rej'], meta=x['trace']['meta'],
                         events=x['trace']['ev'][:x['rej'].get('l', 0) or None]) for x in self.viol[:5]]), f, indent=1)
            for x in self.viol[:5]:
                print('rejected: %s %s' % (x['label'], _short(x['rej'], 1500)))
            print('%d rejection(s)' % len(self.viol))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (
            self.pid, self.cov['states'], self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0


def _short(x, n=3000):
    s = json.dumps(x)
    if len(s) <= n:
        return s

    def cut(v):
        if isinstance(v, str) and len(v) > 60:
            return v[:57] + '...'
        if isinstance(v, list):
            return [cut(y) for y in v[:12]] + (['...%d more' % (len(v) - 12)] if len(v) > 12 else [])
        if isinstance(v, dict):
            return {k: cut(y) for k, y in list(v.items())[:30]}
        return v
    return json.dumps(cut(x))


def main(fn, pid):
    try:
        with Scratch(pid) as sc:
            c = Check(pid)
            bld = build()
            fn(c, bld, sc)
            rc = c.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc
