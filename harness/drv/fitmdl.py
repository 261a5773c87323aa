"""Fits of models to data by fitmdl.py (specs/Fit.tla)."""
import hashlib, os, random, re, shutil, signal, socket, sys, time
import numpy as np
from . import base, scripts
from .scripts import HZ, POLS, cal, dataset, jd, num, some, short, tick

CAL = '''
import aipy as a, numpy as np
POL = %r
def by(x, y):
    return {'x': x, 'y': y} if POL else x
def get_aa(freqs):
    beam = a.fit.Beam2DGaussian(freqs, 1.9, 1.4)
    m = a.pol if POL else a.fit
    ants = [m.Antenna(x, y, z, beam, phsoff=by([d, .07 * k], [.5 - d, .3]), bp_r=by(np.array([.3, 1 + .2 * k]), np.array([-.2, 1.3 - .1 * k])),
                      bp_i=by(np.array([0., .1 * k]), np.array([0., -.2])), amp=by(1. + .3 * k, .9 + .1 * k * k), pointing=(.1 * k, np.pi / 2 - .05 * k, .3 * k))
            for k, (x, y, z, d) in enumerate([(0, 0, 0, 0.), (20, 3, 1, 1.5), (-7, 31, 4, -2.), (11, -13, 40, .25)])]
    return m.AntennaArray(('38:0:0', '-79:0:0'), ants)
def get_catalog(srcs=None, cutoff=None, catalogs=[]):
    have = {'one': ('6:00:00', '50:00:00', 1.5, -.5), 'two': ('9:00:00', '20:00:00', 2., 0.), 'low': ('18:00:00', '-40:00:00', 1., 0.)}
    names = sorted(have) + ['Sun'] if srcs is None else srcs
    return a.fit.SrcCatalog([a.fit.RadioSpecial('Sun', jys=2.5, index=.5, mfreq=.14) if s == 'Sun' else
                             a.fit.RadioFixedBody(have[s][0], have[s][1], name=s, jys=have[s][2], index=have[s][3], mfreq=.14, ionref=(.002, -.001), srcshape=(.06, .02, .3))
                             for s in names])
'''


def free_ports(n):
    """Some ports of which the n following ones are free."""
    rng, found = random.Random(os.urandom(8)), 0
    while found < 20:
        port = rng.randrange(10000, 30000)
        try:
            for k in range(n):
                with socket.socket() as s:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    s.bind(('', port + k + 1))
        except OSError:
            continue
        found += 1
        yield port


def val(x):
    x = float(x) * 10000
    return int(round(x)) if np.isfinite(x) and abs(x) < scripts.BAD else scripts.BAD


def flat(prms):
    return [{'o': str(o), 'k': str(k), 'v': val(prms[o][k])} for o in sorted(prms) for k in sorted(prms[o])]


class Fits(scripts.World):
    def __init__(self, rec, rng, wd, n):
        scripts.World.__init__(self, rec, rng, wd, n)
        self.pol = rng.random() < .6
        with open(os.path.join(self.d, 'fcal%d.py' % n), 'w') as f:
            f.write(CAL % self.pol)
        self.cal = 'fcal%d' % n
        sys.path.insert(0, self.d)
        self.srcs = some(rng, ['one', 'two', 'low', 'Sun'])
        self.memo = {}

    def mark(self):
        h = hashlib.sha1()
        for p, dirs, files in sorted(os.walk(self.d)):
            dirs.sort()
            if '__pycache__' in p:
                continue
            for f in sorted(files):
                if f.startswith('log') or f == 'out.txt':
                    continue
                h.update((os.path.relpath(os.path.join(p, f), self.d)).encode())
                h.update(open(os.path.join(p, f), 'rb').read())
        return h.hexdigest()[:12]

    def aa(self):
        return cal.get_aa(self.cal, np.array([(self.sfreq + k * self.sdf) / HZ for k in range(self.nchan)]))

    def begin(self, sets):
        self.rec.pend({'op': 'make'})
        for n in sorted(sets):
            self.make(n, sets[n])
        self.sets = sets
        ds = sets['a']
        self.sfreq, self.sdf, self.nchan = ds['sfreq'], ds['sdf'], ds['nchan']
        aa, cat = self.aa(), cal.get_catalog(self.cal, self.srcs)
        self.have = {}
        for o, p in list(aa.get_params({'*': '*'}).items()) + list(cat.get_params({'*': '*'}).items()):
            self.have[o] = {k: float(v) for k, v in p.items() if np.ndim(v) == 0}
        lens = [{'i': i, 'j': j, 'l': num(round(100 * .15 * np.sqrt(np.dot(aa.get_baseline(i, j), aa.get_baseline(i, j)))))} for i in range(4) for j in range(i, 4)]
        self.lens = {(x['i'], x['j']): x['l'] for x in lens}
        self.rec.ev(op='make', mark=self.mark(), have=flat(self.have), lens=lens,
                    dir={n: [{'t': r['t'], 'i': r['i'], 'j': r['j'], 'p': r['p'], 'f': r['f']} for r in sets[n]['recs']] for n in sets})

    # ---- the model, from new objects for each time and polarization
    def left(self, prms):
        key = repr(sorted((o, sorted(p.items())) for o, p in prms.items()))
        if key in self.memo:
            return self.memo[key]
        out = {}
        sims = {}
        for n, ds in self.sets.items():
            rows = []
            for r in ds['recs']:
                k = (r['t'], r['p'])
                if k not in sims:
                    aa, cat = self.aa(), cal.get_catalog(self.cal, self.srcs)
                    aa.set_params(prms)
                    cat.set_params(prms)
                    aa.set_active_pol(POLS[r['p']])
                    aa.set_jultime(jd(r['t']))
                    cat.compute(aa)
                    aa.sim_cache(cat.get_crds('eq', ncrd=3), cat.get_jys(), mfreqs=cat.get('mfreq'), ionrefs=cat.get('ionref'), srcshapes=cat.get('srcshape'))
                    sims[k] = aa
                sim = sims[k].sim(r['i'], r['j'])
                d = np.array([complex(*x) for x in r['d']])
                rows.append(np.abs(d - sim) ** 2)
            out[n] = rows
        self.memo[key] = out
        return out

    def power(self):
        return {n: [np.abs(np.array([complex(*x) for x in r['d']])) ** 2 for r in ds['recs']] for n, ds in self.sets.items()}

    # ---- running
    def start(self, argv, log):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                code = self.child('fitmdl', argv, log)
            finally:
                os._exit(code)
        return pid

    def upto(self, pid, log):
        """The log of a daemon that has started, or ended."""
        t = ''
        for _ in range(3000):
            try:
                t = open(os.path.join(self.d, log)).read()
            except IOError:
                pass
            if 'Starting daemon' in t or 'Error' in t:
                break
            time.sleep(.02)
        return t

    def stop(self, daemons):
        for d in daemons:
            try:
                os.kill(d, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(d, 0)
        del daemons[:]

    def fit(self, argv, files, o, share=None):
        self.rec.pend({'op': 'fit', 'argv': argv, 'files': files})
        log = os.path.join(self.d, 'log.txt')
        daemons = []
        if share:
            for port in free_ports(len(share)):
                for k, fs in enumerate(share):
                    daemons.append(self.start(argv + ['--baseport=%d' % port, '--daemon=%d' % (k + 1)] + fs, os.path.join(self.d, 'log%d.txt' % k)))
                text = [self.upto(daemons[k], 'log%d.txt' % k) for k in range(len(share))]
                if not any('Address already in use' in t for t in text):
                    break
                self.stop(daemons)
            argv = argv + ['--baseport=%d' % port]
            pid = self.start(argv + ['--master=' + ','.join('127.0.0.1:%d' % (k + 1) for k in range(len(share)))] + files[:1], log)
        else:
            pid = self.start(argv + files, log)
        for _ in range(6000):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(.02)
        else:
            os.kill(pid, signal.SIGKILL)
            p, st = os.waitpid(pid, 0)
        self.stop(daemons)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        with open(log) as f:
            text = f.read()
        if code and os.environ.get('VDEBUG'): print(text, *[open(os.path.join(self.d, f)).read() for f in os.listdir(self.d) if f.startswith('log')], file=sys.stderr)
        for f in os.listdir(self.d):
            if f.startswith('log'):
                os.remove(os.path.join(self.d, f))
        fits, bad, sets = [], '', [self.first(o)]
        if code == 0:
            try:
                fits = self.parse(text, o, sets, bool(share))
            except Exception as ex:
                bad = short(repr(ex) + text[:200])
        tab, w = [], {}
        if code == 0 and not bad:
            sets = [self.expand(o, s) for s in sets]
            left = [self.left(s) for s in sets]
            power = self.power()
            tot = max([sum(x.sum() for rows in y.values() for x in rows) for y in left + [power]])
            k = 150000. / tot
            scaled = lambda y: {n: [[num(round(v * k)) for v in x] for x in rows] for n, rows in y.items()}
            w = scaled(power)
            seen = set()
            for s, y in zip(sets, left):
                f = repr(flat(s))
                if f not in seen:
                    seen.add(f)
                    tab.append({'p': flat(s), 'r': scaled(y)})
        self.rec.ev(op='fit', o=o, files=files, argv=[short(x) for x in argv], rc=code, bad=bad, fits=fits, tab=tab, w=w, mark=self.mark(), log=short(text[-300:]) if code else '')

    def first(self, o):
        s = {}
        for x in o['prms']:
            if x['k'] in self.have.get(x['o'], {}):
                s.setdefault(x['o'], {})[x['k']] = x['v'][0] / 10000. if x['v'] else self.have[x['o']][x['k']]
        for g in o['shared']:
            for k in g['ks']:
                s.setdefault(g['objs'][0], {})[k] = g['v'][0] / 10000. if g['v'] else self.have[g['objs'][0]][k]
        return s

    def expand(self, o, s):
        s = {x: dict(s[x]) for x in s}
        for g in o['shared']:
            for b in g['objs'][1:]:
                for k in g['ks']:
                    s.setdefault(b, {})[k] = s[g['objs'][0]][k]
        return s

    def parse(self, text, o, sets, master):
        """What fitmdl.py says, as fits."""
        fits, cur = [], None
        new = lambda: {'time': -1, 'evals': [], 'sum': [], 'res': []}
        cur, prms, block, cache = new(), None, {}, {}
        obj, stale = None, False
        for l in text.split('\n'):
            if set(l) <= set('. '):
                continue
            while l.startswith('.'):
                l = l[1:]
            m = re.match(r'Score: (\S+)', l)
            if m:
                score = float(m.group(1))
                continue
            m = re.match(r'\((\S+)% of (\S+)\)$', l)
            if m:
                pct, first = float(m.group(1)), float(m.group(2))
                continue
            if set(l) == {'-'}:
                p = block
                sets.append({x: dict(p[x]) for x in p})
                e = {'p': flat(p), 's': val(score), 'pct': val(pct / 100.), 'first': val(first)}
                if len(l) == 70:
                    cur['evals'].append(e)
                else:
                    assert len(l) == 60
                    cur['res'] = e
                    cur['sum'] = [cache['samples'], cache['valid']] if cache else []
                    fits.append(cur)
                    cur, cache = new(), {}
                block = {}
                continue
            if l.startswith('Time: '):
                cur['time'] = tick(float(l[6:]))
                continue
            m = re.match(r'   (\S+) (samples|valid|sum weights)$', l)
            if m:
                cache[m.group(2)] = num(round(float(m.group(1))))
                continue
            if l.startswith(('Iter:', 'Caching data', 'Cache summary', 'Starting in master')):
                continue
            if l.startswith('{'):
                if flat(eval(l, {'np': np})) != flat(block):    # the result of a snapshot, which is printed next
                    block = {}
                stale = True
                continue
            w = l.split()
            if len(w) == 1 and l.startswith(' ') and not l.startswith('  '):
                if stale:
                    block, stale = {}, False
                obj = w[0]
                block.setdefault(obj, {})
            elif len(w) == 2 and l.startswith('   '):
                block[obj][w[0]] = float(w[1])
            elif master and len(w) == 2:
                float(w[0]), float(w[1])
            else:
                assert False, l
        # evaluations without any score have no end: what was printed last is the result
        return fits


def question(w, rng):
    """Parameters to fit."""
    aprm = ['amp_x', 'amp_y', 'dly_x', 'off_y', 'bm_xwidth'] if w.pol else ['amp', 'dly', 'off', 'bm_xwidth']
    fixed = [s for s in w.srcs if s != 'Sun']
    sprm = ['jys', 'index', 'a1', 'a2', 'th', 'dra'] + (['mfreq', 'dec'] if w.srcs == fixed else [])
    want, groups, text, stext = [], [], [], []
    free = [('s', s) for s in w.srcs] + [('a', str(k)) for k in range(4)]
    rng.shuffle(free)
    if w.sets and rng.random() < .15:
        sprm.append('nothing')

    def value(o, k):
        if rng.random() < .15 and k not in ('mfreq', 'bm_xwidth', 'dec'):
            return 0
        return int(round((w.have[o][k] if k in w.have[o] else 0) * 10000)) + rng.choice([-1000, -300, 500, 2000, 5000]) * (1 if k in ('jys', 'index', 'amp', 'amp_x', 'amp_y', 'dly', 'dly_x', 'bm_xwidth') else .01 if k in ('dra', 'dec') else .1)
    if rng.random() < .5:
        kind = rng.choice('sa')
        objs = sorted(x for c, x in free if c == kind)
        objs = sorted(rng.sample(objs, min(len(objs), rng.choice([2, 3]))))
        if len(objs) > 1:
            k = rng.choice([x for x in (aprm if kind == 'a' else sprm) if all(x in w.have[o] for o in objs)])
            v = [int(value(objs[0], k))] if rng.random() < .4 else []
            g = {'objs': objs, 'ks': [k], 'v': v}
            groups.append(g)
            names = list(objs)
            rng.shuffle(names)
            stext.append('(%s)=%s' % ('/'.join(names), k) + ('/%r' % (v[0] / 10000.) if v else ''))
            free = [x for x in free if x[1] not in objs]
    if not groups or rng.random() < .6:
        for c, x in (free or [('a', '0')])[:rng.choice([1, 1, 2])]:
            if any(x in g['objs'] for g in groups):
                continue
            ks = rng.sample(aprm if c == 'a' else sprm, rng.choice([1, 1, 2]))
            vs = [int(value(x, k)) for k in ks] if rng.random() < .5 else None
            for n, k in enumerate(ks):
                want.append({'o': x, 'k': k, 'v': [vs[n]] if vs else []})
            if len(ks) == 1:
                t = '%s=%s' % (x, ks[0]) + ('/%r' % (vs[0] / 10000.) if vs else '') + ('/.1' if vs and rng.random() < .3 else '')
            else:
                t = '%s=(%s)' % (x, '/'.join(ks)) + ('/(%s)' % '/'.join('%r' % (v / 10000.) for v in vs) if vs else '')
            text.append(t)
    n = len({(g['objs'][0], k) for g in groups for k in g['ks']} | {(x['o'], x['k']) for x in want if x['k'] in w.have[x['o']]})
    if n == 0:
        return question(w, rng)
    argv = (['-P', ','.join(text)] if text else []) + (['-S', ','.join(stext)] if stext else [])
    return want, groups, argv


def fitting(w, rng):
    nchan = rng.choice([2, 3, 4])
    t0 = rng.choice([0, 1, 2, 4, 8, 16, 32, 48])
    pols = rng.choice([[-5], [-6], [-5, -6], [-7, -5]]) if w.pol else rng.choice([[-5], [-6, -5]])
    sets = {}
    gap = rng.choice([1, 1, 64 * 30])
    for n, (name, at) in enumerate(zip(['a', 'b', 'c'][:rng.choice([1, 1, 2, 3])], [0, 5, 10])):
        sets[name] = dataset(rng, scripts.axis(rng, rng.choice([5, 40])), nchan=nchan, pols=pols, times=[t0 + at * gap + k * gap for k in range(rng.choice([1, 2, 3, 4]))],
                             flags=rng.choice([0, .2, .5]), bls=some(rng, [(i, j) for i in range(4) for j in range(i, 4)], rng.choice([1, 2, 3])), sdf=512)
        if rng.random() < .2 and len(sets[name]['recs']) > 2:
            sets[name]['recs'].pop(rng.randrange(len(sets[name]['recs'])))
        sets[name]['bp'] = None
    w.begin(sets)
    for _ in range(rng.choice([1, 2, 3])):
        files = rng.sample(sorted(sets), rng.choice(range(1, len(sets) + 1)))
        want, groups, argv = question(w, rng)
        lens = sorted(set(w.lens.values()))
        o = {'ant': rng.choice(['all', 'all', 'cross', 'auto', 'bls']), 'bls': [], 'autos': rng.random() < .6, 'pols': some(rng, pols), 'ch': list(range(1, nchan + 1)), 'minuv': 0,
             'dec': rng.choice([1, 1, 1, 2, 3]), 'ph': 0, 'snap': rng.random() < .4, 'remem': False, 'master': False, 'quiet': rng.random() < .25, 'maxiter': rng.choice([1, 2, 2, 3, 5]), 'prms': want, 'shared': groups}
        text = o['ant']
        if text == 'bls':
            o['bls'] = [list(x) for x in some(rng, sorted({(r['i'], r['j']) for n in sets for r in sets[n]['recs']}), 1)]
            text = ','.join('%d_%d' % tuple(x) for x in o['bls'])
        # data sets that nothing is selected of cannot be read first
        first = sets[files[0]]['recs']
        ok = lambda r: r['p'] in o['pols'] and (o['ant'] == 'all' or (o['ant'] == 'cross' and r['i'] != r['j']) or (o['ant'] == 'auto' and r['i'] == r['j']) or [r['i'], r['j']] in o['bls'])
        if not any(ok(r) for r in first):
            o['ant'], o['bls'], text, o['pols'] = 'all', [], 'all', sorted({first[0]['p']})
        argv += ['-C', w.cal, '-s', ','.join(w.srcs), '-a', text, '-p', ','.join(POLS[p] for p in o['pols']), '--maxiter=%d' % o['maxiter']]
        if o['autos']:
            argv.append('--sim_autos')
        if o['quiet']:
            argv.append('-q')
        if rng.random() < .4:
            c = some(rng, range(nchan), rng.choice([1, 2]))
            o['ch'] = [x + 1 for x in c]
            argv += ['-c', ','.join('%d' % x for x in c)]
        if rng.random() < .3:
            k = rng.randrange(len(lens) - 1)
            if lens[k + 1] - lens[k] > 10:
                o['minuv'] = (lens[k] + lens[k + 1]) // 2
                argv.append('--minuv=%r' % (o['minuv'] / 100.))
        if o['dec'] > 1:
            o['ph'] = rng.randrange(o['dec'])
            argv += ['-x', '%d' % o['dec'], '--dphs=%d' % o['ph']]
        share = None
        if len(files) and rng.random() < .25:
            o['snap'] = False
            o['master'] = True
            k = rng.randrange(1, len(files)) if len(files) > 1 else 1
            share = [x for x in (files[:k], files[k:]) if x]
            if not all(any(ok(r) for r in sets[x[0]]['recs']) for x in share):
                share, o['master'] = None, False
        elif rng.random() < .06:
            files.append('none.uv')
        if o['snap']:
            argv.append('--snap')
            if rng.random() < .5:
                o['remem'] = True
                argv.append('--remem')
        w.fit(argv, files, o, share)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    work = os.path.join(a.wd, 'files')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.chdir(a.wd)
    rng0 = random.Random('%s-fitmdl' % a.seed)
    for n in range(a.n):
        rng = random.Random(rng0.random())
        if not rec.start(kind='fitmdl'):
            continue
        w = Fits(rec, rng, work, n)
        fitting(w, rng)
        rec.end()
        sys.path.remove(w.d)
        shutil.rmtree(w.d)


if __name__ == '__main__':
    main()
