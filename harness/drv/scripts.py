"""The command line scripts (specs/Scripts.tla)."""
import gc, math, os, random, shutil, sys, traceback, warnings
import numpy as np
from . import base
from .uvexec import short
import aipy
from aipy import miriad, amp, fit, cal, scripting, coord, phs
LOT = random.getstate()         # as in a process that has just imported aipy
import matplotlib
matplotlib.use('Agg')
from matplotlib import pylab    # so that the children have it

warnings.simplefilter('ignore')
T0, DT = 2455000., 1 / 64.
HZ = 65536.
SCRIPTS = os.path.join(os.environ['VERIF_BUILD'], 'scripts')
POLS = {-5: 'xx', -6: 'yy', -7: 'xy', -8: 'yx'}
BAD = 2 ** 30


def num(x, k=1):
    x = float(x) * k
    return int(round(x)) if math.isfinite(x) and abs(x) < BAD and (k != 1 or abs(x - round(x)) < .02) else BAD


def cplx(v, k=1):
    return [[num(x.real, k), num(x.imag, k)] for x in np.asarray(v).ravel()]


def tick(t):
    return num((float(t) - T0) / DT)


def jd(t):
    return T0 + t * DT


VCAL = '''
import aipy as a, numpy as np
def by(x, y):
    return {'x': x, 'y': y}
def get_aa(freqs):
    beam = a.amp.Beam2DGaussian(freqs, 1.9, 1.4)
    ants = [a.pol.Antenna(x, y, z, beam, phsoff=by([d, .07 * k], [.5 - d, .3]), bp_r=by(np.array([.3, 1 + .2 * k]), np.array([-.2, 1.3 - .1 * k])),
                          bp_i=by(np.array([0., .1 * k]), np.array([0., -.2])), amp=by(1. + .3 * k, .9 + .1 * k * k), pointing=(.1 * k, np.pi / 2 - .05 * k, .3 * k))
            for k, (x, y, z, d) in enumerate([(0, 0, 0, 0.), (20, 3, 1, 1.5), (-7, 31, 4, -2.), (11, -13, 40, .25)])]
    return a.pol.AntennaArray(('38:0:0', '-79:0:0'), ants)
def get_catalog(srcs=None, cutoff=None, catalogs=[]):
    have = {'one': ('6:00:00', '50:00:00', 1.5, -.5), 'two': ('9:00:00', '20:00:00', 2., 0.), 'low': ('18:00:00', '-40:00:00', 1., 0.)}
    names = sorted(have) + ['Sun'] if srcs is None else srcs
    return a.amp.SrcCatalog([a.amp.RadioSpecial('Sun', jys=2.5, index=.5, mfreq=.14) if s == 'Sun' else
                             a.amp.RadioFixedBody(have[s][0], have[s][1], name=s, jys=have[s][2], index=have[s][3], mfreq=.14) for s in names])
'''


class World:
    def __init__(self, rec, rng, wd, n):
        self.rec, self.rng = rec, rng
        self.d = os.path.join(wd, 't%d' % n)
        os.makedirs(self.d)
        self.scaled = {}            # outputs that are looked at in units of 1/64
        self.know = {}              # what the data sets are made from
        self.extra = {}

    # ---- making
    def make(self, name, ds):
        uv = miriad.UV(os.path.join(self.d, name), 'new')
        for n, t in (('nchan', 'i'), ('nschan', 'i'), ('pol', 'i'), ('sfreq', 'd'), ('sdf', 'd'), ('nants', 'i'), ('gain', 'i')):
            uv.add_var(n, t)
        uv['history'] = ds['hist']
        uv['nchan'] = uv['nschan'] = ds['nchan']
        uv['sfreq'], uv['sdf'], uv['nants'] = ds['sfreq'] / HZ, ds['sdf'] / HZ, 4
        if ds.get('bp') is not None:
            uv['bandpass'] = np.array(ds['bp'], complex).ravel()
        for r in ds['recs']:
            uv['pol'], uv['gain'] = r['p'], r['g']
            d = np.array([complex(*x) for x in r['d']], np.complex64)
            uv.write((np.array(r['u'], float), jd(r['t']), (r['i'], r['j'])), d, np.array(r['f'], np.int32))
        del uv
        self.know[name] = dict(ds)

    # ---- seeing
    def read(self, name):
        k = self.scaled.get(name, 1)
        try:
            uv = miriad.UV(os.path.join(self.d, name))
            o = {'nchan': num(uv['nchan']), 'nschan': num(uv['nschan']), 'sfreq': num(uv['sfreq'], HZ) if num(uv['sfreq'] * HZ) != BAD else BAD,
                 'sdf': num(uv['sdf'] * HZ), 'hist': [short(x) for x in uv['history'].split('\n') if x.strip('\0 ')], 'bp': [], 'recs': []}
            if 'bandpass' in uv.items():
                o['bp'] = [[num(x.real) for x in row] for row in np.asarray(uv['bandpass']).reshape(4, -1)]
            while True:
                try:
                    (u, t, (i, j)), d, f = uv.read(raw=True)
                except IOError:
                    break
                o['recs'].append({'t': tick(t), 'i': int(i), 'j': int(j), 'p': num(uv['pol']), 'u': [num(round(x)) for x in u],
                                  'g': num(uv['gain']) if 'gain' in uv.vars() else 0,
                                  'd': cplx(d, k), 'f': [1 if x else 0 for x in f]})
            return o
        except Exception as ex:
            if 'No data read' in str(ex):       # a data set without records
                return {'recs': []}
            return {'bad': short(repr(ex))}

    def see(self):
        o = {'dir': {}, 'npz': [], 'rep': [], 'msk': []}
        for n in sorted(os.listdir(self.d)):
            p = os.path.join(self.d, n)
            if os.path.isdir(p):
                o['dir'][n] = self.read(n)
            elif n.endswith('.xtalk.npz') or n.endswith('.xtalk.rep.npz'):
                z = np.load(p)
                o['rep' if n.endswith('.rep.npz') else 'npz'].append(
                    {'t': tick(float('.'.join(n.split('.')[:2]))),
                     'v': [{'k': list(blp(k)), 'd': cplx(z[k])} for k in sorted(z.files)]})
            elif n.endswith('.npz'):
                z = np.load(p)
                o['msk'].append({'n': n, 'v': [{'t': tick(t), 'f': [1 if x else 0 for x in z[str(k)]]} for k, t in enumerate(z['times'])]})
        return o

    # ---- running
    def child(self, script, argv, log):
        """What python does with a script; the return code is that of the process."""
        os.chdir(self.d)
        random.setstate(LOT)
        fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        path = os.path.join(SCRIPTS, script + '.py')
        sys.argv = [script + '.py'] + argv
        sys.path.insert(0, SCRIPTS)
        g = {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__}
        rc = 0
        try:
            with open(path) as f:
                exec(compile(f.read(), path, 'exec'), g)
        except SystemExit as ex:
            rc = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
        except BaseException:
            traceback.print_exc()
            rc = 1
        g.clear()
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
        return rc

    def run(self, sc, argv, files, o, tab=None, script=None, rc=True):
        self.rec.pend({'op': 'run', 'sc': sc, 'files': files, 'argv': argv})
        log = os.path.join(self.d, 'log.txt')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                code = self.child(script or sc, argv, log)
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        with open(log) as f:
            text = f.read()
        os.remove(log)
        e = {'op': 'run', 'sc': sc, 'o': o, 'files': files, 'argv': [short(x) for x in argv], 'rc': code, 'said': said(text) if sc == 'uvlist' else [],
             'tab': tab or [], 'log': short(text[-300:]) if code else ''}
        e.update(self.extra)
        e.update(self.see())
        self.rec.ev(**e)
        return code == 0

    def begin(self, sets):
        self.rec.pend({'op': 'make'})
        for n in sorted(sets):
            self.make(n, sets[n])
        self.rec.ev(op='make', dir=self.see()['dir'])


def blp(k):
    from aipy import pol
    i, j, p = pol.blp2ijp(int(k))
    return int(i), int(j), int(p)


def said(text):
    """The numbers uvlist shows, for each file."""
    out = []
    for part in text.split('-----------')[:-1]:
        part = [x.strip() for x in part.split('\n') if x.strip('- \n')]
        row = []
        for x in part[1:]:
            try:
                row.append(num(float(x)))
            except ValueError:
                pass
        if part:
            out.append(row)
    return out


# ---------------------------------------------------------------- data sets
def dataset(rng, val, nchan=None, times=None, bls=None, pols=None, flags=.2, bp=False, t0=0, sdf=64, order=None):
    nchan = nchan or rng.choice([4, 6, 8, 12])
    nt = times or rng.choice([1, 2, 3])
    ts = [t0 + k for k in range(nt)] if isinstance(nt, int) else nt
    if bls is None:
        allb = [(i, j) for i in range(4) for j in range(i, 4)]
        bls = sorted(rng.sample(allb, rng.choice([2, 3, 4])))
        if all(i == j for i, j in bls):
            bls.append((0, 3))
    if pols is None:
        pols = rng.choice([[-5], [-5, -6], [-7, -5], [-5, -6, -7, -8]])
    recs = []
    for t in ts:
        for (i, j) in bls:
            for p in pols:
                f = [1 if rng.random() < flags else 0 for _ in range(nchan)]
                if rng.random() < .3:
                    f = [0] * nchan
                recs.append({'t': t, 'i': i, 'j': j, 'p': p, 'u': [rng.randrange(-50, 50) for _ in range(3)], 'g': rng.randrange(3),
                             'd': [val(t, i, j, p, c) for c in range(nchan)], 'f': f})
    return {'recs': recs, 'nchan': nchan, 'sfreq': 8192, 'sdf': sdf, 'hist': 'made\nof %d\n' % rng.randrange(9),
            'bp': [[rng.choice([1, 1, 2]) for _ in range(nchan)] for _ in range(4)] if bp else None, 'bls': bls, 'pols': pols, 'ts': ts}


def exact(rng):
    return lambda *k: [8640 * rng.randrange(-20, 21), 8640 * rng.randrange(-20, 21)]


def small(rng, most=6, zero=.1):
    def v(*k):
        x = rng.choice([1, 1, 1, 2, 2, 3, most, rng.randrange(most + 1)]) if rng.random() > zero else 0
        x *= rng.choice([1, -1])
        return [x, 0] if rng.random() < .5 else [0, x]
    return v


def axis(rng, most=99):
    def v(*k):
        x = rng.randrange(-most, most + 1)
        return [x, 0] if rng.random() < .5 else [0, x]
    return v


def some(rng, xs, k=None):
    xs = list(xs)
    return sorted(rng.sample(xs, k or rng.choice(range(1, len(xs) + 1))))


# ---------------------------------------------------------------- histories
def data_scripts(w, rng):
    pairs = rng.random() < .4
    sets = {}
    first = dataset(rng, exact(rng), bp=rng.random() < .4)
    sets['a.uv'] = first
    for n in ['b.uv', 'c'][:rng.choice([1, 2])]:
        same = rng.random() < .7
        ts = [t + rng.choice([0, 7]) for t in first['ts']] + ([40] if rng.random() < .3 else [])
        sets[n] = dataset(rng, exact(rng), nchan=first['nchan'], times=ts if same else None, bls=first['bls'] if same else None,
                          pols=first['pols'] if same else None, bp=rng.random() < .3)
    w.begin(sets)
    work = sorted(sets)
    info = {n: {'nchan': sets[n]['nchan'], 'recs': len(sets[n]['recs']), 'bp': sets[n]['bp'] is not None, 'comb': 0, 'talk': 0, 'deep': 0, 't': sets[n]['ts'][0],
                'cross': any(r['i'] != r['j'] for r in sets[n]['recs'])} for n in sets}
    models = set()

    def after(name, suffix, **kw):
        out = name + suffix
        if os.path.isdir(os.path.join(w.d, out)) and out not in info:
            info[out] = dict(info[name], **kw)
            info[out]['deep'] += 1
            work.append(out)

    for _ in range(rng.choice([3, 4, 5])):
        ok = [n for n in work if info[n]['deep'] < 3]
        files = rng.sample(ok, min(len(ok), rng.choice([1, 1, 2, 3])))
        if rng.random() < .07:
            files.insert(rng.randrange(len(files) + 1), 'none.uv')
        have = [n for n in files if n in info]
        k = rng.randrange(7)
        if k == 0:
            pols = some(rng, POLS.values())
            if w.run('pull_pol', ['-p', ','.join(pols)] + files, files, {'pols': [c for c in sorted(POLS) if POLS[c] in pols]}):
                pass
            keep = [c for c in POLS if POLS[c] in pols]
            for n in have:
                after(n, 'P', recs=-1, cross=False)
        elif k == 1:
            ants = some(rng, range(4))
            w.run('pull_ants', ['-a', ','.join('%d' % x for x in ants)] + files, files, {'ants': ants})
            for n in have:
                after(n, 'A', recs=-1, cross=False)
        elif k == 2:
            files = [n for n in files if n not in info or info[n]['comb'] < 2]
            if not files:
                continue
            sizes = {info[n]['nchan'] for n in files if n in info}
            if len(sizes) != 1:
                files = [n for n in files if n in info][:1]
                if not files:
                    continue
                sizes = {info[files[0]]['nchan']}
            nc = sizes.pop()
            goal = rng.choice([x for x in range(1, nc + 1) if nc % x == 0 and nc // x in (1, 2, 3, 4)])
            careful, dont, unify = rng.random() < .3, rng.random() < .3, rng.random() < .3
            if unify and len({n in info and info[n]['bp'] for n in files}) > 1:
                unify = False
            opts = ['-n', str(goal)] + ['-c'] * careful + ['-d'] * dont + ['-u'] * unify
            w.run('combine_freqs', opts + files, files, {'n': goal, 'careful': careful, 'dont': dont, 'unify': unify})
            for n in [n for n in files if n in info]:
                after(n, 'm', nchan=goal, recs=-1, comb=info[n]['comb'] + 1)
        elif k == 3:
            files = [n for n in files if n not in info or not (info[n]['bp'] and info[n]['comb'])]
            if not files:
                continue
            s = rng.choice([1, 2, 3])
            w.run('apply_bp', ['-l', 'null', '-s', str(s)] + files, files, {'s': s})
            for n in [n for n in files if n in info]:
                after(n, 'b', bp=False)
        elif k == 4:
            two = [n for n in ok if info[n]['recs'] > 0]
            if not two:
                continue
            x = rng.choice(two)
            y = rng.choice([n for n in two if info[n]['nchan'] == info[x]['nchan'] and info[n]['recs'] >= info[x]['recs']])
            sub = rng.random() < .5
            files = [x, y] if rng.random() < .95 else [x, 'none.uv']
            w.run('uv_addsub', ['--sub'] * sub + files, files, {'sub': sub})
            after(x, 'd' if sub else 'a')
        elif k == 5:
            files = [n for n in files if n not in info or (info[n]['cross'] and info[n]['talk'] < 1 and info[n]['recs'] > 0)]
            if not files:
                continue
            mode = rng.choice(['', 'o', 'i', 'oi'])
            for m in (mode or ' '):
                out, inn = m == 'o', m == 'i'
                if inn and any(n in info and n[-1] == 'm' for n in files):
                    continue
                # a model fits data of as many channels
                if inn and any(n in info and (info[n]['t'], info[n]['nchan']) not in models and any(t == info[n]['t'] for t, _ in models) for n in files):
                    continue
                w.run('xtalk3', ['-o'] * out + ['-i'] * inn + files, files, {'in': inn, 'out': out, 'rep': False, 'c0': 0})
                if out:
                    for n in files:
                        if n not in info:
                            break
                        models = {x for x in models if x[0] != info[n]['t']} | {(info[n]['t'], info[n]['nchan'])}
                else:
                    for n in [n for n in files if n in info]:
                        after(n, 'x', talk=1)
        else:
            keys = some(rng, ['nchan', 'gain', 'pol'])
            w.run('uvlist', ['-k', ','.join(keys)] + files, files, {'keys': keys})


def crosstalk(w, rng):
    """Models of several times, reprocessed and applied."""
    nchan = rng.choice([4, 6, 8])
    bls = sorted(rng.sample([(0, 1), (0, 2), (1, 3), (2, 3)], rng.choice([1, 2]))) + [(1, 1)] * (rng.random() < .5)
    pols = rng.choice([[-5], [-5, -6]])
    c0 = rng.randrange(nchan - 1)
    c1 = rng.randrange(c0 + 1, nchan + 1)
    sets = {}
    for n, t0 in zip(['a', 'b', 'c'][:rng.choice([2, 3])], [0, 10, 20]):
        gain = {(b, p): rng.choice([240, 480, 960]) for b in bls for p in pols}

        def one(t, i, j, p, c, memo={}):
            k = (n, i, j, p, c)
            if k not in memo:
                x = gain[((i, j), p)] if c0 <= c < c1 else 240 * rng.choice([0, 1, 2, 3])
                x *= rng.choice([1, -1])
                memo[k] = [x, 0] if rng.random() < .5 else [0, x]
            return memo[k]
        ds = dataset(rng, one, nchan=nchan, bls=bls, pols=pols, times=rng.choice([1, 2, 3]), t0=t0, flags=0)
        # flagged data do not count: only where something is left
        for r in ds['recs']:
            if r['t'] != t0 and rng.random() < .5:
                c = rng.randrange(nchan)
                r['f'][c] = 1
                r['d'][c] = [240 * 7, 13]
        sets[n] = ds
    sets['other'] = dataset(rng, exact(rng), nchan=nchan, bls=bls + [(0, 3)], pols=pols, t0=rng.choice([0, 10]))
    w.begin(sets)
    names = sorted(n for n in sets if n != 'other')
    rng.shuffle(names)
    w.run('xtalk3', ['-o'] + names, names, {'in': False, 'out': True, 'rep': False, 'c0': 0})
    if rng.random() < .3:
        w.run('xtalk3', ['-i', names[0]], [names[0]], {'in': True, 'out': False, 'rep': False, 'c0': 0})
    w.run('xtalk3', ['-r', '-c', '%d_%d' % (c0, c1)] + names, names, {'in': False, 'out': False, 'rep': True, 'c0': c0})
    rng.shuffle(names)
    files = names + ['other']
    w.run('xtalk3', ['-i'] + files, files, {'in': True, 'out': False, 'rep': False, 'c0': 0})


def chans(rng, n):
    """(text, list)"""
    k = rng.random()
    if k < .3:
        return None, []
    if k < .7:
        c = some(rng, range(n), rng.choice([1, 2]))
        return ','.join('%d' % x for x in c), c
    a = rng.randrange(n)
    b = rng.randrange(a, n)
    return '%d_%d' % (a, b), list(range(a, b + 1))


def flag_scripts(w, rng):
    pols = rng.choice([[-5], [-5, -6], [-6, -5, -7]])
    bls = some(rng, [(0, 0), (0, 1), (1, 2), (2, 2), (1, 3)], rng.choice([1, 2, 3]))
    nchan = rng.choice([4, 5, 7, 8])
    sets = {n: dataset(rng, small(rng, zero=rng.choice([0, .15])), nchan=nchan, bls=bls, pols=pols, times=rng.choice([[0, 1, 2], [0, 1, 2, 3, 4], [5, 6, 7, 8], [0]]), flags=rng.choice([0, .1, .3]))
            for n in ['a', 'b'][:rng.choice([1, 2])]}
    for ds in sets.values():
        if rng.random() < .2 and len(ds['recs']) > 3:   # not of every time all baselines
            ds['recs'].pop(rng.randrange(len(ds['recs'])))
    w.begin(sets)
    names = sorted(sets)
    masks = []
    for _ in range(rng.choice([2, 3, 4])):
        files = rng.sample(names, rng.choice(range(1, len(names) + 1)))
        text, c = chans(rng, nchan)
        if rng.random() < .35:
            reflag, share = rng.random() < .3, rng.random() < .5
            if w.run('xrfi', ['-m', 'none'] + (['-c', text] if text else []) + ['--reflag'] * reflag + ['-s'] * share + files, files,
                     {'ch': c, 'reflag': reflag, 'share': share}):
                names += [n + 'r' for n in files if n + 'r' not in names]
            continue
        comb = rng.random() < .6
        o = {'ant': 'all', 'ch': c, 'df': False, 'dt': False, 'q': rng.choice([[137, 100], [171, 100], [197, 100], [223, 100]]), 'comb': comb, 'thr': 1, 'to': '', 'from': ''}
        argv = []
        if comb:
            o['ant'] = rng.choice(['all', 'auto', 'cross'])
            o['thr'] = rng.choice([1, 1, 2, 3])
            if any(i == j for i, j in bls) and any(i != j for i, j in bls):
                pass
            elif o['ant'] != 'all':
                o['ant'] = 'all'
            if rng.random() < .25:
                o['to'] = rng.choice(['m1.npz', 'm2.npz'])
            elif masks and rng.random() < .4:
                o['from'] = rng.choice(masks)
        o['df'], o['dt'] = rng.random() < .3, rng.random() < .3
        q = '%.2f' % (o['q'][0] / 100.)
        argv += ['-a', o['ant']] + (['-c', text] if text else []) + ['--combine'] * comb + (['-t', str(o['thr'])] if o['thr'] != 1 else [])
        argv += ['--df=' + q] * o['df'] + ['--dt=' + q] * o['dt'] + ([] if o['df'] or o['dt'] else ['-n', q])
        argv += ['--to_npz', o['to']] * (o['to'] != '') + ['--from_npz', o['from']] * (o['from'] != '')
        if w.run('xrfi_simple', argv + files, files, o):
            if o['to']:
                if o['to'] not in masks and os.path.exists(os.path.join(w.d, o['to'])):
                    masks.append(o['to'])
            else:
                names += [n + 'R' for n in files if n + 'R' not in names]


# ---------------------------------------------------------------- calibration
def array(ds):
    return cal.get_aa('vcal', np.array([(ds['sfreq'] + k * ds['sdf']) / HZ for k in range(ds['nchan'])]))


def factor(x, n):
    x = np.resize(np.asarray(x), n)
    return cplx(x, 1024)


def rows(sets, sc, o):
    """What the array gives for each time, polarization and baseline: a new
    array each time, so that nothing stays from before."""
    tab = []
    for key, ds in sorted(sets.items()):
        n = ds['nchan']
        for t, p, i, j in key:
            aa = array(ds)
            aa.set_active_pol(POLS[p])
            aa.set_jultime(jd(t))
            one = np.ones(n, complex)
            x = {'k': [t, p, i, j]}
            if sc in ('apply_cal', 'flux_cal'):
                x['ipb'] = factor(1 / aa.passband(i, j), n)
            if sc == 'apply_cal':
                x['zen'] = factor(aa.phs2src(one.copy(), 'z', i, j), n)
            if sc == 'phs2src' and i != j:
                src = None if o['src'] == '' else 'z' if o['src'].startswith('zen') else list(cal.get_catalog('vcal', [o['src']]).values())[0]
                if src not in (None, 'z'):
                    src.compute(aa)
                try:
                    if src is not None:
                        x['un'] = factor(aa.unphs2src(one.copy(), src, i, j), n)
                        x['to'] = factor(aa.phs2src(one.copy(), src, i, j), n)
                    else:
                        x['to'] = factor(np.exp(-1j * np.pi * aa.get_phs_offset(i, j)), n)
                except phs.PointingError:
                    x['un'] = x['to'] = factor(0 * one, n)
            if sc == 'flux_cal' and o['fl']:
                c = cal.get_catalog('vcal', [o['src']])
                s = list(c.values())[0]
                s.compute(aa)
                x['ifl'] = factor(1 / s.get_jys(), n)
                aa.sim_cache(c.get_crds('eq', ncrd=3))
                x['ibm'] = factor(1 / aa.bm_response(i, j).squeeze(), n)
            if sc == 'mdlvis_new':
                x['u'] = [num(round(v)) for v in aa.get_baseline(i, j)]
                x['sim'] = cplx(0 * one)
            if sc.startswith('mdlvis') and i != j:
                c = cal.get_catalog('vcal', o['srcs'])
                c.compute(aa)
                aa.sim_cache(c.get_crds('eq', ncrd=3), c.get_jys(), mfreqs=c.get('mfreq'), ionrefs=c.get('ionref'), srcshapes=c.get('srcshape'))
                x['sim'] = cplx(aa.sim(i, j), 64)
            tab.append(x)
    return tab


def cal_scripts(w, rng):
    n = rng.choice([3, 4, 6])
    # the sources are up for about half of a day
    t0 = rng.choice([0, 1, 2, 4, 8, 16, 32, 48])
    far = rng.choice([1, 1, 64 * 30])       # the Sun moves by about 25 degrees
    sets = {}
    for name in ['a', 'b'][:rng.choice([1, 2])]:
        sets[name] = dataset(rng, axis(rng), nchan=n, pols=rng.choice([[-5], [-5, -6], [-7, -5, -8], [-6]]), sdf=rng.choice([512, 1024]),
                             times=[t0 + k * far for k in range(rng.choice([1, 2]))])
        sets[name]['bp'] = None
    for ds in sets.values():
        ds['sdf'] = sets['a']['sdf']
    w.begin(sets)
    names = sorted(sets)
    for _ in range(rng.choice([2, 3])):
        files = rng.sample(names, rng.choice(range(1, len(names) + 1)))
        k = rng.randrange(5)
        if k == 4:
            o = {'ts': [t0 + x for x in range(rng.choice([1, 2, 3]))], 'nants': 4, 'nchan': rng.choice([2, 4]), 'sfreq': 8192, 'sdf': rng.choice([256, 1024]),
                 'pols': rng.sample(sorted(POLS), rng.choice([1, 2])), 'srcs': some(rng, ['Sun', 'one', 'two', 'low'])}
            argv = ['-C', 'vcal', '-s', ','.join(o['srcs']), '--pol=' + ','.join(POLS[p] for p in o['pols']), '--nchan=%d' % o['nchan'], '--sfreq=%r' % (o['sfreq'] / HZ),
                    '--sdf=%r' % (o['sdf'] / HZ), '--inttime=1350', '--startjd=%r' % jd(o['ts'][0]), '--endjd=%r' % (jd(o['ts'][-1]) + DT / 2)]
            w.scaled['new.uv'] = 64
            keys = tuple((t, p, i, j) for t in o['ts'] for p in o['pols'] for i in range(4) for j in range(i, 4))
            w.run('mdlvis_new', argv, [], o, tab=rows({keys: o}, 'mdlvis_new', o), script='mdlvis')
            continue
        if k == 0:
            o = {'gain': rng.random() < .7, 'phs': rng.random() < .7}
            sc, argv, suf = 'apply_cal', ['-C', 'vcal'] + ['--no_gain'] * (not o['gain']) + ['--no_phs'] * (not o['phs']), 'C'
        elif k == 1:
            o = {'src': rng.choice(['', 'zen', 'one', 'two', 'low', 'Sun', 'Sun'])}
            o['set'] = o['src'] != '' and rng.random() < .4
            sc, argv, suf = 'phs2src', ['-C', 'vcal'] + (['-s', o['src']] if o['src'] else []) + ['--setphs'] * o['set'], '.' + o['src'] if o['src'] else 'P'
        elif k == 2:
            o = {'src': rng.choice(['one', 'two', 'Sun', 'Sun']), 'pb': rng.random() < .6, 'fl': rng.random() < .6, 'bm': False}
            o['bm'] = o['fl'] and rng.random() < .6
            up = all(high(ds, o['src']) for ds in sets.values())
            if o['fl'] and not up:
                continue
            sc, argv = 'flux_cal', ['-C', 'vcal', '-s', o['src']] + ['-p'] * o['pb'] + ['-b'] * o['bm'] + ['-f'] * o['fl']
            suf = '.' + 'p' * o['pb'] + 'b' * o['bm'] + 'f' * o['fl']
        else:
            o = {'m': rng.choice(['sim', 'sub', 'add']), 'flag': rng.random() < .5, 'ant': rng.choice(['all', 'cross', 'auto']), 'srcs': some(rng, ['Sun', 'one', 'two', 'low'])}
            sc, argv, suf = 'mdlvis', ['-C', 'vcal', '-m', o['m'], '-a', o['ant'], '-s', ','.join(o['srcs'])] + ['-f'] * o['flag'], 's'
        by = {}
        for f in files:
            by.setdefault(tuple(sorted({(r['t'], r['p'], r['i'], r['j']) for r in sets[f]['recs']})), sets[f])
        for f in files:
            w.scaled[f + suf] = w.scaled.get(f + suf, 64)
        w.run(sc, argv + files, files, o, tab=rows(by, sc, o))


def high(ds, name):
    aa = array(ds)
    for t in ds['ts']:
        aa.set_jultime(jd(t))
        c = cal.get_catalog('vcal', [name])
        c.compute(aa)
        s = list(c.values())[0]
        if s.alt < .6:
            return False
    return True


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    work = os.path.join(a.wd, 'files')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(os.path.join(a.wd, 'vcal.py'), 'w') as f:
        f.write(VCAL)
    sys.path.insert(0, a.wd)
    os.chdir(a.wd)
    rng0 = random.Random('%s-scripts-%s' % (a.seed, a.mode))
    kinds = {'data': [data_scripts, data_scripts, data_scripts, crosstalk], 'flags': [flag_scripts], 'cal': [cal_scripts]}[a.mode]
    for n in range(a.n):
        rng = random.Random(rng0.random())
        kind = kinds[n % len(kinds)]
        if not rec.start(kind=kind.__name__):
            continue
        w = World(rec, rng, work, n)
        kind(w, rng)
        rec.end()
        shutil.rmtree(w.d)


if __name__ == '__main__':
    main()
