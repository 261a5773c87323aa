"""The scripts that list sources and say where they are (specs/SrcList.tla)."""
import ast, gc, math, os, random, re, shutil, sys, traceback, warnings
import ephem
import numpy as np
from . import base
from .uvexec import short
import aipy
from aipy import scripting

warnings.simplefilter('ignore')
SCRIPTS = os.path.join(os.environ['VERIF_BUILD'], 'scripts')
RA, ANG = 864000 / (2 * math.pi), 3600 * 1800 / math.pi
BAD = 2 ** 30
NOON = 2451545.0
CAL = '''
import aipy as a, numpy as np, json, os
W = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'world.json')))
def get_aa(freqs):
    return a.fit.AntennaArray((W['lat'], W['lon']), [a.fit.Antenna(0, 0, 0, a.fit.Beam(freqs))])
def get_catalog(srcs=None, cutoff=None, catalogs=['A', 'B']):
    objs = [s for s in srcs or [] if not isinstance(s, str)]
    have = [s for s in W['srcs'] if s['cat'] in catalogs]
    if srcs is not None:
        have = [s for s in have if s['name'] in srcs]
    elif cutoff is not None:
        have = [s for s in have if s['jys'] / 1000. > cutoff[0]]
    out = []
    for s in have:
        kw = dict(jys=s['jys'] / 1000., index=s['index'] / 100., mfreq=s['mf'] / 1000., srcshape=[x * 1e-6 for x in s['shape']])
        if s['ra']:
            out.append(a.fit.RadioFixedBody(s['ra'][0] / 864000. * 2 * np.pi, s['dec'][0] / 36000. * np.pi / 180, name=s['name'], **kw))
        else:
            out.append(a.fit.RadioSpecial(s['name'], **kw))
    return a.fit.SrcCatalog(out + objs)
'''


def num(x, k):
    x = float(x) * k
    return int(round(x)) if math.isfinite(x) and abs(x) < BAD else BAD


def sex(x, k, point=True):
    """A number of k-ths (of an hour or degree) as text."""
    s = '-' if x < 0 else ''
    x = abs(x)
    h, m, t = x // 36000, x // 600 % 60, x % 600
    return '%s%d:%02d' % (s, h, m) + (':%02d.%d' % (t // 10, t % 10) if t or point else '')


def src(name, cat, ra, dec, jys, mf=150, index=0, shape=(0, 0, 0)):
    return {'name': name, 'cat': cat, 'ra': ra, 'dec': dec, 'jys': jys, 'mf': mf, 'index': index, 'shape': list(shape)}


def builtin():
    from aipy._src import misc
    return [{'name': n} for n in sorted(misc.src_data)]


class World:
    def __init__(self, rec, rng, wd, n):
        self.rec, self.rng = rec, rng
        self.d = os.path.join(wd, 't%d' % n)
        os.makedirs(self.d)
        self.misc = rng.random() < .25
        if self.misc:
            self.srcs = builtin()
        else:
            self.srcs = []
            for k in range(rng.choice([2, 5, 9])):
                h, d = rng.randrange(48), rng.randrange(-6, 8)
                n = rng.choice(['s%d', '%d', 'J%02d', 'x_%d', '3C%d', 'q.%d']) % (10 * k + rng.randrange(10))
                self.srcs.append(src(n, rng.choice('AB'), [h * 18000], [d * 360000], 1000 * rng.randrange(1, 9), rng.choice([150, 408]), rng.choice([0, -50, 100]),
                                     rng.choice([(0, 0, 0), (100, 50, 300)])))
            if rng.random() < .6:
                self.srcs.append(src('Sun', rng.choice('AB'), [], [], 9000, 150, 200, (4600, 4600, 0)))
        self.lat, self.lon = rng.choice([-30, 0, 20, 40, 65]), rng.choice([-120, -75, 0, 15, 120])
        import json
        with open(os.path.join(self.d, 'world.json'), 'w') as f:
            json.dump({'srcs': self.srcs, 'lat': math.radians(self.lat), 'lon': math.radians(self.lon)}, f)
        with open(os.path.join(self.d, 'slcal.py'), 'w') as f:
            f.write(CAL)

    # ---- what is asked for
    def query(self, dirs=True):
        """A query and its text."""
        r = self.rng
        q = {'k': r.choice(['all', 'all', 'names', 'names', 'cut'] if not self.misc else ['all', 'names']), 'names': [], 'cut': 0, 'cats': self.cats, 'dirs': []}
        if q['k'] == 'all':
            return q, r.choice(['all', 'all', 'all/x'])
        if q['k'] == 'cut':
            q['cut'] = r.choice([0, 500, 1000, 2500, 4500, 7000, 8500, 9500])
            return q, '%s/%s' % (r.choice(['%r', '%g']) % (q['cut'] / 1000.), r.choice(['.15', '0.408']))
        q['names'] = r.sample([s['name'] for s in self.srcs], min(len(self.srcs), r.choice([1, 2, 3]))) + ['nobody'] * (r.random() < .2)
        if dirs and r.random() < .4:
            h, d = r.randrange(48), r.randrange(-6, 8)
            n = '%s_%s' % (r.choice([sex(h * 18000, 1), '%r' % (h / 2.)]), r.choice([sex(d * 360000, 1), '%d' % (d * 10)]))
            q['dirs'].append(src(n, '', [h * 18000], [d * 360000], 0, index=-100))
        t = q['names'] + [x['name'] for x in q['dirs']]
        r.shuffle(t)
        return q, ','.join(t)

    def range(self, k):
        r = self.rng
        if k == 'ra':
            a, b = [r.randrange(48) * 18000 + 9000 for _ in 'ab']
            if r.random() < .05:
                b = a
            return [a, b], '_'.join(r.choice([sex(x, 1, False), '%r' % (x / 36000.)]) for x in (a, b))
        a, b = [r.randrange(-8, 8) * 360000 + 180000 for _ in 'ab']
        if r.random() < .6 and a > b:
            a, b = b, a
        return [a, b], '_'.join(r.choice([sex(x, 1, False), '%r' % (x / 36000.)]) for x in (a, b))

    # ---- running
    def run(self, script, argv):
        out, err = os.path.join(self.d, 'out.txt'), os.path.join(self.d, 'err.txt')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                code = self.child(script, argv, out, err)
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        return code, open(out).read(), open(err).read()

    def child(self, script, argv, out, err):
        os.chdir(self.d)
        sys.path.insert(0, self.d)
        for f, n in ((out, 1), (err, 2)):
            os.dup2(os.open(f, os.O_CREAT | os.O_WRONLY | os.O_TRUNC), n)
        path = os.path.join(SCRIPTS, script)
        sys.argv = [script] + argv
        g = {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__}
        rc = 0
        try:
            with open(path) as f:
                exec(compile(f.read(), path, 'exec'), g)
        except SystemExit as ex:
            rc = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
        except BaseException:
            traceback.print_exc()
            rc = 1
        sys.stdout.flush()
        return rc

    def go(self, op, argv, o, read, order):
        self.rec.pend({'op': op, 'argv': argv})
        rc, text, err = self.run({'srclist': 'srclist.py', 'lst': 'lst'}[op], argv)
        try:
            out = read(text) if rc == 0 else {}
        except Exception as ex:
            out = {'bad': short(repr(ex) + text[:300])}
        self.rec.ev(op=op, argv=[short(x) for x in argv], o=o, misc=self.misc, world=[] if self.misc else self.srcs, order=order, rc=rc, out=out, log=short(err[-300:]) if rc else '')

    # ---- srclist.py
    def srclist(self):
        r = self.rng
        self.cats = ['misc'] if self.misc else r.choice([['A', 'B'], ['A', 'B'], ['B', 'A'], ['A'], ['B']])
        o = {'excl': [], 'cen': [], 'sep': -1, 'ra': [], 'dec': [], 'season': -1, 'year': 0, 'prms': [], 'show': 'names'}
        o['src'], text = self.query()
        argv = ['-s', text, '--cat=' + ','.join(self.cats)] + ([] if self.misc else ['-C', 'slcal'])
        if r.random() < .4:
            q, text = self.query(False)
            o['excl'] = [q]
            argv.append(r.choice(['-x', '--exclude=']) + text)
        if r.random() < .35:
            q, text = self.query()
            o['cen'] = [q]
            argv.append(r.choice(['-c', '--cen=']) + text)
            if r.random() < .9:
                s = r.choice([2.5, 7.5, 10, 22.5, 45, 90, 120, 175])
                o['sep'] = int(s * 36000)
                argv.append('--sep=%r' % s)
        for k in ('ra', 'dec'):
            if r.random() < .4:
                o[k], text = self.range(k)
                argv.append('--%s=%s' % (k, text))
        if r.random() < .5:
            o['season'] = r.randrange(4)
            year = r.choice([r.randrange(1996, 2009), 1600, 2400, 2150])
            o['year'] = year - 2000
            argv.append('-j%r' % ephem.julian_date(ephem.Date('%d/%s 12:00' % (year, ['3/20', '6/21', '9/22', '12/21'][o['season']]))))
        div = r.choice([' ', ' ', ',', ';', '\n', ' | '])
        if div != ' ':
            argv.append('--divstr=' + div)
        read = lambda t: {'names': [x for x in (t[:-1] if t.endswith('\n') else t).split(div)] if t.strip() else []}
        show = r.choice(['names', 'names', 'prms', 'prms', 'fit'])
        if show != 'names':
            o['show'] = show
            o['prms'] = r.choice([['*'], ['jys'], ['ra', 'dec'], ['mfreq', 'index'], ['dec', 'jys', 'index', 'a1', 'th'], ['a2', 'foo'], ['foo'], ['dra', 'ddec', 'ra']])
            argv.append(r.choice(['-P', '--prms=']) + ','.join(o['prms']))
            read = self.prms
            if show == 'fit':
                argv.append('--fitprms')
                read = self.fit
        argv += ['-v'] * (r.random() < .05)
        self.go('srclist', argv, o, read, sorted([s['name'] for s in self.srcs] + [x['name'] for x in o['src']['dirs']]))

    @staticmethod
    def prms(text):
        """What print_params prints."""
        out = []
        for l in text.split('\n'):
            if not l.strip():
                continue
            w = l.split()
            if len(w) == 1:
                out.append({'name': w[0], 'p': {}})
            else:
                k, v = w
                p = out[-1]['p']
                assert k not in p
                p[k] = num(ephem.hours(v), RA) if k == 'ra' and ':' in v else num(ephem.degrees(v), ANG) if k == 'dec' and ':' in v else \
                    num(float(v), {'jys': 1000, 'mfreq': 1000, 'index': 100}.get(k, 1e6))
                if k in ('ra', 'dec') and ':' not in v:
                    p[k] = BAD
        return {'prms': out}

    @staticmethod
    def fit(text):
        t = text.rstrip('\n')
        out = []
        if t:
            for x in re.findall(r'([^,=()]+)=\(([^()]*)\)(?:,|$)', t):
                out.append({'name': x[0], 'p': [y for y in x[1].split('/') if y]})
            assert ','.join('%s=(%s)' % (x['name'], '/'.join(x['p'])) for x in out) == t, t
        parsed = []
        if t and all(x['p'] for x in out):
            got = scripting.parse_prms(t)
            parsed = [{'name': n, 'p': sorted(got[n])} for n in sorted(got)]
        return {'fit': out, 'parsed': parsed}

    # ---- lst
    def lst(self):
        r = self.rng
        self.cats = r.choice([['A', 'B'], ['A']])
        qs = [r.randrange(0, 96 * 365 * 4) for _ in range(r.choice([1, 1, 2, 4]))]
        argv = ['-C', 'slcal', '--cat=' + ','.join(self.cats)]
        q = {'k': 'names', 'names': [], 'cut': 0, 'cats': self.cats, 'dirs': []}
        if r.random() < .8:
            q, text = self.query()
            argv += ['-s', text]
        o = {'src': q, 'times': qs, 'lon': self.lon * 2400, 'lat': self.lat * 36000, 'show': 'lst', 'cen': [], 'sep': 0}
        self.go('lst', argv + ['%r' % (NOON + x / 96.) for x in qs], o, self.days, [])

    def days(self, text):
        out = []
        for blk in text.split('-' * 70 + '\n')[:-1]:
            d = {'srcs': []}
            name = alt = None
            for l in blk.split('\n'):
                k, _, v = l.partition(':')
                v = v.strip()
                if l.startswith('LST radians:'):
                    d['rad'] = num(float(v), RA)
                elif l.startswith('LST:'):
                    d['lst'] = num(ephem.hours(v), RA)
                elif 'Julian Date' in k:
                    jd = float(v)
                    d['jd'] = num(jd - NOON, 96)
                elif k.strip() == 'Day':
                    d['day'] = num(ephem.julian_date(ephem.Date(v)) - NOON, 96)
                elif l.startswith(('Sun is', 'Moon is')):
                    a, b = ast.literal_eval(l.split(': ', 1)[1])
                    d[l[:4].strip().lower()] = [num(ephem.hours(a), RA), num(ephem.degrees(b), ANG)]
                elif 'ALT=' in l:
                    name, alt = l.split('ALT=')
                elif 'NEXT TRANSIT=' in l:
                    d['srcs'].append({'name': name.strip(), 'alt': num(ephem.degrees(alt.strip()), ANG), 'transit': num(float(l.split('=')[1]) - jd, 864000)})
                    name = None
                else:
                    assert not l.strip(), l
            assert name is None
            out.append(d)
        return {'days': out}


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    work = os.path.join(a.wd, 'files')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.chdir(a.wd)
    rng0 = random.Random('%s-srclist' % a.seed)
    for n in range(a.n):
        rng = random.Random(rng0.random())
        if not rec.start(kind='srclist'):
            continue
        w = World(rec, rng, work, n)
        for _ in range(rng.choice([2, 4])):
            w.lst() if not w.misc and rng.random() < .3 else w.srclist()
        rec.end()
        shutil.rmtree(w.d)


if __name__ == '__main__':
    main()
