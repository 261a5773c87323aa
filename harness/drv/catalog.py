"""Source catalogues (specs/Catalog.tla).  Runs in a private copy of the built
package, whose _src directory gets the catalogue files; catalogues are read
once per process, so that every world is a forked child."""
import os, shutil, sys


def relocate():
    """Copy the package to the working directory and start over from there."""
    if os.environ.get('VERIF_RELOCATED'):
        return
    wd = sys.argv[sys.argv.index('--wd') + 1]
    bld = os.environ['VERIF_BUILD']
    pkg = os.path.join(wd, 'pkg')
    assert os.path.basename(wd).startswith('wd-')
    if os.path.exists(pkg):
        shutil.rmtree(pkg)
    shutil.copytree(os.path.join(bld, 'aipy'), os.path.join(pkg, 'aipy'))
    env = dict(os.environ, VERIF_RELOCATED='1', VERIF_BUILD=pkg,
               PYTHONPATH=pkg + ':' + os.environ['PYTHONPATH'].split(':', 1)[1])
    os.chdir(wd)
    os.execve(sys.executable, [sys.executable, '-W', 'ignore', '-X', 'faulthandler', '-m', 'drv.catalog'] + sys.argv[1:], env)


if __name__ == '__main__':
    relocate()

import math, random, types
import numpy as np
import aipy
from aipy import fit, src as asrc, cal, scripting
from . import base
from .uvexec import short

SRCDIR = os.path.join(os.path.dirname(os.path.abspath(aipy.__file__)), '_src')
FILES = {'nvss': ['nvss.txt'], 'vlss': ['vlss.txt'], 'wenss': ['wenss.txt'], 'gbsix': ['gb6.txt'], 'three_c': ['3c.txt'],
         'three_cr': ['3cr.txt'], 'four_c': ['4c.txt'], 'six_c': ['6c1.txt', '6c2.txt', '6c3.txt', '6c4.txt', '6c5_1.txt', '6c5_2.txt'],
         'seven_c': ['7c.txt'], 'parkes': ['parkes.txt'], 'txs': ['txs.txt'], 'paper': ['paper.txt'], 'mrt': ['CatalogueMRTa.txt'],
         'culgoora': ['culgoora.txt'], 'helm': ['helm_pos.txt', 'helm_fit.txt']}
MF = {'nvss': 1400, 'vlss': 74, 'wenss': 330, 'gbsix': 4850, 'three_c': 159, 'three_cr': 178, 'four_c': 178, 'six_c': 151,
      'seven_c': 151, 'parkes': 2700, 'txs': 365, 'paper': 150, 'mrt': 150, 'culgoora': 160, 'helm': 74}
# kinds of the columns: r ra, d dec, n name, J flux in Jy, m flux in mJy, i index, # other number, t other text, f flag
COLS = {'nvss': '##nrd##m#t', 'vlss': '##nrd J##t', 'wenss': '#tntrd###m#', 'gbsix': 'rdt##t##m#########n', 'three_c': 'rdn######J#',
        'three_cr': 'rdnt###J##', 'four_c': 'rdn##J#t', 'six_c': 'rd##J#', 'seven_c': 'rd###J##', 'parkes': 'rd#t#t###J#n#',
        'txs': 'rdn####J##it', 'paper': '#rdnJ#', 'mrt': 'nrdJ', 'culgoora': 'rdn###fJfJi#'}
COLS = {k: v.replace(' ', '') for k, v in COLS.items()}


class Rows:
    def __init__(self, rng):
        self.rng = rng
        self.names = ['J%04d%s%03d' % (rng.randrange(2400), rng.choice('+-'), rng.randrange(900)) for _ in range(8)] + \
                     ['3C %d' % rng.randrange(500), '%d.%d' % (rng.randrange(100), rng.randrange(100)), 'B1', 'cyg', '_x_', 'n' * 9]
        self.dirs = [self.newdir() for _ in range(10)]

    def newdir(self):
        r = self.rng
        h, m, s = r.choice([0, 23, r.randrange(24)]), r.randrange(60), r.randrange(600)
        ra = {'p': ['%02d' % h, '%02d' % m, '%04.1f' % (s / 10.)], 'u': (h * 60 + m) * 600 + s, 'k': 'pos'}
        neg = r.random() < .5
        d, m, s = r.choice([0, 89, r.randrange(90), 0]), r.randrange(60), r.randrange(600)
        dec = {'p': [('-' if neg else '+') + '%02d' % d, '%02d' % m, '%04.1f' % (s / 10.)],
               'u': (-1 if neg else 1) * ((d * 60 + m) * 600 + s), 'k': 'pos'}
        return ra, dec

    def jy(self):
        return self.rng.choice([self.rng.randrange(1, 100000), self.rng.randrange(1, 1000), 1000 * self.rng.randrange(1, 100), 1, 100])

    def row(self, cat):
        """A structured row of a table and its text."""
        r = self.rng
        cells, texts = [], []
        ra, dec = r.choice(self.dirs)
        blankflux = cat == 'parkes' and r.random() < .3
        cul = r.choice(['both', 'idx', '160', '080', 'flag160', 'flag080', 'idxflag'])
        nj = 0
        for x, k in enumerate(COLS[cat]):
            if k in 'rd':
                c = ra if k == 'r' else dec
                t = (':' if cat in ('mrt', 'paper') else ' ').join(c['p'])
            elif k == 'n':
                n = r.choice(self.names)
                if cat == 'mrt':
                    n = n.replace(' ', '')
                c = {'k': 'txt', 's': n}
                t = n + (r.choice(['', ' ', '   ']) if cat != 'mrt' else '')
                if cat != 'mrt' and r.random() < .2:
                    t = ' ' + t
            elif cat == 'culgoora' and k in 'Jfi':
                if k == 'f':
                    c = {'k': 'txt', 's': '<' if (nj == 0 and cul in ('flag160', 'idxflag')) or (nj == 1 and cul in ('flag080', 'idxflag')) else ' '}
                    t = c['s']
                elif k == 'J':
                    nj += 1
                    if (nj == 1 and cul == '080') or (nj == 2 and cul == '160'):
                        c, t = {'k': 'blank'}, r.choice([' ', '', '    '])
                    else:
                        v = self.jy()
                        c, t = {'k': 'num', 'v': v}, self.num(v)
                else:
                    if cul in ('idx', 'idxflag'):
                        v = r.choice([-1000, 1000, 0])
                        c, t = {'k': 'num', 'v': v}, self.num(v)
                    else:
                        c, t = {'k': 'blank'}, ' '
            elif k == 'J':
                if blankflux:
                    c, t = {'k': 'blank'}, ' ' * r.choice([1, 4])
                else:
                    v = self.jy()
                    c, t = {'k': 'num', 'v': v}, self.num(v)
            elif k == 'm':
                v = 1000 * self.jy()
                c, t = {'k': 'num', 'v': v}, self.num(v)
            elif k == 'i':
                if r.random() < .4:
                    c, t = {'k': 'blank'}, '   '
                else:
                    v = r.choice([-1000, 1000, 0])
                    c, t = {'k': 'num', 'v': v}, self.num(v)
            elif k == '#':
                v = r.randrange(1, 10 ** 6)
                c, t = {'k': 'num', 'v': v}, self.num(v)
                if x == 0 and r.random() < .3 and cat == 'paper':
                    t = ' ' + t
            else:
                s = r.choice(['abc', 'S', 'C', ' ', '*'])
                c, t = {'k': 'txt', 's': s}, s
            cells.append(c)
            texts.append(t)
        if cat != 'paper':
            texts[0] = texts[0].strip()
        row = {'first': 'digit', 'cells': cells}
        kind = r.random()
        if cat == 'mrt':
            return row, '  '.join(texts + (['9.9', 'x'] if r.random() < .3 else []))
        if kind < .06:
            row['first'] = 'hash'
            return row, '#' + '\t'.join(texts)
        if kind < .12:
            row['first'] = 'other'
            return row, r.choice(['---------', 'RAJ2000', '"h:m:s"', 'deg']) + '\t' + '\t'.join(texts[1:])
        if kind < .16:
            n = r.choice([1, 2, 3])
            row['cells'] = cells[:n]
            return row, '\t'.join(texts[:n])
        return row, '\t'.join(texts)

    def num(self, v):
        s = '%d.%03d' % (abs(v) // 1000, abs(v) % 1000)
        if self.rng.random() < .5:
            s = s.rstrip('0').rstrip('.')
        return ('-' if v < 0 else '') + (' ' if v >= 0 and self.rng.random() < .3 else '') + s

    def helm(self):
        r = self.rng
        rows = []
        for n in r.sample(['J%04d%s%03d' % (i * 100 + r.randrange(60), r.choice('+-'), r.randrange(900)) for i in range(12)], r.randrange(1, 7)):
            ra, dec = r.choice(self.dirs)
            kind = r.choice(['f', 'fa', 'ab', 'ab', 'abcd', 'abcd', 'flat'])
            h = {'name': n, 'ra': ra, 'dec': dec, 'f74': r.randrange(1, 20000), 'alpha': [], 'abcd': []}
            if kind != 'f':
                h['alpha'] = [r.choice([-1, 0, 1])]
            if kind.startswith('ab'):
                h['abcd'] = [r.choice([0, 1, 2]), r.choice([-1, 0, 1])]
            if kind == 'abcd':
                h['abcd'] += [r.choice([-1, 0, 1]), r.choice([0, 0, -2])]
            h['nd'] = r.randrange(1, 4)
            rows.append(h)
        pos, fit_ = ['Title: x\n', '====\n', '   Bytes\n'], ['Title: y\n', '------\n']
        for h in rows:
            for _ in range(h['nd']):
                L = '%-9s %-22s %1d %s %s' % (h['name'], r.choice(['NGC 1', '3C 1', '']), r.choice([1, 2]), ' '.join(h['ra']['p']), ' '.join(h['dec']['p']))
                pos.append(L + ' %6d %8s %7s\n' % (r.choice([74, 325, 1400]), '%.2f' % (r.random() * 10), '%.2f' % r.random()))
        for h in r.sample(rows, len(rows)):
            L = '%-9s %2d %7s' % (h['name'], 7, '%.1f' % (h['f74'] / 10.))
            L += ' %5s' % ('%.2f' % h['alpha'][0] if h['alpha'] else '')
            L += ' %6s' % ('%.1f' % (r.random() * 50) if h['alpha'] else '')
            A = h['abcd'] + [None] * (4 - len(h['abcd']))
            for v, w in zip(A, (6, 6, 6, 7)):
                L += ' ' + ('%.2f' % v if v is not None else '').rjust(w)
            L += ' %7s' % ('%.3f' % r.random() if h['abcd'] else '')
            fit_.append(L + '\n')
        return rows, [''.join(pos), ''.join(fit_)]

    def file(self, cat):
        """Structured rows and the texts of the files."""
        r = self.rng
        if cat == 'helm':
            return self.helm()
        rows, files = [], []
        for f in FILES[cat]:
            rr = [self.row(cat) for _ in range(r.randrange(0 if len(FILES[cat]) > 1 else 1, 3 if len(FILES[cat]) > 1 else 7))]
            rows += [x[0] for x in rr]
            head = ['four', 'lines', '1 2 3 4', '-----'] if cat == 'mrt' else r.choice([[], ['#', '#RESOURCE=yCat', '']])
            files.append('\n'.join(head + [x[1] for x in rr]) + '\n')
        return rows, files


def rnd(x, scale, strict=True):
    y = float(x) * scale
    if not math.isfinite(y) or abs(y) > 2e9:
        return -2000000000
    if strict and abs(y - round(y)) > 1e-6 * max(1, abs(y)):
        return -1999999999
    return int(round(y))


def seen(s, strict=True):
    ix = s.index
    ix = [rnd(x, 1 if strict else 100, strict) for x in (ix if isinstance(ix, (list, tuple, np.ndarray)) else [ix])]
    try:
        ra, dec = rnd(s._ra, 864000 / 2 / math.pi, strict), rnd(s._dec, 3600 * 1800 / math.pi, strict)
    except AttributeError:
        ra = dec = 0
    return {'name': s.src_name, 'ra': ra, 'dec': dec,
            'jys': rnd(s._jys, 1000, strict), 'mf': rnd(s.mfreq, 1000, strict), 'index': ix}


def mkobj(rng, name=None):
    jys, mf = rng.randrange(1, 50000), rng.choice([150, 74, 408])
    ra, dec = rng.randrange(864000), rng.randrange(-3 * 10 ** 6, 3 * 10 ** 6)
    o = fit.RadioFixedBody(ra / 10. / 3600 / 24 * 2 * math.pi, dec / 36000. * math.pi / 180,
                           name=name or 'obj%d' % rng.randrange(3), jys=jys / 1000., index=rng.choice([0, -1]), mfreq=mf / 1000.)
    return o


def guard(fn):
    try:
        return fn()
    except Exception as ex:
        return {'err': short(repr(ex))}


def put(cat, texts):
    for f, t in zip(FILES[cat], texts):
        with open(os.path.join(SRCDIR, f), 'w') as fh:
            fh.write(t)


def clear(keep=()):
    for c, fs in FILES.items():
        for f in fs:
            p = os.path.join(SRCDIR, f)
            if c not in keep and os.path.exists(p):
                os.remove(p)


QN = ['src', 'src', 'cal', 'calmod', 'calnone', 'str']


class World:
    def __init__(self, rec, rng, real):
        self.rec, self.rng, self.real = rec, rng, real
        self.rows = Rows(rng)
        self.files, self.learned = {}, {}
        self.helm_odd = False

    def install(self, cat):
        rows, texts = self.rows.file(cat)
        put(cat, texts)
        self.files[cat] = rows
        if cat == 'helm':
            self.helm_odd = any(len(h['abcd']) == 4 and h['abcd'][3] for h in rows)
        self.rec.ev(op='install', cat=cat, file={'k': 'file', 'rows': rows})

    def learn(self, cat):
        """The catalogue as its own listing gives it, and the fluxes at some frequencies."""
        c = asrc.get_catalog(catalogs=[cat])
        out = []
        for n in sorted(c):
            d = seen(c[n], False)
            tab = []
            for f in (74, 150, 1400):
                c[n].update_jys(np.array([f / 1000.]))
                x = float(c[n].get_jys()[0]) * 1000
                tab.append([f, int(math.floor(x)) if math.isfinite(x) and x < 2e9 else 2000000000])
            d.update(law='tab', tab=tab)
            out.append(d)
        self.learned[cat] = out
        self.rec.ev(op='install', cat=cat, file={'k': 'learned', 'srcs': out})

    def names(self):
        r = self.rng
        out = list(self.rows.names) + ['nobody']
        for rows in self.files.values():
            out += [h['name'] for h in rows if 'name' in h]
        for rows in self.learned.values():
            out += [d['name'] for d in rows[:20]]
        for ra, dec in self.rows.dirs[:4]:
            out.append(':'.join(ra['p']) + '_' + ':'.join(dec['p']))
        return r.sample(out, min(len(out), r.randrange(1, 6)))

    def cut(self, cats):
        """A cutoff that the comparison of each source with it is exact for."""
        r = self.rng
        fs = [74, 740] if 'helm' in cats else [74, 150, 330, 740, 1400, 300, 160, 80, 365, 4850]
        if self.real:
            fs = [74, 150, 1400]
        if self.helm_odd and 'helm' in cats:
            fs = [74]
        f = r.choice(fs)
        c = r.choice([0, 1, 10, 99, 1000, 5000, r.randrange(1, 100000), r.randrange(1, 2000)])
        if not self.real and r.random() < .4:
            js = [x['v'] for rows in self.files.values() for h in rows if 'cells' in h for x in h['cells'] if x['k'] == 'num' and x['v'] < 100000]
            if js:
                c = r.choice(js)
        for cat in cats:
            for s in self.learned.get(cat, []):
                v = dict(map(tuple, s['tab'])).get(f)
                if v is not None and abs(v - c) <= 1:
                    return None
            for h in self.files.get(cat, []):
                if 'abcd' in h:
                    if 'helm' == cat and self.close(h, c, f):
                        return None
                elif cat in ('txs', 'culgoora'):
                    for x in h['cells']:
                        if x['k'] == 'num':
                            for mf in (160, 365):
                                for p in (1, -1):
                                    if abs(x['v'] * (float(f) / mf) ** p - c) < 1e-6 * (c + 1):
                                        return None
        return [c, f]

    @staticmethod
    def close(h, c, f):
        if not h['abcd']:
            al = h['alpha'][0] if h['alpha'] else (0 if f == 74 else -99)
            v = h['f74'] * 100 * (f / 74.) ** al
        else:
            A = h['abcd'] + [0, 0]
            v = 1000 * 10. ** (A[0] + (A[1] if f == 740 else 0) + A[2])
        return abs(v - c) < 1e-6 * (c + 1) or v == c

    def query(self):
        r = self.rng
        pool = list(self.files) + list(self.learned) + ['nosuchcat'] if r.random() < .8 or self.real else list(FILES)
        cats = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 3])))
        default = self.real and r.random() < .4
        if default:
            cats = ['helm', 'misc']
        kind = r.choice(['all', 'named', 'named', 'cut', 'cut', 'objs', 'both'])
        names = self.names() if kind in ('named', 'objs', 'both') else None
        objs = [mkobj(r, r.choice([None, r.choice(names)])) for _ in range(r.choice([1, 2]))] if kind == 'objs' else []
        cut = self.cut(cats) if kind in ('cut', 'both') else None
        arg = None
        if names is not None:
            arg = names + objs
            r.shuffle(arg)
            objs = [o for o in arg if type(o) is not str]
        how = r.choice(QN)
        q = {'named': names is not None, 'names': names or [], 'objs': [dict(seen(o, not self.real), law='pow') for o in objs], 'cats': cats, 'cut': cut or []}
        fcut = (cut[0] / 1000., cut[1] / 1000.) if cut else None
        kw = {}
        if arg is not None or r.random() < .5:
            kw['srcs'] = arg
        if fcut or r.random() < .5:
            kw['cutoff'] = fcut
        if not default:
            kw['catalogs'] = cats
        if how == 'str':
            ok = kind in ('all', 'cut') or (kind == 'named' and not any(',' in n or '/' in n or '_' in n or n.startswith('all') for n in names))
            if not ok or (kind == 'cut' and not cut):
                how = 'src'
        got = {}

        def fn():
            if how == 'src':
                c = asrc.get_catalog(**kw)
            elif how == 'str':
                s = 'all' if not cut and kind != 'named' else '%r/%r' % fcut if cut else ','.join(names)
                a, b, cc = scripting.parse_srcs(s, ','.join(cats))
                c = asrc.get_catalog(srcs=a, cutoff=b, catalogs=cc)
            else:
                key = {'cal': None, 'calmod': 'vcal_plain', 'calnone': 'vcal_missing'}[how]
                c = cal.get_catalog(cal_key=key, **kw)
            got['c'] = c
            return {'srcs': [{'key': k, 'src': seen(c[k], not self.real)} for k in sorted(c)]}
        o = guard(fn)
        self.rec.ev(op='query', q=q, how=how, o=o)
        if 'c' in got:
            self.after(got['c'])

    def after(self, c):
        r = self.rng
        strict = not self.real
        if r.random() < .4:
            have = [dict(seen(c[k], strict), law='pow') for k in sorted(c)]
            if len(have) > 30:
                return
            names = r.sample(sorted(c), r.randrange(1, len(c) + 1)) if c else []
            if r.random() < .1:
                names.append('nobody')
            if not names:
                return

            def fn():
                how = r.random()
                got = c.get_srcs(*names) if how < .5 else c.get_srcs(list(names))
                return {'got': [seen(x, strict) for x in got],
                        'mf': [rnd(x, 1000, strict) for x in c.get('mfreq', srcs=names)],
                        'all': [seen(x, strict) for x in (c.get_srcs() if how < .7 else c.values())]}
            self.rec.ev(op='list', have=have, names=names, o=guard(fn))
        if r.random() < .25 and strict:
            have = [dict(seen(c[k]), law='pow') for k in sorted(c)]
            objs = [mkobj(r, r.choice([None] + list(c)[:3])) for _ in range(r.choice([1, 2, 3]))]

            def fn():
                how = r.random()
                if how < .4:
                    c.add_srcs(*objs)
                elif how < .8:
                    c.add_srcs(objs)
                else:
                    for o in objs:
                        c.add_srcs(o)
                return {'all': [seen(x) for x in c.values()]}
            self.rec.ev(op='add', have=have, objs=[dict(seen(o), law='pow') for o in objs], o=guard(fn))

    def passed(self):
        """A calibration module with its own get_catalog."""
        import importlib
        r = self.rng
        names = self.rows.names[:r.randrange(1, 4)]
        cats = r.sample(sorted(FILES), 2)
        cut = r.choice([None, (1., .15)])
        srcs = r.choice([None, names])

        def fn():
            m = importlib.import_module('vcal_own')
            c = cal.get_catalog('vcal_own', srcs, cut, cats)
            s, k, t = m.calls[-1]
            return {'srcs': s or [], 'cut': [str(x) for x in k or []], 'cats': list(t), 'same': c is m.answer and (s is None) == (srcs is None)}
        self.rec.ev(op='passed', srcs=srcs or [], cut=[str(x) for x in cut or []], cats=cats, o=guard(fn))

    def meta(self):
        def fn():
            d = aipy._src.culgoora.CulgooraCatalog().get_metadata()
            return {'meta': [{'name': k, 'v': [[] if x is None else [rnd(x, 1000)] for x in v]} for k, v in d.items()]}
        self.rec.ev(op='meta', o=guard(fn))


    def builtin(self):
        r = self.rng
        names = [] if r.random() < .4 else r.sample(['cyg', 'cas', 'vir', 'crab', 'Sun', 'Moon', 'her', 'for', 'pic', 'nobody', 'Jupiter'], 4)

        def one(s):
            rnd = lambda x, u: int(round(float(x) * u))
            pos = [] if isinstance(s, fit.RadioSpecial) else [rnd(s._ra, 12 * 360000 / math.pi), rnd(s._dec, 180 * 36000 / math.pi)]
            return {'name': s.src_name, 'pos': pos, 'jys': rnd(s._jys, 1000), 'mf': rnd(s.mfreq, 1000), 'index': rnd(s.index, 100),
                    'shape': [rnd(x, 1e6) for x in s.srcshape]}

        def fn():
            c = asrc.get_catalog(catalogs=['misc'], **({'srcs': names} if names else {}))
            return {'srcs': [one(c[k]) for k in sorted(c)]}
        self.rec.ev(op='builtin', names=names, o=guard(fn))


def world(rec, rng, mode, t):
    W = World(rec, rng, mode == 'real')
    if mode == 'format':
        c = sorted(FILES)[t % len(FILES)]
        W.install(c)
        cats = [c]
        q = {'named': False, 'names': [], 'objs': [], 'cats': cats, 'cut': []}

        def fn():
            x = asrc.get_catalog(catalogs=cats)
            return {'srcs': [{'key': k, 'src': seen(x[k])} for k in sorted(x)]}
        rec.ev(op='query', q=q, how='src', o=guard(fn))
        for _ in range(3):
            W.query()
        if c == 'culgoora':
            W.meta()
        return
    if mode == 'builtin':
        W.builtin()
        return
    if mode == 'real':
        W.learn('helm')
        W.learn('misc')
        for _ in range(8):
            W.query()
        return
    todo = rng.sample(sorted(FILES), rng.randrange(1, 6))
    for _ in range(rng.randrange(4, 14)):
        x = rng.random()
        if todo and x < .35:
            W.install(todo.pop())
        elif x < .42:
            W.passed()
        else:
            W.query()


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    real = {}
    for f in FILES['helm']:
        with open(os.path.join(SRCDIR, f)) as fh:
            real[f] = fh.read()
    with open('vcal_plain.py', 'w') as f:
        f.write('prms = {}\n')
    with open('vcal_own.py', 'w') as f:
        f.write('import aipy\ncalls = []\nanswer = aipy.fit.SrcCatalog([])\n'
                'def get_catalog(srcs=None, cutoff=None, catalogs=["x"]):\n    calls.append((srcs, cutoff, catalogs))\n    return answer\n')
    sys.path.insert(0, os.getcwd())
    for t in range(a.n):
        rng = random.Random('%s-%s-%s' % (a.seed, a.mode, t))
        if not rec.start(mode=a.mode, t=t):
            continue
        clear()
        if a.mode == 'real':
            put('helm', [real[f] for f in FILES['helm']])
        rec.pend('queries of source catalogues')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                world(rec, rng, a.mode, t)
                rc = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            os.kill(os.getpid(), os.WTERMSIG(st))
        if os.WEXITSTATUS(st):
            sys.exit(os.WEXITSTATUS(st))
        rec.end()


if __name__ == '__main__':
    main()
