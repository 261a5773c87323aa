"""Arrays: geometry, phases, gains, simulation (specs/Array.tla)."""
import math, random
import ephem
import numpy as np
from . import base
from .uvexec import short
from aipy import fit, pol, coord

Q = math.pi / 2
DECS = [(5, 0), (4, 3), (4, -3), (3, 4), (3, -4)]
POLES = [(0, 5), (0, -5)]


OPS = {'sim': ['time', 'pol', 'chans', 'point', 'set', 'set', 'beam', 'cache', 'cache', 'cache'] + ['sim'] * 8,
       'geo': ['time', 'pol', 'chans', 'set', 'set', 'base', 'base', 'uvw', 'uvw', 'phs', 'phs', 'phs', 'phs2src', 'phs2src',
               'pass', 'off', 'freqs', 'pairs']}


class StepBeam(fit.Beam):
    """Response known exactly: a table over the signs of coordinates."""
    def __init__(self, freqs, k):
        fit.Beam.__init__(self, freqs)
        self.k = k

    def response(self, xyz):
        x, y, z = [np.sign(np.round(25 * np.asarray(c, dtype=float))) for c in xyz]
        r = self.k + 2 * x + y
        f = np.round(4 * self.afreqs) % 2
        return np.add.outer(f, np.atleast_1d(r))

    def get_params(self, prm_list=['*']):
        return {'bm_k': self.k}

    def set_params(self, prms):
        if 'bm_k' in prms:
            self.k = prms['bm_k']
            return True
        return False


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def k1(x):
    """Thousandths."""
    v = float(x) * 1000
    return int(round(v)) if abs(v) < 2e9 else 2000000000


def cx(x, u):
    x = complex(x)
    f = lambda y: int(round(y * u)) if abs(y * u) < 2e9 else 2000000000
    return [f(x.real), f(x.imag)]


class World:
    def __init__(self, rec, rng, mode):
        self.mode = mode
        self.rec, self.rng = rec, rng
        r = rng
        self.pl = r.random() < .4
        nf = r.choice([1, 2, 3, 5])
        self.freqs = [r.choice([1, 2, 3, 4, 6]) for _ in range(nf)]
        fq = np.array(self.freqs) / 4.
        self.lat = r.choice(DECS + [(0, 5)])
        n = self.n = r.choice([1, 2, 3, 3, 4])
        nb = r.choice([1, n])
        beams = [StepBeam(fq.copy(), r.choice([4, 5, 6])) for _ in range(nb)]
        ants, spec = [], []
        for x in range(n):
            b = r.randrange(nb)
            s = {'x': 5 * r.randrange(-4, 5), 'y': 5 * r.randrange(-4, 5), 'z': 5 * r.randrange(-4, 5),
                 'b': b, 'k': beams[b].k, 'point': {'az': 0, 'alt': 1, 'tw': 0}}
            kw = {}
            if r.random() < .4:
                s['point'] = self.point()
                kw['pointing'] = self.pointing(s['point'])
            ph = {p: self.phc() for p in 'xy'}
            br = {p: self.bpc() for p in 'xy'}
            bi = {p: self.bpc() for p in 'xy'}
            am = {p: r.choice([1, 1, 2, -1]) for p in 'xy'}
            if not self.pl:
                if r.random() < .3:                 # defaults
                    ph['x'], br['x'], bi['x'], am['x'] = [0, 0], [1], [0], 1
                else:
                    kw.update(phsoff=self.phs(ph['x']), bp_r=np.array(br['x']), bp_i=np.array(bi['x']), amp=am['x'])
                for d in (ph, br, bi, am):
                    d['y'] = d['x']
                ants.append(fit.Antenna(s['x'], s['y'], s['z'], beams[b], **kw))
            else:
                kw.update(phsoff={p: self.phs(ph[p]) for p in 'xy'}, bp_r=br and dict(br), bp_i=dict(bi), amp=dict(am))
                ants.append(pol.Antenna(s['x'], s['y'], s['z'], beams[b], **kw))
            s.update(ph=ph, br=br, bi=bi, amp=am)
            spec.append(s)
        self.ants, self.beams = ants, beams
        lat = math.asin(self.lat[1] / 5.) if self.lat[0] else math.copysign(Q, self.lat[1])
        self.aa = (pol if self.pl else fit).AntennaArray((lat, r.random() * 6 - 3), ants)
        self.nch = nf
        self.pol = None
        self.q = 0
        self.settime(0)
        self.cats = {}
        self.rec.ev(op='new', ant=spec, freqs=self.freqs, lat={'c': self.lat[0], 's': self.lat[1]}, q=0, pol=[], o={})
        self.sky = False

    # ------------------------------------------------------------ numbers
    def point(self):
        r = self.rng
        return {'az': r.randrange(4), 'alt': r.choice([1, 1, 0]), 'tw': r.randrange(4)}

    def pointing(self, p):
        return (p['az'] * Q, p['alt'] * Q, p['tw'] * Q)

    def phc(self):
        r = self.rng
        return [r.randrange(-9, 10) for _ in range(r.choice([2, 2, 3]))]

    def phs(self, c):
        return [4. * x for x in c[:-2]] + [float(c[-2]), c[-1] / 4.]

    def bpc(self):
        r = self.rng
        return [r.randrange(-2, 3) for _ in range(r.choice([1, 1, 2]))]

    # ------------------------------------------------------------ time
    def settime(self, q):
        r = self.rng
        jd = 2454000 + r.random() * 2000
        for _ in range(6):
            self.aa.set_jultime(jd)
            d = wrap(q * Q - float(self.aa.sidereal_time()))
            jd += d / (2 * math.pi) / 1.00273790935
        self.aa.set_jultime(jd)
        self.q = q

    def up(self, s):
        H = (self.q - s['ra']) % 4
        return self.lat[0] * s['c'] * [1, 0, -1, 0][H] + self.lat[1] * s['s']

    def src(self, k):
        r = self.rng
        while True:
            c, s = r.choice(DECS + (POLES if k == 'arr' else []))
            o = {'k': k, 'ra': r.randrange(4), 'c': c, 's': s, 'dra': 0, 'ddec': 0, 'M': r.choice([1, 1, 2, 3]),
                 'jy': r.choice([1, 2, 3]), 'index': 0, 'jys': []}
            if c and r.random() < .4:
                o['dra'], o['ddec'] = r.choice([0, 1, -2, 3]), r.choice([0, 1, -1])
            if k == 'obj' and r.random() < .4:
                o['index'], o['M'] = r.choice([1, 2]), 1
            o['shape'] = r.choice([[0, 0, 0]] * 3 + [[r.choice([1, 1, 2]), 0, r.randrange(4)], [0, r.choice([1, 1, 2]), r.randrange(4)]])
            if not c:
                o['shape'] = [0, 0, 0]
            if self.up(o):
                return o

    def shape(self, s):
        return (s['shape'][0] * .4 / math.pi, s['shape'][1] * .4 / math.pi, s['shape'][2] * Q)

    def body(self, s, name='s'):
        """A source whose apparent position now is where the specification has it."""
        ra, dec = s['ra'] * Q, math.asin(s['s'] / 5.)
        if s['index'] or self.rng.random() < .5:
            b = fit.RadioFixedBody(ra, dec, name=name, jys=s['jy'] * 1., index=s['index'], mfreq=s['M'] / 4.,
                                   ionref=(12. * s['dra'], 12. * s['ddec']), srcshape=self.shape(s))
        else:
            b = fit.RadioFixedBody(ra, dec, name=name, jys=1., index=s['index'], mfreq=s['M'] / 4.)
            b.set_params({'jys': s['jy'] * 1., 'dra': 12. * s['dra'], 'ddec': 12. * s['ddec']})
            b.set_params(dict(zip(('a1', 'a2', 'th'), self.shape(s))))
        return self.aim(b, s)

    def aim(self, b, s):
        ra, dec = s['ra'] * Q, math.asin(s['s'] / 5.)
        for _ in range(6):
            b.compute(self.aa)
            b._ra = float(b._ra) + wrap(ra - float(b.ra))
            b._dec = float(b._dec) + (dec - float(b.dec))
        b.compute(self.aa)
        return b

    def vec(self, ss):
        ra = np.array([s['ra'] * Q for s in ss])
        dec = np.array([math.atan2(s['s'], s['c']) for s in ss])
        return coord.radec2eq((ra, dec))

    # ------------------------------------------------------------ steps
    def do(self, ev, fn):
        try:
            ev['o'] = fn() or {}
        except Exception as ex:
            ev['o'] = {'err': short(repr(ex))}
        self.rec.ev(**ev)

    def ij(self):
        r = self.rng
        return r.randrange(self.n), r.randrange(self.n)

    def pick(self, poles=True):
        r = self.rng
        k = r.choice(['r', 'z', 'e', 'arr', 'arr', 'obj', 'obj'])
        if k in 'rze':
            return {'k': k, 'M': 1}, k
        s = self.src(k)
        while not poles and not s['c']:     # the pole has no right ascension
            s = self.src(k)
        return s, (self.body(s) if k == 'obj' else self.vec([s])[:, 0])

    def ion(self, s, o):
        if s['k'] == 'arr':
            return {'mfreq': s['M'] / 4., 'ionref': (12. * s['dra'], 12. * s['ddec'])} if s['dra'] or s['ddec'] or self.rng.random() < .3 else {}
        if s['k'] == 'obj':
            return {'mfreq': s['M'] / 4.}
        return {}

    def step(self):
        r, aa = self.rng, self.aa
        op = r.choice(OPS[self.mode])
        if self.pol is None and op in ('phs', 'phs2src', 'pass', 'off') or op == 'pass' and len(self.pol) == 1:
            op = 'pol'
        i, j = self.ij()
        if op == 'time':
            q = r.randrange(4)
            self.do({'op': 'time', 'q': q}, lambda: self.settime(q))
        elif op == 'pol':
            stokes = self.pl and self.mode == 'geo' and r.random() < .3
            self.pol = r.choice('IQUV') if stokes else r.choice(['xx', 'yy', 'xy', 'yx'])
            self.do({'op': 'pol', 'pol': list(self.pol)}, lambda: aa.set_active_pol(self.pol))
        elif op == 'chans':
            al = r.random() < .3
            m = len(self.freqs)
            ch = list(range(m)) if al else [r.randrange(m) for _ in range(r.choice([1, 2, m]))]
            arg = r.choice([list, np.array])(ch)
            self.nch = len(ch)
            self.do({'op': 'chans', 'all': al, 'chans': ch}, lambda: aa.select_chans() if al else aa.select_chans(arg))
        elif op == 'point':
            p = self.point()
            self.do({'op': 'point', 'i': i + 1, 'point': p}, lambda: self.ants[i].set_pointing(*self.pointing(p)))
        elif op == 'beam':
            i = r.randrange(len(self.beams))
            k = r.choice([4, 5, 6])
            holders = [x for x in range(self.n) if self.ants[x].beam is self.beams[i]]
            if holders:
                x = r.choice(holders)
                self.do({'op': 'beam', 'bs': [{'b': i, 'k': k}]}, lambda: self.aa.set_params({str(x): {'bm_k': k}}) and None)
        elif op == 'set':
            self.set()
        elif op == 'cache':
            self.cache()
        elif op == 'sim':
            self.do({'op': 'sim', 'i': i + 1, 'j': j + 1}, lambda: {'v': [cx(x, 16) for x in np.ravel(aa.sim(i, j))]})
        elif op == 'pass':
            self.do({'op': 'pass', 'i': i + 1, 'j': j + 1}, lambda: {'v': [cx(x, 16000) for x in np.ravel(aa.passband(i, j))]})
        elif op == 'off':
            self.do({'op': 'off', 'i': i + 1, 'j': j + 1}, lambda: {'n': [k1(4 * x) for x in np.ravel(aa.get_phs_offset(i, j))]})
        elif op == 'freqs':
            act = r.random() < .5
            self.do({'op': 'freqs', 'act': act}, lambda: {'n': [k1(4 * x) for x in (aa.get_afreqs() if act else aa.get_freqs())]})
        elif op == 'pairs':
            au, cr = r.random() < .6, r.random() < .6
            self.do({'op': 'pairs', 'auto': au, 'cross': cr},
                    lambda: {'p': [[int(y) for y in aa.bl2ij(b)] for b in aa.bl_indices(auto=au, cross=cr)]})
        elif op == 'base':
            s, a = self.pick(False)
            self.do({'op': 'base', 'i': i + 1, 'j': j + 1, 'src': s},
                    lambda: {'n': [k1(x) for x in np.ravel(aa.get_baseline(i, j, src=a))]})
        elif op == 'uvw':
            s, a = self.pick(False)
            w = r.random() < .4
            self.do({'op': 'uvw', 'i': i + 1, 'j': j + 1, 'src': s, 'w': w},
                    lambda: {'n': [k1(4 * x) for x in np.ravel(aa.gen_uvw(i, j, src=a, w_only=w))]})
        elif op == 'phs':
            s, a = self.pick()
            kw = self.ion(s, a)
            res = r.random() < .4
            if res:
                kw['resolve_src'] = True
                if s['k'] == 'arr':
                    kw['srcshape'] = self.shape(s)
            self.do({'op': 'phs', 'i': i + 1, 'j': j + 1, 'src': s, 'res': res},
                    lambda: {'v': [cx(x, 1000) for x in np.ravel(aa.gen_phs(a, i, j, **kw))]})
        elif op == 'phs2src':
            s, a = self.pick()
            kw = self.ion(s, a)
            d = [[r.randrange(-9, 10), r.randrange(-9, 10)] for _ in range(self.nch)]
            z = np.array([complex(*x) for x in d])
            un = r.random() < .5
            self.do({'op': 'unphs' if un else 'phs2src', 'i': i + 1, 'j': j + 1, 'src': s, 'data': d},
                    lambda: {'v': [cx(x, 1000) for x in np.ravel((aa.unphs2src if un else aa.phs2src)(z, a, i, j, **kw))]})

    def set(self):
        r = self.rng
        ds, prms = [], {}
        for x in r.sample(range(self.n), r.choice([1, 1, self.n])):
            ps, d = [], {}
            for _ in range(r.choice([1, 1, 2, 4])):
                k = r.choice(['x', 'y', 'z', 'phsoff', 'dly', 'off', 'bp_r', 'bp_i', 'amp'])
                p = r.choice('xy') if self.pl and k not in 'xyz' else ''
                key = k + ('_' + p if p else '')
                if key in d or (k in ('dly', 'off', 'phsoff') and any(z.startswith(('dly', 'off', 'phsoff')) and z.endswith(p) for z in d)):
                    continue
                if k in 'xyz':
                    v = [5 * r.randrange(-4, 5)]
                    d[key] = float(v[0])
                elif k == 'phsoff':
                    v = self.phc()
                    d[key] = self.phs(v)
                elif k == 'dly':
                    v = [r.randrange(-9, 10)]
                    d[key] = float(v[0])
                elif k == 'off':
                    v = [r.randrange(-9, 10)]
                    d[key] = v[0] / 4.
                elif k == 'amp':
                    v = [r.choice([1, 2, -1])]
                    d[key] = v[0]
                else:
                    v = self.bpc()
                    d[key] = r.choice([list, np.array])([float(y) for y in v])
                ps.append({'k': k, 'pol': p, 'v': v})
            ds.append({'i': x + 1, 'p': ps})
            prms[str(x)] = d
        self.do({'op': 'set', 'd': ds}, lambda: self.aa.set_params(prms) and None)

    def cache(self):
        r, aa = self.rng, self.aa
        m = r.choice([1, 1, 2, 3, 4])
        if r.random() < .5:
            ss = [self.src('arr') for _ in range(m)]
            for s in ss:
                s['jys'] = [r.randrange(1, 6) for _ in range(self.nch)]
            if r.random() < .3:
                for s in ss:
                    s['dra'] = s['ddec'] = 0
                kw = {}
            else:
                kw = {'ionrefs': (np.array([12. * s['dra'] for s in ss]), np.array([12. * s['ddec'] for s in ss])),
                      'mfreqs': np.array([s['M'] / 4. for s in ss])}
            if r.random() < .3:
                for s in ss:
                    s['shape'] = [0, 0, 0]
            else:
                kw['srcshapes'] = tuple(np.array(x) for x in zip(*[self.shape(s) for s in ss]))

            def fn():
                aa.sim_cache(self.vec(ss), jys=np.array([s['jys'] for s in ss], dtype=float), **kw)
        else:
            names = ['s%d' % x for x in range(m)]
            ss = [self.src('obj') for _ in range(m)]
            cat = fit.SrcCatalog([self.body(s, nm) for s, nm in zip(ss, names)])
            sub = names
            if r.random() < .4:
                sub = r.sample(names, r.randrange(1, m + 1))
            use = [ss[names.index(x)] for x in sub]
            kws = {} if sub is names else {'srcs': sub}
            ss = use

            def fn():
                cat.compute(aa)
                aa.sim_cache(cat.get_crds('eq', ncrd=3, **kws), jys=cat.get_jys(**kws), mfreqs=cat.get('mfreq', **kws),
                             ionrefs=cat.get('ionref', **kws), srcshapes=cat.get('srcshape', **kws))
        self.do({'op': 'cache', 'srcs': ss}, fn)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                w = World(rec, rng, mode)
                for _ in range(40):
                    w.step()
                rec.end()


if __name__ == '__main__':
    main()
