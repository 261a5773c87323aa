"""Beam patterns (specs/Beams.tla)."""
import math, random
import numpy as np
from . import base
from .uvexec import short
from aipy import fit, pol

U = math.pi / 12
Q = math.pi / 2
BIG = 2000000000


def num(x, u=1.):
    try:
        v = float(x) * u
    except (TypeError, ValueError):
        return BIG
    return int(round(v)) if abs(v) < 2e9 else BIG


def cell(x):
    x = complex(x)
    if x.imag or not x.real > 0 or x.real > 1 + 1e-9:
        return [-1, -1]
    e = max(0., -2 * math.log(min(1., x.real)))
    return [num(288 * e), num(1000 * math.sqrt(e))]


class World:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        r = rng
        self.pl = r.random() < .5
        self.freqs = [r.choice([1, 2, 3, 4, 6]) for _ in range(r.choice([1, 2, 3, 4]))]
        fq = np.array(self.freqs) / 4.
        self.beams, self.spec = [], []
        for _ in range(r.choice([1, 2, 3])):
            b, s = self.beam(fq.copy())
            self.beams.append(b)
            self.spec.append(s)
        self.ants, spec = [], []
        for _ in range(r.choice([1, 2, 3])):
            b = r.randrange(len(self.beams))
            kw, p = {}, {'az': 0, 'alt': 1, 'tw': 0}
            if r.random() < .6:
                p = self.point()
                kw['pointing'] = self.pointing(p)
            if self.pl:
                kw.update(phsoff={'x': [0., 0.], 'y': [0., 0.]}, bp_r={'x': [1.], 'y': [1.]}, bp_i={'x': [0.], 'y': [0.]}, amp={'x': 1., 'y': 1.})
            self.ants.append((pol if self.pl else fit).Antenna(0., 0., 0., self.beams[b], **kw))
            spec.append({'b': b + 1, 'point': p})
        self.aspec = spec
        self.aa = (pol if self.pl else fit).AntennaArray(('0.', '0.'), self.ants)
        self.rec.ev(op='new', freqs=self.freqs, beams=self.spec, ants=spec, o={})

    def beam(self, fq):
        r = self.rng
        s = {'kind': r.choice(['flat', 'gauss', 'gauss', 'poly', 'poly', 'poly']), 'xw': 0, 'yw': 0, 'poly': [[1]], 'chans': []}
        if s['kind'] == 'flat':
            return fit.Beam(fq), s
        if s['kind'] == 'gauss':
            kw = {}
            for k, n in (('xw', 'xwidth'), ('yw', 'ywidth')):
                if r.random() < .8:
                    s[k] = self.width()
                    kw[n] = self.real(s[k])
            if len(kw) == 2 and r.random() < .5:
                return fit.Beam2DGaussian(fq, kw['xwidth'], kw['ywidth']), s
            return fit.Beam2DGaussian(fq, **kw), s
        s['poly'] = self.poly(r.choice([1, 1, 2, 3, 4]), r.choice([1, 1, 2, 3]))
        return fit.BeamPolynomial(fq, self.coef(s['poly'])), s

    def width(self):
        return self.rng.choice([0, 1, 2, 3, 4, 6, 12])

    def real(self, w):
        return w * U if w else np.inf

    def poly(self, a, f):
        r = self.rng
        return [[r.choice([1, 2, 3, 5, 8]) if (x, y) == (0, 0) else r.randrange(-3, 4) for y in range(f)] for x in range(a)]

    def coef(self, p):
        return np.array([[c * 4. ** n * U for n, c in enumerate(row)] for row in p])

    def point(self):
        r = self.rng
        return {'az': r.randrange(4), 'alt': r.choice([1, 1, 0]), 'tw': r.randrange(4)}

    def pointing(self, p):
        return (p['az'] * Q, p['alt'] * Q, p['tw'] * Q)

    # ------------------------------------------------------------ directions
    def direction(self, kinds):
        """A direction, and its vector.  "even" ones remain at multiples of 30
        degrees of azimuth wherever the beam points."""
        r = self.rng
        k = r.choice(kinds)
        if k == 'gen':
            a = r.randrange(-6, 7)
            b = r.randrange(-(6 - abs(a)), 7 - abs(a))
            x, y = math.sin(a * U), math.sin(b * U)
            return {'k': k, 'a': a, 'b': b}, (x, y, r.choice([1, 1, -1]) * math.sqrt(max(0., 1 - x * x - y * y)))
        if k == 'pol':
            z, m = r.randrange(0, 13), r.randrange(12)
            t, p = z * U, m * 2 * U
            return {'k': k, 'z': z, 'az': m}, (math.sin(t) * math.sin(p), math.sin(t) * math.cos(p), math.cos(t))
        t = r.randrange(24) if k == 'vec' else 2 * r.randrange(12)
        s = [(s + 12) % 24 - 12 for s in (t, t + 6)]
        a, b = [x if abs(x) <= 6 else (12 - x if x > 0 else -12 - x) for x in s]   # arcsine of sin and cos
        out = [(a, b, 0), (a, 0, b), (0, a, b)][r.randrange(3)]
        if out[2] == 0 and out[0] % 2:
            out = (a, 0, b)
        return {'k': 'vec', 'a': out[0], 'b': out[1], 'c': out[2]}, tuple(math.sin(x * U) for x in out)

    def kinds(self, i, via):
        s = self.spec[i if via == 'beam' else self.aspec[i]['b'] - 1]['kind']
        if via == 'ant' and self.aspec[i]['point']['alt'] != 1:
            return ['even' if s == 'poly' else 'vec']
        return {'flat': ['vec', 'gen', 'pol'], 'gauss': ['vec', 'gen', 'gen'], 'poly': ['vec', 'pol', 'pol']}[s]

    def look(self, i, via, scalar):
        ks = self.kinds(i, via)
        ds = [self.direction(ks) for _ in range(1 if scalar else self.rng.choice([1, 2, 3, 5]))]
        d = [x[0] for x in ds]
        v = np.array([x[1] for x in ds]).T * (1 - 1e-13)
        return d, v[:, 0] if scalar else v


    # ------------------------------------------------------------ operations
    def guard(self, fn):
        try:
            return fn()
        except Exception as x:
            return {'err': True, 'msg': short(x)}

    def target(self, always=()):
        r = self.rng
        via = r.choice(['beam', 'ant', 'ant'] + list(always))
        i = r.randrange(len(self.beams if via == 'beam' else self.ants))
        return via, i, self.beams[i] if via == 'beam' else self.ants[i] if via == 'ant' else self.aa

    def bkind(self, via, i):
        return self.spec[i if via == 'beam' else self.aspec[i]['b'] - 1]

    def step(self):
        r = self.rng
        op = r.choice(['chans', 'set', 'set', 'point', 'get', 'freqs', 'stokes'] + ['resp'] * 8)
        getattr(self, 'do_' + op)()

    def do_resp(self):
        r = self.rng
        via, i, t = self.target()
        d, v = self.look(i, via, r.random() < .3)
        p = r.choice('xy')

        def fn():
            if via == 'beam':
                x = t.response(tuple(v) if r.random() < .5 else v)
            elif p == 'x' and r.random() < .5:
                x = t.bm_response(v)
            else:
                x = t.bm_response(v if r.random() < .5 else tuple(v), pol=p)
            x = np.asarray(x)
            return {'err': False, 'shape': list(x.shape), 'v': [[cell(y) for y in row] for row in x]}
        for _ in range(r.choice([1, 1, 2])):
            self.rec.ev(op='resp', via=via, i=i + 1, pol=p, d=d, o=self.guard(fn))

    def do_stokes(self):
        if not self.pl:
            return
        i = self.rng.randrange(len(self.ants))
        d, v = self.look(i, 'ant', False)
        if self.bkind('ant', i)['kind'] == 'poly' and self.rng.random() < .5:
            return

        def fn():
            o = {'err': False}
            for p in 'xyIQUV':
                o[p] = [[num(y, 10000) for y in row] for row in np.nan_to_num(self.ants[i].bm_response(v, pol=p))]
            return o
        self.rec.ev(op='stokes', via='ant', i=i + 1, d=d, o=self.guard(fn))

    def do_chans(self):
        r = self.rng
        via, i, t = self.target(['array'])
        every = r.random() < .25
        n = len(self.freqs)
        ch = [] if every else r.sample(range(n), r.randrange(1, n + 1))

        def fn():
            if not every:
                t.select_chans(np.array(ch) if r.random() < .5 else list(ch))
            elif via == 'array' and r.random() < .5:
                t.select_chans()
            else:
                t.select_chans(None)
            return {'err': False}
        self.rec.ev(op='chans', via=via, i=i + 1, all=every, chans=ch, o=self.guard(fn))

    def do_point(self):
        i = self.rng.randrange(len(self.ants))
        p = self.point()
        self.aspec[i] = dict(self.aspec[i], point=p)

        def fn():
            self.ants[i].set_pointing(*self.pointing(p))
            return {'err': False}
        self.rec.ev(op='point', i=i + 1, point=p, o=self.guard(fn))

    def do_set(self):
        r = self.rng
        via, i, t = self.target()
        s = self.bkind(via, i)
        p, prms = {'xw': [], 'yw': [], 'poly': []}, {}
        if r.random() < .8:
            if s['kind'] == 'poly':
                p['poly'] = self.poly(len(s['poly']), len(s['poly'][0]))
                c = self.coef(p['poly'])
                prms['bm_poly'] = r.choice([c.flatten(), list(c.flatten()), c])
            else:
                for k, nm in (('xw', 'bm_xwidth'), ('yw', 'bm_ywidth')):
                    if r.random() < .7:
                        w = self.width()
                        p[k], prms[nm] = [w], self.real(w)
        if r.random() < .3:
            prms['zz'] = 3.

        def fn():
            t.set_params(prms)
            return {'err': False}
        self.rec.ev(op='set', via=via, i=i + 1, p=p, o=self.guard(fn))

    def do_get(self):
        via, i, t = self.target()
        s = self.bkind(via, i)

        def fn():
            p = t.get_params(['*'] if self.rng.random() < .5 else ['bm_xwidth', 'bm_ywidth', 'bm_poly', 'zz'])
            q = {}
            for k in p:
                if not k.startswith('bm_'):
                    continue
                x = np.atleast_1d(np.array(p[k], dtype=float))
                if k == 'bm_poly':
                    nf = len(s['poly'][0])
                    q[k] = [num(y / U / 4. ** (m % nf), 1) for m, y in enumerate(x)]
                else:
                    q[k] = [0 if math.isinf(y) else num(y / U) for y in x]
            return {'err': False, 'n': len(q), 'p': q}
        self.rec.ev(op='get', via=via, i=i + 1, o=self.guard(fn))

    def do_freqs(self):
        via, i, t = self.target()
        self.rec.ev(op='freqs', via=via, i=i + 1, o=[num(f, 4) for f in (t if via == 'beam' else t.beam).afreqs])


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for k in range(a.n):
        rng = random.Random('beams-%d-%d' % (a.seed, k))
        if rec.start(kind='beams', seed=k):
            w = World(rec, rng)
            for _ in range(40):
                w.step()
            rec.end()


if __name__ == '__main__':
    main()
