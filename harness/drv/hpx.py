"""Maps of the sphere (specs/Healpix.tla)."""
import math, os, random, warnings
from fractions import Fraction
import numpy as np
from . import base
from .uvexec import short
from aipy import healpix, map as amap
from astropy.io import fits as pyfits

warnings.simplefilter('ignore')
DT = {'f8': np.float64, 'f4': np.float32, 'i8': np.int64, 'i4': np.int32, 'c16': np.complex128}
NAME = {np.dtype(v): k for k, v in DT.items()}


def frac(x):
    """A number as a fraction; complex ones as real part + 1000 * imaginary part."""
    x = complex(x)
    if not (math.isfinite(x.real) and math.isfinite(x.imag)):
        return [-77777, 1]
    f = Fraction(x.real).limit_denominator(20000) + 1000 * Fraction(x.imag).limit_denominator(20000)
    if abs(float(f) - x.real - 1000 * x.imag) > 1e-7 * (1 + abs(x)) or max(abs(f.numerator), f.denominator) > 10**8:
        return [-66666, 1]
    return [f.numerator, f.denominator]


def fracs(a):
    return [frac(x) for x in np.asarray(a).ravel().tolist()]


def thousandths(a):
    return [[int(round(x * 1000)), 1] if abs(x) < 1e5 else [-77777, 1] for x in np.asarray(a).ravel().tolist()]


# The centre of a place (RING number), independently of the library.
def centre(n, r):
    for i in range(1, 4 * n):
        k = 4 * min(i, n, 4 * n - i)
        if r < k:
            break
        r -= k
    s = k // 4
    if i <= n:
        z = 1 - i * i / (3. * n * n)
    elif i <= 3 * n:
        z = (4 * n - 2 * i) / (3. * n)
    else:
        z = (4 * n - i)**2 / (3. * n * n) - 1
    if i < n or i > 3 * n or (i - n + 1) % 2:
        phi = (r + .5) * math.pi / (2 * s)
    else:
        phi = r * math.pi / (2 * s)
    return z, phi


class Case:
    def __init__(self, rec, rng, wd):
        self.rec, self.rng, self.wd = rec, rng, wd
        self.h, self.m, self.scaled = [], [], None

    def dump(self):
        def px(i, o):
            return thousandths(o.map) if self.scaled == i else fracs(o.map)
        return dict(
            h=[{'n': int(o.nside()), 'sch': o.scheme(), 'dt': NAME.get(o.get_dtype(), '?'), 'ip': bool(o._use_interpol),
                'px': px(i, o)} for i, o in enumerate(self.h)],
            m=[{'n': int(o.nside()), 'sch': o.scheme(), 'w': fracs(o.wgt.map), 'f': fracs(o.map.map),
                'x': [fracs(i.map) for i in o.ind]} if o.wgt.scheme() == o.map.scheme() else
               {'n': int(o.nside()), 'sch': 'MIXED', 'w': [], 'f': [], 'x': []} for o in self.m])

    def do(self, op, fn, **e):
        self.rec.pend(dict(op=op, **e))
        try:
            o = fn() or {'ok': True}
        except Exception as ex:
            o = {'err': short(repr(ex))}
        self.rec.ev(op=op, o=o, **dict(e, **self.dump()))
        return o

    def vals(self, k, dt, lo=-9):
        r = self.rng
        if dt == 'c16':
            return [complex(r.randint(lo, 9), r.randint(lo, 9)) for _ in range(k)]
        return [r.randint(lo, 9) for _ in range(k)]

    def crds(self, n, sch, many=None, bad=False):
        """Coordinates in one of the accepted forms."""
        r = self.rng
        form = r.choice(['px', 'ang', 'vec'])
        at = r.choice([m for m in (1, 2, 4, 8) if m >= n]) if form != 'px' else n
        k = many or r.choice([1, 2, 3, 5, 8])
        space = [r.randrange(12 * at * at) for _ in range(r.choice([1, 2, 4]))]
        px = [r.choice(space) if r.random() < .5 else r.randrange(12 * at * at) for _ in range(k)]
        if bad:
            form, at = 'px', n
            px = px[:k - 1] + [12 * n * n + r.choice([0, 1, 7])]
        if form == 'px':
            c = np.array(px) if r.random() < .7 else (px[0] if k == 1 and r.random() < .5 else list(px))
        else:
            zp = [centre(at, p) for p in px]
            if form == 'ang':
                c = (np.array([math.acos(z) for z, p in zp]), np.array([p for z, p in zp]))
            else:
                s = r.choice([1., 1., .5, 3.])
                c = tuple(np.array(x) * s for x in ([math.sqrt(1 - z * z) * math.cos(p) for z, p in zp],
                                                    [math.sqrt(1 - z * z) * math.sin(p) for z, p in zp], [z for z, p in zp]))
            if k == 1 and r.random() < .5:
                c = tuple(float(x[0]) for x in c)
            elif r.random() < .2:
                c = tuple(list(x) for x in c)
        return c, dict(form=form, at=at, px=px)


def maps(c):
    """Histories of plain maps."""
    r = c.rng
    NS = [1, 1, 2, 2, 4]

    def new(i):
        n, sch, dt = r.choice(NS), r.choice(['RING', 'NEST']), r.choice(['f8', 'f8', 'f4', 'i8', 'i4', 'c16'])
        how = r.random()

        def fn():
            o = healpix.HealpixMap(n, sch, dtype=DT[dt]) if how < .4 else healpix.HealpixMap(nside=n, scheme=sch, dtype=DT[dt])
            if i == len(c.h):
                c.h.append(o)
            else:
                c.h[i] = o
        c.do('new', fn, id=i + 1, n=n, sch=sch, dt=dt)

    def setmap(i, n=None, lone=False, bad=False):
        o = c.h[i]
        n, sch, dt = n or r.choice(NS), r.choice(['RING', 'NEST']), r.choice(['f8', 'f8', 'f4', 'i8', 'c16'])
        if bad:
            n, sz = 3, r.choice([10, 49, 13, 108, 300])
        else:
            sz = 12 * n * n
        v = c.vals(sz, dt)
        if lone:
            dt = 'f8'
            v = [0] * sz
            v[r.randrange(sz)] = r.randint(1, 9)
        d = np.array(v, dtype=DT[dt])

        def fn():
            if bad and r.random() < .3:
                o.set_map(np.zeros((2, 6)), sch)
            elif sch == 'RING' and r.random() < .5:
                o.set_map(d)
            else:
                o.set_map(d, r.choice([sch]))
        c.do('setmap', fn, id=i + 1, n=n, sch=sch, dt=dt, vals=fracs(d))

    def kinds(a, b):
        """May b's contents go into a without loss?"""
        rank = {'i4': 0, 'i8': 0, 'f4': 0, 'f8': 0, 'c16': 1}
        return rank[NAME[b.get_dtype()]] <= rank[NAME[a.get_dtype()]]

    def whole(o):
        return all(f[1] == 1 for f in fracs(o.map))
    for i in range(r.choice([1, 2, 2, 3])):
        new(i)
    for step in range(r.choice([6, 10, 14])):
        i = r.randrange(len(c.h))
        o = c.h[i]
        n, sch, dt = int(o.nside()), o.scheme(), NAME.get(o.get_dtype(), 'f8')
        act = r.choice(['put'] * 4 + ['get'] * 4 + ['scheme'] * 3 + ['setmap', 'from', 'from', 'from', 'interp', 'fits', 'up', 'bad', 'new'])
        if act == 'put':
            cr, e = c.crds(n, sch)
            k = len(e['px'])
            v = c.vals(k, dt)
            if k == 1:
                val = r.choice([v[0], np.array(v, dtype=DT[dt]), v[0]])
            else:
                val = r.choice([np.array(v, dtype=DT[dt]), v])

            def fn():
                o[cr] = val
            c.do('put', fn, id=i + 1, vals=fracs(v), **e)
        elif act == 'get':
            cr, e = c.crds(n, sch)
            if o._use_interpol and e['form'] != 'px' and e['at'] != n:
                continue
            c.do('get', lambda: {'vals': fracs(o[cr])}, id=i + 1, **e)
        elif act == 'bad':
            if r.random() < .3:
                setmap(i, bad=True)
            else:
                cr, e = c.crds(n, sch, bad=True)
                v = c.vals(len(e['px']), 'f8')
                if r.random() < .5:
                    c.do('get', lambda: {'vals': fracs(o[cr])}, id=i + 1, **e)
                else:
                    def fn():
                        o[cr] = np.array(v, dtype=DT[dt])
                    c.do('put', fn, id=i + 1, vals=fracs(v), **e)
        elif act == 'scheme':
            to = r.choice(['RING', 'NEST'])
            c.do('scheme', lambda: o.change_scheme(to), id=i + 1, sch=to)
        elif act == 'interp':
            on = r.random() < .6
            c.do('interp', lambda: o.set_interpol(on), id=i + 1, on=on)
        elif act == 'setmap':
            setmap(i)
        elif act == 'new':
            new(i)
        elif act == 'fits' and len(c.h) < 4:
            f = os.path.join(c.wd, 'm%d.fits' % step)
            fmt = r.random() < .3

            def fn():
                if fmt:
                    o.to_fits(f, format={'f8': 'D', 'f4': 'E', 'i8': 'K', 'i4': 'J', 'c16': 'M'}[dt])
                else:
                    o.to_fits(f)
                hd = pyfits.getheader(f, 1)
                if r.random() < .5:
                    q = healpix.HealpixMap(fromfits=f)
                else:
                    q = healpix.HealpixMap(r.choice(NS))
                    q.from_fits(f)
                c.h.append(q)
                return {'ordering': hd['ORDERING'].strip(), 'nside': hd['NSIDE'], 'last': hd['LASTPIX']}
            c.do('fits', fn, id=i + 1, to=len(c.h) + 1)
            if os.path.exists(f):
                os.unlink(f)
        elif act in ('from', 'up') and len(c.h) > 1:
            js = [j for j in range(len(c.h)) if j != i and kinds(o, c.h[j])]
            if not js:
                continue
            j = r.choice(js)
            s = c.h[j]
            if act == 'from':
                if s.nside() < n:
                    if r.random() < .7:
                        setmap(j, n=r.choice([x for x in (1, 2, 4) if x >= n]))
                        if not kinds(o, s):
                            continue
                    else:
                        act = 'up'
                if act == 'from':
                    c.do('from', lambda: o.from_hpm(s), id=i + 1, src=j + 1)
                    continue
            if n == 1 or NAME[o.get_dtype()] != 'f8':
                setmap(i, n=r.choice([2, 4]), lone=True)
                n = int(o.nside())
            setmap(j, n=n // 2, lone=r.random() < .8)
            if NAME[s.get_dtype()] == 'c16' or not kinds(o, s):
                continue
            c.scaled = i
            c.do('up', lambda: (o.from_hpm(s), {'px': thousandths(o.map)})[1], id=i + 1, src=j + 1)
            c.scaled = None
            o.map = np.zeros(o.npix())
            setmap(i)


def grid(c):
    """Numbers and positions of pixels."""
    r = c.rng
    for _ in range(8):
        n, sch = r.choice([1, 2, 4, 8]), r.choice(['RING', 'NEST'])
        b = r.choice([healpix.HealpixBase, healpix.HealpixMap])(nside=n, scheme=sch)
        if r.random() < .4:
            b = healpix.HealpixBase(r.choice([1, 4]), r.choice(['RING', 'NEST']))
            b.set_nside_scheme(n, sch)
        px = list(range(12 * n * n)) if r.random() < .5 else [r.randrange(12 * n * n) for _ in range(r.choice([1, 3, 20]))]
        act = r.choice(['conv', 'p2c', 'c2p', 'dims'])
        if act == 'conv':
            to = r.choice(['RING', 'NEST'])
            c.do('conv', lambda: {'px': [int(x) for x in b.nest_ring_conv(np.array(px), to)], 'sch': b.scheme()},
                 n=n, **{'from': sch, 'to': to, 'px': px})
        elif act == 'dims':
            c.do('dims', lambda: {'npix': int(b.npix()), 'nside': int(b.nside()), 'sch': b.scheme(), 'order': int(b.order()),
                                  'back': int(b.npix2nside(b.npix()))}, n=n, sch=sch)
        elif act == 'p2c':
            ncrd = r.choice([2, 3])

            def fn():
                if ncrd == 2:
                    th, phi = b.px2crd(np.array(px), ncrd=2)
                    z = np.cos(th)
                else:
                    x, y, z = b.px2crd(np.array(px)) if r.random() < .5 else b.px2crd(np.array(px), ncrd=3)
                    phi = np.arctan2(y, x)
                    if abs(x * x + y * y + z * z - 1).max() > 1e-9:
                        z = z + .5
                phi = np.where(phi < -1e-9, phi + 2 * math.pi, phi)
                zi = [int(round(q * 3 * n * n)) if abs(q * 3 * n * n - round(q * 3 * n * n)) < 1e-7 else -99999 for q in z]
                return {'z': zi, 'phi': fracs(phi / math.pi)}
            c.do('p2c', fn, n=n, sch=sch, px=px)
        else:
            cr, e = c.crds(n, sch, many=r.choice([2, 5, 20]))
            if e['form'] == 'px':
                continue
            c.do('c2p', lambda: {'px': [int(x) for x in np.asarray(b.crd2px(*[np.array(q) for q in cr])).ravel()]}, n=n, sch=sch, **e)


def sky(c):
    """Histories of weighted maps."""
    r = c.rng

    def new(i):
        n, sch, k = r.choice([1, 1, 2, 2, 4]), r.choice(['RING', 'RING', 'NEST']), r.choice([0, 0, 1, 2])

        def fn():
            kw = {'nindices': k} if k or r.random() < .3 else {}
            o = amap.Map(nside=n, scheme=sch, **kw)
            if i == len(c.m):
                c.m.append(o)
            else:
                c.m[i] = o
        c.do('sky', fn, id=i + 1, n=n, sch=sch, k=k)
    for i in range(r.choice([1, 1, 2])):
        new(i)
    small = r.random() < .3         # weights of sixteenths
    resets = 1 if small else 0
    for step in range(r.choice([5, 8, 12])):
        i = r.randrange(len(c.m))
        o = c.m[i]
        n, sch = int(o.nside()), o.scheme()
        act = r.choice(['add'] * 4 + ['putw'] * 2 + ['item'] * 3 + ['raw', 'reset', 'nind', 'frommap', 'fitsmap'])
        if act in ('add', 'putw'):
            cr, e = c.crds(n, sch)
            k = len(e['px'])
            w = c.vals(k, 'f8', lo=0 if r.random() < .2 else 1)
            if small:
                w = [r.choice([1, 1, 2, 4]) / 16. if x else 0 for x in w]
            f = c.vals(k, 'f8')
            x = [c.vals(k, 'f8') for _ in range(r.randrange(len(o.ind) + 1))]
            A = lambda q: np.array(q, dtype=float)
            fn = o.add if act == 'add' else o.put
            c.do(act, (lambda: fn(cr, A(w), A(f), [A(q) for q in x])) if x or r.random() < .5 else (lambda: fn(cr, A(w), A(f))),
                 id=i + 1, w=fracs(w), f=fracs(f), x=[fracs(q) for q in x], **e)
        elif act in ('item', 'raw'):
            cr, e = c.crds(n, sch)

            def fn():
                if act == 'raw':
                    w, f, x = o.get(cr)
                    return {'w': fracs(w), 'f': fracs(f), 'x': [fracs(q) for q in x]}
                a = o[cr]
                f, x = a if isinstance(a, tuple) else (a, [])
                return {'f': fracs(f), 'x': [fracs(q) for q in x]}
            c.do(act, fn, id=i + 1, **e)
        elif act == 'reset' and resets < 2:
            resets += 1
            c.do('reset', lambda: o.reset_wgt(), id=i + 1)
        elif act == 'nind':
            k = r.choice([0, 1, 2])
            c.do('nind', lambda: o.set_nindices(k), id=i + 1, k=k)
        elif act == 'frommap' and len(c.m) > 1:
            j = r.choice([j for j in range(len(c.m)) if j != i])
            if c.m[j].nside() >= n:
                c.do('frommap', lambda: o.from_map(c.m[j]), id=i + 1, src=j + 1)
        elif act == 'fitsmap' and len(c.m) < 3:
            f = os.path.join(c.wd, 's%d.fits' % step)

            def fn():
                o.to_fits(f, history='made for a check\n# with a note') if r.random() < .5 else o.to_fits(f)
                hd = pyfits.getheader(f, 1)
                c.m.append(amap.Map(fromfits=f))
                return {'ordering': hd['ORDERING'].strip(), 'nside': hd['NSIDE'], 'last': hd['LASTPIX']}
            c.do('fitsmap', fn, id=i + 1, to=len(c.m) + 1)
            if os.path.exists(f):
                os.unlink(f)


MODES = dict(maps=maps, grid=grid, sky=sky)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                MODES[mode](Case(rec, rng, a.wd))
                rec.end()


if __name__ == '__main__':
    main()
