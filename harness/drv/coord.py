"""Coordinates (specs/Coord.tla)."""
import math, random, warnings
from fractions import Fraction
import numpy as np
import ephem
from . import base
from .uvexec import short
from aipy import coord, phs
from aipy import map as amap

warnings.simplefilter('ignore')
K = 100000


def num(x, k=K):
    x = float(x)
    return int(round(x * k)) if math.isfinite(x) and abs(x) < 20000 else 2 ** 30


def angle(x):
    x = float(x)
    return [num(math.cos(x)), num(math.sin(x)), num(x / math.pi, 1000000) if abs(x) < 50 else 2 ** 30] if math.isfinite(x) else [0, 0, 2 ** 30]


TRIPLES = [(3, 4, 5), (5, 12, 13)]


def rational(rng, most=13, half=False):
    """An angle as (c, s, d); half: between -90 and 90 degrees."""
    if rng.random() < .4:
        a = rng.choice([(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)])
    else:
        t = rng.choice([t for t in TRIPLES if t[2] <= most])
        p, q = rng.choice([(t[0], t[1]), (t[1], t[0])])
        a = (p * rng.choice([1, -1]), q * rng.choice([1, -1]), t[2])
    return (abs(a[0]), a[1], a[2]) if half else a


def value(a):
    return math.atan2(a[1], a[0])


def direction(rng, most=13):
    a, b = rational(rng, most), rational(rng, most, True)
    v = (b[0] * a[0], b[0] * a[1], b[1] * a[2], a[2] * b[2])
    return reduced(v)


def reduced(v):
    g = math.gcd(math.gcd(v[0], v[1]), math.gcd(v[2], v[3]))
    return [x // g for x in v]


class Case:
    def __init__(self, rec, rng):
        self.rec, self.rng, self.things = rec, rng, []

    def go(self, op, call, **e):
        self.rec.pend(dict(op=op, **e))
        try:
            o = call() or {'ok': True}
        except Exception as ex:
            o = {'err': short(repr(ex))}
        self.rec.ev(op=op, o=o, **e)
        return 'err' not in o


def shown(rep, a):
    """Each direction of an array (components first), as numbers of its representation."""
    d = np.ma.getdata(a).reshape(len(a), -1)
    if rep == 'xyz':
        return [[num(x) for x in col] for col in d.T]
    return [[angle(x) for x in col] for col in d.T]


def masks(a):
    m = np.ma.getmaskarray(a).reshape(len(a), -1)
    if not (m == m[0]).all():
        raise ValueError('masks differ')
    return [bool(x) for x in m[0]]


FROM = dict(xyz=['xyz2thphi', 'eq2radec', 'top2azalt'], thphi=['thphi2xyz'], radec=['radec2eq', 'latlong2xyz'], azalt=['azalt2top'])
TO = dict(xyz2thphi='thphi', eq2radec='radec', top2azalt='azalt')


def walk(c):
    r = c.rng
    things = []

    def new():
        form = r.choice(['one', 'row', 'row', 'grid'])
        masked = form != 'one' and r.random() < .35
        count = 1 if form == 'one' else r.randint(1, 6) if form == 'row' else r.choice([4, 6])
        v = [direction(r) for _ in range(count)]
        if masked and r.random() < .8:
            v = [x if r.random() < .7 else [0, 0, 0, 0] for x in v]
        a = np.array([[x[k] / float(x[3] or 1) for x in v] for k in range(3)])
        if all(x[3] in (0, 1) for x in v) and r.random() < .3:
            a = a.astype(int)
        if masked:
            m = [x[3] == 0 for x in v]
            a = np.ma.array(a, mask=[m] * 3 if any(m) or r.random() < .5 else np.ma.nomask)
        if form == 'one':
            a = a[:, 0]
        elif form == 'grid':
            a = a.reshape(3, 2, -1)
        t = dict(v=v, a=a, rep='xyz', masked=masked)
        k = len(things) if len(things) < 3 else r.randrange(3)
        if k == len(things):
            things.append(t)
        else:
            things[k] = t
        c.go('new', lambda: None, id=k + 1, v=v)
    new()
    for _ in range(r.choice([6, 12])):
        act = r.choice(['new', 'conv', 'conv', 'conv', 'conv', 'turn', 'turn'])
        k = r.randrange(len(things))
        t = things[k]
        if act == 'new':
            new()
        elif act == 'conv':
            fn = r.choice(FROM[t['rep']])
            a = t['a']
            before = np.ma.array(a, copy=True)
            form = r.choice(['array', 'tuple'])

            def go():
                x = a[::-1] if fn == 'latlong2xyz' else a
                if form == 'tuple':
                    x = tuple(x)
                y = getattr(coord, fn)(x)
                if y.shape[1:] != a.shape[1:]:
                    raise ValueError('shape')
                if not np.array_equal(np.ma.getdata(before), np.ma.getdata(a)):
                    raise ValueError('the argument is changed')
                t['a'], t['rep'] = y, TO.get(fn, 'xyz')
                return {'v': shown(t['rep'], y), 'mask': masks(y)}
            if not c.go('conv', go, id=k + 1, fn=fn):
                return
        elif t['rep'] == 'xyz' and not t['masked']:
            how = r.choice(['eq2top', 'top2eq', 'rot'])
            cnt = len(t['v']) if r.random() < .4 and t['a'].ndim == 2 and len(t['v']) > 1 else 1
            hs = [rational(r) for _ in range(cnt)]
            ds = [rational(r) for _ in range(cnt)]
            axis = [direction(r, 5) for _ in range(cnt)]
            den = max((x[2] * (y[3] ** 2 if how == 'rot' else z[2])) for x, y, z in zip(hs, axis, ds))
            if den * max(x[3] for x in t['v']) > 10000:
                continue
            form = r.choice(['scalar', 'array']) if cnt == 1 else 'array'

            def go():
                h, d = np.array([value(x) for x in hs]), np.array([value(x) for x in ds])
                n = np.array([[x[i] / float(x[3]) for i in range(3)] for x in axis])
                if form == 'scalar':
                    h, d, n = float(h[0]), float(d[0]), n[0]
                if how == 'rot':
                    m = coord.rot_m(h, n)
                else:
                    m = (coord.eq2top_m if how == 'eq2top' else coord.top2eq_m)(h, d)
                if m.shape != ((3, 3) if form == 'scalar' else (cnt, 3, 3)):
                    raise ValueError('shape %s' % (m.shape, ))
                ms = m.reshape(-1, 3, 3)
                a = t['a']
                if cnt == 1:
                    y = np.dot(ms[0], a.reshape(3, -1)).reshape(a.shape)
                else:
                    y = np.array([np.dot(ms[i], a[:, i]) for i in range(cnt)]).T
                t['a'] = y
                return {'m': [[num(x) for x in q.flatten()] for q in ms], 'v': shown('xyz', y)}
            e = dict(axis=axis) if how == 'rot' else dict(a=[list(x) for x in ds])
            if not c.go('turn', go, id=k + 1, how=how, h=[list(x) for x in hs], **e):
                return
            t['v'] = [apply(how, hs[i if cnt > 1 else 0], ds[i if cnt > 1 else 0], axis[i if cnt > 1 else 0], v) for i, v in enumerate(t['v'])]


def apply(how, h, d, n, v):
    """The denominator that the direction has now (only to choose what to do next)."""
    F = Fraction
    H, D = (F(h[0], h[2]), F(h[1], h[2])), (F(d[0], d[2]), F(d[1], d[2]))
    if how == 'rot':
        u = [F(x, n[3]) for x in n[:3]]
        q = 1 - H[0]
        m = [[(H[0] if i == j else 0) + q * u[i] * u[j] for j in range(3)] for i in range(3)]
        for i, j, k, s in ((0, 1, 2, -1), (0, 2, 1, 1), (1, 0, 2, 1), (1, 2, 0, -1), (2, 0, 1, -1), (2, 1, 0, 1)):
            m[i][j] += s * u[k] * H[1]
    else:
        m = [[H[1], H[0], F(0)], [-D[1] * H[0], D[1] * H[1], D[0]], [D[0] * H[0], -D[0] * H[1], D[1]]]
        if how == 'top2eq':
            m = [list(x) for x in zip(*m)]
    w = [sum(m[i][j] * F(v[j], v[3]) for j in range(3)) for i in range(3)]
    den = 1
    for x in w:
        den = den * x.denominator // math.gcd(den, x.denominator)
    return [int(x * den) for x in w] + [den]


NAMES = dict(eq=['eq', 'EQ', 'equatorial', 'eq'], ec=['ec', 'ecliptic', 'Ec'], ga=['ga', 'galactic', 'ga'])


def systems(c):
    r = c.rng
    b = direction(r, 5)
    at, crd = None, None

    def epoch(s):
        if s == '2000':
            return r.choice([dict(), dict(e=ephem.J2000), dict(e=float(ephem.J2000)), dict(e='2000')])
        return r.choice([dict(e=ephem.B1950), dict(e=float(ephem.B1950))])
    sysn, ep = 'eq', '2000'
    crd = None
    for _ in range(r.choice([4, 8])):
        if r.random() < .3:
            s1, e1, s2, e2 = r.choice(['eq', 'ec', 'ga']), r.choice(['2000', '1950']), r.choice(['eq', 'ec', 'ga']), r.choice(['2000', '1950'])

            def go():
                kw = {}
                x, y = epoch(e1), epoch(e2)
                if x:
                    kw['iepoch'] = x['e']
                if y:
                    kw['oepoch'] = y['e']
                m = coord.convert_m(r.choice(NAMES[s1]), r.choice(NAMES[s2]), **kw)
                if m.shape != (3, 3):
                    raise ValueError('shape')
                return {'m': [num(x, 10000) for x in m.flatten()]}
            c.go('matrix', go, **{'from': s1 + e1, 'to': s2 + e2})
            continue
        s2, e2 = r.choice(['eq', 'ec', 'ga']), r.choice(['2000', '1950'])

        def go():
            kw = {}
            x, y = epoch(ep), epoch(e2)
            if x:
                kw['iepoch'] = x['e']
            if y:
                kw['oepoch'] = y['e']
            if crd is None or r.random() < .5:
                v = [x / float(b[3]) for x in b[:3]] if crd is None else vec(crd)
                v = r.choice([tuple, list, np.array])(v)
            else:
                v = r.choice([tuple, list, np.array])(crd)
            out = coord.convert(v, r.choice(NAMES[sysn]), r.choice(NAMES[s2]), **kw)
            c.crd = tuple(float(x) for x in out)
            if len(c.crd) != 2:
                raise ValueError('number of coordinates')
            return {'v': [num(x, 10000) for x in vec(c.crd)], 'lon': num(c.crd[0] / math.pi, 1000000) if abs(c.crd[0]) < 50 else 2 ** 30,
                    'lat': num(c.crd[1] / math.pi, 1000000) if abs(c.crd[1]) < 50 else 2 ** 30}
        if not c.go('convert', go, base=b, to=s2 + e2, **{'from': sysn + ep}):
            return
        crd, sysn, ep = c.crd, s2, e2


def vec(crd):
    lon, lat = crd
    return [math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)]


def places(c):
    r = c.rng
    for _ in range(4):
        act = r.choice(['facets', 'facets', 'time', 'time', 'bad'])
        if act == 'facets':
            n = r.choice([r.randint(1, 16), r.randint(1, 16), r.randint(17, 40), r.choice([1, 2, 3]), r.choice([1, 2, 4, 7]) * 2 ** r.randint(0, 12), r.randint(40, 5000)])
            fn = r.choice(['pack', 'facet2', 'facet3'])

            def go():
                if fn == 'pack':
                    p = amap.pack_sphere(n)
                elif fn == 'facet3':
                    p = amap.facet_centers(n, ncrd=3)
                else:
                    q = amap.facet_centers(n) if r.random() < .5 else amap.facet_centers(n, ncrd=2)
                    if q.shape != (2, n):
                        raise ValueError('shape')
                    if (q[0] < 0).any() or (q[0] > 2 * math.pi + 1e-9).any():
                        raise ValueError('right ascension')
                    p = np.array([vec(x) for x in q.T]).T
                p = np.ma.getdata(p)
                if p.shape != (3, n):
                    raise ValueError('shape')
                if not np.allclose((p ** 2).sum(axis=0), 1, atol=1e-6):
                    raise ValueError('not on the sphere')
                return {'n': p.shape[1] if n <= 16 else len(set(num(z, 1e9 / 50000) for z in p[2])),
                        'pt': [[num(x, 10000) for x in q] for q in p.T] if n <= 16 else []}
            c.go('facets', go, n=n)
        elif act == 'time':
            t = r.choice([2415020., 2451545., 2454000.5, 2440587.5 + r.random() * 20000, 2455000 + r.random(), 2450000 + r.random() * 1e-9, 2400000.5 + r.randint(0, 60000)])

            def go():
                d = phs.juldate2ephem(t)
                aa = phs.ArrayLocation((r.uniform(-1, 1), r.uniform(-3, 3)))
                aa.set_jultime(2450000.)
                if r.random() < .5:
                    aa.set_jultime(t)
                else:
                    aa.set_ephemtime(d)
                return {'got': repr(float(aa.get_jultime())), 'back': repr(float(phs.ephem2juldate(d)))}
            c.go('time', go, t=repr(float(t)))
        else:
            how = r.choice(['sys', 'osys', 'ncrd', 'src'])

            def go():
                if how == 'sys':
                    coord.convert((0., 0.), r.choice(['to', 'xx', '']), 'eq')
                elif how == 'osys':
                    coord.convert((0., 0.), 'eq', r.choice(['to', 'xx', '']))
                elif how == 'ncrd':
                    amap.facet_centers(4, ncrd=r.choice([0, 1, 4]))
                else:
                    coord.convert_m('eq', r.choice(['top', 'az']))
            c.go('bad', go, how=how)


MODES = dict(walk=walk, systems=systems, places=places)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                MODES[mode](Case(rec, rng))
                rec.end()


if __name__ == '__main__':
    main()
