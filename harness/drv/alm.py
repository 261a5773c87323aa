"""Spherical harmonic coefficients (specs/Alm.tla)."""
import math, random, warnings
import numpy as np
from . import base
from .uvexec import short
from .hpx import centre
from aipy import healpix, amp

warnings.simplefilter('ignore')


def num(x, tol=.12):
    x = float(x)
    if not math.isfinite(x) or abs(x - round(x)) > tol or abs(x) > 1e9:
        return -99999
    return int(round(x))


def cx(x, tol=.12):
    x = complex(x)
    return [num(x.real, tol), num(x.imag, tol)]


class Case:
    def __init__(self, rec, rng):
        self.rec, self.rng, self.a = rec, rng, []

    def do(self, op, fn, **e):
        self.rec.pend(dict(op=op, **e))
        try:
            o = fn() or {'ok': True}
        except Exception as ex:
            o = {'err': short(repr(ex))}
        d = [{'lmax': int(x.lmax()), 'mmax': int(x.mmax()), 'c': [cx(q) for q in x.get_data()]} for x in self.a]
        self.rec.ev(op=op, o=o, a=d, **e)

    def size(self):
        l = self.rng.choice([0, 1, 2, 3, 3, 4])
        return l, self.rng.randint(0, l)

    def lay(self, i, x):
        if i == len(self.a):
            self.a.append(x)
        else:
            self.a[i] = x

    def val(self, m):
        return complex(self.rng.randint(-9, 9), self.rng.randint(-9, 9) if m else 0)

    def new(self, i, bad=False):
        l, m = self.size()
        if bad:
            m = l + 1
        dt = self.rng.choice([None, np.complex64, np.complex128])
        self.do('new', lambda: self.lay(i, healpix.Alm(l, m) if dt is None else healpix.Alm(l, m, dtype=dt)), id=i + 1, lmax=l, mmax=m)


def order(l, m):
    return [(q, p) for p in range(m + 1) for q in range(p, l + 1)]


def coefs(c):
    r = c.rng
    for i in range(r.choice([1, 2])):
        c.new(i)
    for step in range(r.choice([8, 14])):
        i = r.randrange(len(c.a))
        a = c.a[i]
        L, M = a.lmax(), a.mmax()
        act = r.choice(['set'] * 5 + ['get'] * 3 + ['setdata', 'setdata', 'indices', 'zero', 'trip', 'trip', 'maptrip', 'maptrip', 'bad', 'new'])
        l = r.randint(0, L)
        m = r.randint(0, min(l, M))
        if act == 'set':
            v = c.val(m)

            def fn():
                a[l, m] = v
            c.do('set', fn, id=i + 1, l=l, m=m, v=cx(v))
        elif act == 'get':
            c.do('get', lambda: {'v': cx(a[l, m])}, id=i + 1, l=l, m=m)
        elif act == 'setdata':
            v = [c.val(p) for q, p in order(L, M)]
            d = np.array(v, dtype=r.choice([np.complex64, np.complex128]))

            def fn():
                a.set_data(d)
                d[:] = 55           # the caller's array is the caller's
            c.do('setdata', fn, id=i + 1, vals=[cx(q) for q in v])
        elif act == 'bad':
            if r.random() < .5:
                c.new(len(c.a), bad=True)
            else:
                v = [0] * (len(order(L, M)) + r.choice([-1, 1, 2]))
                c.do('setdata', lambda: a.set_data(np.array(v, dtype=complex)), id=i + 1, vals=[[0, 0] for q in v])
        elif act == 'new':
            c.new(i)
        elif act == 'zero':
            c.do('zero', lambda: a.set_to_zero(), id=i + 1)
        elif act == 'indices':
            c.do('indices', lambda: {'lm': [[int(x) for x in q] for q in a.lm_indices()], 'size': int(a.size()),
                                     'lmax': int(a.lmax()), 'mmax': int(a.mmax())}, id=i + 1)
        elif act == 'trip' and a.dtype != np.complex64:
            l2, m2 = c.size()
            to = r.randrange(min(len(c.a) + 1, 3))
            n = r.choice([16, 32])

            def fn():
                d = a.to_map(n)
                b = healpix.Alm(l2, m2)
                if r.random() < .5:
                    b[0, 0] = 7
                if len(d) == 12 * n * n:
                    b.from_map(d, r.choice([3, 5])) if r.random() < .5 else b.from_map(d)
                c.lay(to, b)
            c.do('trip', fn, id=i + 1, to=to + 1, n=n, lmax=l2, mmax=m2)
        elif act == 'maptrip' and a.dtype != np.complex64:
            l2, m2 = c.size()
            to = r.randrange(min(len(c.a) + 1, 3))
            n, sch = r.choice([16, 32]), r.choice(['RING', 'RING', 'NEST'])
            it = r.choice([1, 1, 3])

            def fn():
                h = healpix.HealpixMap(n, sch)
                if r.random() < .5:
                    h.set_map(np.arange(12. * n * n), sch)
                h.from_alm(a)
                if h.nside() != n:
                    raise ValueError('resolution')
                h.change_scheme('RING')
                b = h.to_alm(l2, m2, iter=it) if it != 1 else h.to_alm(l2, m2)
                c.lay(to, b)
                return {'sch': h.scheme()}
            c.do('maptrip', fn, id=i + 1, to=to + 1, n=n, sch=sch, lmax=l2, mmax=m2)


def values(c):
    r = c.rng
    for _ in range(6):
        if r.random() < .5:
            L = r.choice([1, 2, 4])
            M = r.randint(0, L)
            n = r.choice([1, 2, 4, 8])
            a0, a1 = r.randint(-9, 9), r.randint(-9, 9)
            px = [r.randrange(12 * n * n) for _ in range(12)]
            how = r.choice(['alm', 'map', 'nest', 'at'])

            def fn():
                a = healpix.Alm(L, M)
                a[0, 0] = a0
                a[1, 0] = a1 / math.sqrt(3)
                if how == 'alm':
                    v = a.to_map(n)[px]
                else:
                    h = healpix.HealpixMap(n, 'NEST' if how == 'nest' else 'RING')
                    h.from_alm(a)
                    if how == 'map':
                        v = h[np.array(px)]
                    else:
                        zp = [centre(n, p) for p in px]
                        v = h[np.array([math.acos(z) for z, p in zp]), np.array([p for z, p in zp])]
                return {'v': [num(x * math.sqrt(4 * math.pi) * 3 * n * n, 1e-3) for x in v]}
            c.do('value', fn, n=n, a0=a0, a1=a1, px=px)
        else:
            deg = r.choice([0, 1, 2, 3])
            L = r.choice([0, 1, 3])
            M = r.randint(0, L)
            sz = len(order(L, M))
            freqs = r.sample([1, 2, 3, 4, 5], r.choice([2, 3, 4]))
            terms = [0] * (deg + 1)
            co = {}
            for k in r.sample(range(deg + 1), r.randint(0, deg + 1)):
                terms[k] = r.randint(-5, 5)
                d = np.zeros(sz, dtype=complex)
                d[0] = terms[k] * math.sqrt(4 * math.pi)
                co[k] = d
            if r.random() < .3:
                co[deg + 1 + r.randrange(2)] = np.ones(sz, dtype=complex)     # beyond the degree
            dirs = r.choice([1, 2, 5])
            th = np.array([r.uniform(0, math.pi / 2) for _ in range(dirs)])
            ph = np.array([r.uniform(0, 2 * math.pi) for _ in range(dirs)])
            top = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
            sel = r.choice([None, None, sorted(r.sample(range(len(freqs)), r.randint(1, len(freqs))))])
            later = r.random() < .4
            fr = freqs if sel is None else [freqs[k] for k in sel]

            def fn():
                f = np.array(freqs, dtype=float)
                if later:
                    b = amp.BeamAlm(f, lmax=L, mmax=M, deg=deg, nside=r.choice([4, 16]))
                    for k in co:
                        if k <= deg:
                            b.alm[-1 - k].set_data(co[k])
                    b.update()
                else:
                    b = amp.BeamAlm(f, lmax=L, mmax=M, deg=deg, nside=r.choice([4, 16]), coeffs=co)
                if sel is not None:
                    b.select_chans(sel)
                rv = b.response(tuple(top) if r.random() < .5 else top)
                if rv.shape != (len(fr), dirs):
                    raise ValueError(str(rv.shape))
                return {'v': [[num(x, 1e-3) for x in row] for row in rv]}
            c.do('beam', fn, freqs=fr, terms=terms, dirs=dirs)


MODES = dict(coefs=coefs, values=values)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                MODES[mode](Case(rec, rng))
                rec.end()


if __name__ == '__main__':
    main()
