"""Gridding and imaging (specs/Grid.tla)."""
import math, random, warnings
import numpy as np
from . import base
from .uvexec import short
from aipy import img, utils, dsp, _dsp

warnings.simplefilter('ignore')
ONE = 16384
P2, P1 = 0.63661977236758149, 0.79788456080286541


def num(x):
    x = float(x)
    return int(round(x)) if math.isfinite(x) and abs(x) < 2 ** 30 else 2 ** 30


def cx(x, k):
    x = complex(x)
    return [num(x.real * k), num(x.imag * k)]


def flat(a, k):
    return [cx(x, k) for x in np.asarray(a).reshape(-1)]


class Case:
    def __init__(self, rec, rng):
        self.rec, self.rng, self.im = rec, rng, []
        self.meta = []

    def go(self, op, fn, state=False, **e):
        self.rec.pend(dict(op=op, **e))
        try:
            o = fn() or {'ok': True}
        except Exception as ex:
            o = {'err': short(repr(ex))}
        if state:
            e['a'] = [self.planes(k) for k in range(len(self.im))]
        self.rec.ev(op=op, o=o, **e)

    def planes(self, k, uv=None, bm=None):
        im, s = self.im[k], self.scale(k)
        return {'uv': flat(im.uv if uv is None else uv, s), 'bm': [flat(b, s) for b in (im.bm if bm is None else bm)]}

    def scale(self, k):
        return ONE / P2 * (self.meta[k]['n'] ** 2 if self.meta[k]['w'] else 1)

    def new(self):
        r = self.rng
        w = r.choice([0, 0, 0, 1, 2])
        n = r.choice([1, 2, 4]) if w else r.choice([1, 2, 3, 4, 4, 5, 6])
        terms = r.choice([1, 1, 2, 3])
        res = 1.25 / n if w else r.choice([.25, .5, 1., 2., 3.])
        size = res * n * (1 + r.choice([0, 0, .3 / n, -.3 / n]))
        k = len(self.im) if len(self.im) < 2 else r.randrange(len(self.im))

        def fn():
            if w:
                im = img.ImgW(size, res, wres=1e-3 if w == 1 else 1e3, mf_order=terms - 1, verbose=False)
            else:
                im = img.Img(size, res, mf_order=terms - 1)
            m = dict(n=n, w=w, terms=terms, res=res)
            if k == len(self.im):
                self.im.append(im)
                self.meta.append(m)
            else:
                self.im[k], self.meta[k] = im, m
            return {'shape': list(im.shape)}
        self.go('new', fn, state=True, id=k + 1, n=n, w=w, terms=terms)

    def lay(self, a):
        h = self.rng.choice(['c', 'c', 'step', 'rev'])
        if h == 'step':
            b = np.zeros((len(a), 2), dtype=a.dtype)
            b[:, 0] = a
            return b[:, 0]
        if h == 'rev':
            return a[::-1].copy()[::-1]
        return a

    def samples(self, k, most=5):
        r, m = self.rng, self.meta[k]
        cnt = r.randint(1, most)
        s = []
        for _ in range(cnt):
            q = 4 * m['n']
            a, b = (r.randint(-q, q), r.randint(-q, q)) if r.random() < .7 else (4 * r.randint(-9, 9), 4 * r.randint(-9, 9))
            s.append(dict(a=a, b=b, w=r.randint(-4, 4) if m['w'] == 1 else 0, v=[r.randint(-5, 5), r.randint(-5, 5)],
                          wg=[r.randint(0, 3) for _ in range(m['terms'])]))
        if m['w'] == 2:
            ws = [r.randint(-4, 4) for _ in s]
            ws[-1] += -sum(ws) % cnt
            for x, w in zip(s, ws):
                x['w'] = w
        if r.random() < .3 and cnt > 1:
            s[-1]['a'], s[-1]['b'] = s[0]['a'], s[0]['b']
        return s

    def arrays(self, k, s, dt=None):
        m, r = self.meta[k], self.rng
        u = np.array([x['b'] / 4. * m['res'] for x in s])
        v = np.array([-x['a'] / 4. * m['res'] for x in s])
        w = np.array([x['w'] * .625 for x in s])
        d = np.array([complex(*x['v']) for x in s], dtype=dt or r.choice([np.complex64, np.complex128]))
        return (self.lay(u), self.lay(v), self.lay(w)), self.lay(d)

    def weights(self, k, s):
        m, r = self.meta[k], self.rng
        if r.random() < .35:
            return 'default', None
        wg = [self.lay(np.array([float(x['wg'][t]) for x in s], dtype=r.choice([np.float32, np.float64]))) for t in range(m['terms'])]
        if m['terms'] == 1 and r.random() < .5:
            return 'given', wg[0]
        return 'given', wg


def planes(c):
    r = c.rng
    c.new()
    for _ in range(r.choice([5, 9])):
        k = r.randrange(len(c.im))
        im, m = c.im[k], c.meta[k]
        n, w = m['n'], m['w']
        act = r.choice(['put'] * 5 + ['get'] * 3 + ['image', 'image', 'lm', 'eq', 'hermitian', 'uvs', 'indices', 'bad', 'new'])
        if act == 'new':
            c.new()
        elif act == 'put':
            s = c.samples(k)
            uvw, d = c.arrays(k, s)
            how, wg = c.weights(k, s)
            if r.random() < .4:
                uvw = np.array(uvw)
            app = bool(w) or r.random() < .7

            def fn():
                if app:
                    im.put(uvw, d, wg) if r.random() < .5 or w else im.put(uvw, d, wgts=wg, apply=True)
                else:
                    uv, bm = im.put(uvw, d, wg, apply=False)
                    return {'p': c.planes(k, uv, bm)}
            c.go('put', fn, state=True, id=k + 1, s=s, wgt=how, apply=app)
        elif act == 'get' and w != 2:
            at = [dict(a=r.randint(-4 * n, 4 * n), b=r.randint(-4 * n, 4 * n), w=r.randint(-4, 4) if w else 0) for _ in range(r.randint(1, 5))]
            u = np.array([x['a'] / 4. * m['res'] for x in at])
            v = np.array([-x['b'] / 4. * m['res'] for x in at])
            ww = np.array([x['w'] * .625 for x in at])
            if r.random() < .3:
                u, v, ww = [q.reshape(-1, 1) for q in (u, v, ww)]
            c.go('get', lambda: {'v': flat(im.get((c.lay(u) if u.ndim == 1 else u, v, ww)), 64)}, id=k + 1, at=at, state=True)
        elif act == 'image' and n in (1, 2, 4):
            t = r.randint(0, m['terms'])
            c1, c2 = r.randint(-n, n), r.randint(-n, n)
            form = r.random()

            def fn():
                if t == 0:
                    a = im.image(center=(c1, c2))
                elif form < .5:
                    a = im.bm_image(center=(c1, c2), term=t - 1)
                else:
                    a = im.bm_image(center=(c1, c2))[t - 1]
                return {'v': [num(x * c.scale(k) * n * n) for x in a.reshape(-1)]}
            c.go('image', fn, id=k + 1, term=t, c1=c1, c2=c2)
        elif act in ('lm', 'eq'):
            from fractions import Fraction
            f = Fraction(m['res']).limit_denominator(1000) * n
            c1, c2 = r.randint(-n, n), r.randint(-n, n)

            def coords(L):
                return np.ma.getmaskarray(L).reshape(-1), np.ma.getdata(L).reshape(-1)

            def fn():
                L, M = im.get_LM(center=(c1, c2))
                if r.random() < .5:
                    L, M, z = im.get_top(center=(c1, c2))
                    mz, zz = coords(z)
                    ok = ~mz
                    if not np.allclose(zz[ok] ** 2 + coords(L)[1][ok] ** 2 + coords(M)[1][ok] ** 2, 1, atol=1e-5) or (zz[ok] < 0).any():
                        raise ValueError('not on the sphere')
                (lm, l), (mm, q) = coords(L), coords(M)
                if not (lm == mm).all():
                    raise ValueError('masks')
                s = n * m['res']

                def near(x):
                    x = float(x) * s
                    return int(round(x)) if abs(x - round(x)) < 1e-3 else 99
                return {'mask': [bool(x) for x in lm], 'l': [near(x) for x in l], 'm': [near(x) for x in q]}

            def fe():
                ra, dec = e['ra'] * math.pi / 2, e['dec'] * math.pi / 2
                v = im.get_eq(ra, dec, center=(c1, c2))
                s = n * m['res'] * 1000
                g = np.ma.getdata(v).reshape(3, -1)
                L, M = im.get_LM(center=(c1, c2))
                L, M = coords(L)[1].astype(float), coords(M)[1].astype(float)
                z = np.sqrt(np.clip(1 - L ** 2 - M ** 2, 0, None))
                return {'v': [[num(x * s) for x in row] for row in g.T], 'z': [num(x * s) for x in z]}
            e = dict(ra=r.randint(0, 3), dec=r.randint(-1, 1)) if act == 'eq' else {}
            c.go(act, fe if act == 'eq' else fn, id=k + 1, c1=c1, c2=c2, num=f.numerator, den=f.denominator, **e)
        elif act == 'uvs':
            def fn():
                u, v = im.get_uv()
                return {'u': [num(x / m['res']) for x in u.reshape(-1)], 'v': [num(x / m['res']) for x in v.reshape(-1)]}
            c.go('uvs', fn, id=k + 1)
        elif act == 'indices':
            s = c.samples(k)
            (u, v, ww), d = c.arrays(k, s)

            def fn():
                a, b = im.get_indices(u, v)
                return {'i': [[num(4 * x), num(4 * y)] for x, y in zip(a, b)]}
            c.go('indices', fn, id=k + 1, at=[dict(a=x['a'], b=x['b']) for x in s])
        elif act == 'hermitian':
            s = c.samples(k)
            uvw, d = c.arrays(k, s)
            how, wg = c.weights(k, s)

            def fn():
                before = [x.copy() for x in wg] if isinstance(wg, list) else None
                rv = im.append_hermitian(uvw, d, wg) if wg is not None else im.append_hermitian(uvw, d)
                if before is not None and not all(len(x) == len(y) and (x == y).all() for x, y in zip(before, wg)):
                    raise ValueError('weights changed')
                (u, v, ww), d2 = rv[:2]
                out = []
                for q in range(len(d2)):
                    out.append(dict(a=num(-4 * v[q] / m['res']), b=num(4 * u[q] / m['res']), w=num(ww[q] / .625), v=cx(d2[q], 1),
                                    wg=[num(x[q]) for x in rv[2]] if wg is not None else []))
                return {'s': out}
            c.go('hermitian', fn, id=k + 1, s=s, wgt=how)
        elif act == 'bad':
            s = c.samples(k)
            uvw, d = c.arrays(k, s)
            how = r.choice(['data', 'terms']) if m['terms'] > 1 or w else 'data'

            def fn():
                if how == 'data':
                    im.put(uvw, np.ones(len(s) + 1, dtype=np.complex64), [np.ones(len(s) + 1)] * m['terms']) if not w else im.put(uvw, np.ones(0, dtype=np.complex64))
                else:
                    im.put(uvw, d, [np.ones(len(s))] * (m['terms'] + (2 if m['terms'] == 1 else 1)))
            c.go('bad', fn, state=True, how=how)


def arrays(c):
    r = c.rng
    for _ in range(6):
        act = r.choice(['grid', 'line', 'mean', 'add', 'add', 'add', 'bad'])
        d1, d2 = r.randint(1, 7), r.randint(1, 7)
        s = [dict(a=r.randint(-40, 40), b=r.randint(-40, 40), w=0, v=[r.randint(-5, 5), r.randint(-5, 5)]) for _ in range(r.randint(1, 5))]
        i1 = np.array([x['a'] / 4. for x in s], dtype=np.float32)
        i2 = np.array([x['b'] / 4. for x in s], dtype=np.float32)
        d = np.array([complex(*x['v']) for x in s], dtype=np.complex64)
        mod = r.choice([dsp, _dsp])
        fp = r.choice([(), (), (6, ), (8, )])
        if act == 'grid':
            def fn():
                b = np.zeros((d1, d2), dtype=np.complex64)
                mod.grid2D_c(b, i1, i2, d, *fp)
                return {'v': flat(b, ONE / P2)}
            c.go('grid', fn, d1=d1, d2=d2, s=s)
        elif act == 'line':
            def fn():
                b = np.zeros(d2, dtype=np.complex64)
                mod.grid1D_c(b, i2, d, *fp)
                return {'v': flat(b, ONE / P1)}
            c.go('line', fn, d2=d2, s=s)
        elif act == 'mean':
            f = [[r.randint(-9, 9), r.randint(-9, 9)] for _ in range(d1 * d2)]

            def fn():
                b = np.array([complex(*x) for x in f], dtype=np.complex64).reshape(d1, d2)
                o = np.zeros(len(s), dtype=np.complex64)
                mod.degrid2D_c(b, i1, i2, o, *fp)
                return {'v': flat(o, 64)}
            c.go('mean', fn, d1=d1, d2=d2, s=s, f=f)
        elif act == 'add':
            add(c)
        else:
            how = r.choice(['big', 'neg', 'rank', 'len', 'type', 'itype', 'list', 'high', 'gtype', 'glen', 'grank'])

            def fn():
                a, ind, x = np.zeros((3, 4)), np.zeros((2, 2), dtype=np.int_), np.ones(2)
                if how == 'big':
                    ind[1, r.randint(0, 1)] = 4
                elif how == 'neg':
                    ind[1, r.randint(0, 1)] = -5
                elif how == 'high':
                    ind[1, r.randint(0, 1)] = 2 ** 32 * r.choice([1, 3, -1]) + r.randint(0, 2)
                elif how == 'rank':
                    ind = r.choice([ind[:, :1], ind[:, 0], np.zeros((2, 3), dtype=np.int_)])
                elif how == 'len':
                    x = np.ones(3)
                elif how == 'type':
                    x = x.astype(r.choice([np.float32, np.int_, np.complex128]))
                elif how == 'itype':
                    ind = ind.astype(r.choice([np.int32, np.float64]))
                elif how == 'list':
                    ind = ind.tolist()
                    if r.random() < .5:
                        ind, x = np.array(ind), [1., 1.]
                b = np.zeros((3, 3), dtype=np.complex64)
                if how == 'gtype':
                    _dsp.grid2D_c(b.astype(np.complex128), i1, i2, d)
                elif how == 'glen':
                    _dsp.grid2D_c(b, i1, np.append(i2, i2), d)
                elif how == 'grank':
                    _dsp.grid2D_c(b[0], i1, i2, d)
                else:
                    utils.add2array(a, ind, x)
            c.go('bad', fn, how=how)


def add(c):
    r = c.rng
    sh = tuple(r.randint(1, 4) for _ in range(r.choice([1, 1, 2, 3])))
    n = int(np.prod(sh))
    dt = np.dtype(r.choice(['b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'g', 'F', 'D', 'G']))
    cp, un = dt.kind == 'c', dt.kind == 'u'

    def val():
        return [r.randint(0 if un else -9, 9), r.randint(-9, 9) if cp else 0]
    f = [val() for _ in range(n)]
    k = r.randint(0, 8)
    ind = [r.randrange(n) for _ in range(k)]
    data = [val() for _ in range(k)]
    if un:
        data = [[abs(x), 0] for x, _ in data]

    def mk(v):
        q = np.array([complex(*x) for x in v], dtype=complex)
        return (q if cp else q.real).astype(dt)

    def fn():
        a = mk(f).reshape(sh)
        if r.random() < .4:          # laid out another way
            b = np.zeros(tuple(2 * x for x in sh), dtype=dt)
            v = b[tuple(slice(None, None, 2) for _ in sh)]
            v[...] = a
            a = v
        elif r.random() < .4:
            a = np.asfortranarray(a)
        ix = np.array([np.unravel_index(p, sh) for p in ind], dtype=np.int_).reshape(k, len(sh))
        neg = np.array([[r.random() < .3 for _ in sh] for _ in ind]).reshape(k, len(sh))
        ix = np.where(neg, ix - np.array(sh), ix).astype(np.int_)
        if r.random() < .4:
            ix = np.asfortranarray(ix)
        utils.add2array(a, ix, c.lay(mk(data)))
        return {'v': flat(a, 1)}
    c.go('add', fn, f=f, ind=ind, data=data)


MODES = dict(planes=planes, arrays=arrays)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                MODES[mode](Case(rec, rng))
                rec.end()


if __name__ == '__main__':
    main()
