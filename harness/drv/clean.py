"""Deconvolution (specs/Clean.tla)."""
import math, random, warnings
import numpy as np
from . import base
from .uvexec import short
from aipy import deconv

warnings.simplefilter('ignore')
WILD = 1 << 28


def units(a, bits, how):
    """Numbers times 2^bits, as pairs of integers."""
    out = []
    for x in np.asarray(a).reshape(-1):
        p = []
        for v in (x.real, x.imag):
            v = float(v) * 2. ** bits if np.isfinite(v) else float('nan')
            if math.isnan(v) or abs(v) > WILD:
                p.append(WILD)
            elif how == 'exact':
                p.append(int(v) if v == int(v) else WILD - 1)
            elif how == 'trunc':
                p.append(int(v))
            else:
                p.append(int(round(v)))
        out.append(p)
    return out


class Case:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng

    def go(self, op, e, fn):
        self.rec.pend(dict(op=op, **e))
        try:
            o = fn()
        except Exception as ex:
            o = {'err': short(repr(ex))}
        self.rec.ev(op=op, o=o, **e)

    def shape(self, big=False):
        r = self.rng
        if r.random() < .5:
            return (r.choice([1, 2, 3, 4, 5, 8] + [13, 16] * big), )
        return (r.choice([1, 2, 3] + [4, 5] * big), r.choice([1, 2, 3] + [4, 6] * big))

    def ints(self, k, top, cplx, dens=1.):
        r = self.rng
        out = []
        for _ in range(k):
            if r.random() > dens:
                out.append((0, 0))
            else:
                out.append((r.randint(-top, top), r.randint(-top, top) if cplx else 0))
        return out

    def layout(self, a):
        """The same values, laid out another way."""
        h = self.rng.choice(['c', 'c', 'f', 'view', 'neg'])
        if h == 'f':
            return np.asfortranarray(a)
        if h == 'view':
            b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
            v = b[tuple(slice(None, None, 2) for s in a.shape)]
            v[...] = a
            return v
        if h == 'neg':
            return a[::-1].copy()[::-1]
        return a


def arr(p, sh, dt, div=1):
    c = np.array([complex(*x) for x in p]) / div
    return (c if np.dtype(dt).kind == 'c' else c.real).astype(dt).reshape(sh)


def area_of(c, n):
    h = c.rng.random()
    if h < .4:
        return [1] * n
    a = [int(c.rng.random() < .6) for _ in range(n)]
    if h < .5:
        a[0] = 0
    return a


def run(c, im, ker, mdl, area, kw, plain=False):
    ins = [x.copy() for x in (im, ker)] + [None if mdl is None else mdl.copy(), None if area is None else area.copy()]
    m, info = deconv.clean(im, ker, mdl=mdl, area=area, **kw)
    kept = all(x is None or np.array_equal(x, y) for x, y in zip(ins, (im, ker, mdl, area)))
    res = info['res']
    s = math.sqrt(float(np.average(np.abs(np.asarray(res, dtype=complex)) ** 2)))
    kept = kept and m.shape == im.shape and res.shape == im.shape and m.dtype == im.dtype and res.dtype == im.dtype
    kept = kept and (abs(float(info['score']) - s) <= 1e-5 * abs(s) + 1e-12 or not math.isfinite(s)) and info['tol'] == kw.get('tol', 1e-3)
    return m, res, dict(term=info['term'], iter=int(info['iter']), success=bool(info['success']), kept=bool(kept))


def exact(c):
    r = c.rng
    for _ in range(4):
        sh = c.shape()
        n = int(np.prod(sh))
        dt = r.choice([np.float64, np.complex128])
        cp = dt == np.complex128
        u = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1)] if cp else [(1, 0), (1, 0), (-1, 0)])
        kd, gd = r.choice([1, 1, 2]), r.choice([1, 1, 2, 4])
        ker = c.ints(n, 1, cp, r.choice([0, .3, .6, 1]))
        ker[0] = (2 * u[0], 2 * u[1])
        bits = r.choice([12, 14])
        if r.random() < .4:      # point sources seen through the kernel
            im = np.zeros(sh, dtype=complex)
            k = arr(ker, sh, complex)
            for _ in range(r.choice([1, 1, 2, 3])):
                p = [r.randrange(s) for s in sh]
                im = im + r.choice([1, 2, 3, -1, -2]) * np.roll(k, p, tuple(range(len(sh))))
            im = [(int(round(x.real)), int(round(x.imag))) for x in im.reshape(-1)]
        else:
            im = c.ints(n, r.choice([1, 3, 9]), cp, r.choice([.3, 1]))
        area = area_of(c, n)
        pos = (not cp) and r.random() < .3
        tol = r.choice(['none', 'any', 'same'])
        stop = r.random() < .6
        mx = r.choice([0, 1, 2, 3, 5, 8, 12])
        job = dict(d1=sh[0], d2=sh[1] if len(sh) == 2 else 1, ker=ker, u=u, kd=kd, gd=gd, area=area, pos=pos, maxiter=mx, stop=stop, tol=tol)
        if tol == 'same' and gd != 1:
            job['tol'] = tol = 'none'
        e = dict(job=job, im=[(a << bits, b << bits) for a, b in im], mdl0=[(0, 0)] * n, bits=bits)
        kw = dict(gain=1. / gd, maxiter=mx, tol={'none': 0., 'any': 10., 'same': 1e-6}[tol], stop_if_div=stop, pos_def=pos)

        def fn():
            A = None
            if not (all(area) and r.random() < .7):
                A = np.array(area, dtype=r.choice([int, bool, float, np.int32])).reshape(sh)
            m, res, o = run(c, c.layout(arr(im, sh, dt)), c.layout(arr(ker, sh, dt, kd)), None, A, kw)
            o.update(mdl=units(m, bits, 'exact'), res=units(res, bits, 'exact'))
            return o
        c.go('clean', e, fn)


def laws(c):
    r = c.rng
    for _ in range(4):
        what = r.random()
        if what < .06:
            sh = (r.randint(1, 5), r.randint(1, 5))
            v = list(range(sh[0] * sh[1]))
            r.shuffle(v)
            c1, c2 = r.randint(-7, 7), r.randint(-7, 7)
            c.go('recenter', dict(d1=sh[0], d2=sh[1], c1=c1, c2=c2, v=v),
                 lambda: {'v': [int(x) for x in deconv.recenter(np.array(v).reshape(sh), (c1, c2)).reshape(-1)]})
            continue
        if what < .12:
            sh = c.shape()
            a = np.ones(sh)
            how = r.choice(['ker', 'kshape', 'ashape', 'mtype'])

            def bad():
                k, m, A = a.copy(), None, None
                if how == 'ker':
                    k = k.astype(np.float32)
                elif how == 'kshape':
                    k = np.ones(tuple(s + 1 for s in sh))
                elif how == 'ashape':
                    A = np.ones(tuple(s + 1 for s in sh))
                else:
                    m = a.astype(np.float32)
                deconv.clean(a, k, mdl=m, area=A)
                return {'ok': True}
            c.go('bad', dict(how=how), bad)
            continue
        if what < .35:
            fit(c)
            continue
        sh = c.shape(True)
        n = int(np.prod(sh))
        dt = r.choice([np.float32, np.float64, np.longdouble, np.complex64, np.complex128, np.clongdouble])
        cp = np.dtype(dt).kind == 'c'
        ker = c.ints(n, r.choice([1, 3]), cp, r.choice([0, .3, 1]))
        if r.random() < .8:
            ker[0] = (4, 0)
        elif not any(any(k) for k in ker):
            ker[r.randrange(n)] = (1, 0)
        im = c.ints(n, r.choice([3, 20]), cp, r.choice([.2, 1]))
        m0 = c.ints(n, 3, cp, .3) if r.random() < .4 else [(0, 0)] * n
        area = area_of(c, n)
        pos = (not cp) and r.random() < .3 and ker[0] == [4, 0] or False
        if not cp and ker[0] == (4, 0) and r.random() < .3:
            pos = True
        stop = r.random() < .6
        mx = r.choice([1, 5, 60, 500])
        gain = r.choice([.1, .3, .7, 1.])
        job = dict(d1=sh[0], d2=sh[1] if len(sh) == 2 else 1, ker=ker, u=(1, 0), kd=1, gd=1, area=area, pos=pos, maxiter=mx, stop=stop, tol='none')
        e = dict(job=job, im=[(a << 10, b << 10) for a, b in im], mdl0=[(a << 10, b << 10) for a, b in m0], dtype=np.dtype(dt).name)
        kw = dict(gain=gain, maxiter=mx, tol=r.choice([0., 1e-6, 1e-3, .1]), stop_if_div=stop, pos_def=pos or (cp and r.random() < .2))
        start = arr(m0, sh, dt) if any(any(x) for x in m0) or r.random() < .3 else None

        def fn():
            m, res, o = run(c, c.layout(arr(im, sh, dt)), c.layout(arr(ker, sh, dt)), start,
                            np.array(area).reshape(sh) if not all(area) else None, kw)
            o.update(mdl=units(m, 10, 'round'), res=units(res, 10, 'round'), trunc=units(res, 10, 'trunc'))
            return o
        c.go('law', e, fn)


def fit(c):
    r = c.rng
    sh = (r.choice([2, 3, 4]), r.choice([2, 3, 5]))
    n = sh[0] * sh[1]
    ker = c.ints(n, 1, False, r.choice([0, .4]))
    ker[0] = (4, 0)
    how = r.choice(['lsq', 'maxent', 'anneal', 'findvar'])
    im = [(r.randint(1, 30), 0) for _ in range(n)]
    area = area_of(c, n) if how == 'lsq' else [1] * n
    low, high = r.choice([(0.25, 64.), (.5, 8.), (1., 2.)])
    m0 = [(1, 0)] * n
    mx = r.choice([1, 4, 40])
    job = dict(d1=sh[0], d2=sh[1], ker=ker, u=(1, 0), kd=1, gd=1, area=area, pos=False, maxiter=mx, stop=True, tol='none')
    e = dict(job=job, how=how, im=[(a << 10, b << 10) for a, b in im], mdl0=[(a << 10, b << 10) for a, b in m0],
             low=int(low * 1024), high=int(high * 1024))

    def fn():
        I, K, M = arr(im, sh, float), arr(ker, sh, float), arr(m0, sh, float)
        ins = [x.copy() for x in (I, K, M)]
        kw = dict(mdl=M, maxiter=mx, lower=low, upper=high)
        np.random.seed(r.randrange(1 << 20))
        if how == 'lsq':
            x, info = deconv.lsq(I, K, area=np.array(area).reshape(sh), gain=r.choice([.1, .5]), tol=r.choice([1e-3, 1e-6]), **kw)
        elif how == 'maxent':
            x, info = deconv.maxent(I, K, r.choice([.1, 1., 100.]), gain=r.choice([.1, .3]), **kw)
        elif how == 'anneal':
            x, info = deconv.anneal(I, K, **kw)
        else:
            kw['maxiter'] = 40
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                x, info = deconv.maxent_findvar(I, K, var=r.choice([None, 10., 100.]), maxiterok=True, tol=1e-1, **kw)
        kept = all(np.array_equal(p, q) for p, q in zip(ins, (I, K, M))) and info['term'] in ('tol', 'maxiter', 'divergence')
        res = info['res']
        return dict(kept=bool(kept), iter=int(info['iter']), mdl=units(x, 10, 'round'), res=units(res, 10, 'round'), trunc=units(res, 10, 'trunc'))
    if how == 'findvar':
        job['maxiter'] = 40
    c.go('fit', e, fn)


MODES = dict(exact=exact, laws=laws)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                MODES[mode](Case(rec, rng))
                rec.end()


if __name__ == '__main__':
    main()
