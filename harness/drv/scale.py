"""Data sets in corrmode 'j' (specs/Scale.tla)."""
import os, random, shutil
import numpy as np
from . import base
from .uvexec import canon, ftok, tick, short, T0
from .uv import mkflags
from aipy import miriad


def guard(fn):
    try:
        return fn()
    except Exception as ex:
        return {'err': short(repr(ex))}


def q64(x):
    y = float(x) * 64
    return int(round(y)) if abs(y) < 2e9 else -2147483647


def comps(d):
    out = []
    for z in d:
        out += [q64(z.real), q64(z.imag)]
    return out


def ints(rng, n):
    M = rng.choice([0, 1, 2, 9, 1000, 32766, 32767, 32768, 65535, 100003, 1 << 20, 1 << 24])
    k = rng.randrange(5)
    r = np.random.RandomState(rng.randrange(1 << 30))
    if M == 0:
        v = np.zeros(2 * n, dtype=int)
    elif k == 0:
        v = np.zeros(2 * n, dtype=int)
        v[rng.randrange(2 * n)] = rng.choice([M, -M])
    elif k == 1:
        v = r.choice([-M, 0, M], 2 * n)
    else:
        v = r.randint(-M, M + 1, 2 * n)
    return [int(x) for x in v]


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for k in range(a.n):
        rng = random.Random('scale-%d-%d' % (a.seed, k))
        if not rec.start(kind='j', seed=k):
            continue
        for f in os.listdir(a.wd):
            shutil.rmtree(os.path.join(a.wd, f), ignore_errors=True)
        path = os.path.join(a.wd, 'a.uv')
        uv = miriad.UV(path, 'new', corrmode='j')
        n = rng.choice([1, 2, 3, 16, 33, 128])
        t = 0
        vary = rng.random() < .3
        sess = rng.choice([1, 1, 2])
        for s in range(sess):
            if s:
                uv = miriad.UV(path, 'append', corrmode='j')
            for _ in range(rng.choice([1, 4, 10])):
                m = rng.randrange(1, n + 1) if vary and _ else n
                d, f = ints(rng, m), mkflags(rng, m)
                t += rng.choice([0, 0, 1])
                i, j = rng.randrange(3), rng.randrange(3, 300)
                uvw = [float(rng.randrange(9)), 0., -1.]

                def fn():
                    c = np.array(d[0::2]) + 1j * np.array(d[1::2])
                    uv.write((np.array(uvw), T0 + t / 16., (i, j)), np.ma.array(c.astype(np.complex64), mask=f))
                    return {'k': 'ok'}
                rec.pend({'op': 'write'})
                rec.ev(op='write', p=[canon(np.array(uvw)), t, i, j], d=d, f=ftok(f), o=guard(fn))
            del uv
        state = {}

        def opn():
            state['uv'] = miriad.UV(path, corrmode=rng.choice(['r', 'j']))
            return {'k': 'ok'}
        rec.ev(op='open', o=guard(opn))

        def rd():
            try:
                (uvw, t, (i, j)), d, f = state['uv'].read(raw=True)
            except IOError:
                return {'k': 'eof'}
            return {'k': 'rec', 'p': [canon(uvw), tick(t), int(i), int(j)], 'd': comps(d), 'f': ftok(f)}

        def rw():
            state['uv'].rewind()
            return {'k': 'ok'}
        for p in range(2):
            for _ in range(100):
                rec.pend({'op': 'read'})
                o = guard(rd)
                rec.ev(op='read', o=o)
                if o.get('k') != 'rec' or p == 0 and rng.random() < .05:
                    break
            rec.ev(op='rewind', o=guard(rw))
        state.clear()
        rec.end()


if __name__ == '__main__':
    main()
