"""Histories of UV data sets: behaviours of UVGen.tla and seeded random ones."""
import json, os, random
import numpy as np
from . import base
from .uvexec import UVExec, value, canon

WIDTHS = [1, 2, 3, 5, 31, 32, 33, 62, 64, 127, 500, 2049]


def mkdata(rng, n):
    k = rng.randrange(6)
    r = np.random.RandomState(rng.randrange(1 << 30))
    if k == 0:
        d = np.zeros(n)
    elif k == 1:
        d = r.randint(-9, 9, n) + 1j * r.randint(-9, 9, n)
    elif k == 2:
        d = r.randn(n) * 1e30 + 1j * r.randn(n) * 1e-30
    else:
        d = r.randn(n) + 1j * r.randn(n)
    return d.astype(np.complex64)


def mkflags(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return np.zeros(n, dtype=bool)
    if k == 1:
        return np.ones(n, dtype=bool)
    if k == 2:
        f = np.zeros(n, dtype=bool)
        f[rng.randrange(n)] = True
        return f
    if k == 3:
        f = np.zeros(n, dtype=bool)
        a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
        f[a:b] = True
        return f
    r = np.random.RandomState(rng.randrange(1 << 30))
    return r.rand(n) < rng.choice([.1, .5, .9])


def ants(rng, big=False):
    c = [0, 1, 2, 3, 7, 30]
    if big:
        c += [63, 126, 127, 128, 200, 253, 254, 255, 256, 300, 1023, 2045]
    return tuple(sorted((rng.choice(c), rng.choice(c))))


def uvw(rng):
    return [rng.randrange(-6, 7), rng.randrange(-6, 7), rng.randrange(-6, 7)]


class Writer:
    """Random writing through one handle."""
    def __init__(self, X, rng, h, width=None, big=False, vary=False):
        self.X, self.rng, self.h = X, rng, h
        self.w = width or rng.choice(WIDTHS)
        self.t = rng.choice([0, 0, 5, 1000, 16000])
        self.big, self.vary = big, vary
        self.n = 0
        self.frac = False       # uvw that are no integers

    def write(self, how=None, same_t=.6):
        rng = self.rng
        if self.n and rng.random() > same_t:
            self.t += rng.choice([1, 1, 3, 16, 1000, -2 if self.t > 2 else 1])
        i, j = ants(rng, self.big)
        if self.n and rng.random() < .2:
            i, j = self.last
        self.last = (i, j)
        n = self.w
        if self.vary and self.n and n > 1 and rng.random() < .5:
            n = rng.randrange(1, n + 1)
        self.n += 1
        self.X.write(self.h, self.t, i, j, [x / 7. for x in uvw(rng)] if self.frac else uvw(rng), mkdata(rng, n), mkflags(rng, n),
                     how=rng.choice([0, 0, 1, 2]) if how is None else how)

    def setvar(self, n, ty, x=None, num=None):
        x = self.rng.randrange(0, 60) if x is None else x
        v = value(ty, x)
        self.X.set(self.h, n, v, num=v if num is None and isinstance(v, int) and abs(v) < 1 << 20 else (num or 0))


def readall(X, rng, h, nv=8, limit=10000):
    k = 0
    while k < limit:
        o = X.read(h, nv)
        k += 1
        if o['k'] != 'rec':
            return o


def hist_records(X, rng, k):
    """U01: records of all shapes, read in order, rewound, read again."""
    big = k % 3 == 0
    X.new('w', 'a.uv')
    width = [1, 31, 32, 2049, 500, 5][k % 6] if k < 12 else None
    W = Writer(X, rng, 'w', width=width, big=big, vary=k % 4 == 1)
    W.frac = rng.random() < .5
    X.set('w', 'history', 'made %d' % k)
    nrec = rng.choice([1, 2, 5, 20, 60]) if W.w < 400 else rng.choice([3, 9, 14])
    if k % 7 == 3:
        W.w, nrec = 3, 700      # many small records: many buffers of the stream
    for _ in range(nrec):
        W.write(how=3 if rng.random() < .05 else None)
    X.close('w')
    X.old('r', 'a.uv')
    if rng.random() < .5:
        readall(X, rng, 'r', 4)
    else:
        for _ in range(rng.randrange(nrec + 1)):
            X.read('r', 4)
    X.rewind('r')
    readall(X, rng, 'r', 4)
    if rng.random() < .3:
        X.read('r', 4)
    X.old('q', 'a.uv')
    for _ in range(min(nrec, 4)):
        X.read('q', 4)
    X.close('r')
    readall(X, rng, 'q', 4)
    X.close('q')


TYPES = ['i', 'r', 'd', 'a', 'c', 'j', 'i*', 'r*', 'd*', 'c*', 'j*', 'd3', 'r50', 'i1']


def hist_vars(X, rng, k):
    """U02: variables of all types changing in every way, and header items."""
    X.new('w', 'a.uv')
    nv = {0: 150, 1: 40}.get(k % 6, rng.randrange(2, 14))
    names = ['v%d' % x for x in range(nv - 2)] + ['eightchr', 'x']
    ty = {}
    items = [('history', 'a' * rng.choice([1, 63, 64, 65, 300])), ('nfeeds', 2), ('interval', 0.125),
             ('freq0', 0.15), ('ngains', 7), ('nsols', 3), ('stopt', 2455.5), ('ntau', 0),
             ('duration', 1e-3), ('nchan0', 5), ('leakage', [1 + 2j, -3.5 + 0j, 0.25j]),
             ('bandpass', [complex(z, -z) / 4 for z in range(rng.choice([2, 9, 40]))]),
             ('freqs', [2, 3, 0.125, 0.25, 4, 0.5, -1.75]), ('nspect0', 1)]
    if k % 3 == 1:
        items[0] = ('history', rng.choice(['\u03bcJy', 'line one\nline two\n', 'x' * 70000, '\u00e9' * 50]))
    for n, v in rng.sample(items, rng.randrange(1, 6)):
        X.set('w', n, v)
        if rng.random() < .3:
            X.get('w', n)
    late = []
    for n in names:
        ty[n] = rng.choice(TYPES) if nv < 100 else rng.choice(['i', 'd', 'r'])
        X.addvar('w', n, ty[n])
        late.append(n)
    rng.shuffle(late)
    W = Writer(X, rng, 'w', width=rng.choice([1, 4, 33]))
    cur = {}
    # how each variable changes: at every record, rarely, or in bursts
    style = {n: rng.choice(['every', 'rare', 'burst', 'const', 'two']) for n in names}
    nrec = rng.choice([1, 6, 15, 30]) if nv < 100 else 6
    for r in range(nrec):
        for n in names:
            if n in late:
                if rng.random() < .7 or r == 0 and n != 'x':
                    late.remove(n)
                else:
                    continue
                cur[n] = rng.randrange(60)
            else:
                s = style[n]
                if s == 'every':
                    cur[n] += 1
                elif s == 'rare' and rng.random() < .15:
                    cur[n] = rng.randrange(60)
                elif s == 'burst' and (r // 7) % 2 == 0:
                    cur[n] += 1
                elif s == 'two':
                    cur[n] = 5 if r % 2 else 6
                elif rng.random() < .5:
                    continue
            W.setvar(n, ty[n], cur[n])
            if rng.random() < .05:
                X.get('w', n)
        W.write()
    if rng.random() < .3:
        W.setvar(names[0], ty[names[0]], 77)
    X.close('w')
    X.old('r', 'a.uv')
    X.items('r')
    for n, v in items:
        X.get('r', n)
    readall(X, rng, 'r', 14)
    X.rewind('r')
    for _ in range(rng.randrange(nrec + 1)):
        X.read('r', 14)
    if rng.random() < .5:
        X.rewind('r')
        readall(X, rng, 'r', 14)
    X.close('r')
    if rng.random() < .4:       # edit the header of an existing data set
        X.old('r', 'a.uv')
        n, v = rng.choice(items)
        X.set('r', n, 'edited' if n == 'history' else v)
        X.get('r', n)
        X.close('r')
        X.old('r', 'a.uv')
        X.get('r', n)
        X.get('r', 'history')
        X.items('r')
        X.read('r')
        X.close('r')


def hist_append(X, rng, k):
    """U03: sessions that append to a data set, each read back in between."""
    X.new('w', 'a.uv')
    w = rng.choice([1, 3, 31, 32, 64, 500])
    ty = {n: rng.choice(['i', 'd', 'r', 'a', 'd*']) for n in ['x', 'y', 'z']}
    X.set('w', 'history', 'start')
    first = True
    for s in range(rng.randrange(2, 5)):
        if not first:
            X.append('w', 'a.uv')
        W = Writer(X, rng, 'w', width=w)
        W.t += s
        if s and rng.random() < .5:
            W.t = lastt           # the same time as the record before
        for n in ty:
            if first or rng.random() < .8:
                X.addvar('w', n, ty[n])
                if first and n != 'z' or rng.random() < .6:
                    W.setvar(n, ty[n])
        if not first and rng.random() < .4:
            X.addvar('w', 'new%d' % s, 'i')
            W.setvar('new%d' % s, 'i')
        for _ in range(rng.choice([1, 1, 3, 12, 40] if w < 100 else [1, 5])):
            n = rng.choice(sorted(ty))
            if n in X.types['w'] and rng.random() < .5:
                W.setvar(n, ty[n])
            W.write()
        if rng.random() < .3 and 'x' in X.types['w']:
            W.setvar('x', ty['x'])       # set after the last record
        if not first and rng.random() < .3:
            X.set('w', 'history', 'again %d' % s)
        lastt = W.t
        X.close('w')
        first = False
        X.old('r', 'a.uv')
        X.get('r', 'history')
        readall(X, rng, 'r', 8)
        X.close('r')


def hist_multi(X, rng, k):
    """U04: several handles at once, operations that fail among them."""
    nfile = 0
    done = []
    W = {}
    R = []
    X2 = X
    for step in range(rng.choice([40, 80])):
        c = rng.random()
        if c < .08 and len(W) < 5:
            f, h = 'f%d.uv' % nfile, 'w%d' % nfile
            nfile += 1
            X.new(h, f)
            W[h] = Writer(X, rng, h, width=rng.choice([1, 4, 33]))
            X.addvar(h, 'x', 'i')
            if rng.random() < .7:
                X.set(h, 'history', 'h%d' % nfile)
        elif c < .13 and done and len(W) < 5:
            f = rng.choice(done)
            if not any(X.hf[r] == f for r in R):
                done.remove(f)
                h = 'w%d' % nfile
                nfile += 1
                X.append(h, f)
                W[h] = Writer(X, rng, h, width=1)
                X.addvar(h, 'x', 'i')
        elif c < .38 and W:
            h = rng.choice(sorted(W))
            if rng.random() < .5:
                W[h].setvar('x', 'i')
            W[h].write()
        elif c < .46 and W:
            h = rng.choice(sorted(W))
            if W[h].n:
                W.pop(h)
                done.append(X.hf[h])
                X.close(h)
        elif c < .55 and done and len(R) < 6:
            h = 'r%d' % step
            X.old(h, rng.choice(done))
            R.append(h)
        elif c < .75 and R:
            h = rng.choice(R)
            if X.read(h)['k'] == 'eof':
                X.rewind(h)
        elif c < .79 and R:
            h = rng.choice(R)
            R.remove(h)
            X.close(h)
        elif c < .82 and R:
            X.rewind(rng.choice(R))
        else:                           # something that must fail, and nothing else
            z = rng.randrange(13)
            live = sorted(W)
            if z == 0:
                X.old('bad', 'nosuch.uv')
            elif z == 1:
                X.append('bad', 'nosuch.uv')
            elif z == 2 and (done or W):
                X.new('bad', rng.choice(done + [X.hf[w] for w in live]))
            elif z == 3 and live:
                X.set(rng.choice(live), 'x', rng.choice(['text', 1.5, None]), bad=True, tok='bad')
            elif z == 4 and live:
                X.set(rng.choice(live), 'undecl', 4, bad=False)
            elif z == 5 and R:
                h = rng.choice(R)
                X.select(h, 'time', 5, 5)
                X.select(h, 'clear')
            elif z == 6 and R:
                X.select(rng.choice(R), 'antennae', rng.choice([2048, 5000, -3]), 1)
            elif z == 7 and R:
                h = rng.choice(R)
                X.select(h, 'on', 1)
                for _ in range(rng.randrange(1, 4)):
                    X.read(h)
                X.select(h, 'clear')
                X.rewind(h)
            elif z == 8 and R:
                h = rng.choice(R)
                X.get(h, rng.choice(['nope', 'leakage', 'nsols']))
            elif z == 9 and live:
                h = rng.choice(live)
                X.get(h, 'undecl')
            elif z == 10 and R:
                X.set(rng.choice(R), 'x', 3)
            elif z == 11 and R:
                X.write(rng.choice(R), 1, 0, 1, [1, 2, 3], mkdata(rng, 4), mkflags(rng, 4))
            elif z == 12 and live:
                h = rng.choice(live)
                X.addvar(h, 'muchtoolongname', 'i')
                X.set(h, 'muchtoolongname', 1, bad=True)
                X.types[h].pop('muchtoolongname')
                X.ftypes[X.hf[h]].pop('muchtoolongname')
    for h in sorted(W):
        if not W[h].n:
            W[h].write()
        X.close(h)
        done.append(X.hf[h])
    for h in R:
        X.close(h)
    for f in done:
        X.old('z', f)
        readall(X, rng, 'z')
        X.close('z')


def hist_manybad(X, rng, k):
    """U04: failing to open many times leaves handles for others."""
    X.new('w', 'a.uv')
    W = Writer(X, rng, 'w', width=3)
    W.write()
    os.makedirs(X.path('part.uv'))
    open(X.path('part.uv') + '/header', 'w').close()
    for _ in range(45):
        X.old('bad', rng.choice(['nosuch.uv', 'part.uv', 'part.uv']))
        X.new('bad', 'a.uv')
        X.append('bad', 'nosuch.uv')
    W.write()
    X.close('w')
    X.old('r', 'a.uv')
    readall(X, rng, 'r')
    X.close('r')


SELS = ['antennae', 'auto', 'time', 'tod', 'visibility', 'polarization', 'uvnrange', 'increment', 'on']


def rand_select(X, rng, h, vocab, nrec):
    kd = rng.choice(vocab)
    inc = rng.random() < .7
    a = b = 0
    if kd == 'antennae':
        c = [0, 1, 2, 3, 7, 30]
        a, b = rng.choice([-1] + c), rng.choice([-1, -1] + c)
    elif kd == 'time':
        a = rng.randrange(-2, 40)
        b = a + rng.choice([-1, 0, 1, 2, 8, 30, 1])
    elif kd == 'tod':
        a = rng.randrange(0, 16)
        b = rng.choice([a, a + 1, a + 4, 16])
    elif kd == 'visibility':
        a = rng.randrange(0, nrec + 2)
        b = a + rng.choice([-1, 0, 1, 4, nrec])
    elif kd == 'polarization':
        a = rng.choice([-5, -6, -7, -8, 1])
    elif kd == 'uvnrange':
        a = rng.randrange(-1, 6)
        b = a + rng.choice([0, 1, 3, 9])
    elif kd == 'increment':
        a = rng.choice([0, 1, 2, 3, 5])
    elif kd == 'on':
        a = rng.choice([0, 1])
    elif kd == 'window':
        a = rng.choice([1, 1, 1, 2, 2, 3, 4, 0, 17])
    elif kd == 'bin':
        a = rng.randrange(0, 5)
        b = a + rng.choice([-1, 0, 0, 1, 3])
    elif kd in ('frequency', 'uvrange', 'amplitude', 'pointing'):
        a = rng.randrange(-1 if rng.random() < .1 else 0, 5)
        b = a + rng.choice([0, 1, 1, 2, 4, 9])
        if kd == 'uvrange':
            a, b = 2 * a, 3 * b
    elif kd == 'lst':
        a, b = rng.randrange(0, 8), rng.randrange(0, 8)
    elif kd in ('dra', 'ddec', 'ra', 'dec', 'ha', 'elevation', 'dazim', 'delev'):
        a = rng.randrange(-4, 5)
        b = a + rng.choice([0, 1, 2, 5])
    elif kd == 'decimate':
        a, b = rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 1, 2, 5])
    return X.select(h, kd, a, b, inc)


def hist_select(X, rng, k):
    """U05: composed selections, changed on the way, cleared."""
    X.new('w', 'a.uv')
    extra = [[], ['on'], ['lst', 'obsra', 'antel'], ['dra', 'ddec'], ['ra', 'dec']][k % 5]
    haspol = rng.random() < .8
    ty = {'on': 'i', 'lst': 'd', 'obsra': 'd', 'antel': 'd', 'dra': 'r', 'ddec': 'r', 'ra': 'd', 'dec': 'd'}
    if haspol:
        X.addvar('w', 'pol', 'i')
    for n in extra:
        X.addvar('w', n, ty[n])
    W = Writer(X, rng, 'w', width=2)
    W.t = 0
    nrec = rng.choice([5, 12, 30])
    for r in range(nrec):
        if haspol and (r == 0 or rng.random() < .5):
            p = rng.choice([-5, -6, -7, -8])
            X.set('w', 'pol', p, num=p)
        for n in extra:
            if r == 0 or rng.random() < .5:
                x = rng.choice([0, 1]) if n == 'on' else rng.randrange(0, 8) if n == 'lst' else rng.randrange(-4, 5)
                X.set('w', n, x if n == 'on' else float(x), num=x)
        W.write(same_t=.5)
    X.close('w')
    vocab = [v for v in SELS if v != 'on'] + ['or', 'and', 'or', 'antennae', 'decimate']
    if 'on' in extra or rng.random() < .1:
        vocab += ['on', 'on']
    if 'lst' in extra:
        vocab += ['lst', 'ha', 'elevation'] * 2
    elif rng.random() < .1:
        vocab += ['lst']
    if 'dra' in extra:
        vocab += ['dra', 'ddec'] * 2
    if 'ra' in extra:
        vocab += ['ra', 'dec'] * 2
    X.old('r', 'a.uv')
    for rnd in range(rng.choice([4, 8])):
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if rand_select(X, rng, 'r', vocab, nrec)['k'] == 'err' and rng.random() < .5:
                break
        if rng.random() < .25:          # change the selection half way
            for _ in range(rng.randrange(1, 4)):
                if X.read('r', 3)['k'] != 'rec':
                    break
            else:
                rand_select(X, rng, 'r', vocab, nrec)
                if rng.random() < .3:
                    X.select('r', 'clear')
        if readall(X, rng, 'r', 3)['k'] == 'err':
            X.read('r', 3)
        if rng.random() < .5:
            X.select('r', 'clear')
            if rng.random() < .5:
                X.select('r', 'decimate', 1, 0)
        X.rewind('r')
        if rng.random() < .2:
            X.close('r')
            X.old('r', 'a.uv')
    X.close('r')


def hist_kinds(X, rng, k):
    """U05: selections by spectral windows, frequency, amplitude, pointing, bins and
    arrays of the antennas."""
    X.full = True
    ns = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3]))]
    num = {'nschan': lambda: ns, 'sfreq': lambda: [rng.randrange(1, 5) for _ in ns], 'sdf': lambda: [rng.choice([0, 1, 2]) for _ in ns],
           'bin': lambda: rng.randrange(1, 5), 'dazim': lambda: [rng.randrange(-4, 6) for _ in range(nant)],
           'delev': lambda: [rng.randrange(-4, 6) for _ in range(nant)], 'axisrms': lambda: [rng.choice([0, 0, 0, 0, 1, 2, 5]) for _ in range(62)],
           'pol': lambda: rng.choice([-5, -6])}
    ty = {'nschan': 'i', 'sfreq': 'd', 'sdf': 'd', 'bin': 'i', 'dazim': 'd', 'delev': 'd', 'axisrms': 'r', 'pol': 'i'}
    nant = rng.choice([1, 2, 5])
    X.new('w', 'a.uv')
    have = [n for n in sorted(num) if rng.random() < (.6 if n in ('dazim', 'delev', 'pol') else .93)]
    late = rng.choice(have) if have and rng.random() < .1 else None
    for n in have:
        X.addvar('w', n, ty[n])
    t = 0
    nrec = rng.choice([4, 10, 20])
    for r in range(nrec):
        for n in have:
            if n == late and r == 0:
                continue
            if r == 0 or n == late or rng.random() < (.15 if n == 'nschan' else .4):
                v = num[n]() if n != 'nschan' or r == 0 else rng.sample(ns, len(ns))
                X.set('w', n, np.array(v, dtype={'i': int, 'd': float, 'r': np.float32}[ty[n]]) if isinstance(v, list) else v, num=v)
        t += rng.choice([0, 1])
        i, j = ants(rng)
        w = sum(ns)
        d = np.array([rng.randrange(-4, 5) + 1j * rng.choice([0, 0, rng.randrange(-4, 5)]) for _ in range(w)])
        X.write('w', t, i, j, uvw(rng), d, mkflags(rng, w), how=rng.choice([0, 1, 2]))
    X.close('w')
    vocab = ['window', 'frequency', 'uvrange', 'amplitude', 'amplitude', 'pointing', 'bin', 'dazim', 'delev', 'antennae', 'polarization', 'visibility', 'and', 'or', 'decimate', 'time']
    some = rng.sample(vocab[:9], 3)
    X.old('r', 'a.uv')
    for rnd in range(rng.choice([4, 8])):
        what = rng.random()
        if what < .15 and len(ns) > 1:                    # neighbouring windows
            a = rng.randrange(1, len(ns))
            for x in rng.sample([a, a + 1], 2) + [2] * rng.choice([0, 0, 1]):
                X.select('r', 'window', x, 0)
        elif what < .25 and len(ns) > 1:                  # the frequency, and that of another window
            X.select('r', 'frequency', *rng.choice([(1, 3), (2, 4), (1, 4)]))
            X.select('r', 'and')
            X.select('r', 'window', rng.randrange(2, len(ns) + 1), 0)
            X.select('r', 'frequency', *rng.choice([(1, 3), (2, 4), (3, 4), (1, 2)]), rng.random() < .7)
        for _ in range(rng.choice([1, 1, 2, 3, 5]) if what > .25 else rng.choice([0, 0, 0, 1, 2])):
            if rand_select(X, rng, 'r', vocab + some * 3, nrec)['k'] == 'err' and rng.random() < .7:
                break
        if readall(X, rng, 'r', 3)['k'] == 'err':
            X.read('r', 3)
        if rng.random() < .7:
            X.select('r', 'clear')
            if rng.random() < .5:
                X.select('r', 'decimate', 1, 0)
        X.rewind('r')
        if rng.random() < .2:
            X.close('r')
            X.old('r', 'a.uv')
    X.close('r')


def hist_pipe(X, rng, k):
    """U06: clone a data set, whole or in part."""
    X.new('w', 'a.uv')
    names = ['v%d' % x for x in range(rng.randrange(2, 7))]
    ty = {n: rng.choice(['i', 'r', 'd', 'a', 'd*', 'c', 'i*']) for n in names}
    restart = rng.random() < .3     # clone after a first pass over the input
    if not restart:
        ty['late'] = 'i'
    ty['pol'] = 'i'
    for n in ty:
        X.addvar('w', n, ty[n])
    its = [('history', 'orig'), ('nfeeds', 2), ('interval', 0.125), ('ngains', 7)]
    for n, v in its[:1] + rng.sample(its[1:], rng.randrange(0, 4)):
        X.set('w', n, v)
    W = Writer(X, rng, 'w', width=rng.choice([1, 3, 33, 100]))
    W.t = 0
    nrec = rng.choice([1, 5, 20])
    style = {n: rng.random() for n in ty}
    for r in range(nrec):
        for n in ty:
            if n == 'late' and (r < 2 or rng.random() < .4):
                continue
            if n == 'pol':
                p = rng.choice([-5, -6, -7, -8])
                X.set('w', 'pol', p, num=p)
            elif n == 'late' or r == 0 or rng.random() < style[n]:
                W.setvar(n, ty[n])
        W.write()
    if rng.random() < .3:
        W.setvar(names[0], ty[names[0]])
    X.close('w')
    src, n_hops = 'a.uv', rng.choice([1, 1, 2])
    for hop in range(n_hops):
        dst = 'o%d.uv' % hop
        X.old('i', src)
        if restart:
            readall(X, rng, 'i', 2)
            X.rewind('i')
            X.read('i', 2)
        sel = 0
        if rng.random() < .6:
            for _ in range(rng.choice([1, 2])):
                z = rng.randrange(5)
                sel += 1
                if z == 0:
                    X.select('i', 'antennae', rng.choice([0, 1, 2]), -1, rng.random() < .7)
                elif z == 1:
                    X.select('i', 'polarization', rng.choice([-5, -6]), 0, rng.random() < .7)
                elif z == 2:
                    X.select('i', 'decimate', rng.choice([2, 3]), rng.choice([0, 1]))
                elif z == 3:
                    X.select('i', 'auto', 0, 0, rng.random() < .5)
                else:
                    X.select('i', 'time', 0, rng.choice([2, 10, 1000]))
        X.new('o', dst)
        known = [n for n in X.ftypes[src]]
        over, num = {}, {}
        for n in rng.sample(known, rng.choice([0, 1, 2])):
            over[n] = value(X.ftypes[src][n], rng.randrange(60))
            if isinstance(over[n], int) and abs(over[n]) < 1 << 20:
                num[n] = over[n]
        if rng.random() < .3:
            over['history'] = 'instead'
        if rng.random() < .2:
            over['nosuch'] = 3
        excl = [n for n in known if n not in over and rng.random() < .2]
        if rng.random() < .2:
            excl.append('nfeeds')
        X.initfrom('o', 'i', over, excl, num)
        free = [n for n in over if n in X.ftypes[src] and n in X.h['i'].vartable]
        if rng.random() < .5:           # a variable that is not in the input
            x = 'extra%d' % hop
            X.addvar('o', x, 'i')
            X.set('o', x, 5, num=5)
            free.append(x)
        for it in ['history', 'nfeeds', 'interval']:
            X.get('o', it)
        if restart:
            X.rewind('i')
        style = rng.choice(['none', 'same', 'drop', 'change', 'const', 'mix', 'shrink'])
        cst = (W.t, 0, 1, [1, 1, 1])

        def mf(n, o, d, f):
            s = rng.choice(['same', 'drop', 'change']) if style == 'mix' else style
            sets = []
            if free and rng.random() < .4:
                v = rng.choice(free)
                t = X.ftypes[src].get(v, 'i')
                x = value(t, rng.randrange(60))
                sets.append((v, x, x if isinstance(x, int) and abs(x) < 1 << 20 else 0))
            if s == 'drop' and (n % 2 or n == 0):
                return None, sets
            if s == 'change':
                return (o['t'] + 3, 0, o['j'] + 1, uvw(rng), d * 2, ~f), sets
            if s == 'const':
                return (cst[0], cst[1], cst[2], cst[3], d, f), sets
            if s == 'shrink' and len(d) > 1:
                return (o['t'], o['i'], o['j'], [1, 2, 3], d[:len(d) // 2], f[:len(d) // 2]), sets
            return 'same', sets
        X.pipe('o', 'i', mf, rng.choice(['', ' more', ' and\nmore']), raw=rng.random() < .5)
        if rng.random() < .3:
            X.vars('o')
        X.close('i')
        X.close('o')
        X.old('r', dst)
        if X.h.get('r') is None:
            return
        X.items('r')
        for n, v in its:
            X.get('r', n)
        readall(X, rng, 'r', 10)
        X.close('r')
        src = dst


def hist_wide(X, rng, k):
    """U01: a record with more channels than the first."""
    X.new('w', 'a.uv')
    W = Writer(X, rng, 'w', width=[2, 7, 40][k % 3])
    W.write()
    W.w += [1, 5, 3000][k % 3]
    W.write()
    X.close('w')
    X.old('r', 'a.uv')
    readall(X, rng, 'r')


HIST = {'wide': hist_wide, 'records': hist_records, 'vars': hist_vars, 'append': hist_append, 'multi': hist_multi,
        'manybad': hist_manybad, 'select': hist_select, 'kinds': hist_kinds, 'pipe': hist_pipe}


def replay(X, rng, ops):
    """Steps of a behaviour of UVGen.tla."""
    for o in ops:
        op = o['op']
        if op in ('new', 'append', 'old'):
            getattr(X, op)(o['h'], o['f'])
        elif op == 'addvar':
            X.addvar(o['h'], o['n'], {'pol': 'i', 'x': 'd', 'y': 'a', 'z': 'i*'}[o['n']])
        elif op == 'set':
            if o['n'] == 'pol':
                X.set(o['h'], 'pol', o['x'], num=o['x'])
            elif o['n'] == 'history':
                X.set(o['h'], 'history', 'hist%d' % o['x'])
            else:
                X.set(o['h'], o['n'], value({'x': 'd', 'y': 'a', 'z': 'i*'}[o['n']], o['x']))
        elif op == 'get':
            X.get(o['h'], o['n'])
        elif op == 'write':
            n = 3
            d = (np.arange(n) + o['x']).astype(np.complex64)
            X.write(o['h'], o['t'], o['i'], o['j'], [o['i'] + o['x'], o['j'], 0], d,
                    [bool((o['x'] >> z) & 1) for z in range(n)], how=o['x'] % 3)
        elif op == 'read':
            X.read(o['h'])
        elif op in ('rewind', 'close', 'items', 'vars'):
            getattr(X, op)(o['h'])
        elif op == 'select':
            X.select(o['h'], o['kd'], o['a'], o['b'], o['inc'])
        elif op == 'initfrom':
            X.initfrom(o['h'], o['hi'], {n: value({'x': 'd', 'y': 'a', 'z': 'i*', 'pol': 'i'}[n], 33) for n in o['over']},
                       o['excl'], num={'pol': 33})
        elif op == 'pipe':
            def mf(n, obs, d, f):
                if o['style'] == 'drop' and obs['i'] == obs['j']:
                    return None, []
                if o['style'] == 'const':
                    return (4, 0, 1, [1, 1, 1], d, f), []
                return 'same', []
            X.pipe(o['h'], o['hi'], mf, ' p', raw=o['raw'])
        else:
            raise ValueError(op)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    if a.mode == 'behaviours':
        for k, ops in enumerate(json.load(open(a.behs))):
            rng = random.Random(k)
            if rec.start(kind='behaviour', index=k, ops=len(ops)):
                X = UVExec(rec, a.wd, rng)
                replay(X, rng, ops)
                X.finish()
                rec.end()
        return
    for mode in a.mode.split(','):
        for k in range(a.n):
            s = '%s-%d-%d' % (mode, a.seed, k)
            rng = random.Random(s)
            if rec.start(kind='random', history=mode, seed=s):
                X = UVExec(rec, a.wd, rng)
                HIST[mode](X, rng, k)
                X.finish()
                rec.end()


if __name__ == '__main__':
    main()
