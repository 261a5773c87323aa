"""Executes operations of specs/UV.tla on aipy.miriad.UV and records them."""
import hashlib, os, shutil
import numpy as np
from aipy import miriad

T0 = 2455000.5
LONG = 60


def short(s):
    s = s.encode('unicode_escape').decode('ascii').replace('\\', '/')
    return s if len(s) <= LONG else s[:8] + '#' + hashlib.sha1(s.encode()).hexdigest()[:16]


def canon(v):
    """A text token of a value, the same for equal values."""
    if isinstance(v, bytes):
        return 'b:' + short(repr(v))
    if isinstance(v, str):
        return 's:' + short(v.rstrip('\0'))
    a = np.asarray(v)
    if a.dtype.kind in 'biu':
        return 'i:' + short(','.join(str(int(x)) for x in a.ravel()))
    if a.dtype.kind == 'f':
        return 'f:' + short(','.join(repr(float(x)) for x in a.ravel()))
    if a.dtype.kind == 'c':
        return 'c:' + short(','.join(repr(complex(x)) for x in a.ravel()))
    return '?:' + short(repr(v))


def dtok(d):
    d = np.ascontiguousarray(d).astype(np.complex64)
    return '%d.%s' % (d.size, hashlib.sha1(d.tobytes()).hexdigest()[:16])


def ftok(f):
    s = ''.join('1' if x else '0' for x in np.asarray(f).ravel())
    return s if len(s) <= LONG else '%d.%s' % (len(s), hashlib.sha1(s.encode()).hexdigest()[:16])


def tick(t):
    k = (float(t) - T0) * 16
    return int(k) if k == int(k) and abs(k) < 1 << 24 else -999999


def blcode(i, j):
    return 256 * (i + 1) + j + 1 if j + 1 < 256 else 2048 * (i + 1) + j + 1 + 65536


def value(ty, x):
    """The concrete value of type ty that the number x stands for.  A type of
    two letters is an array: x then also gives the length."""
    b = ty[0]
    if len(ty) > 1:
        n = 2 + x % 3 if ty[1] == '*' else int(ty[1:])
        if b in 'ij':
            a = (np.arange(n) * 7 + x * 3 - 5).astype(np.int64)
            return a if x % 2 else a.astype(np.int64)
        if b == 'r':
            return (np.arange(n) / 4. + x).astype(np.float32)
        if b == 'd':
            return np.arange(n) / 8. + x * 1.125 + 1e6
        if b == 'c':
            return (np.arange(n) / 4. + x) + 1j * (x - np.arange(n) / 2.)
    if b == 'i':
        return x if abs(x) < 1000 else x * 1000003 % 2147483647
    if b == 'j':
        return x % 32768 - (16384 if x > 100 else 0)
    if b == 'r':
        return float(np.float32(x / 4. - 1.5))
    if b == 'd':
        return x * 1.1 + 1e-3
    if b == 'c':
        return complex(x / 4., 1.25 - x)
    if b == 'a':
        return '\u03b1%d\u00e9' % x if x % 7 == 3 else ('val%d' % x) * (1 + x % 3) if x % 5 else 'v'
    raise ValueError(ty)


def said(**kw):
    """The arguments that are not as they are by default."""
    return {k: v for k, (v, d) in kw.items() if v != d}


class UVExec:
    def __init__(self, rec, wd, rng):
        self.rec, self.wd, self.rng = rec, wd, rng
        self.h = {}
        self.types = {}         # handle -> {name: type}
        self.ftypes = {}        # file -> {name: type}
        self.hf = {}
        self.mode = {}
        self.raw = 0
        self.full = False       # record data (small integers) and flags by channel
        for f in os.listdir(wd):        # left by a run that died
            shutil.rmtree(os.path.join(wd, f), ignore_errors=True)

    def path(self, f):
        return os.path.join(self.wd, f)

    def finish(self):
        for x in list(self.h):
            self.h.pop(x)
        for f in os.listdir(self.wd):
            shutil.rmtree(os.path.join(self.wd, f), ignore_errors=True)

    def ev(self, **e):
        self.rec.ev(**e)

    def do(self, fn, **e):
        """Record the operation e with the result of fn()."""
        self.rec.pend({k: v for k, v in e.items() if k in ('op', 'h', 'f', 'n', 'kd', 'a', 'b')})
        try:
            o = fn()
        except Exception as ex:
            o = {'k': 'err', 'ex': short(repr(ex))}
        e['o'] = o
        if o is not None:
            self.ev(**e)
        return o

    def seen(self, uv, f, n=None):
        """Tokens of variables of a handle that reads f."""
        names = [x for x in sorted(set(self.ftypes.get(f, {})) | {'coord', 'time', 'baseline', 'nchan'})]
        if n is not None and len(names) > n:
            names = self.rng.sample(names, n)
        out = {}
        for x in names:
            try:
                out[x] = canon(uv[x])
            except (RuntimeError, KeyError, IOError, ValueError, IndexError, SystemError, UnicodeError):
                out[x] = '!'
        return out

    # -- operations
    def new(self, h, f, corr='r'):
        def fn():
            self.h[h] = miriad.UV(self.path(f), 'new', **said(corrmode=(corr, 'r')))
            self.types[h], self.hf[h], self.mode[h] = {}, f, 'w'
            self.ftypes.setdefault(f, {})
            return {'k': 'ok'}
        return self.do(fn, op='new', h=h, f=f)

    def append(self, h, f, corr='r'):
        def fn():
            self.h[h] = miriad.UV(self.path(f), 'append', **said(corrmode=(corr, 'r')))
            self.types[h], self.hf[h], self.mode[h] = {}, f, 'w'
            return {'k': 'ok'}
        return self.do(fn, op='append', h=h, f=f)

    def old(self, h, f, corr='r'):
        def fn():
            uv = self.h[h] = miriad.UV(self.path(f), **said(corrmode=(corr, 'r')))
            self.hf[h], self.mode[h] = f, 'r'
            return {'k': 'opened', 'vars': self.seen(uv, f), 'names': sorted(uv.vars())}
        o = self.do(fn, op='old', h=h, f=f)
        if o['k'] == 'err':
            self.h.pop(h, None)
        return o

    def close(self, h):
        def fn():
            self.h.pop(h)
            return {'k': 'ok'}
        return self.do(fn, op='close', h=h)

    def addvar(self, h, n, ty):
        def fn():
            self.h[h].add_var(n, ty[0])
            self.types[h][n] = ty
            self.ftypes[self.hf[h]][n] = ty
            return {'k': 'ok'}
        return self.do(fn, op='addvar', h=h, n=n)

    def set(self, h, n, v, num=0, bad=False, tok=None):
        def fn():
            self.h[h][n] = v
            return {'k': 'ok'}
        return self.do(fn, op='set', h=h, n=n, v=tok or canon(v), num=num, bad=bad)

    def get(self, h, n):
        def fn():
            return {'k': 'val', 'v': canon(self.h[h][n])}
        return self.do(fn, op='get', h=h, n=n)

    def items(self, h):
        return self.do(lambda: {'k': 'names', 'names': sorted(self.h[h].items())}, op='items', h=h)

    def vars(self, h):
        return self.do(lambda: {'k': 'names', 'names': sorted(self.h[h].vars())}, op='vars', h=h)

    def record(self, t, i, j, uvw, d, f):
        uvw = np.array(uvw, dtype=np.double)
        tt = T0 + t / 16.
        uu = int(uvw[0]) ** 2 + int(uvw[1]) ** 2
        return dict(self.whole(d, f), **dict(t=t, i=i, j=j, uvw=canon(uvw), uu=uu, d=dtok(d), f=ftok(f),
                    auto={'coord': canon(uvw), 'time': canon(tt), 'nchan': 'i:%d' % len(d),
                          'baseline': canon(float(np.float32(blcode(i, j))))})), (uvw, tt, (i, j))

    def whole(self, d, f):
        if not self.full:
            return {}
        num = lambda x: int(x) if x == int(x) and abs(x) < 1 << 20 else -999999
        return {'ch': [[num(x.real), num(x.imag)] for x in d], 'fl': [int(bool(x)) for x in f]}

    def write(self, h, t, i, j, uvw, d, f, how=0):
        """how: 0 masked array, 1 data and flags apart, 2 masked array without
        a mask where nothing is flagged, 3 write(p, None)"""
        e, p = self.record(t, i, j, uvw, d, f)

        def fn():
            if how == 3:
                self.h[h].write(p, None)
            elif how == 1:
                self.h[h].write(p, np.array(d), np.array(f, dtype=bool))
            elif how == 2 and not np.any(f):
                self.h[h].write(p, np.ma.array(d))
            else:
                self.h[h].write(p, np.ma.array(d, mask=np.array(f, dtype=bool)))
            return {'k': 'ok'}
        return self.do(fn, op='write', h=h, none=(how == 3), **e)

    def got(self, r, raw):
        if raw:
            (uvw, t, (i, j)), d, f = r
        else:
            (uvw, t, (i, j)), d = r
            d, f = d.data, np.ma.getmaskarray(d)
        return dict(self.whole(d, f), **{'k': 'rec', 't': tick(t), 'i': int(i), 'j': int(j), 'uvw': canon(uvw), 'd': dtok(d), 'f': ftok(f)})

    def read(self, h, nv=8):
        self.raw ^= 1
        raw = bool(self.raw)

        def fn():
            uv = self.h[h]
            try:
                r = uv.read(**said(raw=(raw, False)))
            except IOError:
                return {'k': 'eof' if self.mode[h] == 'r' else 'err'}
            o = self.got(r, raw)
            o['vars'] = self.seen(uv, self.hf[h], nv)
            return o
        return self.do(fn, op='read', h=h)

    def rewind(self, h):
        def fn():
            self.h[h].rewind()
            return {'k': 'ok'}
        return self.do(fn, op='rewind', h=h)

    def select(self, h, kd, a=0, b=0, inc=True):
        """a and b are ticks for time and 16ths of a day for tod."""
        def fn():
            if kd == 'time':
                self.h[h].select('time', T0 + a / 16., T0 + b / 16., **said(include=(inc, True)))
            elif kd == 'tod':
                self.h[h].select('time', a / 16., b / 16., **said(include=(inc, True)))
            elif kd == 'unknown':
                self.h[h].select('nosuchthing', a, b, **said(include=(inc, True)))
            else:
                self.h[h].select(kd, a, b, **said(include=(inc, True)))
            return {'k': 'ok'}
        return self.do(fn, op='select', h=h, kd=kd, a=a, b=b, inc=bool(inc))

    def initfrom(self, h, hi, over=None, excl=(), num=None):
        over = over or {}
        num = num or {}

        def fn():
            self.h[h].init_from_uv(self.h[hi], **said(override=(over, {}), exclude=(list(excl), [])))
            ft = self.ftypes[self.hf[hi]]
            self.types[h] = {k: v for k, v in ft.items() if k not in excl}
            self.ftypes[self.hf[h]].update(self.types[h])
            return {'k': 'ok'}
        return self.do(fn, op='initfrom', h=h, hi=hi, excl=list(excl),
                       over={k: {'v': canon(v), 'num': num.get(k, 0)} for k, v in over.items()})

    def pipe(self, h, hi, mf, hist='', raw=False):
        """mf(k, p, d, f) -> None or (t, i, j, uvw, d, f), and a list of
        (name, value, num) to set in the output."""
        first = [True]

        def begin():
            self.ev(op='pipe', h=h, hi=hi, hist=canon(hist)[2:], o={'k': 'ok'})
            first[0] = False
        cnt = [0]

        def cb(uv, p, d, f=None):
            if first[0]:
                begin()
            o = self.got((p, d, f) if raw else (p, d), raw)
            o['vars'] = self.seen(uv, self.hf[hi], 8)
            fl = np.logical_not(np.logical_not(f)) if raw else np.ma.getmaskarray(d)
            r, sets = mf(cnt[0], o, np.array(d if raw else d.data), np.array(fl))
            cnt[0] += 1
            for n, v, num in sets:
                self.h[h][n] = v
            ss = [{'n': n, 'v': canon(v), 'num': num} for n, v, num in sets]
            if r is None:
                out = {'none': True}
                rv = (p, None, None) if raw else (p, None)
            elif r == 'same':
                e, _ = self.record(o['t'], o['i'], o['j'], p[0], d if raw else d.data, fl)
                out = dict(none=False, **e)
                rv = (p, d, f) if raw else (p, d)
            else:
                e, p2 = self.record(*r)
                out = dict(none=False, **e)
                m = np.array(r[5], dtype=bool)
                rv = (p2, r[4], m) if raw else (p2, np.ma.array(r[4], mask=m))
            self.ev(op='mfunc', h=h, hi=hi, sets=ss, out=out, o=o)
            self.rec.pend({'op': 'mfunc', 'h': h})
            return rv

        def fn():
            try:
                self.h[h].pipe(self.h[hi], mfunc=cb, **said(append2hist=(hist, ''), raw=(raw, False)))
            except Exception as ex:
                if first[0]:            # before the first record
                    self.ev(op='pipe', h=h, hi=hi, hist=canon(hist)[2:], o={'k': 'err', 'ex': short(repr(ex))})
                    return None
                raise
            if first[0]:
                begin()
            return {'k': 'ok'}
        return self.do(fn, op='piped', h=h, hi=hi)
