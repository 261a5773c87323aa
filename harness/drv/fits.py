"""Images and maps in FITS files (specs/Fits.tla)."""
import math, os, random, shutil, sys, warnings
import numpy as np
from astropy.io import fits as F
from . import base
from .uvexec import short
from aipy import img, map as amap

warnings.simplefilter('ignore')
BAD = -2 ** 30
KEYS = {'object': 'OBJECT', 'telescope': 'TELESCOP', 'instrument': 'INSTRUME', 'observer': 'OBSERVER', 'obs_date': 'DATE-OBS',
        'epoch': 'EQUINOX', 'origin': 'ORIGIN', 'cur_date': 'DATE'}
RA, DEC, FREQ = ['RA---SIN', 'RA--SIN', 'RA', 'GLON-CAR'], ['DEC--SIN', 'DEC', 'GLAT-CAR'], ['FREQ', 'FREQ-LSR']
OTHER = ['STOKES', 'LINEAR', 'VELO-LSR']


def q(x):
    try:
        x = float(x) * 64
    except (TypeError, ValueError):
        return BAD
    return int(x) if math.isfinite(x) and x == round(x) and abs(x) < 2 ** 30 else BAD


def codes(s):
    return [ord(c) for c in s]


def ink(s):
    return [ord(c) for c in s if c not in ' #']


def text(x):
    """A keyword as text: numbers in units of 1/64."""
    return x if isinstance(x, str) else str(q(x))


def vals(d):
    return [q(x) for x in np.asarray(d).ravel()]


def see(wd):
    out = {}
    for n in sorted(os.listdir(wd)):
        with F.open(os.path.join(wd, n)) as h:
            hist = []
            if 'HISTORY' in h[0].header:
                hist = [c for l in h[0].header['HISTORY'] for c in ink(l)]
            if len(h) > 1:
                out[n] = {'kind': 'map', 'hist': hist}
                continue
            p, hd = h[0], h[0].header
            ax = []
            for i in range(1, hd['NAXIS'] + 1):
                a = {'name': hd.get('CTYPE%d' % i, '')}
                if 'CRVAL%d' % i in hd:
                    a.update(val=q(hd['CRVAL%d' % i]), step=q(hd['CDELT%d' % i]), pix=q(hd['CRPIX%d' % i]))
                ax.append(a)
            out[n] = {'kind': 'image', 'shape': list(p.data.shape), 'v': vals(p.data), 'ax': ax, 'tr': bool(hd.get('TRANSPOS', 0)), 'hist': hist,
                      'key': {k: text(hd[KEYS[k]]) for k in KEYS if KEYS[k] in hd},
                      'lim': [q(hd['DATAMIN']), q(hd['DATAMAX'])] if 'DATAMIN' in hd else []}
    return out


def array(rng, shape):
    dt = rng.choice([np.float64, np.float32, np.float64, np.int16, np.int32, np.uint8, '>f4', '>f8'])
    n = int(np.prod(shape))
    d = np.array([rng.randrange(0, 200) if dt is np.uint8 else rng.randrange(-99, 100) for _ in range(n)]).reshape(shape)
    d = d.astype(dt)
    if d.dtype.kind == 'f':
        d += np.array(rng.randrange(64) / 64., d.dtype)
    k = rng.randrange(4)
    if k == 0:
        d = np.asfortranarray(d)
    elif k == 1 and len(shape) > 1:
        d = np.repeat(d, 2, axis=1)[:, ::2]
    return d


def words(rng, most=12, hashes=False):
    n = rng.choice([0, 1, 2, 5, 12, 25])
    w = [''.join(rng.choice('abcXYZ019-_.:=/,') for _ in range(rng.choice([1, 2, 3, 5, 8, most, most * rng.choice([1, 1, 8])]))) for _ in range(n)]
    s = rng.choice([' ', ' ', '  ']).join(w)
    if hashes and rng.random() < .4:
        s = '#' + s
    return s


def history(rng):
    ls = [words(rng, hashes=True) for _ in range(rng.choice([0, 0, 1, 1, 3]))]
    return [l for l in ls if len(l.strip()) > 1]


def num(rng):
    return rng.choice([0, 1, -1]) * rng.randrange(1, 4000)


class World:
    def __init__(self, rec, rng, wd):
        self.rec, self.rng, self.wd = rec, rng, wd

    def call(self, fn, **e):
        self.rec.pend(e)
        try:
            r = fn()
            e['ok'] = True
            if e['op'] == 'read':
                e['r'] = r
            elif e['op'] == 'wrap':
                e['lines'] = r
        except Exception as ex:
            e['ok'] = False
            e['err'] = short(repr(ex))
        if e['op'] not in ('wrap', 'read'):
            e['dir'] = see(self.wd)
        self.rec.ev(**e)

    def kws(self):
        rng = self.rng
        kw = {k: num(rng) for k in ('ra', 'dec', 'd_ra', 'd_dec', 'freq', 'd_freq')}
        st = {k: rng.choice(['', 'Cas A', "o'brien", 'x' * 20, '12:30']) for k in ('object', 'telescope', 'instrument', 'observer')}
        st['origin'] = rng.choice(['AIPY', 'me'])
        st['obs_date'], st['cur_date'] = '2009/6/17 12:00:00', '11/19/26'
        return kw, st

    def axes(self, n):
        rng = self.rng
        c = [rng.choice(RA), rng.choice(DEC), rng.choice(FREQ)] + rng.sample(OTHER, 2)
        if rng.random() < .6:
            c = c[:max(n, 2)]
        if rng.random() < .5:
            rng.shuffle(c)
        return c[:n]

    def shape(self, n=None):
        n = n or self.rng.choice([1, 2, 2, 2, 3, 4])
        return [self.rng.choice([2, 3, 4, 5]) for _ in range(n)]

    def write(self, names):
        rng = self.rng
        shape = self.shape()
        n = len(shape)
        if rng.random() < .1:
            n = max(1, n + rng.choice([-1, 1]))
        axes = self.axes(n)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            shape.insert(rng.randrange(len(shape) + 1), 1)
        d = array(rng, shape)
        was = d.copy()
        kw, st = self.kws()
        epoch = rng.choice([1950., 2000., 2015.5])
        hist = history(rng)
        name = rng.choice(names)
        clobber = rng.random() < .6
        given = [x if rng.random() < .5 else x.lower() for x in axes]
        args = dict({k: v / 64. for k, v in kw.items()}, **st)
        for k in ('freq', 'd_freq', 'd_ra', 'object', 'telescope', 'history'):     # what has a default
            if rng.random() < .15 and k in args:
                del args[k]
                if k in kw:
                    kw[k] = 0
                else:
                    st[k] = ''
        if hist:
            args['history'] = '\n'.join(hist)
        if clobber or rng.random() < .5:
            args['clobber'] = clobber
        e = dict(op='write', name=name, shape=shape, v=vals(d), axes=axes, kw=kw, key=dict(st, epoch=text(epoch)), text=[codes(l) for l in hist], clobber=clobber)

        def go():
            try:
                img.to_fits(os.path.join(self.wd, name), d, axes=given, epoch=epoch, **args)
            finally:
                e['intact'] = bool(d.shape == was.shape and d.dtype == was.dtype and np.array_equal(d, was))
        # the call changes e while it runs
        self.rec.pend(e)
        try:
            go()
            e['ok'] = True
        except Exception as ex:
            e['ok'], e['err'] = False, short(repr(ex))
        e['dir'] = see(self.wd)
        self.rec.ev(**e)

    def foreign(self, names):
        """A file that another program made: not all of what to_fits writes."""
        rng = self.rng
        shape = self.shape(rng.choice([2, 2, 3]))
        d = array(rng, shape)
        f = {'kind': 'image', 'shape': shape, 'v': vals(d), 'ax': [], 'tr': False, 'key': {}, 'hist': [], 'lim': []}
        h = F.PrimaryHDU(d)
        if rng.random() < .7:
            f['tr'] = rng.random() < .7
            h.header['TRANSPOS'] = int(f['tr'])
        for k in KEYS:
            if rng.random() < .4:
                f['key'][k] = 'foreign'
                h.header[KEYS[k]] = 'foreign'
        for i, n in enumerate(self.axes(len(shape))):
            a = {'name': n if rng.random() < .8 else ''}
            if a['name']:
                h.header['CTYPE%d' % (i + 1)] = n
            if rng.random() < .8:
                a.update(val=num(rng), step=num(rng), pix=64)
                for k, v in (('CRVAL', a['val']), ('CDELT', a['step']), ('CRPIX', 64)):
                    h.header['%s%d' % (k, i + 1)] = v / 64.
            f['ax'].append(a)
        name = rng.choice(names)

        def go():
            h.writeto(os.path.join(self.wd, name), overwrite=True)
        self.call(go, op='foreign', name=name, file=f)

    def read(self, name):
        def go():
            d, kw = img.from_fits(os.path.join(self.wd, name))
            return {'shape': list(d.shape), 'v': vals(d), 'axes': [x.upper() for x in kw['axes']], 'key': {k: text(kw[k]) for k in KEYS if k in kw},
                    'num': {k: q(kw[k]) for k in ('ra', 'd_ra', 'dec', 'd_dec', 'freq', 'd_freq') if k in kw}}
        self.call(go, op='read', name=name)

    def copy(self, name, f, names):
        rng = self.rng
        shape = f['shape'] if rng.random() < .6 else self.shape(len(f['shape']))
        d = array(rng, shape)
        kw, _ = self.kws()
        kw = {k: v for k, v in kw.items() if rng.random() < .5}
        args = {k: v / 64. for k, v in kw.items()}
        if rng.random() < .4:
            kw['object'] = args['object'] = rng.choice(['new', 'other one'])
        hist = history(rng) or ['copied by the check']
        to = rng.choice([n for n in names if n != name])

        def go():
            img.from_fits_to_fits(os.path.join(self.wd, name), os.path.join(self.wd, to), d, args, history='\n'.join(hist))
        self.call(go, op='copy', name=name, to=to, shape=shape, v=vals(d), kw=kw, text=[codes(l) for l in hist])

    def map(self, names):
        rng = self.rng
        m = amap.Map(nside=1, nindices=rng.choice([0, 1]))
        hist = history(rng)
        name = rng.choice(names)
        clobber = rng.random() < .6
        args = dict(history='\n'.join(hist)) if hist else {}
        if clobber or rng.random() < .5:
            args['clobber'] = clobber
        self.call(lambda: m.to_fits(os.path.join(self.wd, name), **args), op='map', name=name, text=[codes(l) for l in hist], clobber=clobber)

    def wrap(self):
        rng = self.rng
        s = words(rng, hashes=True)
        ind1, ind2, prefix = rng.randrange(6), rng.randrange(6), rng.choice(['', '#', '# ', '>>'])
        width = rng.choice([80, 70, rng.randrange(12, 30)])
        self.call(lambda: [codes(l) for l in img.word_wrap(s, width, ind1, ind2, prefix).split('\n')], op='wrap', s=codes(s), width=width, ind1=ind1, ind2=ind2, prefix=codes(prefix))


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    wd = os.path.join(a.wd, 'files')
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    rng0 = random.Random('%s-fits' % a.seed)
    for n in range(a.n):
        rng = random.Random(rng0.random())
        if not rec.start():
            continue
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        w = World(rec, rng, wd)
        names = ['a.fits', 'b.fits', 'c.fits'][:rng.choice([2, 2, 3])]
        for _ in range(rng.choice([4, 6, 9])):
            have = see(wd)
            pics = [x for x in sorted(have) if have[x]['kind'] == 'image']
            whole = [x for x in pics if all(z['name'] for z in have[x]['ax']) and not have[x]['tr'] and all('val' in z for z in have[x]['ax']) and 'object' in have[x]['key']]
            k = rng.randrange(12)
            if k < 4 or not pics:
                w.write(names)
            elif k < 7:
                w.read(rng.choice(pics))
            elif k == 7:
                w.foreign(names)
            elif k == 8 and whole:
                x = rng.choice(whole)
                w.copy(x, have[x], names)
            elif k == 9:
                w.map(names)
            else:
                w.wrap()
        for x in sorted(see(wd)):
            if see(wd)[x]['kind'] == 'image':
                w.read(x)
        rec.end()
    shutil.rmtree(wd, ignore_errors=True)


main()
