"""The scripts that make images and maps (specs/Imaging.tla)."""
import math, os, random, shutil, sys, warnings
import numpy as np
import ephem
from astropy.io import fits as F
from . import base, scripts
from .scripts import World as Base, POLS, HZ, T0, DT, VCAL, jd, num, dataset, axis, some, chans, array, BAD
from .uvexec import short
from aipy import img as I, map as M, fit, cal, phs, deconv, healpix, coord, src as S

warnings.simplefilter('ignore')
UNIT, MAP = 2. ** 20, 65536.
VCAL = VCAL.replace("'low':", "'pole': ('0:30:00', '85:00:00', 3., 0.), 'low':")
DAY = {}


def ints(v, k):
    v = np.asarray(v, float)
    return [int(round(x * k)) if math.isfinite(x) and abs(x * k) < BAD else BAD for x in v.ravel()]


def points(n):
    """The pixels that are looked at."""
    return [(0, 0), (n // 2, n // 2), (3, 7), (n // 2 + 2, n // 2 - 3), (n - 1, 1)]


def at(d):
    n = d.shape[0]
    return ints([d[p] for p in points(n)], UNIT)


def ang(x):
    return num(round(x * 256))


def when(text):
    """The tick of the date of a header."""
    return int(round((ephem.julian_date(ephem.Date(text)) - T0) / DT))


class World(Base):
    def image(self, n):
        try:
            d, kw = I.from_fits(os.path.join(self.d, n))
            tag = n.split('.')[-2]
            if d.ndim != 2 or d.shape[0] != d.shape[1]:
                return {'bad': str(d.shape)}
            return {'obj': kw['object'], 'ra': ang(kw['ra'] % 360), 'dec': ang(kw['dec']), 't': when(kw['obs_date']),
                    'n': int(d.shape[0]), 'v': [] if tag in ('uvs', 'bms') else at(d)}
        except Exception as ex:
            return {'bad': short(repr(ex))}

    def map(self, n):
        try:
            with F.open(os.path.join(self.d, n)) as h:
                t = h[1].data
                cols = [ints(t.field(k).astype(float), MAP) for k in range(len(t.columns))]
                return {'nside': int(h[1].header['NSIDE']), 'v': cols[0], 'w': cols[1], 's': cols[2:]}
        except Exception as ex:
            return {'bad': short(repr(ex))}

    def see(self):
        o = {'img': {}, 'map': {}}
        for n in sorted(os.listdir(self.d)):
            if n.endswith('.map'):
                o['map'][n] = self.map(n)
            elif n.endswith('.fits'):
                o['img'][n] = self.image(n)
        return o

    def begin(self, sets):
        self.rec.pend({'op': 'make'})
        for n in sorted(sets):
            self.make(n, sets[n])
        self.made(dir={n: [{k: r[k] for k in 'tijpf'} for r in ds['recs']] for n, ds in sets.items()})

    def made(self, dir={}):
        self.rec.ev(op='make', dir=dir, **self.see())


# ---------------------------------------------------------------- mk_img
def source(o, name, first):
    """The source of this name, new."""
    if o['src'] == 'zen':
        aa = array(o)
        aa.set_jultime(jd(first))
        return phs.RadioFixedBody(aa.sidereal_time(), aa.lat, name='zen')
    if o['src'] == 'facets':
        ras, decs = o['centers']
        return phs.RadioFixedBody(ras[int(name)], decs[int(name)], name=name)
    return list(cal.get_catalog('vcal', [name]).values())[0]


def parts(o, ds, r, name, first):
    """What one record adds to the images, channel by channel."""
    n = ds['nchan']
    aa = array(ds)
    p = POLS[r['p']]
    aa.set_jultime(jd(r['t']))
    c = fit.SrcCatalog([source(o, name, first)])
    c.compute(aa)
    s = list(c.values())[0]
    alt = float(s.alt) * 180 / math.pi
    x = {'alt': num(round(alt * 256)), 'len': [0] * n, 'dim': [[0] * 5] * n, 'dbm': [[0] * 5] * n}
    if alt < 0 or alt * 256 < o['altmin'] - 4:
        return x
    aa.set_active_pol(p)
    aa.sim_cache(c.get_crds('eq', ncrd=3))
    d = np.array([complex(*v) for v in r['d']])
    if not o['skip_amp']:
        d = d / aa.passband(r['i'], r['j'])
    if not o['skip_phs']:
        if o['zen']:
            d = aa.unphs2src(d, 'z', r['i'], r['j'])
        d = aa.phs2src(d, s, r['i'], r['j'])
    u, v, w = [np.resize(k, n) for k in aa.gen_uvw(r['i'], r['j'], src=s)]
    b = np.ones(n) if o['skip_bm'] else np.resize(aa.bm_response(r['i'], r['j']).squeeze(), n)
    x['len'] = ints(np.sqrt(u ** 2 + v ** 2), 64)
    x['dim'], x['dbm'] = [], []
    for k in range(n):
        im = I.Img(o['size'] * o['res'], o['res'], mf_order=0)
        im.put(*im.append_hermitian((u[k:k + 1], v[k:k + 1], w[k:k + 1]), np.array([d[k] * b[k]]), np.array([b[k] ** 2])))
        c = (o['size'] // 2, o['size'] // 2)
        x['dim'].append(at(im.image(c)))
        x['dbm'].append(at(im.bm_image(term=0, center=c)))
    return x


def position(o, name, first, t):
    """Where the source is, of J2000."""
    s = source(o, name, first)
    if isinstance(s, phs.RadioSpecial):
        b = ephem.Sun(ephem.Date(jd(t) - 2415020))
        ra, dec = b.a_ra, b.a_dec
    else:
        ra, dec = s._ra, s._dec
    return {'t': t, 'ra': ang(float(ra) * 180 / math.pi), 'dec': ang(float(dec) * 180 / math.pi)}


def mk_img(w, rng, sets, names):
    files = rng.sample(names, rng.choice(range(1, len(names) + 1)))
    ds = sets[files[0]]
    if rng.random() < .08:
        files.append('none.uv')
    have = [f for f in files if f in sets]
    text, ch = chans(rng, ds['nchan'])
    if len(ch) not in (0, 1, 2, 3, 4, 5, 6):
        text, ch = None, []
    pols = [rng.choice(sorted(POLS))] if rng.random() < .1 else [rng.choice(ds['pols'])]
    kind = rng.choice(['srcs', 'srcs', 'srcs', 'zen', 'facets'])
    o = {'pre': rng.choice(['im', 'im', 'p_']), 'width': rng.choice([4, 4, 2]), 'pols': pols, 'ant': rng.choice(['all', 'cross', 'cross', 'auto']), 'ch': ch,
         'nchan': ds['nchan'], 'sfreq': ds['sfreq'], 'sdf': ds['sdf'], 'snap': rng.choice([-1, -1, 1, 2, 3]) if kind == 'srcs' else -1, 'cnt': rng.choice([0, 0, 1, 9, 98]), 'skip': 0,
         'size': rng.choice([16, 32]), 'res': rng.choice([1, 1, 2]), 'altmin': 0, 'minuv': 0, 'src': kind, 'facets': 6,
         'out': rng.choice([['dim', 'dbm'], ['dim', 'dbm'], ['dim'], ['uvs', 'dbm'], ['bms', 'dim', 'uvs', 'dbm']]),
         'skip_amp': rng.random() < .3, 'skip_bm': rng.random() < .3, 'skip_phs': rng.random() < .15, 'zen': False}
    o['zen'] = not o['skip_phs'] and rng.random() < .2
    first = ds['recs'][0]['t']
    # the order of facets is drawn by lot: here and in the script the same
    random.setstate(scripts.LOT)
    o['centers'] = M.facet_centers(o['facets'], ncrd=2)
    names = {'srcs': rng.sample(['one', 'two', 'low', 'pole', 'Sun'], rng.choice([1, 2, 3])), 'zen': ['zen'], 'facets': [str(k) for k in range(6)]}[kind]
    if rng.random() < .3:
        o['skip'] = rng.choice([1, len(names) - 1])
    argv = ['-C', 'vcal', '-p', ','.join(POLS[p] for p in pols), '-a', o['ant'], '--no_w', '--size=%d' % (o['size'] * o['res']), '--res=%d' % o['res'],
            '-o', ','.join(o['out']), '--fmt=%s%%0%dd' % (o['pre'], o['width'])]
    tab = []
    for n in names:
        x = {'name': n, 'pos': [position(o, n, first, t) for t in sorted({r['t'] for f in have for r in sets[f]['recs']})], 'recs': {}}
        for f in have:
            x['recs'][f] = [parts(o, sets[f], r, n, first) for r in sets[f]['recs']]
        tab.append(x)
    # limits that no value is close to
    alts = sorted({r['alt'] for x in tab for f in have for r in x['recs'][f] if r['alt'] > 0})
    if alts and rng.random() < .4:
        a = (rng.choice(alts) + rng.choice(alts)) // 2
        if all(abs(a - b) > 8 for b in alts):
            o['altmin'] = a
            argv.append('--altmin=%r' % (a / 256.))
    lens = sorted({l for x in tab for f in have for r in x['recs'][f] for l in r['len']})
    if rng.random() < .4:
        a = (rng.choice(lens) + rng.choice(lens)) // 2
        if all(abs(a - b) > 2 for b in lens):
            o['minuv'] = a
            argv.append('--minuv=%r' % (a / 64.))
    argv += ['-c', text] if text else []
    argv += ['--snap=%d' % o['snap']] if o['snap'] > 0 else []
    argv += ['--cnt=%d' % o['cnt']] if o['cnt'] else []
    argv += ['--skip=%d' % o['skip']] if o['skip'] else []
    argv += [{'skip_amp': '--skip_amp', 'skip_bm': '--skip_bm', 'skip_phs': '--skip_phs', 'zen': '--zen_phased'}[k] for k in ('skip_amp', 'skip_bm', 'skip_phs', 'zen') if o[k]]
    argv += ['-s', ','.join(names)] if kind != 'facets' else ['--facets=6']
    if rng.random() < .4:
        argv.append('--buf_thresh=%d' % rng.choice([0, 3, 9, 20]))
    del o['centers']
    w.go('mk_img', argv + files, files, o, tab=tab)


# ---------------------------------------------------------------- cl_img
def gauss(n, a, b):
    y, x = np.indices((n, n)) - n // 2
    return np.exp(-((x * .8) ** 2 / a + (y * .9) ** 2 / b))


def put_pair(w, rng, key, n):
    """A dirty image and its beam of some other program."""
    bm = gauss(n, rng.choice([1, 2]), rng.choice([1, 2])) * rng.choice([1, 2, 5])
    mdl = np.zeros((n, n))
    for _ in range(rng.choice([1, 3])):
        mdl[rng.randrange(n), rng.randrange(n)] += rng.choice([1, 2, 4])
    dim = np.fft.ifft2(np.fft.fft2(mdl) * np.fft.fft2(np.fft.fftshift(bm))).real
    if rng.random() < .15:
        bm = 0 * bm
    kw = dict(object=rng.choice(['one', 'x']), obs_date=str(ephem.Date(jd(rng.randrange(99)) - 2415020)), ra=rng.randrange(360), dec=rng.randrange(-60, 80),
              epoch=2000., d_ra=-math.degrees(1. / n), d_dec=math.degrees(1. / n), freq=.15)
    w.rec.pend({'op': 'make'})
    for tag, d in (('dim', dim), ('dbm', bm)):
        I.to_fits(os.path.join(w.d, '%s.%s.fits' % (key, tag)), d, clobber=True, **kw)
    w.made()


def cleaned(w, o, k):
    """What a deconvolver makes of a pair of images."""
    try:
        dim, kw = I.from_fits(os.path.join(w.d, k + '.dim.fits'))
        dbm, kw = I.from_fits(os.path.join(w.d, k + '.dbm.fits'))
    except (IOError, OSError):
        return {'empty': False}
    dim, dbm = dim.astype(np.float32), dbm.astype(np.float32)
    if not dbm.any():
        return {'empty': True}
    n = dim.shape[0]
    size = 1 / math.radians(abs(kw['d_ra']))
    u = np.fft.fftfreq(n) * size
    r = np.hypot(*np.meshgrid(u, u))
    uv, bm = np.fft.fft2(dim), np.fft.fft2(dbm)
    if o['rewgt'] == 'radial':
        uv, bm = uv * r, bm * r
    elif o['rewgt'] != 'natural':
        a = np.abs(bm)
        div = np.maximum(a, a.max() * float(o['rewgt'][8:-1]))
        uv, bm = uv / div, bm / div
    mask = np.ones((n, n))
    if o['lo']:
        mask = mask * (1 - np.exp(-r ** 2 / o['lo'] ** 2))
    if o['hi']:
        mask = mask * np.exp(-r ** 2 / o['hi'] ** 2)
    dim, dbm = np.fft.ifft2(uv * mask).real, np.fft.ifft2(bm * mask).real
    ker = np.roll(dbm, (-(n // 2), -(n // 2)), (0, 1))
    gain = np.abs(ker).max()
    if o['deconv'] == 'none':
        return {'empty': False, 'cim': [0] * 5, 'rim': at(dim), 'bim': at(dim / gain)}
    if o['deconv'] == 'lsq':
        c, info = deconv.lsq(dim, ker, maxiter=o['maxiter'], tol=1e-6)
    else:
        c, info = deconv.clean(dim, ker, gain=o['gain'], maxiter=o['maxiter'], stop_if_div=not o['div'], tol=1e-6, pos_def=True)
        c2, info2 = deconv.clean(dim, ker, gain=o['gain'], maxiter=o['maxiter'], stop_if_div=not o['div'], tol=1e-6, pos_def=False)
        if not np.array_equal(c, c2):
            return None
    return {'empty': False, 'cim': at(c), 'rim': at(info['res']), 'bim': at(info['res'] / gain)}


def cl_img(w, rng):
    keys = sorted({n[:-9] for n in os.listdir(w.d) if n.endswith(('.dim.fits', '.dbm.fits'))})
    pairs = [k for k in keys if os.path.exists(os.path.join(w.d, k + '.dim.fits')) and os.path.exists(os.path.join(w.d, k + '.dbm.fits'))]
    if not pairs:
        return
    use = rng.sample(pairs, rng.choice(range(1, min(4, len(pairs)) + 1)))
    if rng.random() < .1:
        use.append('none')
    o = {'deconv': rng.choice(['none', 'none', 'lsq', 'cln', 'cln']), 'rewgt': rng.choice(['natural', 'natural', 'natural', 'uniform(.1)', 'radial']), 'lo': rng.choice([0, 0, 0, 3]),
         'hi': rng.choice([0, 0, 0, 6]), 'gain': rng.choice([.1, .25]), 'maxiter': rng.choice([1, 3, 5]), 'div': rng.random() < .2}
    small = any(F.getheader(os.path.join(w.d, k + '.dim.fits'))['NAXIS1'] < 32 for k in use if k in pairs)
    if small:
        o['deconv'] = 'none'
    o['plain'] = o['rewgt'] == 'natural' and not o['lo'] and not o['hi']
    o['out'] = rng.choice([['bim', 'cim'], ['rim'], ['cim', 'rim', 'bim']]) if o['deconv'] == 'none' else rng.choice([['cim'], ['rim'], ['rim', 'cim'], ['bim', 'cimc'], ['cim', 'rim', 'bim', 'cimc'], ['bim']])
    tab = {k: cleaned(w, o, k) for k in use}
    if any(x is None for x in tab.values()):
        return
    # values that a sum in single precision gives
    for x in tab.values():
        if any(abs(v) > 2 ** 29 for t in ('cim', 'rim', 'bim') for v in x.get(t, [])):
            return
    argv = ['-d', o['deconv'], '-o', ','.join(o['out']), '-g', str(o['gain']), '--maxiter=%d' % o['maxiter']] + ['--div'] * o['div']
    argv += ['-r', o['rewgt']] * (o['rewgt'] != 'natural') + ['--minuv=%d' % o['lo']] * (o['lo'] > 0) + ['--maxuv=%d' % o['hi']] * (o['hi'] > 0)
    files = ['%s.%s.fits' % (k, t) for k in use for t in ('dim', 'dbm')]
    rng.shuffle(files)
    w.go('cl_img', argv + files, files, o, tab=tab, keys=sorted(use))


# ---------------------------------------------------------------- maps
def vec(ra, dec):
    return np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])


def onto(w, f, nside, width):
    """What an image adds to a map."""
    n = 12 * nside ** 2
    try:
        d, kw = I.from_fits(os.path.join(w.d, f))
    except (IOError, OSError):
        return {'j2000': True, 'v': [0] * n, 'w': [0] * n}
    v, wt = np.zeros(n), np.zeros(n)
    if kw['epoch'] == 2000:
        date = kw['obs_date']
        e = ephem.Equatorial(ephem.Equatorial(math.radians(kw['ra']), math.radians(kw['dec']), epoch=ephem.J2000), epoch=date)
        r, c = np.indices(d.shape)
        size = d.shape[0]
        # to the east is to the left
        l, m = -(c - size // 2) * abs(math.radians(kw['d_ra'])), (r - size // 2) * math.radians(kw['d_dec'])
        # what lies half a turn away counts as west and north, as in Img.get_LM()
        l, m = np.where(c == 0, -abs(l), l), np.where(r == 0, abs(m), m)
        l, m, a = l.ravel(), m.ravel(), d.ravel().astype(float)
        up = l ** 2 + m ** 2 < 1 - 1e-6
        l, m, a = l[up], m[up], a[up]
        z = np.sqrt(1 - l ** 2 - m ** 2)
        s = vec(e.ra, e.dec)
        east = np.array([-math.sin(e.ra), math.cos(e.ra), 0])
        north = np.cross(s, east)
        x = np.outer(east, l) + np.outer(north, m) + np.outer(s, z)
        # the axes of the date in those of J2000, from what becomes of three directions
        old = [np.array(vec(*ephem.Equatorial(ephem.Equatorial(ra, dec, epoch=date), epoch=ephem.J2000).get())) for ra, dec in ((0, 0), (math.pi / 2, 0), (0, math.pi / 2))]
        x = np.dot(np.array(old).T, x)
        g = np.exp(-(l ** 2 + m ** 2) / math.sin(math.radians(width)) ** 2)
        h = healpix.HealpixMap(nside)
        px = h.crd2px(*x)
        np.add.at(v, px, a * g)
        np.add.at(wt, px, g)
    return {'j2000': kw['epoch'] == 2000, 'v': ints(v, MAP), 'w': ints(wt, MAP)}


def put_map(w, rng, name):
    nside = rng.choice([2, 4])
    m = M.Map(nside=nside, nindices=rng.choice([0, 0, 1]))
    for p in rng.sample(range(m.npix()), 9):
        m.put(p, rng.choice([1, 2, 4]), rng.randrange(-9, 10), [rng.choice([-1, -.5, 0])] if m.ind else [])
    w.rec.pend({'op': 'make'})
    m.to_fits(os.path.join(w.d, name), clobber=True)
    w.made()


def mk_map(w, rng, whole):
    pics = sorted(n for n in os.listdir(w.d) if n.endswith(('.dim.fits', '.bim.fits')))
    pics = [n for n in pics if max(map(abs, w.image(n)['v'])) < 2 ** 25]
    if not pics:
        return
    files = rng.sample(pics, rng.choice(range(1, min(3, len(pics)) + 1)))
    if rng.random() < .06:
        files.insert(rng.randrange(len(files) + 1), 'none.dim.fits')
    name = rng.choice(['m.map', 'n.map'])
    whole.discard(name)
    nside = rng.choice([2, 4])
    path = os.path.join(w.d, name)
    real = F.getheader(path, 1)['NSIDE'] if os.path.exists(path) else nside
    o = {'map': name, 'nside': nside}
    width = rng.choice([None, None, 10, 25])
    argv = ['-m', name, '--nside=%d' % nside] + ['--fwidth=%s' % width] * (width is not None)
    w.go('mk_map', argv + files, files, o, tab={f: onto(w, f, real, width or 10) for f in files})


def modmap(w, rng, whole):
    name = rng.choice(['m.map', 'n.map', 'o.map'])
    have = sorted(whole)
    o = {'map': name, 'nside': rng.choice([1, 2, 4]), 'nind': rng.choice([0, 0, 1]), 'from': rng.choice(have) if have and rng.random() < .6 else '', 'mscale': 256}
    freq = rng.choice([.15, .14, .18])
    ss = rng.choice([1, 1, .5, 2])
    real = rng.random() < .3
    srcs = rng.sample(['cyg', 'cas', 'vir', 'crab'] if real else ['one', 'two', 'low', 'pole'], rng.choice([1, 2, 3]))
    if real:
        ss = .001
    system = 'eq'
    argv = ['-m', name, '-f', str(freq)]
    if o['from']:
        o['mscale'] = rng.choice([256, 128, 512])
        nside, argv = F.getheader(os.path.join(w.d, o['from']), 1)['NSIDE'], argv + ['-i', o['from']] + ['--mscale=%r' % (o['mscale'] / 256.)] * (o['mscale'] != 256)
    else:
        nside = o['nside']
        argv += ['--nside=%d' % nside] + ['--nindices=%d' % o['nind']] * (o['nind'] > 0)
        if rng.random() < .3:
            system = rng.choice(['ga', 'ec'])
            argv.append('--osys=' + system)
    if rng.random() < .8:
        argv += ['-s', ','.join(srcs)] + ([] if real else ['-C', 'vcal', '-j', repr(jd(3))]) + ['--sscale=%r' % ss] * (ss != 1)
    else:
        srcs = []
    o['srcs'] = []
    c = S.get_catalog(srcs) if real else cal.get_catalog('vcal', srcs)
    for n in (c if srcs else []):
        s = c[n]
        e = ephem.Equatorial(s._ra, s._dec, epoch=ephem.J2000)
        if system == 'ga':
            g = ephem.Galactic(e)
            x = vec(g.lon, g.lat)
        elif system == 'ec':
            g = ephem.Ecliptic(e)
            x = vec(g.lon, g.lat)
        else:
            x = vec(e.ra, e.dec)
        px = healpix.HealpixMap(nside).crd2px(*[np.array([k]) for k in x])[0]
        jys = s._jys * (freq / s.mfreq) ** s.index
        o['srcs'].append({'px': int(px), 'flux': int(round(jys * ss * MAP)), 'index': int(round(s.index * MAP))})
    had = os.path.exists(os.path.join(w.d, name))
    w.go('modmap', argv, [], o)
    if not had and os.path.exists(os.path.join(w.d, name)):
        whole.add(name)


def go(self, sc, argv, files, o, tab=None, keys=None):
    self.extra = {'keys': keys} if keys else {}
    self.run(sc, argv, files, o, tab=tab)


def history(w, rng):
    n = rng.choice([2, 3, 4, 6])
    t0 = rng.choice([0, 1, 2, 4, 8, 16, 32, 48])
    far = rng.choice([1, 1, 8, 64 * 30])
    sets = {}
    ts = [t0 + k * far for k in range(rng.choice([1, 2, 3, 5]))]
    pols = rng.choice([[-5], [-6], [-5, -6], [-7, -5, -8]])
    for name in ['a', 'b'][:rng.choice([1, 1, 2])]:
        sets[name] = dataset(rng, axis(rng), nchan=n, pols=pols, sdf=rng.choice([512, 1024]), times=[t + (0 if rng.random() < .3 else len(ts) * far) * (name == 'b') for t in ts],
                             flags=rng.choice([.1, .5]))
        if rng.random() < .3:       # a time without data
            t = rng.choice(sets[name]['ts'])
            for r in sets[name]['recs']:
                if r['t'] == t:
                    r['f'] = [1] * n
        sets[name]['bp'] = None
        sets[name]['sdf'] = sets['a']['sdf']
    whole = set()
    w.begin(sets)
    mk_img(w, rng, sets, sorted(sets))
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.randrange(7)
        if k == 0:
            mk_img(w, rng, sets, sorted(sets))
        elif k == 1:
            put_pair(w, rng, rng.choice(['q', 'r']), rng.choice([32, 32, 40]))
            cl_img(w, rng)
        elif k == 2:
            cl_img(w, rng)
        elif k == 3:
            mk_map(w, rng, whole)
            mk_map(w, rng, whole)
        elif k == 4:
            name = rng.choice(['n.map', 'x.map'])
            put_map(w, rng, name)
            whole.add(name)
            modmap(w, rng, whole)
        elif k == 5:
            modmap(w, rng, whole)
        else:
            cl_img(w, rng)
            mk_map(w, rng, whole)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    work = os.path.join(a.wd, 'files')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(os.path.join(a.wd, 'vcal.py'), 'w') as f:
        f.write(VCAL)
    sys.path.insert(0, a.wd)
    os.chdir(a.wd)
    rng0 = random.Random('%s-imaging' % a.seed)
    for n in range(a.n):
        rng = random.Random(rng0.random())
        if not rec.start():
            continue
        w = World(rec, rng, work, n)
        history(w, rng)
        rec.end()
        shutil.rmtree(w.d)


World.go = go
if __name__ == '__main__':
    main()
