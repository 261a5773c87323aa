"""Baseline numbers, antenna strings, selection of records by them, read_files
(specs/Ants.tla)."""
import os, random, shutil
import numpy as np
from . import base
from .uvexec import canon, dtok, ftok, tick, short, T0
from .uv import mkdata, mkflags
from aipy import miriad, scripting

POLS = ['xx', 'yy', 'xy', 'yx']


def guard(fn):
    try:
        return fn()
    except Exception as ex:
        return {'err': short(repr(ex))}


def plain(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool) and abs(int(x)) < 1 << 31


def num(x):
    return int(x) if plain(x) else -99999


def atom(rng, na, neg, pols):
    return {'n': rng.choice(range(na)) if rng.random() < .9 else rng.choice([254, 255, 256, 300, 1000]),
            'neg': neg and rng.random() < .4, 'pol': rng.choice(['', '', 'x', 'y']) if pols else ''}


def term(rng, na, style):
    if rng.random() < .12:
        return {'k': rng.choice(['all', 'auto', 'cross', 'auto', 'cross'])}
    neg, pols = style == 'neg', style == 'pol'
    ls = [atom(rng, na, neg, pols) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    rs = [atom(rng, na, neg, pols) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .25:
        ls, rs = ls[:1], []
    return {'k': 'bl', 'ls': ls, 'rs': rs}


def astr(a):
    return '%s%d%s' % ('-' if a['neg'] else '', a['n'], a['pol'])


def group(rng, g):
    s = ','.join(astr(a) for a in g)
    return s if len(g) == 1 and rng.random() < .7 else '(%s)' % s


def text(rng, terms):
    out = []
    for t in terms:
        if t['k'] != 'bl':
            out.append(t['k'])
        elif not t['rs']:
            out.append(astr(t['ls'][0]))
        else:
            out.append(group(rng, t['ls']) + '_' + group(rng, t['rs']))
    return ','.join(out)


def codes(rec, a):
    rng = random.Random('codes-%d' % a.seed)
    top = 2046
    if rec.start(kind='codes'):
        n = 24 if a.tier == 'quick' else 120
        pairs = [(i, j) for i in range(n) for j in range(n)]
        edge = [126, 127, 128, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 2045, top]
        pairs += [(i, j) for i in edge + [0, 1, 7] for j in edge + [0, 1, 7]]
        pairs += [(rng.randrange(top + 1), rng.randrange(top + 1)) for _ in range(600 if a.tier == 'quick' else 6000)]
        for i, j in pairs:
            o = guard(lambda: {'bl': num(miriad.ij2bl(i, j))})
            rec.ev(op='ij2bl', i=i, j=j, o=o)
            if i <= j and 'bl' in o:
                bl = 256 * (i + 1) + j + 1 if j < 255 else 65536 + 2048 * (i + 1) + j + 1
                rec.ev(op='bl2ij', bl=bl, o=guard(lambda: {'ij': [num(x) for x in miriad.bl2ij(float(bl) if rng.random() < .3 else bl)]}))
        rec.ev(op='pols', o=guard(lambda: {'code': {k: num(v) for k, v in miriad.str2pol.items()},
                                           'back': {k: str(miriad.pol2str[v]) for k, v in miriad.str2pol.items()}}))
        rec.end()


def parses(rec, a):
    for k in range(a.n):
        rng = random.Random('parse-%d-%d' % (a.seed, k))
        if not rec.start(kind='parse', seed=k):
            continue
        for _ in range(12):
            na = rng.choice([1, 2, 4, 9])
            terms = [term(rng, max(na, 3), rng.choice(['', 'neg', 'pol'])) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            s = text(rng, terms)
            def fn():
                rv = scripting.parse_ants(s, na)
                return {'list': [{'bl': -1 if b == 'auto' else num(b), 'inc': bool(inc), 'pol': '' if p == -1 else str(p)}
                                 for b, inc, p in rv]}
            rec.ev(op='parse', terms=terms, nants=na, s=s, o=guard(fn))
        rec.end()


def make(rec, rng, wd, f, na, nrec, t0=0, nch=3):
    uv = miriad.UV(os.path.join(wd, f), 'new')
    vals = {'nants': ('i', na), 'sdf': ('d', rng.randrange(1, 9) / 1024.), 'sfreq': ('d', rng.randrange(1, 9) / 16.),
            'inttime': ('r', float(rng.randrange(1, 60)))}
    for n, (ty, v) in vals.items():
        uv.add_var(n, ty)
        uv[n] = v
    uv.add_var('pol', 'i')
    uv.add_var('lst', 'd')
    recs, t, lst = [], t0, 0.
    style = rng.choice(['times', 'pols', 'any'])
    for k in range(nrec):
        if rng.random() < .35:
            t += rng.choice([1, 1, 2, 5])
        lst = rng.randrange(100) / 16.
        i, j = sorted((rng.randrange(na), rng.randrange(na)))
        if rng.random() < .06:
            i, j = rng.choice([(0, 255), (1, 300), (254, 254)])
        p = rng.choice(POLS)
        uv['pol'] = miriad.str2pol[p]
        uv['lst'] = lst
        d, fl = mkdata(rng, nch), mkflags(rng, nch)
        uv.write((np.array([1., 2., 3.]), T0 + t / 16., (i, j)), d, fl)
        recs.append({'t': t, 'i': i, 'j': j, 'pol': {'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}[p], 'd': dtok(d), 'f': ftok(fl), 'lst': canon(lst)})
    del uv
    rec.ev(op='file', f=f, recs=recs)
    return vals, t


def randsel(rng, na):
    style = rng.choice(['', 'neg', 'pol'])
    terms = [term(rng, na, style) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if style == 'pol':          # an exclusion among terms with polarizations is ambiguous
        terms = [t for t in terms if t['k'] != 'cross'] or [{'k': 'auto'}]
    pols = rng.sample(POLS, rng.choice([0, 0, 1, 1, 2, 4]))
    return terms, pols


def uvsels(rec, a, wd):
    for k in range(a.n):
        rng = random.Random('uvsel-%d-%d' % (a.seed, k))
        if not rec.start(kind='uvsel', seed=k):
            continue
        clean(wd)
        na = rng.choice([2, 3, 5])
        make(rec, rng, wd, 'a.uv', na, rng.choice([4, 20, 40]))
        for _ in range(6):
            terms, pols = randsel(rng, na)
            s = text(rng, terms)

            def fn():
                uv = miriad.UV(os.path.join(wd, 'a.uv'))
                aspol = ','.join(pols) if pols else -1
                if rng.random() < .3:
                    ants = scripting.parse_ants(s, na)
                else:
                    ants = s
                scripting.uv_selector(uv, ants, aspol)
                return {'recs': [dtok(d) for p, d, f in uv.all(raw=True)]}
            rec.pend({'op': 'uvsel', 's': s})
            rec.ev(op='uvsel', f='a.uv', terms=terms, pols=pols, nants=na, s=s, o=guard(fn))
        rec.end()


def clean(wd):
    for f in os.listdir(wd):
        shutil.rmtree(os.path.join(wd, f), ignore_errors=True)


def freqtok(v):
    return [canon(v['sdf'][1]), canon(v['sfreq'][1]), canon(v['inttime'][1])]


def files(rec, a, wd):
    for k in range(a.n):
        rng = random.Random('files-%d-%d' % (a.seed, k))
        if not rec.start(kind='readfiles', seed=k):
            continue
        clean(wd)
        na = rng.choice([2, 3, 4])
        nf = rng.choice([1, 2, 3])
        t, vals = 0, {}
        for x in range(nf):
            f = 'f%d.uv' % x
            vals[f], t = make(rec, rng, wd, f, na, rng.choice([3, 15, 30]), t + rng.choice([0, 1, 4]), nch=3)
        for _ in range(4):
            terms, pols = randsel(rng, na)
            if not pols:
                pols = POLS[:]
            if rng.random() < .3:
                terms = [{'k': 'all'}]
            s = text(rng, terms)
            fs = rng.sample(sorted(vals), rng.randrange(1, nf + 1))
            dec, ph = rng.choice([(1, 0), (1, 0), (2, 0), (2, 1), (3, 2)])
            single = len(fs) == 1 and rng.random() < .5
            arr = rng.random() < .8

            def fn():
                paths = [os.path.join(wd, f) for f in fs]
                info, data, flg = miriad.read_files(paths[0] if single else paths, s, ','.join(pols), decimate=dec,
                                                    decphs=ph, recast_as_array=arr)
                if set(data) != set(flg):
                    return {'err': 'keys of data and flags'}
                g = []
                for key in data:
                    if len(data[key]) != len(flg[key]):
                        return {'err': 'lengths of data and flags'}
                    g.append([[num(key[0]), num(key[1]), num(miriad.str2pol[key[2]])],
                              [[dtok(x), ftok(y)] for x, y in zip(data[key], flg[key])]])
                fr = np.asarray(info['freqs'])
                v = vals[fs[-1]]
                ok = fr.shape == (3,) and np.allclose(fr, v['sfreq'][1] + v['sdf'][1] * np.arange(3), atol=1e-9)
                return {'times': [tick(x) for x in info['times']], 'lsts': [canon(float(x)) for x in info['lsts']],
                        'groups': g, 'freqs': [canon(info['sdf']), canon(v['sfreq'][1]) if ok else '!', canon(info['inttime'])]}
            rec.pend({'op': 'readfiles', 's': s})
            rec.ev(op='readfiles', fs=fs, terms=terms, pols=pols, nants=na, s=s, dec=dec, ph=ph,
                   freqs=freqtok(vals[fs[-1]]), o=guard(fn))
        rec.end()


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        if mode == 'codes':
            codes(rec, a)
        elif mode == 'parse':
            parses(rec, a)
        elif mode == 'uvsel':
            uvsels(rec, a, a.wd)
        elif mode == 'files':
            files(rec, a, a.wd)


if __name__ == '__main__':
    main()
