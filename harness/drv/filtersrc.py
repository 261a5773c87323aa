"""filter_src.py (specs/Filter.tla)."""
import os, random, shutil, sys
import numpy as np
from . import base, scripts
from .scripts import POLS, VCAL, World, array, axis, cal, cplx, dataset, jd, phs

DOWN = {'low'}


def factor(x, n):
    return cplx(np.resize(np.asarray(x), n), 8192)


def rows(sets, files, o):
    """What the array gives for each record: a new array each time."""
    tab, first = [], sets[files[0]]
    for k in sorted({(r['t'], r['p'], r['i'], r['j']) for f in files for r in sets[f]['recs'] if r['i'] != r['j'] and r['p'] in o['pols']}):
        t, p, i, j = k
        aa, n = array(first), first['nchan']
        aa.set_active_pol(POLS[p])
        x = {'k': list(k), 'down': False}
        if o['pb']:
            x['pb'], x['ipb'] = factor(aa.passband(i, j), n), factor(1 / aa.passband(i, j), n)
        if o['src']:
            aa.set_jultime(jd(t))
            src = list(cal.get_catalog('vcal', [o['src']]).values())[0]
            src.compute(aa)
            try:
                x['to'] = factor(aa.phs2src(np.ones(n, complex), src, i, j), n)
                x['un'] = factor(aa.unphs2src(np.ones(n, complex), src, i, j), n)
            except phs.PointingError:
                x['to'] = x['un'] = factor(np.zeros(n), n)
                x['down'] = True
        tab.append(x)
    return tab


def steady(ds, src, rng, lasts=False):
    """Data that are of a source, as bright in all channels, perhaps at all times."""
    much, lasting = {}, lasts or rng.random() < .6
    for r in ds['recs']:
        if r['i'] == r['j']:
            continue
        aa, n = array(ds), ds['nchan']
        aa.set_active_pol(POLS[r['p']])
        aa.set_jultime(jd(r['t']))
        d = rng.choice([60, 80, 95])
        d = (much.setdefault((r['i'], r['j'], r['p']), d) if lasting else d) * np.ones(n, complex)
        if src:
            s = list(cal.get_catalog('vcal', [src]).values())[0]
            s.compute(aa)
            try:
                d = aa.unphs2src(d, s, r['i'], r['j'])
            except phs.PointingError:
                continue
        r['d'] = [[int(round(x.real)), int(round(x.imag))] for x in d]


FINE = [k for k in range(31) if 840 % (k + 2 * -(-k // 10) or 1) == 0]         # as many times as have exact cosines


def histories(w, rng):
    n = rng.choice([4, 6, 8, 12])
    t0 = rng.choice([0, 1, 2, 4, 8, 16, 32, 48])
    far = rng.choice([1, 1, 5])
    part = rng.random() < .35               # samples flagged in part
    pols = rng.choice([[-5], [-6], [-5, -6], [-7, -5], [-7, -5, -8, -6]])
    src = rng.choice(['', 'one', 'two', 'low', 'Sun', 'Sun'])
    lasts = rng.random() < .2               # a source that lasts, now and then flagged
    if lasts:
        src, part = rng.choice(['', 'Sun', 'Sun']), False
    sets = {}
    for name in ['a', 'b'][:rng.choice([1, 1, 2])]:
        nt = rng.choice([1, 2, 3, 4, 5, 6, 10, 11, 16, 20] if len(pols) < 3 else [1, 2, 4, 6])
        allb = [(i, j) for i in range(4) for j in range(i, 4)]
        ds = sets[name] = dataset(rng, axis(rng), nchan=n, pols=pols, sdf=512, flags=.12 if part else 0, bls=sorted(rng.sample(allb, rng.choice([2, 3]))) if nt > 6 else None,
                                  times=[t0 + k * far for k in range(nt)])
        if rng.random() < .4:               # not all baselines at all times
            ds['recs'] = [r for r in ds['recs'] if rng.random() < .8] or ds['recs']
            ts = {}
            for r in ds['recs']:
                ts.setdefault((r['i'], r['j'], r['p']), []).append(r)
            cut = [r for x in ts.values() for r in x[max(k for k in FINE if k <= len(x)):]]
            ds['recs'] = [r for r in ds['recs'] if r not in cut]
        if lasts or rng.random() < (.5 if part else .15):
            steady(ds, src, rng, lasts)
        if lasts:
            for r in ds['recs']:
                r['f'] = [1 if rng.random() < .15 else 0] * n
            continue
        if rng.random() < .25:              # nothing seen on one baseline, or now and then
            b, often = rng.choice(ds['bls']), rng.choice([.2, 1])
            for r in ds['recs']:
                if (r['i'], r['j']) == b and rng.random() < often:
                    r['d'] = [[0, 0]] * n
        if rng.random() < .2:               # as much as not
            for r in ds['recs']:
                r['d'] = [[-x, -y] if c % 2 else [x, y] for c in range(n) for x, y in [r['d'][c - c % 2]]]
        if rng.random() < .3:
            for r in ds['recs']:
                if rng.random() < .25:
                    r['f'] = [1] * n
    if part and rng.random() < .6:          # the same but for what is flagged
        ds = sets['c'] = dict(sets['a'])
        ds['recs'] = [dict(r, d=[[v[0] + 37, v[1] - 50] if f else v for v, f in zip(r['d'], r['f'])]) for r in ds['recs']]
    w.begin(sets)
    names = sorted(sets)
    o = None
    for _ in range(rng.choice([2, 3, 4])):
        files = rng.sample(names, rng.choice(range(1, len(names) + 1)))
        if rng.random() < .1:
            files.insert(rng.randrange(len(files) + 1), rng.choice(['none', files[0]]))
        if o is None or rng.random() < (.3 if part else .6):
            o = {'src': src if rng.random() < .8 else rng.choice(['', 'one']), 'pols': pols if rng.random() < .7 else rng.sample(sorted(POLS), rng.choice([1, 2, 4])),
                 'dw': rng.choice([0, 1, 1, 2, 2, 3, 5, 7]), 'drw': rng.choice([-1, -1, 1, 2, 3]), 'pb': rng.random() < .3}
            if lasts and rng.random() < .8:
                o.update(src=src, drw=rng.choice([1, 1, 2]), dw=rng.choice([1, 2, 3]), pb=False)
            o['cl'] = o['pb'] or rng.random() < .2
        ex = rng.random() < .5
        if part and w.last == o:
            ex = not w.ex
        w.last, w.ex = o, ex
        o1 = dict(o, extract=ex)
        argv = ['-C', 'vcal']
        argv += ['-s', o['src']] if o['src'] else []
        argv += ['-p', ','.join(POLS[p] for p in o['pols'])] if sorted(o['pols']) != sorted(POLS) or rng.random() < .3 else []
        argv += ['--drw=%d' % o['drw']] if o['drw'] != -1 else []
        argv += ['-d', '%d' % o['dw']] if o['dw'] != 5 else []
        argv += ['-P'] * o['pb'] + ['-e'] * ex + ['--clean=1e-9'] * o['cl']
        for f in files:
            w.scaled[f + ('f' if not o['src'] else '.e_' + o['src'] if ex else '.f_' + o['src'])] = 64
        real = [f for f in files if f in sets]
        w.run('filter_src', argv + files, files, o1, tab=rows(sets, real, o) if real else [])


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    work = os.path.join(a.wd, 'files')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(os.path.join(a.wd, 'vcal.py'), 'w') as f:
        f.write(VCAL)
    sys.path.insert(0, a.wd)
    os.chdir(a.wd)
    rng0 = random.Random('%s-filter-%s' % (a.seed, a.mode))
    for n in range(a.n):
        rng = random.Random(rng0.random())
        if not rec.start(kind='filter'):
            continue
        w = World(rec, rng, work, n)
        w.last = w.ex = None
        histories(w, rng)
        rec.end()
        shutil.rmtree(w.d)


if __name__ == '__main__':
    main()
