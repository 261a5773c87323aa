"""Channel, source and parameter strings (specs/Strings.tla)."""
import math, random
import numpy as np
from . import base
from .uvexec import short
from aipy import scripting


def guard(fn):
    try:
        return fn()
    except Exception as ex:
        return {'err': short(repr(ex))}


def ints(a):
    return [int(x) if float(x) == int(x) else -999999 for x in np.asarray(a).ravel()]


def chans(rec, rng):
    bad = rng.random() < .1
    terms = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        lo = rng.choice([0, 1, 7, 100, 1023, rng.randrange(2048)])
        hi = lo + rng.choice([-1, 0, 1, 2, 5, 50])
        if hi < 0:
            hi = 0
        terms.append(rng.choice([[lo], [lo, hi], [lo, hi], [lo, hi, rng.choice([1, 2, 3, 7])]]))
    alln = not bad and rng.random() < .1
    nchan = rng.choice([1, 2, 16, 256])
    s = 'all' if alln else ','.join('_'.join(map(str, t)) for t in terms)
    if bad:
        s = rng.choice([s + ',1_2_3_4', s + ',x', s + ',', 'x_2', s + ',1_b', '1_2_3_4_5,' + s])
    concat = rng.random() < .6

    def fn():
        r = scripting.parse_chans(s, nchan, concat=concat) if rng.random() < .5 or not concat \
            else scripting.parse_chans(s, nchan)
        return {'list': ints(r) if concat else [ints(x) for x in r]}
    rec.ev(op='chans', terms=terms, all=alln, nchan=nchan, concat=concat, bad=bad, s=s, o=guard(fn))


NAMES = ['cyg', 'cas', 'vir', 'J1830+484', 'Sun', 'crab', 'a_b', 'x_1_2', 'my-src', '3c_abc']


def sexa(rng, top, neg):
    return {'neg': neg and rng.random() < .5, 'd': rng.randrange(top), 'm': rng.randrange(60), 's': rng.randrange(60)}


def stext(rng, p):
    s = '%s%d:%02d:%02d' % ('-' if p['neg'] else '', p['d'], p['m'], p['s'])
    if p['m'] == p['s'] == 0 and rng.random() < .5:
        s = '%s%d' % ('-' if p['neg'] else '', p['d'])
    elif p['s'] == 0 and rng.random() < .5:
        s = s[:-3]
    return s


def srcs(rec, rng):
    kind = rng.choice(['all', 'cut', 'list', 'list', 'list', 'list'])
    cats = rng.sample(['helm', 'misc', 'nvss', 'three_c'], rng.choice([1, 1, 2, 3]))
    items, cut, s = [], [], 'all'
    if kind == 'cut':
        a, b = rng.choice([10, 5.5, 100, 1e-3]), rng.choice([.15, .074, 1])
        s, cut = '%r/%r' % (a, b), [repr(float(a)), repr(float(b))]
    elif kind == 'list':
        parts = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < .5:
                n = rng.choice(NAMES)
                items.append({'k': 'name', 'name': n})
            else:
                ra, dec = sexa(rng, 24, False), sexa(rng, 90, True)
                if rng.random() < .2:
                    ra['m'] = ra['s'] = dec['s'] = dec['m'] = 0
                n = stext(rng, ra) + '_' + stext(rng, dec)
                items.append({'k': 'pos', 'name': n, 'ra': ra, 'dec': dec})
            parts.append(n)
        s = ','.join(parts)

    def item(x):
        if isinstance(x, str):
            return {'k': 'name', 'name': x}
        a = 180 * 3600 / math.pi
        return {'k': 'pos', 'name': str(x.src_name), 'ra': int(round(float(x._ra) * a)), 'dec': int(round(float(x._dec) * a))}

    def fn():
        r, c, k = scripting.parse_srcs(s, ','.join(cats))
        return {'cats': [str(x) for x in k], 'cut': [] if c is None else [repr(float(x)) for x in c],
                'srcs': [] if r is None else [item(x) for x in r], 'none': r is None}
    rec.ev(op='srcs', kind=kind, cats=cats, cut=cut, items=items, s=s, o=guard(fn))


def group(rng, names, par):
    return names[0] if len(names) == 1 and not par else '(%s)' % '/'.join(names)


def prms(rec, rng):
    specs, parts = [], []
    vals = lambda: rng.choice(['0', '1', '-2.5', '1e-5', '100', '.25', '-1E3', '12.75'])
    few = rng.random() < .4         # objects and parameters repeat
    for _ in range(rng.choice([1, 1, 2, 4])):
        objs = rng.sample(['a', 'b', 'c'] if few else ['src1', 'cyg', '0', '12', 'J18+30', 'x-1', 'q'], rng.choice([1, 1, 1, 2, 3]))
        ps = rng.sample(['p', 'q', 'r'] if few else ['jys', 'index', 'bm_poly', 'dly', 'x', 'phsoff_x', 'a1'], rng.choice([1, 1, 1, 2, 3]))
        lens = []
        for _ in range(2):
            n = rng.choice([0, 1, 1])
            if rng.random() < .4:
                n = rng.choice([len(objs), len(ps)])
            if rng.random() < .03:
                n = rng.choice([2, 3])
            lens.append(n)
        vs = [vals() for _ in range(lens[0])]
        ss = [vals() for _ in range(lens[1])]
        t = group(rng, objs, rng.random() < .1) + '=' + group(rng, ps, rng.random() < .1)
        if vs or ss or rng.random() < .1:
            t += '/' + (group(rng, vs, rng.random() < .1) if vs else '')
        if ss:
            t += '/' + group(rng, ss, rng.random() < .1)
        parts.append(t)
        specs.append({'objs': objs, 'prms': ps, 'vals': [repr(float(v)) for v in vs], 'sigs': [repr(float(v)) for v in ss]})
    s = ','.join(parts)

    def fn():
        r = scripting.parse_prms(s)
        return {'prms': {o: {p: [repr(x) if x is not None else 'None' for x in v] for p, v in d.items()} for o, d in r.items()}}
    rec.ev(op='prms', specs=specs, s=s, o=guard(fn))


MODES = {'chans': chans, 'srcs': srcs, 'prms': prms}


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            if rec.start(kind=mode, seed=k):
                for _ in range(30):
                    MODES[mode](rec, rng)
                rec.end()


if __name__ == '__main__':
    main()
