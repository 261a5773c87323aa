"""Parameters of sources, catalogues, beams, antennas, arrays (specs/Params.tla)."""
import random
import ephem
import numpy as np
from . import base
from .uvexec import short
from aipy import fit, pol, amp
from aipy._src import helm


def tok(x):
    return repr(complex(x)) if isinstance(x, (complex, np.complexfloating)) else repr(float(x))


def val(x):
    if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim):
        return {'k': 'l', 'v': [tok(y) for y in np.asarray(x).ravel()] if len(x) else []}
    return {'k': 's', 'v': [tok(x)]}


def pmap(d):
    return [{'k': str(k), 'v': val(v)} for k, v in sorted(d.items())]


def gmap(d):
    return [{'k': str(k), 'v': pmap(v)} for k, v in sorted(d.items())]


def tree(d):
    if type(d) is dict:
        return {'k': 'd', 'v': [{'k': k, 'v': tree(v)} for k, v in sorted(d.items())]}
    return val(d)


class World:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.obj, self.grp, self.snap = {}, {}, {}
        self.kind, self.shape, self.bm = {}, {}, {}
        self.h = 0

    def num(self):
        r = self.rng
        return r.choice([0, 1, -1, r.randrange(-64, 64) / 8., r.randrange(1, 1000) * 1e-3, r.random(), r.random() * 1e6, -r.random()])

    def nums(self, n):
        return [self.num() for _ in range(n)]

    def do(self, ev, fn):
        try:
            ev['o'] = fn() or {}
        except Exception as ex:
            ev['o'] = {'err': short(repr(ex))}
        self.rec.ev(**ev)
        return 'err' not in ev['o']

    # ------------------------------------------------------------ creation
    def src(self, id):
        r = self.rng
        kind = r.choice(['fixed', 'fixed', 'special', 'helm', 'helm'])
        nameless = {'jys': 0., 'index': -1., 'mfreq': .150, 'dra': 0., 'ddec': 0., 'a1': 0., 'a2': 0., 'th': 0.}
        kw, p = {}, dict(nameless)
        for k in ('jys', 'index', 'mfreq'):
            if r.random() < .6:
                kw[k] = p[k] = abs(self.num()) + .125 if k != 'index' else self.num()
        if kind == 'helm' and r.random() < .6:
            kw['index'] = p['index'] = self.nums(r.choice([1, 2, 3]))
        if r.random() < .5:
            v = self.nums(2)
            kw['ionref'] = r.choice([tuple, list])(v)
            p['dra'], p['ddec'] = v
        if r.random() < .5:
            v = self.nums(3)
            kw['srcshape'] = r.choice([tuple, list])(v)
            p['a1'], p['a2'], p['th'] = v
        if kind == 'special':
            name = r.choice(['Sun', 'Moon', 'Mars', 'Jupiter'])
            o = fit.RadioSpecial(name, **kw)
        else:
            name = id
            p['ra'], p['dec'] = r.random() * 6, r.random() - .5
            o = {'fixed': fit.RadioFixedBody, 'helm': helm.HelmboldtFixedBody}[kind](p['ra'], p['dec'], name=name, **kw)
        self.add(id, kind, '', p, o)
        return o

    def add(self, id, kind, bm, p, o):
        self.obj[id], self.kind[id], self.bm[id] = o, kind, bm
        self.shape[id] = {k: (len(v) if val(v)['k'] == 'l' else None) for k, v in p.items()}
        self.rec.ev(op='new', id=id, kind=kind, bm=bm, p=pmap(p), o={})

    def beam(self, id):
        r = self.rng
        self.nf = 4
        fq = np.array([.1, .125, .15, .2])
        kind = r.choice(['flat', 'gauss', 'poly', 'alm'])
        p = {}
        if kind == 'flat':
            o = fit.Beam(fq)
        elif kind == 'gauss':
            p = {'bm_xwidth': np.inf, 'bm_ywidth': np.inf}
            if r.random() < .7:
                p = {'bm_xwidth': .5, 'bm_ywidth': .25}
            o = fit.Beam2DGaussian(fq, p['bm_xwidth'], p['bm_ywidth'])
        elif kind == 'poly':
            a, b = r.choice([1, 2, 3]), r.choice([1, 2])
            m = np.array(self.nums(a * b)).reshape(a, b)
            p = {'bm_poly': m.flatten()}
            o = fit.BeamPolynomial(fq, poly_azfreq=m)
        else:
            deg, lm = r.choice([0, 1, 2]), r.choice([0, 1, 2])
            n = (lm + 1) * (lm + 2) // 2
            co, p = {}, {}
            for c in range(deg + 1):
                v = [0.] * (2 * n)
                if r.random() < .7:
                    v = self.nums(2 * n)
                    co[c] = np.array([complex(v[2 * x], v[2 * x + 1]) for x in range(n)])
                p['alm%d' % c] = v
            o = fit.BeamAlm(fq, lmax=lm, mmax=lm, deg=deg, nside=2, coeffs=co)
        self.add(id, kind, '', p, o)

    def ant(self, id, bm, pl):
        r = self.rng
        x, y, z = self.nums(3)
        p = {'x': x, 'y': y, 'z': z}
        kw = {}
        if pl:
            kw = {'phsoff': {}, 'bp_r': {}, 'bp_i': {}, 'amp': {}}
            for s in 'xy':
                d = {'phsoff': self.nums(r.choice([2, 3])), 'bp_r': self.nums(r.choice([1, 2, 3])),
                     'bp_i': self.nums(r.choice([1, 2])), 'amp': self.num()}
                for k in d:
                    kw[k][s] = list(d[k]) if k != 'amp' else d[k]
                    p[k + '_' + s] = d[k]
            # the beam is the base class's; polarizations share it
            o = pol.Antenna(x, y, z, self.obj[bm], **kw)
        else:
            d = {'phsoff': [0., 0.], 'bp_r': [1], 'bp_i': [0], 'amp': 1}
            for k in d:
                if r.random() < .6:
                    d[k] = self.num() if k == 'amp' else self.nums(r.choice([2, 3] if k == 'phsoff' else [1, 2, 3]))
                    kw[k] = list(d[k]) if k == 'phsoff' else (np.array(d[k]) if k != 'amp' else d[k])
                p[k] = d[k]
            o = fit.Antenna(x, y, z, self.obj[bm], **kw)
        self.add(id, 'pant' if pl else 'ant', bm, p, o)

    # ------------------------------------------------------------ queries
    def names(self, id):
        ks = list(self.shape[id])
        for s in ('', '_x', '_y'):
            if 'phsoff' + s in ks:
                ks += ['dly' + s, 'off' + s]
        if self.bm[id]:
            ks += list(self.shape[self.bm[id]])
        return ks

    def query(self, id):
        r = self.rng
        if r.random() < .35:
            return ['*']
        ks = self.names(id) + ['nonsense', 'jy', 'mfreq', 'x', 'alm9']
        return r.sample(ks, r.choice([0, 1, 1, 2, 3, len(ks)]))

    def star(self, q):
        return [x if x != '*' or self.rng.random() < .7 else '*all' for x in q]

    def values(self, id):
        """Values to set: any names of the object and some that it does not have."""
        r = self.rng
        out = {}
        for k in r.sample(self.names(id), min(r.choice([1, 1, 2, 3, 9]), len(self.names(id)))):
            n = self.shape[id].get(k, self.shape[self.bm[id]].get(k) if self.bm[id] else None)
            if k == 'bm_poly' or k.startswith('alm'):
                out[k] = self.nums(n)
                if r.random() < .5:
                    out[k] = np.array(out[k])
            elif k.startswith('phsoff'):
                out[k] = self.nums(r.choice([2, 2, 3, 4]))
            elif k.startswith('bp_'):
                out[k] = self.nums(r.choice([1, 2, 3]))
            elif k == 'index' and self.kind[id] == 'helm' and r.random() < .5:
                out[k] = self.nums(r.choice([1, 2, 3]))
            elif k.startswith('bm_'):
                out[k] = abs(self.num()) + .25
            else:
                out[k] = self.num()
        for s in ('', '_x', '_y'):
            if 'phsoff' + s in out:
                out.pop('dly' + s, None)
                out.pop('off' + s, None)
        if r.random() < .3:
            out[r.choice(['nonsense', 'alm9', 'x_y', 'jy'])] = self.num() if r.random() < .5 else self.nums(2)
            if 'alm9' in out:
                out['alm9'] = self.nums(2)
        return out

    def gq(self, g):
        r = self.rng
        ms = self.grp[g][1]
        if r.random() < .4:
            i = r.choice(list(ms.values()))
            return {'*': self.query(i)}
        ks = r.sample(list(ms), r.choice([1, 1, len(ms)]))
        q = {k: self.query(ms[k]) for k in ks}
        if r.random() < .3:
            q['nobody' if self.grp[g][2] == 'cat' else 'none'] = ['*']
        return q

    # ------------------------------------------------------------ steps
    def step(self):
        r = self.rng
        ids = list(self.obj)
        k = r.choice(['get', 'get', 'set', 'set', 'fit', 'gget', 'gset', 'gfit', 'again', 'spoil', 'restore'])
        if k in ('gget', 'gset', 'gfit') and not self.grp:
            k = k[1:]
        if k in ('again', 'spoil', 'restore') and not self.snap:
            k = 'get'
        if k in ('get', 'set', 'fit'):
            id = r.choice(ids)
            o = self.obj[id]
            if k == 'get':
                q = self.query(id)

                def fn():
                    d = o.get_params(self.star(q)) if q != ['*'] or r.random() < .5 else o.get_params()
                    self.h += 1
                    ev['h'] = 'h%d' % self.h
                    self.snap[ev['h']] = ('get', id, d)
                    return {'m': pmap(d)}
                ev = {'op': 'get', 'id': id, 'q': q, 'h': ''}
                self.do(ev, fn)
            elif k == 'set':
                d = self.values(id)
                ev = {'op': 'set', 'id': id, 'd': pmap(d)}
                self.do(ev, lambda: o.set_params(d) and None)
            else:
                q = self.query(id)
                ev = {'op': 'fit', 'id': id, 'q': q, 'sub': []}

                def fn():
                    lst, keys = fit.flatten_prms(o.get_params(q))
                    new = self.subst(ev, lst)
                    o.set_params(fit.reconstruct_prms(new, keys))
                self.do(ev, fn)
        elif k in ('gget', 'gset', 'gfit'):
            g = r.choice(list(self.grp))
            o, ms = self.grp[g][:2]
            if k == 'gget':
                q = self.gq(g)

                def fn():
                    qq = {a: (b[0] if len(b) == 1 and r.random() < .5 else self.star(b)) for a, b in q.items()}
                    d = o.get_params(qq) if q != {'*': ['*']} or r.random() < .5 else o.get_params()
                    self.h += 1
                    ev['h'] = 'h%d' % self.h
                    self.snap[ev['h']] = ('gget', g, d)
                    return {'m': gmap(d)}
                ev = {'op': 'gget', 'id': g, 'q': [{'k': a, 'v': b} for a, b in sorted(q.items())], 'h': ''}
                self.do(ev, fn)
            elif k == 'gset':
                ks = r.sample(list(ms), r.choice([1, 1, 2, len(ms)]) if len(ms) > 1 else 1)
                d = {a: self.values(ms[a]) for a in ks}
                if r.random() < .3:
                    d['nobody'] = {'jys': 3., 'x': 1.}
                self.do({'op': 'gset', 'id': g, 'd': gmap(d)}, lambda: o.set_params(d) and None)
            else:
                q = self.gq(g)
                ev = {'op': 'gfit', 'id': g, 'q': [{'k': a, 'v': b} for a, b in sorted(q.items())], 'sub': []}

                def fn():
                    lst, keys = fit.flatten_prms(o.get_params(dict(q)))
                    new = self.subst(ev, lst)
                    o.set_params(fit.reconstruct_prms(new, keys))
                self.do(ev, fn)
        else:
            h = r.choice(list(self.snap))
            kind, id, d = self.snap[h]
            if k == 'again':
                self.do({'op': 'again', 'h': h}, lambda: {'m': gmap({'one': d} if kind == 'get' else d)})
            elif k == 'restore':
                if kind == 'get':
                    # as it shows, so that what it sets is what it returned
                    self.do({'op': 'set', 'id': id, 'd': pmap(d)}, lambda: self.obj[id].set_params(dict(d)) and None)
                else:
                    self.do({'op': 'gset', 'id': id, 'd': gmap(d)}, lambda: self.grp[id][0].set_params(dict(d)) and None)
                del self.snap[h]        # its lists may now be those of the object
            else:
                for x in ([d] if kind == 'get' else list(d.values())):
                    for kk in x:
                        if isinstance(x[kk], list):
                            x[kk].append(99.)
                        elif isinstance(x[kk], np.ndarray) and x[kk].size:
                            x[kk][...] = 99.
                    x['junk'] = 1.
                d.clear()
                del self.snap[h]
                self.rec.ev(op='spoil', h=h, o={})

    def subst(self, ev, lst):
        """New values by old values, so that the order of the list does not matter."""
        r = self.rng
        m = {}
        for x in lst:
            if tok(x) not in m and r.random() < .7:
                m[tok(x)] = abs(self.num()) + .25
        ev['sub'] = [{'k': a, 'v': tok(b)} for a, b in sorted(m.items())]
        new = [m.get(tok(x), x) for x in lst]
        return np.array(new) if r.random() < .3 and len(new) else new


def get(rec, rng, what):
    w = World(rec, rng)
    if what == 'srcs':
        ms = {}
        for x in range(rng.choice([1, 2, 3])):
            o = w.src('s%d' % x)
            ms[o.src_name] = 's%d' % x
        cat = fit.SrcCatalog([w.obj[i] for i in ms.values()])
        w.grp['cat'] = (cat, ms, 'cat')
        rec.ev(op='grp', id='cat', m=[{'k': a, 'v': b} for a, b in ms.items()], o={})
    else:
        pl = rng.random() < .35
        w.beam('b0')
        w.beam('b1')
        n = rng.choice([1, 2, 3])
        for x in range(n):
            w.ant('a%d' % x, rng.choice(['b0', 'b0', 'b1']), pl)
        aa = (pol if pl else fit).AntennaArray(('45:00', '0:00'), [w.obj['a%d' % x] for x in range(n)])
        ms = {str(x): 'a%d' % x for x in range(n)}
        w.grp['aa'] = (aa, ms, 'aa')
        rec.ev(op='grp', id='aa', m=[{'k': a, 'v': b} for a, b in ms.items()], o={})
    for _ in range(30):
        w.step()


def flat(rec, rng):
    w = World(rec, rng)

    def gen(depth):
        out = {}
        for k in rng.sample(['a', 'b', 'c', '0', '10', '2', 'Z', 'jys', 'a1'], rng.choice([0, 1, 2, 3, 5])):
            if depth < 3 and rng.random() < .45:
                out[k] = gen(depth + 1)
            elif rng.random() < .5:
                out[k] = w.num()
            else:
                v = w.nums(rng.choice([0, 1, 1, 2, 3]))
                out[k] = rng.choice([list, tuple, np.array])(v)
        return out
    for _ in range(15):
        d = gen(0)
        ev = {'op': 'flat', 'tree': tree(d), 'sub': []}

        def fn():
            lst, keys = fit.flatten_prms(d)
            back = fit.reconstruct_prms(lst, keys)
            new = w.subst(ev, lst)
            sub = fit.reconstruct_prms(new, keys)
            return {'flat': [tok(x) for x in lst], 'back': tree(back), 'sub': tree(sub)}
        w.do(ev, fn)


def main():
    a = base.args()
    rec = base.Rec(a.out, a.skip)
    for mode in a.mode.split(','):
        for k in range(a.n):
            rng = random.Random('%s-%d-%d' % (mode, a.seed, k))
            np.random.seed(k)
            if rec.start(kind=mode, seed=k):
                if mode == 'flat':
                    flat(rec, rng)
                else:
                    get(rec, rng, mode)
                rec.end()


if __name__ == '__main__':
    main()
