"""Recording of traces by drivers."""
import argparse, json, os, random, sys

class Rec:
    def __init__(self, path, skip):
        self.f = open(path, 'a')
        self.n = 0
        self.skip = skip
        self.on = False

    def w(self, r):
        self.f.write(json.dumps(r) + '\n')
        self.f.flush()

    def start(self, **meta):
        """Begin a trace.  Returns False when it is to be skipped (recorded by
        an earlier run of the driver that died later)."""
        self.n += 1
        self.on = self.n > self.skip
        if self.on:
            self.w({'t': 'start', 'meta': meta})
        return self.on

    def pend(self, what):
        self.w({'t': 'pend', 'e': what})

    def ev(self, **e):
        self.w({'t': 'ev', 'e': e})

    def end(self):
        self.w({'t': 'end'})


def args(extra=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--skip', type=int, default=0)
    ap.add_argument('--wd', required=True)
    ap.add_argument('--mode', default='')
    ap.add_argument('--behs', default='')
    ap.add_argument('--n', type=int, default=0)
    a = ap.parse_args()
    a.seed = int(os.environ.get('VERIF_SEED', '1'))
    a.tier = os.environ.get('VERIF_TIER', 'quick')
    import aipy
    bld = os.environ['VERIF_BUILD']
    if not os.path.abspath(aipy.__file__).startswith(bld + os.sep):
        sys.stderr.write('wrong aipy: %s\n' % aipy.__file__)
        sys.exit(3)
    return a
