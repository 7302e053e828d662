"""C08: fiducials (spec/FiducialModel.tla, FiducialTrace.tla)."""
import itertools, logging, os
import numpy as np
from common import REPO

DATA = os.path.join(REPO, 'py', 'desimeter', 'data')


class World:
    def __init__(self):
        from common import metrology
        from desimeter.transform.fvc2fp import FVC2FP
        met = metrology()
        self.ph = met[(met['DEVICE_TYPE'] == 'FIF') | (met['DEVICE_TYPE'] == 'GIF')]
        self.loc, self.pin = np.array(self.ph['LOCATION']), np.array(self.ph['PINHOLE_ID'])
        self.locs = np.unique(self.loc)
        self.pix, self.tx, self.scale = {}, {}, {}
        for k in ('init', 'canon-lens', 'single-lens'):
            t = FVC2FP.read_jsonfile(self.file(k))
            self.tx[k] = t
            self.pix[k] = t.fp2fvc(np.array(self.ph['X_FP']), np.array(self.ph['Y_FP']))

        self.alike = {int(l) for l in self.locs if self.likeness(l) < 0.026}

    def likeness(self, l):
        """least difference in shape and orientation (as match.py describes
        triangles: side ratio, cosines) between two triangles of a fiducial"""
        m = 9.
        for x, y in self.pix.values():
            z = (x + 1j * y)[self.loc == l]
            z = z[np.argsort(z.real)]
            d = []
            for a, b, c in itertools.combinations(z, 3):
                s = [abs(a - b), abs(b - c), abs(a - c)]
                d.append([max(s) / min(s), np.cos(np.angle((c - a) / (b - a))), np.cos(np.angle(b - a))])
            m = min([m] + [np.linalg.norm(np.subtract(p, q)) for p, q in itertools.combinations(d, 2)])
        return m

    def file(self, k):
        return os.path.join(DATA, k + '-fvc2fp.json')


def scene(w, rng, call, n):
    """spots of a simulated focal plane for one call of the model"""
    nr = np.random.RandomState(rng.randrange(2 ** 31))
    x, y = w.pix[call['lens']]
    locs = list(w.locs)
    rng.shuffle(locs)
    view = call['view']                      # one entry per abstract fiducial
    nfid = rng.choice([12, 20, 40, 80, 116])
    locs = [int(l) for l in locs[:nfid]]
    keep, full = [], []
    for k, l in enumerate(locs):
        v = view[k % 2]
        if v == 'absent' and 'full' not in view and k < 8:
            v = 'full'                       # some fiducials are needed to find the others
        if v == 'absent' and k < 4:
            v = 'full'
        ii = list(np.flatnonzero(w.loc == l))
        if v == 'partial' and k >= 4:
            ii.remove(rng.choice(ii))
        elif v == 'absent':
            continue
        elif len(ii) == 4:
            full.append(l)
        keep += ii
    keep = np.array(keep)
    noise = rng.choice([0., 0.01])
    off, rot, sc = rng.choice([(0., 0., 0.), (4., 5e-4, 2e-4), (-6., -1e-3, -3e-4), (10., 1e-3, 0.)])
    X, Y = x[keep] - 3000, y[keep] - 3000
    c, s = np.cos(rot) * (1 + sc), np.sin(rot) * (1 + sc)
    X, Y = c * X - s * Y + 3000 + off, s * X + c * Y + 3000 - off
    X, Y = X + nr.normal(size=len(X)) * noise, Y + nr.normal(size=len(X)) * noise
    # a pattern is free when two of its triangles look alike within the noise, or when two of its pinholes may swap their abscissae
    free = []
    for l in locs:
        ii = np.flatnonzero(w.loc == l)
        dx = np.abs(x[ii][:, None] - x[ii][None, :])[np.triu_indices(len(ii), 1)]
        if dx.min() < 8 * noise + 25 * (abs(rot) + abs(sc)) + 1e-3 or (noise > 0 and l in w.alike):
            free.append(int(l))
    full = [l for l in full if l not in free]
    ox, oy = [], []
    if call['others'] != 'none':
        fx, fy = nr.uniform(-260, 260, (2, 40))
        if call['others'] == 'crowd':        # crowds as dense as a fiducial
            nc = max(1, min(10, len(full) // 4)) # crowds are fewer than fiducials
            cx, cy = np.repeat(fx[:nc], 5), np.repeat(fy[:nc], 5)
            fx, fy = np.append(fx, cx + nr.uniform(-.5, .5, 5 * nc)), np.append(fy, cy + nr.uniform(-.5, .5, 5 * nc))
        px, py = w.tx[call['lens']].fp2fvc(fx, fy)
        d = np.min(np.hypot(px[:, None] - x[None, :], py[:, None] - y[None, :]), axis=1)
        ok = d > 60                          # further than the extent of a fiducial
        ox, oy = px[ok], py[ok]
    truth = [[int(w.loc[i]), int(w.pin[i])] for i in keep] + [[-1, 0]] * len(ox)
    return {'scene': 's%d' % n, 'x': np.append(X, ox), 'y': np.append(Y, oy), 'truth': truth, 'full': full, 'free': free,
            'lens': call['lens'], 'cond': [noise, off, rot, sc, nfid, call['others']]}


def look(F, w, sc, rng):
    from astropy.table import Table
    n = len(sc['x'])
    o = list(range(n))
    rng.shuffle(o)
    t = Table({'XPIX': sc['x'][o], 'YPIX': sc['y'][o]})
    if rng.random() < .4:
        t['COUNTS'] = np.arange(n) * 1.
    if rng.random() < .3:      # columns left by an earlier identification
        for k in ('LOCATION', 'PETAL_LOC', 'DEVICE_LOC', 'PINHOLE_ID'):
            t[k] = np.array([rng.randrange(5) for _ in range(n)])
    e = {'op': 'call', 'scene': sc['scene'], 'truth': sc['truth'], 'full': sc['full'], 'free': sc['free'], 'lens': sc['lens'], 'cond': sc['cond']}
    try:
        kw = {'input_transform': w.file(sc['lens'])}
        if sc['lens'] == 'init' and rng.random() < .4:
            kw = {}
        r = F.findfiducials(t, **kw)
        got = [None] * n
        for k, i in enumerate(o):
            got[i] = [int(r[c][k]) for c in ('LOCATION', 'PINHOLE_ID', 'PETAL_LOC', 'DEVICE_LOC')]
        e['got'] = got
        if not (np.array_equal(r['XPIX'], sc['x'][o]) and np.array_equal(r['YPIX'], sc['y'][o])):
            e['exc'] = 'positions changed'
    except Exception as exc:
        e['exc'] = repr(exc)[:120]
    return e


def run(ck):
    import desimeter.log
    desimeter.log.get_logger().setLevel(logging.CRITICAL)
    from desimeter import findfiducials as F
    rng = ck.rng
    cases = ck.model('FiducialModel', workers=4, constants={'MaxCalls': 2}).cases()
    rng.shuffle(cases)
    w = World()
    runs, n = [], 0
    nrun = 250 if ck.thorough else 34
    for k in range(nrun):
        calls = cases[k % len(cases)] + (cases[-k - 1][:1] if k % 3 == 0 else [])
        scenes = []
        for c in calls:
            scenes.append(scene(w, rng, c, n))
            n += 1
        # each scene is looked at, then again in another order after the others
        again = scenes[:]
        rng.shuffle(again)
        runs.append([{'op': 'start'}] + [look(F, w, s, rng) for s in scenes + again[:2]])
    ck.cov['histories'] = len(cases)
    ck.cov['scenes'] = n
    ck.sample({'calls': cases[0]})

    def desc(e, c, rn):
        d = {k: v for k, v in e.items() if k not in ('truth', 'got')}
        if 'got' in e:
            d['wrong'] = [(a, b) for a, b in zip(e['truth'], e['got']) if a != b[:2]][:12]
        return '%s' % c, d
    ck.judge_runs('FiducialTrace', runs, desc, per_chunk=25)
    ck.assumptions = ['at least four fully visible fiducials, field within 10 pixels of the expected one, other spots further from a fiducial than its extent; '
                      'pinholes whose abscissae differ by less than the noise are exempt from identity within their fiducial']
