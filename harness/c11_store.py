"""C11: saved models (spec/ModelStore.tla, ModelStoreTrace.tla)."""
import json, logging, os, hashlib
import numpy as np
from multiprocessing import Pool
from common import REPO, q

DATA = os.path.join(REPO, 'py', 'desimeter', 'data')


def canon(v):
    """canonical text of a parameter value"""
    if v is None or isinstance(v, (str, bytes)):
        return repr(v)
    if isinstance(v, (bool, np.bool_)):
        return repr(bool(v))
    if isinstance(v, (list, tuple, np.ndarray)):
        a = np.asarray(v, float)
        s = repr(a.shape) + ' ' + ' '.join(repr(float(x)) for x in a.ravel())
        return s if len(s) < 90 else hashlib.sha1(s.encode()).hexdigest()
    return repr(float(v))


def canonjson(text):
    s = json.dumps(json.loads(text), sort_keys=True)
    return hashlib.sha1(s.encode()).hexdigest()


class Kind:
    """how to configure, fit and observe one class of models"""
    files = False

    def value(self, rs, scale=1.0):
        v = rs.choice([rs.uniform(-1, 1), rs.normal(), rs.uniform(-1, 1) * 10.0 ** rs.integers(-6, 1), 0.0, -0.0, 1 / 3.0]) * scale
        return self.typed(v, rs)

    def typed(self, v, rs):
        return [float(v), np.float64(v)][rs.integers(2)]

    def count(self, rs):
        return int(rs.integers(0, 5000))

    def par(self, m):
        return {n: canon(getattr(m, n, 'absent')) for n in self.names}

    def view(self, m):
        return {'par': self.par(m), 'out': self.out(m), 'json': canonjson(m.tojson())}

    def save(self, m, place, path):
        if place == 'text':
            return m.tojson()
        if self.files:
            (m.write if self.files == 'both' and self.flip() else m.write_jsonfile)(path)
        else:
            with open(path, 'w') as f:
                f.write(m.tojson())
        with open(path) as f:
            return f.read()

    def kin(self, a, b):
        """give two models what two models of one exposure share"""

    n = 0

    def flip(self):
        self.n += 1
        return self.n % 2

    def load(self, place, text, path):
        if place == 'text':
            return self.cls.fromjson(text)
        if self.files:
            return (self.cls.read if self.files == 'both' and self.flip() else self.cls.read_jsonfile)(path)
        with open(path) as f:
            return self.cls.fromjson(f.read())

    def imports(self, rs):
        return []


def um(*arrs):
    """mm to units of 5 nm"""
    return [q(x, 2e5) for a in arrs for x in np.ravel(a)]


class Fvc(Kind):
    files = 'both'
    names = ['scale', 'rotation', 'offset_x', 'offset_y', 'zbpolids', 'zbcoeffs', 'xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset',
             'meandistance', 'mediandistance', 'rmsdistance', 'nmatch']

    def __init__(self):
        from desimeter.transform.fvc2fp import FVC2FP
        from common import metrology
        self.cls = FVC2FP
        self.base = [open(os.path.join(DATA, f)).read() for f in ('init-fvc2fp.json', 'canon-lens-fvc2fp.json', 'single-lens-fvc2fp.json')]
        m = metrology()
        self.met = m[(m['PINHOLE_ID'] > 0) & (m['LOCATION'] >= 0)]
        g = np.random.default_rng(3).uniform(200, 5800, (2, 12))
        self.pix = g
        self.xy = np.random.default_rng(4).uniform(-250, 250, (2, 12))

    def new(self, rs):
        return self.cls.fromjson(self.base[rs.integers(3)])

    def set(self, m, g, rs):
        if g == 'map':
            what = rs.integers(4)
            if what == 0:
                m.scale, m.rotation = self.typed(rs.uniform(0.9, 1.1), rs), self.typed(rs.uniform(-.1, .1), rs)
            elif what == 1:
                m.offset_x, m.offset_y = self.value(rs, 1e-2), self.value(rs, 1e-2)
            elif what == 2:
                m.zbcoeffs = rs.normal(size=len(m.zbpolids)) * 1e-4
            else:
                ids = np.sort(rs.choice(33, rs.integers(1, 20), replace=False))
                m.zbpolids, m.zbcoeffs = ids, rs.normal(size=len(ids)) * 1e-4
        elif g == 'option':
            k = ['xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset'][rs.integers(4)]
            v = rs.choice([3000, -3000, 2999.5, 3100.25])
            setattr(m, k, [int, float, np.float64][rs.integers(3)](v))
        else:
            k = ['meandistance', 'mediandistance', 'rmsdistance', 'nmatch'][rs.integers(4)]
            setattr(m, k, self.count(rs) if k == 'nmatch' else self.value(rs, 100))

    def fit(self, m, rs):
        from astropy.table import Table
        t = self.cls.fromjson(self.base[rs.integers(3)])
        met = self.met[rs.choice(len(self.met), 60, replace=False)]
        x, y = t.fp2fvc(np.array(met['X_FP'], float), np.array(met['Y_FP'], float))
        m.xfvc_scale, m.yfvc_scale, m.xfvc_offset, m.yfvc_offset = t.xfvc_scale, t.yfvc_scale, t.xfvc_offset, t.yfvc_offset
        s = Table({'LOCATION': met['LOCATION'], 'PINHOLE_ID': met['PINHOLE_ID'], 'XPIX': x, 'YPIX': y})
        m.fit(s, zbfit=bool(rs.integers(2)) and len(m.zbpolids) in (8, 13))

    def out(self, m):
        return um(*m.fvc2fp(*self.pix)) + [q(v, 2e5) for a in m.fp2fvc(*self.xy) for v in a]

    def imports(self, rs):
        """a text of version 1, with its equivalent of version 2"""
        p = {'method': 'Zhao-Burge', 'version': '1', 'scale': rs.uniform(.9, 1.1), 'rotation': rs.uniform(-1, 1), 'offset_x': rs.uniform(-.1, .1),
             'offset_y': rs.uniform(-.1, .1), 'zbcoeffs': list(rs.normal(size=8) * 1e-3)}
        if rs.integers(2):
            p.update(xfvc_scale=-3000.5, yfvc_scale=2990., xfvc_offset=3010., yfvc_offset=2995.)
        p2 = dict(p, version='2', zbpolids=[2, 5, 6, 9, 20, 28, 29, 30])
        return [(json.dumps(p), json.dumps(p2))]


class Field(Kind):
    names = ['ra', 'dec', 'mjd', 'lst', 'hexrot_deg', 'adc1', 'adc2', 'precession', 'aberration', 'polar_misalignment',
             'sxx', 'syy', 'sxy', 'fieldrot_zp_deg', 'fieldrot_deg', 'expid', 'nstars', 'rms_arcsec']

    def __init__(self):
        from desimeter.fieldmodel import FieldModel
        self.cls = FieldModel
        self.xy = np.random.default_rng(5).uniform(-250, 250, (2, 5))

    def new(self, rs):
        m = self.cls()
        m.ra, m.dec, m.mjd, m.lst = rs.uniform(0, 360), rs.uniform(-20, 80), rs.uniform(58000, 61000), rs.uniform(0, 360)
        m.hexrot_deg, m.adc1, m.adc2 = rs.uniform(-.5, .5), rs.uniform(0, 360), rs.uniform(0, 360)
        return m

    def kin(self, a, b):
        b.expid, b.mjd = a.expid, a.mjd

    def set(self, m, g, rs):
        if g == 'map':
            what = rs.integers(6)
            if what == 0:
                m.ra, m.dec = self.typed(rs.uniform(0, 360), rs), [float(rs.uniform(-20, 80)), int(rs.integers(-20, 80))][rs.integers(2)]
            elif what == 1:
                m.adc1, m.adc2 = [0, 0] if rs.integers(3) == 0 else [self.typed(rs.uniform(0, 360), rs), int(rs.integers(0, 360))]
            elif what == 2:
                m.sxx, m.syy, m.sxy = self.typed(rs.uniform(.99, 1.01), rs), self.typed(rs.uniform(.99, 1.01), rs), self.value(rs, 1e-3)
            elif what == 3:
                m.fieldrot_zp_deg = self.value(rs, 1.0)
            elif what == 4:
                m.mjd, m.lst = self.typed(rs.uniform(58000, 61000), rs), self.typed(rs.uniform(0, 360), rs)
            else:
                m.hexrot_deg = self.value(rs, .5)
        elif g == 'option':
            k = ['precession', 'aberration', 'polar_misalignment'][rs.integers(3)]
            setattr(m, k, not getattr(m, k))
        else:
            k = ['expid', 'nstars', 'rms_arcsec', 'fieldrot_deg'][rs.integers(4)]
            setattr(m, k, self.count(rs) if k in ('expid', 'nstars') else self.value(rs))

    def fit(self, m, rs):
        from astropy.table import Table
        n = 12
        t = self.new(rs)
        for k in ('mjd', 'lst', 'hexrot_deg', 'adc1', 'adc2', 'precession', 'aberration', 'polar_misalignment', 'ra', 'dec'):
            setattr(t, k, getattr(m, k))
        t.fieldrot_zp_deg = .05
        pet = rs.choice([0, 2, 3, 5, 7, 8], n)
        xg, yg = rs.uniform(100, 1900, n), rs.uniform(100, 900, n)
        x, y = t.all_gfa2fp(xg, yg, pet)
        ra, dec = t.fp2radec(x, y)
        m.fit_tancorr(Table({'xcentroid': xg, 'ycentroid': yg, 'petal_loc': pet, 'ra_gaia': ra, 'dec_gaia': dec, 'ra': ra, 'dec': dec}))

    def out(self, m):
        ra, dec = m.fp2radec(*self.xy)
        x, y = m.radec2fp(m.ra + np.array([0., .3, -.5]), m.dec + np.array([0., -.4, .2]))
        return [q(v, 2e6) for v in np.concatenate([ra - m.ra, dec])] + um(x, y) if np.all(np.abs(ra - m.ra) < 360.5) else [q(v, 2e6) for v in np.concatenate([ra, dec])]

    def imports(self, rs):
        """a text written before the options were saved: they are on"""
        m = self.new(rs)
        p = json.loads(m.tojson())
        old = {k: v for k, v in p.items() if k not in ('precession', 'aberration', 'polar_misalignment')}
        return [(json.dumps(old), json.dumps(p))]


class Tan(Kind):
    names = ['dha', 'ddec', 'sxx', 'syy', 'sxy', 'rot_deg', 'nstars', 'rms_arcsec']
    nn, rms = 'nstars', 'rms_arcsec'
    off, s = ('dha', 'ddec'), 0.02

    def __init__(self):
        from desimeter.fieldmodel import TanCorr
        self.cls = TanCorr
        self.xy = np.random.default_rng(6).uniform(-.02, .02, (2, 6))

    def new(self, rs):
        m = self.cls()
        self.set(m, 'map', rs)
        return m

    def set(self, m, g, rs):
        if g == 'map':
            what = rs.integers(3)
            if what == 0:
                for k in self.off:
                    setattr(m, k, self.value(rs, self.s))
            elif what == 1:
                m.rot_deg = self.value(rs, 180.)
            else:
                m.sxx, m.syy, m.sxy = self.typed(rs.uniform(.8, 1.2), rs), self.typed(rs.uniform(.8, 1.2), rs), self.value(rs, .1)
        elif g == 'option':
            m.rot_deg = [float(rs.choice([0, 90, 180, -90])), int(rs.integers(-180, 180))][rs.integers(2)]
        else:
            setattr(m, *[(self.nn, self.count(rs)), (self.rms, self.value(rs)), (self.rms, float('nan'))][rs.integers(3)])

    def fit(self, m, rs):
        x, y = rs.uniform(-.02, .02, (2, 9))
        t = self.new(rs)
        m.fit(x, y, *t.apply(x, y))

    def out(self, m):
        return [q(v, 1e9) for f in (m.apply, m.apply_inverse) for a in f(*self.xy) for v in a]


class Simple(Tan):
    names = ['dx', 'dy', 'sxx', 'syy', 'sxy', 'rot_deg', 'nmatch', 'rms']
    nn, rms = 'nmatch', 'rms'
    off, s = ('dx', 'dy'), 50.

    def __init__(self):
        from desimeter.simplecorr import SimpleCorr
        self.cls = SimpleCorr
        self.xy = np.random.default_rng(7).uniform(-400, 400, (2, 6))

    def fit(self, m, rs):
        x, y = rs.uniform(-400, 400, (2, 9))
        t = self.new(rs)
        m.fit(x, y, *t.apply(x, y), solid=bool(rs.integers(2)))

    def out(self, m):
        return um(*m.apply(*self.xy)) + um(*m.apply_inverse(*self.xy))


class Dmpm(Kind):
    files = 'both'
    names = ['zbpolids', 'dm2pm_zbcoeffs', 'pm2dm_zbcoeffs']

    def __init__(self):
        from desimeter.transform.dm2pm import DM2PM
        self.cls = DM2PM
        self.base = open(os.path.join(DATA, 'dm2pm.json')).read()
        self.xy = np.random.default_rng(8).uniform(-280, 280, (2, 8))

    def new(self, rs):
        return self.cls.fromjson(self.base) if rs.integers(2) else self.cls()

    def set(self, m, g, rs):
        if g == 'map':
            k = ['dm2pm_zbcoeffs', 'pm2dm_zbcoeffs'][rs.integers(2)]
            setattr(m, k, rs.normal(size=len(m.zbpolids)) * 10. ** rs.integers(-7, -2))
        elif g == 'option':
            ids = rs.permutation(33)[:rs.integers(1, 20)]
            m.zbpolids = ids
            m.dm2pm_zbcoeffs, m.pm2dm_zbcoeffs = rs.normal(size=(2, len(ids))) * 1e-4
        else:
            m.dm2pm_zbcoeffs, m.pm2dm_zbcoeffs = m.pm2dm_zbcoeffs, m.dm2pm_zbcoeffs

    def fit(self, m, rs):
        x, y = rs.uniform(-400, 400, (2, 200))
        t = self.cls.fromjson(self.base)
        m.zbpolids = t.zbpolids.copy() if rs.integers(2) else np.array([0, 1, 2, 27])
        m.fit(x, y, *t.dm2pm(x, y))

    def out(self, m):
        return um(*m.dm2pm(*self.xy)) + um(*m.pm2dm(*self.xy))


class Ray(Kind):
    files = 'json'
    names = ['adc1', 'adc2', 'scale', 'rotation', 'offset_x', 'offset_y', 'zbpolids', 'zbcoeffs']

    def __init__(self):
        from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
        self.cls = TAN2FP_RayTraceFit
        self.base = [open(os.path.join(DATA, f)).read() for f in ('raytrace-tan2fp.json', 'raytrace-tan2fp-6560A.json')]
        self.xy = np.random.default_rng(9).uniform(-.015, .015, (2, 4))
        self.adcs = [(0., 0.), (30., 130.), (200., 17.5)]

    def new(self, rs):
        return self.cls.fromjson(self.base[rs.integers(2)])

    def set(self, m, g, rs):
        n = m.adc1.size
        if g == 'map':
            what = rs.integers(3)
            if what == 0:
                m.zbcoeffs = m.zbcoeffs + rs.normal(size=m.zbcoeffs.shape) * 1e-5
            elif what == 1:
                m.offset_x, m.offset_y = rs.normal(size=(2, n)) * 1e-4
            else:
                m.scale, m.rotation = 1 + rs.normal(size=n) * 1e-4, rs.normal(size=n) * 1e-4
        elif g == 'option':
            ids = rs.permutation(33)[:rs.integers(2, 16)]
            m.zbpolids, m.zbcoeffs = ids, rs.normal(size=(n, len(ids))) * 1e-5
        else:
            o = rs.permutation(n)
            for k in self.names:
                if k != 'zbpolids':
                    setattr(m, k, getattr(m, k)[o])

    def fit(self, m, rs):
        from astropy.table import Table
        t = self.cls.fromjson(self.base[rs.integers(2)])
        o = {k: [] for k in ('ADC1', 'ADC2', 'X_TAN', 'Y_TAN', 'X_FP', 'Y_FP')}
        for a2 in rs.permutation([0., 60., 120., 180., 240., 300., 360.]):
            x, y = rs.uniform(-.02, .02, (2, 60))
            u, v = t.tan2fp(x, y, 0., a2)
            for k, w in zip(o, (np.zeros(60), np.full(60, a2), x, y, u, v)):
                o[k].append(w)
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            m.fit(Table({k: np.concatenate(v) for k, v in o.items()}))

    def out(self, m):
        r = []
        for a in self.adcs:
            r += um(*m.tan2fp(*self.xy, *a))
        x, y = self.xy * 13000
        r += [q(v, 1e9) for w in m.fp2tan(x, y, *self.adcs[1]) for v in w]
        return r


KINDS = {'FVC2FP': Fvc, 'FieldModel': Field, 'TanCorr': Tan, 'SimpleCorr': Simple, 'DM2PM': Dmpm, 'TAN2FP_RayTraceFit': Ray}


def replay(job):
    name, seed, hists, work = job
    import desimeter.log
    desimeter.log.get_logger().setLevel(logging.CRITICAL)
    k = KINDS[name]()
    runs = []
    for n, h in hists:
        rs = np.random.default_rng([seed, n])
        path = os.path.join(work, '%s_%d.json' % (name, n))
        obj = {o: k.new(rs) for o in 'AB'}
        if rs.integers(2):
            k.kin(*obj.values())
        texts, paths = {}, {}
        view = lambda: {o: k.view(obj[o]) for o in 'AB'}
        run = [{'op': 'start', 'kind': name, 'obj': view()}]
        for op in h:
            e = dict(op)
            try:
                if op['op'] == 'set':
                    k.set(obj[op['o']], op['a'], rs)
                elif op['op'] == 'fit':
                    k.fit(obj[op['o']], rs)
                elif op['op'] == 'save':
                    t = k.save(obj[op['o']], op['a'], path)
                    e['text'] = canonjson(t)
                    if op['a'] == 'text':
                        texts['text'] = t
                else:
                    obj[op['o']] = k.load(op['a'], texts.get('text'), path)
                e['obj'] = view()
            except (Exception, SystemExit) as exc:
                e['exc'] = repr(exc)[:160]
                run.append(e)
                break
            run.append(e)
        if os.path.exists(path):
            os.unlink(path)
        for old, new in (k.imports(rs) if n % 10 == 0 else []):
            e = {'op': 'import', 'o': 'A', 'a': 'text'}
            try:
                e['obj'] = view()
                e['old'], e['new'] = k.view(k.cls.fromjson(old)), k.view(k.cls.fromjson(new))
            except Exception as exc:
                e['exc'] = repr(exc)[:160]
            run.append(e)
        runs.append(run)
    return runs


def run(ck):
    ops = 5 if ck.thorough else 4
    r = ck.model('ModelStore', workers=1, constants={'MaxOps': ops})
    hists = r.cases()
    ck.cov['histories'] = len(hists)
    want = {'FVC2FP': 500, 'FieldModel': 350, 'TanCorr': 900, 'SimpleCorr': 900, 'DM2PM': 700, 'TAN2FP_RayTraceFit': 120}
    # histories that save an object which has changed come first
    good = [h for h in hists if any(a['op'] in ('set', 'fit') and b['op'] == 'save' and b['o'] == a['o'] and any(
        c['op'] == 'load' and c['a'] == b['a'] for c in h[j + 1:]) for i, a in enumerate(h) for j, b in enumerate(h) if j > i)]
    twice = [h for h in hists if sum(a['op'] == 'load' for a in h) >= 2]
    jobs = []
    for name, n in want.items():
        n *= 8 if ck.thorough else 1
        # (a history appended to another is again a behaviour of the specification)
        hs = ck.rng.sample(good, min(n // 3, len(good)))
        hs += [ck.rng.choice(twice) + ck.rng.choice(hists) for _ in range(n // 6)]
        hs += [ck.rng.choice(good) + ck.rng.choice(good) for _ in range(n // 6)]
        hs = list(enumerate(hs))
        for i in range(7):
            jobs.append((name, ck.seed, hs[i::7], ck.work))
    with Pool(7) as p:
        got = p.map(replay, jobs, chunksize=1)
    runs = [r for g in got for r in g]
    ck.cov['by_class'] = {k: sum(1 for r in runs if r[0]['kind'] == k) for k in want}

    def describe(e, c, run):
        k = run[0]['kind']
        key = '%s:%s' % (c, k)
        det = {'class': k, 'history': [[x['op'], x.get('o'), x.get('a')] for x in run[1:]], 'event': {a: b for a, b in e.items() if a != 'obj'}}
        if c == 'parameter-lost':
            src = [x for x in run[1:run.index(e)] if x['op'] == 'save' and x['a'] == e['a']]
            if src:
                was, now = src[-1]['obj'][src[-1]['o']]['par'], e['obj'][e['o']]['par']
                det['lost'] = {n: [was[n], now[n]] for n in was if was[n] != now[n]}
        return key, det
    ck.judge_runs('ModelStoreTrace', runs, describe, per_chunk=1500)
    ck.sample('FVC2FP: ' + ' '.join('%s(%s,%s)' % (x['op'], x.get('o'), x.get('a')) for x in runs[0][1:]))
    ck.assumptions += ['parameter values are Python numbers, numpy float64 or arrays, as the code itself produces',
                       'results compared to 5 nm (mm), 0.5 microdegree, 1e-9 rad']
