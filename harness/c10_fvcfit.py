"""C10: fits of the FVC map (spec/FvcJoin.tla, FvcFit.tla, FvcFitTrace.tla)."""
import logging, os
import numpy as np
from common import REPO, q
from multiprocessing import Pool

DATA = os.path.join(REPO, 'py', 'desimeter', 'data')
MET = None


def load():
    global MET
    import desimeter.log
    desimeter.log.get_logger().setLevel(logging.CRITICAL)
    from common import metrology
    if MET is None:
        MET = metrology()
    return MET


def ident(t):
    return [int(a) * 10 + int(b) for a, b in zip(t['LOCATION'], t['PINHOLE_ID'])]


def table(t):
    return {c: np.array(t[c]) for c in t.colnames}


def same(a, b):
    return list(a) == list(b) and all(a[c].dtype == b[c].dtype and np.array_equal(a[c], b[c], equal_nan=a[c].dtype.kind == 'f') for c in a)


def params(tx):
    g = lambda n: repr(float(getattr(tx, n))) if hasattr(tx, n) else 'none'
    return {'scale': g('scale'), 'rotation': g('rotation'), 'zb': repr([float(v) for v in tx.zbcoeffs]) + repr([int(v) for v in tx.zbpolids]),
            'frame': ' '.join(g(k) for k in ('xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset'))}


def clone(tx):
    import copy
    return copy.deepcopy(tx)


class Scene:
    """spots on a simulated focal plane seen through a given map"""

    def __init__(self, truth, ids, rs, extra=True):
        from astropy.table import Table
        met = load()
        key = np.array(ident(met))
        rows = [int(np.flatnonzero(key == i)[0]) for i in ids]
        x, y = truth.fp2fvc(np.array(met['X_FP'], float)[rows], np.array(met['Y_FP'], float)[rows])
        loc, pin = list(np.array(met['LOCATION'])[rows]), list(np.array(met['PINHOLE_ID'])[rows])
        x, y = list(x), list(y)
        if extra:
            pos = np.flatnonzero(met['DEVICE_TYPE'] == 'POS')
            for k in rs.choice(pos, 12, replace=False):      # positioner spots
                x.append(rs.uniform(500, 5500)), y.append(rs.uniform(500, 5500))
                loc.append(int(met['LOCATION'][k])), pin.append(0)
            for _ in range(7):                               # unmatched spots
                x.append(rs.uniform(500, 5500)), y.append(rs.uniform(500, 5500))
                loc.append(-1), pin.append(0)
        self.t = Table({'LOCATION': np.array(loc, int), 'XPIX': np.array(x), 'YPIX': np.array(y), 'PINHOLE_ID': np.array(pin, int),
                        'COUNTS': rs.uniform(1e4, 1e5, len(x))})
        self.truth = truth
        g = rs.uniform(-280, 280, (2, 60))
        self.grid = g
        self.gpix = truth.fp2fvc(*g)


def do_fit(tx, scene, o, rs, metr_mode, extra_cols=False):
    met = load()
    e = {'op': 'fit', 'o': o}
    order = rs.permutation(len(scene.t))
    spots = scene.t[order]
    if extra_cols:
        for c in ('X_FP', 'Y_FP', 'X_FP_METRO', 'Y_FP_METRO', 'Z_FP_METRO'):
            spots[c] = rs.uniform(-1, 1, len(spots))
    metr = None
    if metr_mode != 'default':
        m = met[rs.permutation(len(met))]
        if metr_mode == 'pinholes':
            m = m[m['PINHOLE_ID'] > 0]
        metr = m
    t = scene.truth
    e['full'] = len(tx.zbpolids) == 13
    tz = dict(zip([int(v) for v in t.zbpolids], t.zbcoeffs))
    oz = dict(zip([int(v) for v in tx.zbpolids], tx.zbcoeffs))
    e['zbclose'] = bool(max([abs(tz.get(k, 0) - oz.get(k, 0)) for k in set(tz) | set(oz)]) < 1e-8)
    if o['zb'] and not e['full']:
        e['zbclose'] = bool(max([abs(tz.get(k, 0) - oz.get(k, 0)) for k in set(tz) | set(oz)]) < 2e-5)
    e['sgood'] = hasattr(tx, 'scale') and bool(abs(tx.scale - t.scale) < 1e-9)
    e['rgood'] = hasattr(tx, 'rotation') and bool(abs(tx.rotation - t.rotation) < 1e-9)
    twin = clone(tx)
    b0, m0 = table(spots), None if metr is None else table(metr)
    try:
        kw = {}
        if metr is not None:
            kw['metrology'] = metr
        if o['fixs']:
            kw['fixed_scale'] = True
        if o['fixr']:
            kw['fixed_rotation'] = True
        if not o['zb']:
            kw['zbfit'] = False
        if o['update']:
            kw['update_spots'] = True
        tx.fit(spots, **kw)
    except Exception as exc:
        e['exc'] = repr(exc)[:150]
        return e
    e['par'] = params(tx)
    b1 = table(spots)
    if o['update']:
        new = ('X_FP', 'Y_FP', 'X_FP_METRO', 'Y_FP_METRO', 'Z_FP_METRO')
        keep = [c for c in b0 if c not in new]
        e['pure'] = same({c: b0[c] for c in keep}, {c: b1[c] for c in b1 if c not in new}) and set(b1) == set(keep) | set(new)
    else:
        e['pure'] = same(b0, b1)
    if metr is not None:
        e['pure'] = bool(e['pure'] and same(m0, table(metr)))
    gx, gy = tx.fvc2fp(*scene.gpix)
    e['err'] = q(np.max(np.hypot(gx - scene.grid[0], gy - scene.grid[1])), 1e6)
    # the same input in another order, without the spots that are not pinholes
    o2 = rs.permutation(len(scene.t))
    s2 = scene.t[o2]
    s2 = s2[s2['PINHOLE_ID'] > 0]
    kw2 = {k: v for k, v in kw.items() if k not in ('update_spots', 'metrology')}
    if metr is None:
        kw2['metrology'] = met[rs.permutation(len(met))]
    try:
        twin.fit(s2, **kw2)
        hx, hy = twin.fvc2fp(*scene.gpix)
        e['perm'] = q(np.max(np.hypot(gx - hx, gy - hy)), 1e6)
    except Exception as exc:
        e['exc'] = 'permuted: ' + repr(exc)[:150]
        return e
    ids = [i if p > 0 else 0 for i, p in zip(ident(spots), spots['PINHOLE_ID'])]
    e['nmatch'], e['npin'] = int(tx.nmatch), sum(1 for i in ids if i)
    px, py = tx.fvc2fp(np.array(spots['XPIX']), np.array(spots['YPIX']))
    key = {i: k for k, i in enumerate(ident(met))}
    sel = [k for k, i in enumerate(ids) if i]
    mx = np.array([met['X_FP'][key[ids[k]]] for k in sel], float)
    my = np.array([met['Y_FP'][key[ids[k]]] for k in sel], float)
    dr = np.hypot(px[sel] - mx, py[sel] - my) * 1000
    e['stat'] = [q(a - b, 1e6) for a, b in ((tx.meandistance, dr.mean()), (tx.mediandistance, np.median(dr)), (tx.rmsdistance, np.sqrt(np.mean(dr ** 2))))]
    if o['update']:
        e['rows'] = [[ids[k]] + [q(spots[c][k], 1e3) for c in ('X_FP_METRO', 'Y_FP_METRO', 'Z_FP_METRO')]
                     + [q(spots['X_FP'][k] - px[k], 1e9), q(spots['Y_FP'][k] - py[k], 1e9)] for k in range(len(spots))]
    return e


def lens_map(name, rs, zb=1.):
    from desimeter.transform.fvc2fp import FVC2FP
    t = FVC2FP.read_jsonfile(os.path.join(DATA, name + '-fvc2fp.json'))
    t.scale *= 1 + rs.uniform(-.01, .01)
    t.rotation += rs.uniform(-.02, .02)
    t.offset_x += rs.uniform(-.01, .01)
    t.offset_y += rs.uniform(-.01, .01)
    t.zbcoeffs = t.zbcoeffs * zb
    return t


def start_event(tx, ids):
    met = load()
    key = {i: k for k, i in enumerate(ident(met))}
    return {'op': 'start', 'par': params(tx), 'met': {str(i): [q(met[c][key[i]], 1e3) for c in ('X_FP', 'Y_FP', 'Z_FP')] for i in ids}}


def one(job):
    kind, case, seed = job
    rs = np.random.RandomState(seed)
    from desimeter.transform.fvc2fp import FVC2FP
    met = load()
    pins = met[(met['PINHOLE_ID'] > 0) & (met['LOCATION'] >= 0)]
    allids = sorted(set(ident(pins)))
    if kind == 'join':
        ids = sorted(int(i) for i in rs.choice(allids, 4, replace=False))
        t = lens_map('init', rs, 0.)
        tx = FVC2FP()
        used = [ids[s - 1] for s in case['spots'] if s]
        sc = Scene(t, used, rs, extra=False)
        # spots exactly in the order of the case
        from astropy.table import vstack
        rows, seen = [], 0
        sc.t.sort(('LOCATION', 'PINHOLE_ID'))
        where = {i: k for k, i in enumerate(ident(sc.t))}
        full = sc.t[[where[ids[s - 1]] if s else 0 for s in case['spots']]]
        for k, s in enumerate(case['spots']):
            if not s:
                full['LOCATION'][k], full['PINHOLE_ID'][k] = (-1, 0) if rs.rand() < .5 else (int(pins['LOCATION'][0]), 0)
                full['XPIX'][k] += 100
        sc.t = full
        order = {ids[m - 1]: k for k, m in enumerate(case['metr'])}
        o = {'scene': 'J', 'fixs': False, 'fixr': False, 'zb': False, 'update': True}
        keep = sorted((k for k, i in enumerate(ident(met)) if i in order), key=lambda k: order[ident(met[[k]])[0]])
        return [start_event(tx, used), join_fit(tx, sc, o, met[keep])]
    if kind == 'settle':
        # a distortion that is not that of the scene (another epoch): fits converge to it
        name = rs.choice(['canon-lens', 'single-lens'])
        locs = np.unique(pins['LOCATION'])[rs.randint(3)::3]
        ids = sorted(set(ident(pins[np.isin(pins['LOCATION'], locs)])))
        sc = Scene(lens_map(name, rs), ids, rs)
        tx = lens_map(name, rs)
        tx.zbcoeffs = tx.zbcoeffs * (1 + rs.uniform(-.03, .03, len(tx.zbcoeffs)))
        tx.zbcoeffs[case] += 5e-4
        o = {'scene': 'A', 'fixs': False, 'fixr': False, 'zb': True, 'update': False}
        pre = sc.t[rs.permutation(len(sc.t))]
        run = [start_event(tx, ids)]
        try:
            for _ in range(7):
                tx.fit(pre)
            e = do_fit(tx, sc, o, rs, 'default')
            e['op'] = 'settle'
            e['perm'] = 0
        except Exception as exc:
            e = {'op': 'settle', 'o': o, 'exc': repr(exc)[:150]}
        return run + [e]
    # histories
    start = case['start']
    name = {'new': 'init', 'full': 'init', 'short': rs.choice(['canon-lens', 'single-lens'])}[start]
    nf = rs.randint(8, 40)
    locs = rs.choice(np.unique(pins['LOCATION']), nf, replace=False)
    # cover the field
    sub = pins[np.isin(pins['LOCATION'], locs)]
    ids = sorted(set(ident(sub)))
    zb = 0. if start == 'new' and rs.rand() < .5 else 1.
    scenes = {k: Scene(lens_map(name, rs, zb), ids, rs) for k in ('A', 'B')}
    if start == 'new':
        tx = FVC2FP()
    else:
        tx = lens_map(name, rs)
        if rs.rand() < .3:
            tx.scale, tx.rotation = scenes['A'].truth.scale, scenes['A'].truth.rotation
    run = [start_event(tx, ids)]
    for o in case['fits']:
        run.append(do_fit(tx, scenes[o['scene']], o, rs, rs.choice(['default', 'permuted', 'pinholes']), rs.rand() < .3))
    return run


def join_fit(tx, sc, o, metr):
    e = {'op': 'fit', 'o': o, 'full': True, 'zbclose': True, 'sgood': False, 'rgood': False}
    spots = sc.t
    b0, m0 = table(spots), table(metr)
    try:
        tx.fit(spots, metrology=metr, update_spots=True, zbfit=False)
    except Exception as exc:
        e['exc'] = repr(exc)[:150]
        return e
    e['par'] = params(tx)
    b1 = table(spots)
    e['pure'] = same(b0, {c: b1[c] for c in b0}) and same(m0, table(metr))
    gx, gy = tx.fvc2fp(*sc.gpix)
    # few pinholes close to each other constrain the far field less
    e['err'] = q(np.max(np.hypot(gx - sc.grid[0], gy - sc.grid[1])) / 50., 1e6)
    e['perm'] = 0
    ids = [i if p > 0 else 0 for i, p in zip(ident(spots), spots['PINHOLE_ID'])]
    e['nmatch'], e['npin'], e['stat'] = int(tx.nmatch), sum(1 for i in ids if i), [0]
    px, py = tx.fvc2fp(np.array(spots['XPIX']), np.array(spots['YPIX']))
    e['rows'] = [[ids[k]] + [q(spots[c][k], 1e3) for c in ('X_FP_METRO', 'Y_FP_METRO', 'Z_FP_METRO')]
                 + [q(spots['X_FP'][k] - px[k], 1e9), q(spots['Y_FP'][k] - py[k], 1e9)] for k in range(len(spots))]
    return e


def run(ck):
    load()
    rng = ck.rng
    joins = ck.model('FvcJoin', workers=4, constants={'NIds': 4, 'NSpots': 4}).cases()
    hists = ck.model('FvcFit', workers=4, constants={'MaxFits': 2}).cases()
    ck.cov['join_cases'], ck.cov['histories'] = len(joins), len(hists)
    rng.shuffle(joins), rng.shuffle(hists)
    nj, nh = (len(joins), 1500) if ck.thorough else (150, 70)
    jobs = [('join', c, rng.randrange(2 ** 31)) for c in joins[:nj]] + [('hist', c, rng.randrange(2 ** 31)) for c in hists[:nh]]
    jobs = [('settle', k, rng.randrange(2 ** 31)) for k in list(range(8)) * (10 if ck.thorough else 1)] + jobs
    if not ck.thorough:      # all starts
        assert {c['start'] for c in hists[:nh]} == {'new', 'full', 'short'}
    with Pool(7) as pool:
        runs = pool.map(one, jobs, chunksize=1)
    ck.sample(hists[0])

    def desc(e, c, rn):
        d = {k: v for k, v in e.items() if k not in ('rows',)}
        if c.startswith('metrology') or c.startswith('position'):
            d['rows'] = e['rows'][:10]
        return '%s:%s' % (e['o']['scene'] == 'J' and 'join' or 'fit', c), d
    ck.judge_runs('FvcFitTrace', runs, desc, per_chunk=150)
    ck.assumptions = ['recovery of the map is required when the free parameters can express it (tolerances 2, 10, 40 um by case)',
                      'every identified spot has a row in the metrology and is identified once']
